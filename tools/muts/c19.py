A="cfdtools/api.py"; CLI="cfdtools/_cli.py"; L="cfdtools/vtk/_vtkList.py"; W="cfdtools/ic3/writerV2.py"
M=[
 ("pause no accumulate","C19",A,"self._elapsed += time","self._elapsed = time"),
 ("pause keeps start","C19",A,"self._elapsed += time.perf_counter() - self._start_time\n        self._start_time = None","self._elapsed += time.perf_counter() - self._start_time"),
 ("pause no raise","C19",A,"""        if self._start_time is None:
            raise TimerError("Timer is not running. Use .start() to start it")
        self._elapsed""","""        if self._start_time is None:
            return
        self._elapsed"""),
 ("start restart","C19",A,"""        if self._start_time is not None:
            raise TimerError("Timer is running. Use .stop() to stop it")
""",""),
 ("stop no pause","C19",A,"        self.pause()\n","        if self._start_time is not None:\n            self.pause()\n"),
 ("stop no reset","C19",A,"        # reset\n        self.reset()\n",""),
 ("reset elapsed","C19",A,"        self._ncol = 0\n        self._elapsed = 0.0\n","        self._ncol = 0\n        self._elapsed = getattr(self, '_elapsed', 0.0)\n"),
 ("exit swallow","C19",A,"    def __exit__(self, *exitoptions):\n        self.stop()","    def __exit__(self, *exitoptions):\n        self.stop()\n        return True"),
 ("exit only ok","C19",A,"    def __exit__(self, *exitoptions):\n        self.stop()","    def __exit__(self, *exitoptions):\n        if exitoptions[0] is None:\n            self.stop()"),
 ("start wrong error","C19",A,'raise TimerError("Timer is running','raise RuntimeError("Timer is running'),
 ("start clears","C19",A,"        self._start_time = time.perf_counter()","        self._elapsed = 0.0\n        self._start_time = time.perf_counter()"),
 ("cli no stop","C19",CLI,"        timer.stop(nelem=nz * ncell)\n",""),
 ("cli stop late","C19",CLI,"    timer.stop(nelem=ncell)\n    log.info(\"> export","    log.info(\"> export"),
 ("vtk pause cond","C19",L,"            vtk = pv.read(name)\n            Tread.pause()","            vtk = pv.read(name)\n            if self._verbose:\n                Tread.pause()"),
 ("vtk sort leak","C19",L,"                Tsort.pause()\n                # auto","                # auto"),
 ("vtk comp order","C19",L,"            Tcomp.start()\n            ctr =","            ctr ="),
 ("R flag",None,A,"""        if self._start_time is not None:
            raise TimerError("Timer is running. Use .stop() to stop it")
        self._start_time = time.perf_counter()""","""        running = self._start_time is not None
        if running:
            raise TimerError("Timer is running. Use .stop() to stop it")
        now = time.perf_counter()
        self._start_time = now"""),
 ("R truth",None,A,"if self._start_time is not None:\n            raise","if self._start_time:\n            raise"),
 ("R helper",None,A,"        self._elapsed += time.perf_counter() - self._start_time\n        self._start_time = None\n","        self._accumulate()\n\n    def _accumulate(self):\n        now = time.perf_counter()\n        self._elapsed = self._elapsed + (now - self._start_time)\n        self._start_time = None\n"),
 ("R with",None,CLI,"    if parser.args().extrude:\n        timer.start()\n","    doext = parser.args().extrude\n    if doext:\n        timer.start()\n    if parser.args().extrude:\n"),
 ("R vtk try",None,L,"            Tread.start()\n            vtk = pv.read(name)\n            Tread.pause()","            Tread.start()\n            try:\n                vtk = pv.read(name)\n            finally:\n                Tread.pause()"),
 ("R vtk with",None,L,"            Tread.start()\n            vtk = pv.read(name)\n            Tread.pause()","            with Tread:\n                vtk = pv.read(name)"),
 ("R vtk helper",None,L,"            Tcomp.start()\n            ctr = vtk.cell_centers().points\n            d = np.max(maths.distance(ctrRef, ctr))\n            Tcomp.pause()","            ctr, d = _dist(Tcomp, vtk, ctrRef)"),
]
