D, C, Me, A, V, L = ("cfdtools/data.py", "cfdtools/meshbase/_connectivity.py", "cfdtools/meshbase/_mesh.py", "cfdtools/api.py", "cfdtools/vtk/_vtk.py", "cfdtools/vtk/_vtkList.py")
G, CG, R, W2, I = "cfdtools/gmsh/reader.py", "cfdtools/cgns/cgns.py", "cfdtools/ic3/reader_legacy.py", "cfdtools/ic3/writerV2.py", "cfdtools/ic3/_ic3.py"
M = [
 ("rebind table", "C24", G, "        # Read file.\n        filename", "        _elem.elem2faces = _elem.gmsh_elem2faces\n        # Read file.\n        filename"),
 ("class-level bocos", "C24", Me, "        self._bocos = {}", "        pass"),
 ("shared bocos class attr", "C24", [(Me, "        self._bocos = {}\n", ""), (Me, "    def __init__(self, ncell=0, nnode=0):\n", "    _bocos = {}\n\n    def __init__(self, ncell=0, nnode=0):\n")]),
 ("shared faces class attr", "C24", [(Me, "        self._faces = {}", "        pass"), (Me, "    def __init__(self, ncell=0, nnode=0):\n", "    _faces = {}\n\n    def __init__(self, ncell=0, nnode=0):\n")]),
 ("default dict data", "C24", [(D, "    def __init__(self, Xrep='cellaverage', ndof=1, Trep='instant'):\n        super().__init__(Xrep, ndof, Trep)\n        self._data = dict()", "    def __init__(self, Xrep='cellaverage', ndof=1, Trep='instant', data={}):\n        super().__init__(Xrep, ndof, Trep)\n        self._data = data")]),
 ("default list datalist", "C24", [(D, "    def __init__(self, ndataset, Xrep='cellaverage', ndof=1, Trep='timeevol'):", "    def __init__(self, ndataset, Xrep='cellaverage', ndof=1, Trep='timeevol', start=[]):"), (D, "        self._datalist = []", "        self._datalist = start")]),
 ("vtktype memo", None, V, "    def _nope", "    def _nope"),
 ("module file cache", "C24", G, "    def __read_sections(self, filename):\n        # Read the entire mesh.\n        msh = []\n", "    _lines = {}\n\n    def __read_sections(self, filename):\n        # Read the entire mesh.\n        msh = self._lines.setdefault(filename, [])\n"),
 ("gmsh famm class", "C24", [(G, "        self._famm = []\n", ""), (G, "    def __init__(self, filename, cIntegrity=False):", "    _famm = []\n\n    def __init__(self, filename, cIntegrity=False):")]),
 ("face dict setdefault table", "C24", C, "            faces_neighbour = defaultdict(list)\n", "            faces_neighbour = defaultdict(list)\n            _elem.elem2faces.setdefault('bar2', {'bar2': [[0, 1], [1, 2], [2, 3], [3, 0]]})\n"),
 ("reverse faces in place", "C24", C, "                        reindex_f = elemsarray[:, list(reversed(eface))].tolist()", "                        eface.reverse()\n                        reindex_f = elemsarray[:, eface].tolist()"),
 ("chdir", "C24", A, "    def exists(self):", "    def _cd(self):\n        import os\n        os.chdir(self._path.parent)\n\n    def exists(self):"),
 ("lru facecon static", "C24", CG, "def cg_gridlocation(bc):", "@cache\ndef read_all(fname):\n    with open(fname) as f:\n        return f.read()\n\n\ndef cg_gridlocation(bc):"),
 ("elem2node class level", "C24", C, "        self._elem2node = OrderedDict()", "        pass"),
 ("endian global", "C24", I, "", ""),
 ("timer default class list ok", None, A, "class Timer:", "class Timer:\n    _units = ['s', 'ms']\n"),
 ("local copy of table", None, C, "            faces_neighbour = defaultdict(list)\n", "            faces_neighbour = defaultdict(list)\n            tab = dict(_elem.elem2faces)\n            tab['node1'] = {}\n"),
]
M = [m for m in M if m[0] not in ("endian global", "vtktype memo", "elem2node class level", "class-level bocos")]
