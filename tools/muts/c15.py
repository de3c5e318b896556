V4="cfdtools/ic3/readerV4.py"; CG="cfdtools/cgns/cgns.py"; G="cfdtools/gmsh/reader.py"; CLI="cfdtools/_cli.py"; W4="cfdtools/ic3/writerV4.py"; VT="cfdtools/vtk/_vtk.py"; API="cfdtools/api.py"
M=[
 ("c15 v4 no flag","C15",V4,"solution_filename: str = None, cIntegrity=False","solution_filename: str = None"),
 ("c15 v4 sol required","C15",V4,"solution_filename: str = None, cIntegrity=False","solution_filename: str, cIntegrity=False"),
 ("c15 cgns no ncell","C15",CG,"        self._ncell = self._zone.ncell\n",""),
 ("c15 cgns flag renamed","C15",CG,"def __init__(self, filename, cIntegrity=False) -> None:","def __init__(self, filename, integrity=False) -> None:"),
 ("c15 v4 ncell","C15",V4,'''    @property
    def ncell(self):
        return self._ncell
''',''''''),
 ("c15 gmsh ncell later","C15",G,"        self._ncell = 0\n","        ncell = 0\n"),
 ("c15 v4 writer sol","C15",W4,"solution_filename: str = None):","solution_filename: str):"),
 ("c15 cli nnode","C15",CLI,"    ncell = r.ncell\n","    ncell = r.ncell\n    log.info(f'{r.filename}')\n"),
 ("c15 cgns export zone","C15",CG,"    def export_mesh(self):\n        # log","    def export_mesh(self, zone):\n        # log"),
 ("c15 v4 export dict","C15",V4,None,None),
 ("c15 vtk write","C15",VT,"def write_data(self, filename):","def write_data(self, filename, binary):"),
 ("c15 ext","C15",CG,"@fileformat_reader('CGNS', '.cgns')","@fileformat_reader('CGNS', 'cgns')"),
 ("c15 R cli positional",None,CLI,"    r = parser._reader(str(inputfile), cIntegrity=parser.args('check'))\n    r.read_data()\n    mesh = r.export_mesh()","    rd = parser._reader(str(inputfile), cIntegrity=parser.args('check'))\n    rd.read_data()\n    mesh = rd.export_mesh()"),
 ("c15 R base",None,CG,"    def ncell(self):\n        return self._ncell","    def ncell(self):\n        return self._zone.ncell"),
]
M=[m for m in M if m[3] is not None]
