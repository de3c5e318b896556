V2="cfdtools/ic3/writerV2.py"; V3="cfdtools/ic3/writerV3.py"; V4="cfdtools/ic3/writerV4.py"; H="cfdtools/hdf5/_hdf5.py"; D="cfdtools/data.py"; VT="cfdtools/vtk/_vtk.py"
CHK='''        log.info("> check consistency before writing")
        if not self.check():
            raise RuntimeError("Inconsistent data to write")
        self._check_bocos()
        # Open the file for binary writing
        with open(self.filename, "wb") as self.fid:
            #
'''
M=[
 ("c13 check after open","C13",V2,CHK,'''        # Open the file for binary writing
        with open(self.filename, "wb") as self.fid:
            if not self.check():
                raise RuntimeError("Inconsistent data to write")
            self._check_bocos()
            #
'''),
 ("c13 bocos after open","C13",V2,CHK,'''        if not self.check():
            raise RuntimeError("Inconsistent data to write")
        # Open the file for binary writing
        with open(self.filename, "wb") as self.fid:
            self._check_bocos()
            #
'''),
 ("c13 v2 no ndof","C13",V2,'''            keylist = list(self.vars["cells"].keys())
        if len''','''            keylist = []
        if len'''),
 ("c13 v2 two","C13",V2,"if len(keylist) >= 1:","if len(keylist) > 1:"),
 ("c13 h5 open first","C13",H,'''        # check arguments first: an existing file must not be truncated by a bad request
        if mode''','''        self._h5file = h5py.File(self._path, mode=mode)
        if mode'''),
 ("c13 h5 version w only","C13",H,'''        if mode in ('w', 'w-', 'x'):
            assert datatype''','''        if mode == 'w':
            assert datatype'''),
 ("c13 h5 version falsy later","C13",H,'''            if version is None:
                error_stop('an existing cfdtools datatype must provide a version number for writing')
''',''''''),
 ("c13 datalist after","C13",D,'''        # map element types from vtk type to cfdtools type
        if isinstance(self._geoprop['mesh'], meshbase.Mesh):
            celldict = dict(self._geoprop['mesh']._cell2node)
        else:
            api.error_stop(f"not yet implemented to dump mesh with instance {self._geoprop['mesh']}")
        file.open(mode="w", datatype='datalist', version=self._version)
''','''        file.open(mode="w", datatype='datalist', version=self._version)
        # map element types from vtk type to cfdtools type
        if isinstance(self._geoprop['mesh'], meshbase.Mesh):
            celldict = dict(self._geoprop['mesh']._cell2node)
        else:
            api.error_stop(f"not yet implemented to dump mesh with instance {self._geoprop['mesh']}")
'''),
 ("c13 vtk after","C13",VT,'''        celldict = {ele_vtktype[itype]: cellco for itype, cellco in self._grid.cells_dict.items()}
        file.open(mode="w", datatype='dataset', version=self._version)
''','''        file.open(mode="w", datatype='dataset', version=self._version)
        celldict = {ele_vtktype[itype]: cellco for itype, cellco in self._grid.cells_dict.items()}
'''),
 ("c13 v3 check true","C13",V3,'''                    check_error = False
''','''                    check_error = True
'''),
 ("c13 v3 raise within","C13",V3,'''                chartype = properties_ugpcode[header.id]['structcode']
                BinaryWrite(
                    self.fid,
                    self.endian,
                    chartype * totsize,''','''                chartype = properties_ugpcode[header.id]['structcode']
                if cvdata.size != totsize:
                    raise ValueError("bad size")
                BinaryWrite(
                    self.fid,
                    self.endian,
                    chartype * totsize,'''),
 ("c13 endian unchecked","C13",V2,'''        if not endian in struct_endian.keys():
            raise ValueError("unknown endian key")
        else:
            self.endian = endian''','''        self.endian = endian'''),
 ("c13 v4 no check","C13",V4,'''        self._check_bocos()
''',''''''),
 ("c13 v4 check after","C13",V4,[] or '''            log.info("> Writing boundaries")
            self._write_boundaries(fid)
''','''            log.info("> Writing boundaries")
            if not self.bocos:
                api.error_stop("no boundary")
            self._write_boundaries(fid)
'''),
 # refactorings
 ("c13 R any",None,V2,'''        for key, boco in self.bocos.items():
            assert key == boco.name
            assert boco.geodim in ('face', 'bdface'), "boco marks must be faces index"
            assert boco.type in type2zonekind.keys(), f"unsupported type of boco for IC3 output: {boco.type}"
''','''        for key, boco in self.bocos.items():
            if key != boco.name:
                raise AssertionError("name")
            if boco.geodim not in ('face', 'bdface'):
                raise AssertionError("boco marks must be faces index")
            if boco.type not in type2zonekind:
                api.error_stop(f"unsupported type of boco for IC3 output: {boco.type}")
'''),
 ("c13 R helper",None,V2,'''        if not self.check():
            raise RuntimeError("Inconsistent data to write")
        self._check_bocos()
''','''        self._refuse()
'''),
 ("c13 R check expr",None,V2,'''        keylist = []
        if self.vars["cells"] and self.vars["cells"].ndof != 1:
            keylist = list(self.vars["cells"].keys())
        if len(keylist) >= 1:
            check_error = False
''','''        keylist = list(self.vars["cells"].keys()) if self.vars["cells"] and self.vars["cells"].ndof != 1 else []
        if keylist:
            check_error = False
'''),
 ("c13 R h5 guard",None,H,'''        if mode not in ('r', 'r+', 'w', 'w-', 'x'):
            error_stop("unknown mode for opening h5 file")
        if mode in ('w', 'w-', 'x'):
            assert datatype in _available_types
            if version is None:
                error_stop('an''','''        writing = mode in ('w', 'w-', 'x')
        if not writing and mode not in ('r', 'r+'):
            error_stop("unknown mode for opening h5 file")
        if writing:
            if datatype not in _available_types:
                raise AssertionError("type")
            if not version is not None:
                error_stop('an'''),
 ("c13 R any v3",None,V3,'''        for data in (self.vars["nodes"], self.vars["cells"]):
            for name, values in data.items():
                if values.size == values.shape[0] and values.dtype.name not in ("float64", "int64"):
                    check_error = False
                    log.error(f'unsupported type of scalar data {name}: {values.dtype.name}')
        return check_error
''','''        for data in (self.vars["nodes"], self.vars["cells"]):
            if any(v.size == v.shape[0] and v.dtype.name not in ("float64", "int64") for v in data.values()):
                return False
        return check_error
'''),
]
for i,m in enumerate(M):
    if m[0]=="c13 R helper":
        M[i]=(m[0],None,[(V2,m[3],m[4]),(V2,'''    def _check_bocos(self):''','''    def _refuse(self):
        if not self.check():
            raise RuntimeError("Inconsistent data to write")
        self._check_bocos()

    def _check_bocos(self):''')])
