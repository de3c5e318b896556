V2="cfdtools/ic3/writerV2.py"; V3="cfdtools/ic3/writerV3.py"; V4="cfdtools/ic3/writerV4.py"; H="cfdtools/hdf5/_hdf5.py"; D="cfdtools/data.py"; VT="cfdtools/vtk/_vtk.py"; VL="cfdtools/vtk/_vtkList.py"
XM='''        with open(os.path.splitext(filepath)[0] + ".xmf", "w") as fid:
            fid.write('\\n'.join(content))'''
M=[
 ("c20 xmf no with","C20",VL,XM,'''        fid = open(os.path.splitext(filepath)[0] + ".xmf", "w")
        fid.write('\\n'.join(content))'''),
 ("c20 dl not closed","C20",D,'''        file.close()
        return file''','''        return file'''),
 ("c20 vtk closed if data","C20",VT,'''        file.close()
        return file''','''        if celldict:
            file.close()
        return file'''),
 ("c20 h5 close flush","C20",H,"return self._h5file.close()","return self._h5file.flush()"),
 ("c20 h5 close mode","C20",H,"return self._h5file.close()","""if self._datatype is not None:
            return self._h5file.close()"""),
 ("c20 dl early ret","C20",D,'''        #
        hdata = file''','''        if not self._datalist:
            return file.filename
        hdata = file'''),
 ("c20 v4 sol","C20",V4,'''        with h5py.File(solution_filename, "w") as fid:
            log.info("> Writing solution attributes")
            self._write_root_solution_attributes(fid)

            log.info("> Writing variables")
            self._write_solution_vars(fid)
''','''        fid = h5py.File(solution_filename, "w")
        log.info("> Writing solution attributes")
        self._write_root_solution_attributes(fid)
        if self.vars["cells"]:
            log.info("> Writing variables")
            self._write_solution_vars(fid)
            self._write_solution_stats(fid)
            fid.close()
        return
        with h5py.File(solution_filename, "w") as fid:
'''),
 ("c20 R tryfinally",None,D,'''        file.write_unsmesh(celldict, self._geoprop['mesh'].nodescoord(ndarray=True), **options)
        #
        hdata = file._h5file.create_group("datalist")
        self._dumphdfgroup(hdata, **options)
        file.close()
''','''        try:
            file.write_unsmesh(celldict, self._geoprop['mesh'].nodescoord(ndarray=True), **options)
            hdata = file._h5file.create_group("datalist")
            self._dumphdfgroup(hdata, **options)
        finally:
            file.close()
'''),
 ("c20 R xmf",None,VL,XM,'''        xmf = open(os.path.splitext(filepath)[0] + ".xmf", mode="w")
        xmf.write('\\n'.join(content))
        xmf.close()'''),
 ("c20 R xmf path",None,VL,XM,'''        Path(os.path.splitext(filepath)[0] + ".xmf").write_text('\\n'.join(content))'''),
 ("c20 R name",None,D,'''        file.close()
        return file.filename''','''        name = file.filename
        h5 = file._h5file
        h5.close()
        return name'''),
]
