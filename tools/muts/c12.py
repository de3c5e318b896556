API = "cfdtools/api.py"; CLI = "cfdtools/_cli.py"
M = [
 ("c12 suffix after", "C12", CLI, """    file.change_suffix(ext)
    if file.find_safe_newfile() > 0:
        log.info("change output to safe new name " + file.filename)
    if parser.args().extrude:""", """    if file.find_safe_newfile() > 0:
        log.info("change output to safe new name " + file.filename)
    file.change_suffix(ext)
    if parser.args().extrude:"""),
 ("c12 cube outpath after", "C12", CLI, """    if parser.args().outpath is not None:
        file.change_dir(parser.args().outpath)
    if file.find_safe_newfile() > 0:
        log.info("change output to safe new name " + file.filename)
    w = parser""", """    if file.find_safe_newfile() > 0:
        log.info("change output to safe new name " + file.filename)
    if parser.args().outpath is not None:
        file.change_dir(parser.args().outpath)
    w = parser"""),
 ("c12 if instead of while", "C12", API, "        while safepath.exists():", "        if safepath.exists():"),
 ("c12 bounded", "C12", API, "        while safepath.exists():", "        while safepath.exists() and i < 99:"),
 ("c12 test initial only", "C12", API, "        while safepath.exists():", "        while self._path.exists() and i < 1:"),
 ("c12 not stored", "C12", API, "        self._path = safepath\n        return i > 0", "        if i == 1:\n            self._path = safepath\n        return i > 0"),
 ("c12 vtkpack overwrite", "C12", CLI, 'vtklist.dumphdf("dumped.h5")', 'vtklist.dumphdf("dumped.h5", overwrite=True)'),
 ("c12 dump overwrite inv", "C12", "cfdtools/data.py", "        if not overwrite:\n            file.find_safe_newfile()", "        if overwrite:\n            file.find_safe_newfile()"),
 ("c12 return requested", "C12", "cfdtools/data.py", "        file.close()\n        return file.filename", "        file.close()\n        return str(filename)"),
 ("c12 vtk suffix", "C12", "cfdtools/vtk/_vtk.py", "        self._grid.save(filename)", "        self._grid.save(str(filename).replace(' ', '_'))"),
 ("c12 no counter", "C12", API, "stem + f'({i})' + suff", "stem + '(1)' + suff"),
 ("c12 ref True loop", None, API, """        while safepath.exists():
            i += 1
            # safepath = safepath.with_stem(stem+f'({i})') # only python >= 3.9
            # print(folder, stem, f"({i})", suff)
            safepath = Path(folder / (stem + f'({i})' + suff))
""", """        while True:
            if not safepath.exists():
                break
            i = i + 1
            safepath = folder / f"{stem}({i}){suff}"
"""),
 ("c12 ref helper", None, API, """        while safepath.exists():
            i += 1
            # safepath = safepath.with_stem(stem+f'({i})') # only python >= 3.9
            # print(folder, stem, f"({i})", suff)
            safepath = Path(folder / (stem + f'({i})' + suff))
""", """        def numbered(n):
            return folder / (stem + f'({n})' + suff) if n > 0 else self._path

        while numbered(i).exists():
            i += 1
        safepath = numbered(i)
"""),
 ("c12 ref itertools", None, API, """        while safepath.exists():
            i += 1
            # safepath = safepath.with_stem(stem+f'({i})') # only python >= 3.9
            # print(folder, stem, f"({i})", suff)
            safepath = Path(folder / (stem + f'({i})' + suff))
""", """        import itertools
        for i in itertools.count():
            safepath = self._path if i == 0 else folder / (stem + f'({i})' + suff)
            if not safepath.exists():
                break
"""),
 ("c12 ref os.path", None, API, """        while safepath.exists():""", """        import os
        while os.path.exists(safepath):"""),
 ("c12 ref recursion", None, API, """        while safepath.exists():
            i += 1
            # safepath = safepath.with_stem(stem+f'({i})') # only python >= 3.9
            # print(folder, stem, f"({i})", suff)
            safepath = Path(folder / (stem + f'({i})' + suff))
        self._path = safepath
        return i > 0""", """        safepath, i = self._next_free(folder, stem, suff, 0)
        self._path = safepath
        return i > 0

    def _next_free(self, folder, stem, suff, i):
        candidate = folder / (stem + f'({i})' + suff) if i else self._path
        if candidate.exists():
            return self._next_free(folder, stem, suff, i + 1)
        return candidate, i"""),
 ("c12 ref cube name var", None, CLI, """    w = parser._writer(mesh)
    w.write_data(file.filename)
    return file.filename""", """    outname = file.filename
    parser._writer(mesh).write_data(outname)
    return outname"""),
 ("c12 ref out helper", None, CLI, """    file.change_suffix(ext)
    if file.find_safe_newfile() > 0:
        log.info("change output to safe new name " + file.filename)
    if parser.args().extrude:""", """    file.change_suffix(ext)
    _safe(file)
    if parser.args().extrude:"""  ),
]
M[-1] = (M[-1][0], None, [(CLI, M[-1][3], M[-1][4]), (CLI, "def write_generic(", '''def _safe(file):
    renamed = file.find_safe_newfile()
    if renamed:
        log.info("change output to safe new name " + file.filename)


def write_generic(''')])
