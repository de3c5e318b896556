L="cfdtools/vtk/_vtkList.py"; Ma="cfdtools/utils/maths.py"
R='''                rindex = index.copy()
                rindex[index] = np.arange(index.size)
'''
RAISE='''                if dmax > tol:
                    log.error(f"  max distance is above tolerance {tol}: {np.count_nonzero(dfinal > tol)} cells incriminated")
'''
M=[
("no inverse","C25",L,R,"                rindex = index\n"),
("inverse wrong way","C25",L,R,"                rindex = np.arange(index.size)\n                rindex = rindex[index]\n"),
("perm cached","C25",[(L,"        Ttree = 0","") if False else (L,R,"                if count == 1:\n                    rindex = index.copy()\n                    rindex[index] = np.arange(index.size)\n")]),
("tree updated","C25",L,"                # automatically deals","                tree = spatial.KDTree(ctr)\n                # automatically deals"),
("ref updated","C25",L,"                # automatically deals","                ctrRef = ctr\n                # automatically deals"),
("ref updated 2","C25",L,"            time = vtk.field_data.get","            ctrRef = ctr\n            time = vtk.field_data.get"),
("else first","C25",L,"                datalist = {name: vtk.cell_data[name] for name in namelist}","                datalist = {name: self._mesh.cell_data[name] for name in namelist}"),
("reversed query","C25",L,"dfinal, index = tree.query(ctr, p=2)","dfinal, index = spatial.KDTree(ctr).query(ctrRef, p=2)"),
("no refusal","C25",L,'''                    raise ValueError("  max distance is above tolerance")
''',""),
("refuse by average","C25",L,"                if dmax > tol:\n                    log.error","                if davg > tol:\n                    log.error"),
("refuse by min","C25",L,"                if dmax > tol:\n                    log.error","                if dmin > tol:\n                    log.error"),
("refuse by verbose tol","C25",L,"                if dmax > tol:\n                    log.error","                if dmax > tolverbose:\n                    log.error"),
("mean distance","C25",L,"            d = np.max(maths.distance(ctrRef, ctr))","            d = np.average(maths.distance(ctrRef, ctr))"),
("x only distance","C25",L,"            d = np.max(maths.distance(ctrRef, ctr))","            d = np.abs(np.average(ctrRef[:, 0]) - np.average(ctr[:, 0]))"),
("min distance","C25",L,"            d = np.max(maths.distance(ctrRef, ctr))","            d = np.min(maths.distance(ctrRef, ctr))"),
("filter perm only","C25",L,"            namelist = filterdata if filterdata else vtk.cell_data.keys()","            namelist = vtk.cell_data.keys()"),
("filter from ref","C25",L,"{name: vtk.cell_data[name][rindex] for name in namelist}","{name: vtk.cell_data[name][rindex] for name in vtk.cell_data.keys()}"),
("time of first","C25",L,'time = vtk.field_data.get("TimeValue", None)','time = self._mesh.field_data.get("TimeValue", None)'),
("mesh last","C25",L,"            time = vtk.field_data.get","            self._mesh = vtk\n            time = vtk.field_data.get"),
("check last only","C25",L,"            if d > tol:\n                count += 1\n                if self._verbose:","            count = 0\n            if d > tol:\n                count += 1\n                if self._verbose:"),
("check first","C25",L,"return count == 0","return count <= 1"),
("check pos","C25",L,"        ref = mappos[pos](pv.read(self._list[0]))","        ref = mappos['cellcenter'](pv.read(self._list[0]))"),
("signed distance","C25",Ma,"np.sqrt(np.sum(np.square(b - a), axis=1))","np.sum(b - a, axis=1)"),
# refactors
("r argsort",None,L,R,"                rindex = np.argsort(index)\n"),
("r inplace",None,L,R,"                rindex = np.empty_like(index)\n                rindex[index] = np.arange(len(index))\n"),
("r reversed query",None,L,"dfinal, index = tree.query(ctr, p=2) # p=2 is the norm\n                # reverse indexing to sort new arrays\n"+R,"dfinal, rindex = spatial.KDTree(ctr).query(ctrRef, p=2)\n"),
("r helper",None,[(L,"datalist = {name: vtk.cell_data[name][rindex] for name in namelist}","datalist = self._fields(vtk, namelist, rindex)"),(L,"    def dumphdf(self, filename: str","    @staticmethod\n    def _fields(grid, names, order):\n        fields = {}\n        for name in names:\n            fields[name] = grid.cell_data[name][order]\n        return fields\n\n    def dumphdf(self, filename: str")]),
("r early",None,L,"            if d > tol:  # should be sized by domain size","            moved = d > tol\n            if moved:"),
("r any",None,L,"            d = np.max(maths.distance(ctrRef, ctr))","            d = maths.distance(ctrRef, ctr).max()"),
("r norm",None,Ma,"np.sqrt(np.sum(np.square(b - a), axis=1))","np.linalg.norm(b - a, axis=1)"),
("r sel",None,L,"            namelist = filterdata if filterdata else vtk.cell_data.keys()","            namelist = filterdata or list(vtk.cell_data.keys())"),
]
