D, C, M, A, V, L = ("cfdtools/data.py", "cfdtools/meshbase/_connectivity.py", "cfdtools/meshbase/_mesh.py", "cfdtools/api.py", "cfdtools/vtk/_vtk.py", "cfdtools/vtk/_vtkList.py")
M_ = M
M = [
 ("time truthy", "C17", D, "        if time is not None:\n            self._properties['time']", "        if time:\n            self._properties['time']"),
 ("list time truthy", "C17", D, "        if time is not None:\n            datalist['time']", "        if time:\n            datalist['time']"),
 ("list time positive", "C17", D, "        if time is not None:\n            datalist['time']", "        if time is not None and time > 0:\n            datalist['time']"),
 ("y truthy", "C17", D, "if y is not None:", "if y:"),
 ("z any", "C17", D, "if z is not None:", "if z is not None and np.any(z):"),
 ("imax or", "C17", D, "t = self._data['time'][imin:imax]", "t = self._data['time'][imin:(imax or len(self._data['time']))]"),
 ("imin or harmless", None, D, "t = self._data['time'][imin:imax]", "t = self._data['time'][(imin or 0):imax]"),
 ("imax if/else", "C17", D, "t = self._data['time'][imin:imax]", "t = self._data['time'][imin:imax] if imax else self._data['time'][imin:]"),
 ("irange any", "C17", C, "        if irange is not None:\n            self.set_range", "        if irange is not None and any(irange):\n            self.set_range"),
 ("ilist truthy", "C17", C, "        if ilist is not None:\n            self.set_list", "        if ilist:\n            self.set_list"),
 ("ilist len", "C17", C, "        if ilist is not None:\n            self.set_list", "        if ilist is not None and len(ilist) > 0:\n            self.set_list"),
 ("list size truthy", "C17", C, "return list(self._list)  # ensure list if may be", "return list(j for j in self._list if j)"),
 ("shift 0", None, C, "        if self._type == 'range':\n            return indexlist(irange=[self._range[0] + i", "        if i == 0 and False:\n            return self\n        if self._type == 'range':\n            return indexlist(irange=[self._range[0] + i"),
 ("array truthy", "C17", C, "        if array is None:\n            self._nelem = 0", "        if array is None or not np.any(array):\n            self._nelem = 0"),
 ("face2cell any", "C17", M_, "{'face2node': face2node, 'face2cell': face2cell}", "{'face2node': face2node, 'face2cell': face2cell if face2cell else None}"),
 ("direction any", "C17", M_, "        if direction is None:", "        if direction is None or not np.any(direction):"),
 ("extrude truthy", "C17", M_, "        if extrude is None:", "        if not extrude:"),
 ("tol or", "C17", L, "    def check_order(self, pos='cellcenter', tol=1e-10):\n", "    def check_order(self, pos='cellcenter', tol=1e-10):\n        tol = tol or 1e-10\n"),
 ("zconv tol", "C17", V, "ichunk = np.where(np.abs(np.diff(zpos[isort])) > tol)[0] + 1", "ichunk = np.where(np.abs(np.diff(zpos[isort])) > (tol if tol else 1e-6))[0] + 1"),
 ("nelem truthy", "C17", A, "", ""),
 ("prop time truthy on dump", "C17", D, "                if vname in self._property_names:\n                    datagroup.attrs[vname] = var", "                if vname in self._property_names:\n                    if var:\n                        datagroup.attrs[vname] = var"),
 ("is not None helper", None, D, "        if time is not None:\n            self._properties['time'] = time\n        self._data[name] = data", "        if time is None:\n            self._data[name] = data\n            return\n        self._properties.update(time=time)\n        self._data[name] = data"),
]
M = [m for m in M if m[0] != "nelem truthy"]
