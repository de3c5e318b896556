D, C, Me, A, V, L = ("cfdtools/data.py", "cfdtools/meshbase/_connectivity.py", "cfdtools/meshbase/_mesh.py", "cfdtools/api.py", "cfdtools/vtk/_vtk.py", "cfdtools/vtk/_vtkList.py")
G, CG, R, W2, I = "cfdtools/gmsh/reader.py", "cfdtools/cgns/cgns.py", "cfdtools/ic3/reader_legacy.py", "cfdtools/ic3/writerV2.py", "cfdtools/ic3/_ic3.py"
M = [
 ("append extends list", "C18", C, "        self.set_list(self.list() + self._listof(ilist))", "        if self._type == 'list':\n            self._list.extend(self._listof(ilist))\n        else:\n            self.set_list(self.list() + self._listof(ilist))"),
 ("append prepends to arg", "C18", C, "        self.set_list(self.list() + self._listof(ilist))", "        tail = self._listof(ilist)\n        tail[:0] = self.list()\n        self.set_list(tail)"),
 ("set_list sorts", "C18", C, "        self._list = self._listof(ilist)", "        self._list = self._listof(ilist)\n        self._list.sort()"),
 ("listof copy ok", None, C, "            rlist = ilist\n", "            rlist = list(ilist)\n"),
 ("add_datalist no copy", "C18", D, "        datalist = dict(datalist)\n", ""),
 ("params alias", "C18", Me, "        self._params = dict(params)", "        self._params = params"),
 ("props alias", "C18", Me, "        self._properties = dict(properties)", "        self._properties = properties"),
 ("data alias", "C18", D, "        self._data = dict(value)", "        self._data = value"),
 ("data copy() ok", None, D, "        self._data = dict(value)", "        self._data = value.copy()"),
 ("data star ok", None, D, "        self._data = dict(value)", "        self._data = {**value}"),
 ("merge shift in place", "C18", C, "                    mergedict[key]['elem2node'] = elemtype['elem2node']\n", "                    mergedict[key]['elem2node'] = elemtype['elem2node']\n                    elemtype['index'] = mergedict[key]['index']\n"),
 ("add_elems in-place concat resize", "C18", C, "        self._nelem += dim\n        if etype", "        elem2node -= elem2node.min()\n        self._nelem += dim\n        if etype"),
 ("indirection append fill", "C18", C, "            assert array.shape[1] == 2\n            self.conn = np.conc", "            array[array < 0] = -1\n            assert array.shape[1] == 2\n            self.conn = np.conc"),
 ("add_elems index alias", "C18", C, "else index.shift(0)", "else index"),
 ("scale in place", "C18", Me, "        self.set_nodescoord_xyz(\n            self._nodes['x'] * scale_xyz[0],\n            self._nodes['y'] * scale_xyz[1],\n            self._nodes['z'] * scale_xyz[2],\n        )", "        for c, s in zip('xyz', scale_xyz):\n            self._nodes[c] *= s"),
 ("scale in place x", "C18", Me, "        self.set_nodescoord_xyz(\n            self._nodes['x'] * scale_xyz[0],\n            self._nodes['y'] * scale_xyz[1],\n            self._nodes['z'] * scale_xyz[2],\n        )", "        self._nodes['x'] *= scale_xyz[0]\n        self._nodes['y'] *= scale_xyz[1]\n        self._nodes['z'] *= scale_xyz[2]"),
 ("extrude list pop", "C18", Me, "        extrude_range = np.array(extrude)\n", "        extrude.sort()\n        extrude_range = np.array(extrude)\n"),
 ("extrude asarray ok", None, Me, "        extrude_range = np.array(extrude)\n", "        extrude_range = np.asarray(extrude)\n"),
 ("extrude asarray inplace", "C18", Me, "        extrude_range = np.array(extrude)\n", "        extrude_range = np.asarray(extrude)\n        extrude_range -= extrude_range[0]\n"),
 ("writer pops params", "C18", W2, "", ""),
 ("merge other index append", "C18", C, "", ""),
 ("nodes_of_indexlist sort", "C18", C, "        joinlist = list(chain.from_iterable(map(dict(zip(ind, f2n)).get, elemlist)))", "        elemlist.sort()\n        joinlist = list(chain.from_iterable(map(dict(zip(ind, f2n)).get, elemlist)))"),
 ("nodes_of_indexlist sorted ok", None, C, "        joinlist = list(chain.from_iterable(map(dict(zip(ind, f2n)).get, elemlist)))", "        elemlist = sorted(elemlist)\n        joinlist = list(chain.from_iterable(map(dict(zip(ind, f2n)).get, elemlist)))"),
 ("importfrom_compressed in place", "C18", C, "            zind = zconn._index[index]\n", "            zconn._value += 0\n            zind = zconn._index[index]\n"),
 ("datafilter remove time", "C18", D, "        datalist = [name for name in (datafilter if datafilter else self.keys()) if name != 'time']\n        for name", "        datalist = list(self.keys()) if not datafilter else datafilter\n        if 'time' in datalist:\n            datalist.remove('time')\n        for name"),
]
M = [m for m in M if m[3] != ""]
