CN="cfdtools/meshbase/_connectivity.py"; ME="cfdtools/meshbase/_mesh.py"
M=[
("pop no nface","C23",ME,"                self._faces.pop(facetype)\n                self.nface = sum(fcon['face2node'].nelem for fcon in self._faces.values())","                self._faces.pop(facetype)"),
("pop before","C23",ME,"                self._faces.pop(facetype)\n                self.nface = sum(fcon['face2node'].nelem for fcon in self._faces.values())","                self.nface = sum(fcon['face2node'].nelem for fcon in self._faces.values())\n                self._faces.pop(facetype)"),
("add nface plus","C23",ME,"self.nface = np.sum([fcon['face2node'].nelem for _, fcon in self._faces.items()])","self.nface += face2node.nelem"),
("add nface one","C23",ME,"self.nface = np.sum([fcon['face2node'].nelem for _, fcon in self._faces.items()])","self.nface = face2node.nelem"),
("add nface rows","C23",ME,"self.nface = np.sum([fcon['face2node'].nelem for _, fcon in self._faces.items()])","self.nface = sum(len(fcon['face2node'].elems()) for fcon in self._faces.values())"),
("cell2node refused",None,ME,"        self._cell2node = cell2node\n        self._ncell = self._cell2node.nelem","        self._ncell = self._cell2node.nelem if self._cell2node else cell2node.nelem\n        self._cell2node = cell2node"),
("cell2node if 0","C23",[(ME,"        self._ncell = self._cell2node.nelem\n        self._check_cell2node()","        self._ncell = self._ncell or self._cell2node.nelem")]),
("xyz only x","C23",ME,"        for c in [x, y, z]:\n            assert len(c) == self.nnode","        assert len(x) == self.nnode"),
("nd no assert","C23",ME,"        assert xyz.shape[0] == self.nnode\n",""),
("nd assert le","C23",ME,"assert xyz.shape[0] == self.nnode","assert xyz.shape[0] <= self.nnode"),
("add_elems only new","C23",CN,"        self._nelem += dim\n        if etype in self.elems():","        if etype not in self.elems():\n            self._nelem += dim\n        if etype in self.elems():"),
("add_elems replaced","C23",CN,"""                (self._elem2node[etype]['elem2node'], elem2node), axis=0
            )""","""                (self._elem2node[etype]['elem2node'][: elem2node.shape[0]], elem2node), axis=0
            )"""),
("add_elems cols","C23",CN,"        dim = elem2node.shape[0]","        dim = elem2node.shape[1]"),
("ii append","C23",CN,"            self.conn = np.concatenate((self.conn, array), axis=0)","            self._conn = np.concatenate((self.conn, array), axis=0)"),
("ii append nelem","C23",CN,"            self.conn = np.concatenate((self.conn, array), axis=0)","            self._conn = np.concatenate((self.conn, array), axis=0)\n            self._nelem = array.shape[0]"),
("ii ctor","C23",CN,"            self.conn = array  # setter","            self._nelem, self._conn = array.size, array"),
("ii setter once","C23",CN,"        self._conn = array\n        self._nelem = array.shape[0]","        if getattr(self, '_conn', None) is None:\n            self._nelem = array.shape[0]\n        self._conn = array"),
("size range","C23",CN,"self._range[1] - self._range[0] + 1","self._range[1] - self._range[0]"),
("append list","C23",CN,"self.set_list(self.list() + self._listof(ilist))","self.set_list(self.list() + self._listof(ilist)[1:])") if False else ("setlist keeps range","C09",CN,"        self._delete()\n        self._type = 'list'\n        self._list = self._listof(ilist)","        self._list = self._listof(ilist)\n        self._type = self._type or 'list'"),
("merge by last","C23",CN,"            self.add_elems(elem, elemtype['elem2node'], elemtype['index'])","            self._elem2node[elem] = {'elem2node': elemtype['elem2node'], 'index': elemtype['index']}"),
("merge nelem set","C23",CN,"        for elem, elemtype in mergedict.items():\n            self.add_elems","        self._nelem = 0\n        for elem, elemtype in mergedict.items():\n            self.add_elems"),
("compress keeps size","C09",CN,"self.set_range([self._list[0], self._list[-1]])","self.set_range([self._list[0], self._list[0] + len(self._list)])"),
("shift range","C09",CN,"irange=[self._range[0] + i, self._range[1] + i]","irange=[self._range[0], self._range[1] + i]"),
("make_face stale mixed kept","C23",ME,"self.add_faces('boundary', boundfaces, boundf2c)","self._faces['boundary'] = {'face2node': boundfaces, 'face2cell': boundf2c}"),
# refactors
("r nface helper",None,[(ME,"        self.nface = np.sum([fcon['face2node'].nelem for _, fcon in self._faces.items()])","        self._count_faces()"),(ME,"                self.nface = sum(fcon['face2node'].nelem for fcon in self._faces.values())","                self._count_faces()\n\n    def _count_faces(self):\n        total = 0\n        for fcon in self._faces.values():\n            total += fcon['face2node'].nelem\n        self.nface = total")]),
("r nelem prop",None,CN,"        self._nelem += dim\n        if etype in","        self._nelem = self._nelem + len(elem2node)\n        if etype in"),
("r nd len",None,ME,"        assert xyz.shape[0] == self.nnode","        if len(xyz) != self.nnode:\n            raise ValueError('bad number of nodes')"),
("r xyz all",None,ME,"        for c in [x, y, z]:\n            assert len(c) == self.nnode","        assert all(len(c) == self.nnode for c in (x, y, z))"),
("r ii append",None,CN,"            self.conn = np.concatenate((self.conn, array), axis=0)","            self._conn = np.concatenate((self._conn, array), axis=0)\n            self._nelem += array.shape[0]"),
("r size len",None,CN,"return len(self._list) if self.type == 'list' else self._range[1] - self._range[0] + 1","if self.type == 'range':\n            first, last = self._range\n            return last + 1 - first\n        return len(self._list)"),
("r size list",None,CN,"return len(self._list) if self.type == 'list' else self._range[1] - self._range[0] + 1","return len(self.list())"),
]
