CN="cfdtools/meshbase/_connectivity.py"; ME="cfdtools/meshbase/_mesh.py"
M=[
("shift own size","C09",CN,"np.cumsum([0] + sizes[:-1]).tolist()","([0] + sizes[:-1])"),
("shift no sum types","C09",CN,"            np.sum([np.array(e2n['index'].list()).size for _, e2n in elemcon.items()])","            [np.array(e2n['index'].list()).size for _, e2n in elemcon.items()][0]"),
("shift max of index","C09",CN,"            np.sum([np.array(e2n['index'].list()).size for _, e2n in elemcon.items()])","            max([np.array(e2n['index'].list()).size for _, e2n in elemcon.items()])"),
("first not shifted","C09",CN,"mergedict[key]['index'] = elemtype['index'].shift(shift)\n                    mergedict[key]['elem2node'] = elemtype","mergedict[key]['index'] = elemtype['index']\n                    mergedict[key]['elem2node'] = elemtype"),
("second not shifted","C09",CN,"mergedict[key]['index'] + elemtype['index'].shift(shift)","mergedict[key]['index'] + elemtype['index']"),
("index order","C09",CN,"mergedict[key]['index'] + elemtype['index'].shift(shift)","elemtype['index'].shift(shift) + mergedict[key]['index']"),
("rows order","C09",CN,"(mergedict[key]['elem2node'], elemtype['elem2node']), axis=0","(elemtype['elem2node'], mergedict[key]['elem2node']), axis=0"),
("shift range end","C09",CN,"irange=[self._range[0] + i, self._range[1] + i]","irange=[self._range[0] + i, self._range[1]]"),
("shift in place","C09",CN,"            return indexlist(ilist=[j + i for j in self._list])","            self._list = [j + i for j in self._list]\n            return self"),
("add_elems index","C09",CN,"dim = elem2node.shape[0]\n        ind = indexlist(irange=[self._nelem, self._nelem + dim - 1])","dim = elem2node.shape[0]\n        ind = indexlist(irange=[0, dim - 1])"),
("add_elems nelem late","C09",CN,"        self._nelem += dim\n        if etype in","        self._nelem = dim\n        if etype in"),
("add_elems ignores index on append","C09",CN,"self._elem2node[etype]['index'].append(ind.list())","self._elem2node[etype]['index'].append(list(range(self._nelem - dim, self._nelem)))"),
("add_elems aliases index","C09",CN,"else index.shift(0)","else index"),
("no internal first","C09",ME,"(self._faces['boundary']['face2node'], self._faces['internal']['face2node'])","(self._faces['internal']['face2node'], self._faces['boundary']['face2node'])"),
("f2c internal first","C09",ME,"""                self._faces['boundary']['face2cell'].conn,
                self._faces['internal']['face2cell'].conn,""","""                self._faces['internal']['face2cell'].conn,
                self._faces['boundary']['face2cell'].conn,"""),
("f2c newindex","C09",ME,".conn[oldindex, :]",".conn[newindex, :]"),
("inverse dropped","C09",ME,"newindex[oldindex] = np.arange(len(oldindex))","newindex[:] = oldindex"),
("face index by old","C09",ME,"ilist=newindex[fdict['index'].list()].tolist()","ilist=np.array(oldindex)[fdict['index'].list()].tolist()"),
("f2c not permuted","C09",ME,"self._faces['boundary']['face2cell'].conn = self._faces['boundary']['face2cell'].conn[oldindex, :]","pass"),
("face index not renumbered","C09",ME,"            fdict['index'] = _conn.indexlist(ilist=newindex[fdict['index'].list()].tolist())","            fdict['index'] = _conn.indexlist(ilist=fdict['index'].list())"),
("marks sorted first","C09",ME,"ilist=newindex[boco.index.list()].tolist()","ilist=newindex[boco.index.list()[::-1]].tolist()"),
("old index sorted","C09",ME,"        oldindex = self.list_boco_index()\n","        oldindex = sorted(self.list_boco_index())\n"),
("compress range","C09",CN,"self.set_range([self._list[0], self._list[-1]])","self.set_range([self._list[0], self._list[0] + len(self._list)])"),
("compress test min","C09",CN,"np.arange(self._list[0], self._list[0] + len(self._list))","np.arange(0, len(self._list))"),
("no compress","C09",ME,"            boco.index.compress()  # try to (and must) make it a range\n",""),
("tuples wrong index","C09",CN,"[(ind[i], f2n[i, :].ravel().tolist()) for i in range(f2n.shape[0])]","[(i, f2n[i, :].ravel().tolist()) for i in range(f2n.shape[0])]"),
("ii append order","C09",CN,"np.concatenate((self.conn, array), axis=0)","np.concatenate((array, self.conn), axis=0)"),
("list range end","C09",CN,"return list(range(self._range[0], self._range[1] + 1))","return list(range(self._range[0], self._range[1]))"),
# refactors
("r newindex argsort",None,ME,"        newindex = np.full_like(oldindex, -1)\n        newindex[oldindex] = np.arange(len(oldindex))","        newindex = np.argsort(oldindex)"),
("r zeros",None,ME,"newindex = np.full_like(oldindex, -1)","newindex = np.zeros(len(oldindex), dtype=int)"),
("r f2c take",None,ME,"self._faces['boundary']['face2cell'].conn[oldindex, :]","self._faces['boundary']['face2cell'].conn[oldindex]"),
("r vstack",None,CN,"self.conn = np.concatenate((self.conn, array), axis=0)","self.conn = np.vstack((self.conn, array))"),
("r merge running",None,CN,"""        sizes = [
            np.sum([np.array(e2n['index'].list()).size for _, e2n in elemcon.items()])
            for elemcon in list_elem
        ]
        sizes = np.cumsum([0] + sizes[:-1]).tolist()  # start with 0, last is useless
        mergedict = defaultdict(dict)
        for shift, elemcon in zip(sizes, list_elem):
            for key""","""        mergedict = defaultdict(dict)
        shift = -0
        nextshift = 0
        for elemcon in list_elem:
            shift = nextshift
            nextshift = shift + elemcon.nelem
            for key"""),
("merge plain dict","C09",CN,"        mergedict = defaultdict(dict)\n        for shift","        mergedict = dict()\n        for shift"),
("r merge setdefault",None,CN,"""                if key in mergedict.keys():
                    mergedict[key]['index'] = mergedict[key]['index'] + elemtype['index'].shift(shift)
                    mergedict[key]['elem2node'] = np.concatenate(
                        (mergedict[key]['elem2node'], elemtype['elem2node']), axis=0
                    )
                else:""","""                shifted = elemtype['index'].shift(shift)
                if key in mergedict:
                    previous = mergedict[key]
                    previous['index'] = previous['index'] + shifted
                    previous['elem2node'] = np.vstack([previous['elem2node'], elemtype['elem2node']])
                else:"""),
("r mixed helper",None,ME,"""        mixedfaces_con = _conn.elem_connectivity()
        mixedfaces_con.importfrom_merge(
            (self._faces['boundary']['face2node'], self._faces['internal']['face2node'])
        )
        face2cell = _conn.indexindirection()
        face2cell.conn = np.concatenate(
            (
                self._faces['boundary']['face2cell'].conn,
                self._faces['internal']['face2cell'].conn,
            ),
            axis=0,
        )""","""        sides = [self._faces[side] for side in ('boundary', 'internal')]
        mixedfaces_con = _conn.elem_connectivity()
        mixedfaces_con.importfrom_merge([side['face2node'] for side in sides])
        face2cell = _conn.indexindirection()
        for side in sides:
            face2cell.append(side['face2cell'].conn)"""),
("r list comp newindex",None,ME,"ilist=newindex[boco.index.list()].tolist()","ilist=[int(newindex[i]) for i in boco.index.list()]"),
("r dict newindex",None,ME,"ilist=newindex[fdict['index'].list()].tolist()","ilist=[newindex[i] for i in fdict['index'].list()]"),
("r compress",None,CN,"if np.all(self._list == np.arange(self._list[0], self._list[0] + len(self._list))):","first = self._list[0]\n            if self._list == list(range(first, first + len(self._list))):"),
("r tuples zip",None,CN,"list_of_tuples.extend([(ind[i], f2n[i, :].ravel().tolist()) for i in range(f2n.shape[0])])","list_of_tuples.extend(zip(ind, f2n.tolist()))"),
]

M+=[
("r argsort index",None,ME,"newindex[oldindex] = np.arange(len(oldindex))","newindex[oldindex] = list(range(len(oldindex)))"),
("conn sorted",'C09',ME,".conn[oldindex, :]",".conn[sorted(oldindex), :]"),
("conn argsort",'C09',ME,".conn[oldindex, :]",".conn[np.argsort(oldindex), :]"),
]
