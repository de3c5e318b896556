W="cfdtools/ic3/writerV2.py"; ME="cfdtools/meshbase/_mesh.py"
CONV="""        if any([boco.nodebased() for _, boco in self._mesh._bocos.items()]):
            with api.Timer(task="  change boco marks (node to face)"):
                self._mesh.bocomarks_set_node_to_face()
"""
UNM="""        if 'boundary' in self._mesh._faces.keys():
            if self._mesh.make_unmarked_BC(name="unmarked"):
                log.info("  create a specific boco mark for unmarked faces: (unmarked)")
"""
RE="""        if any([boco.index.type == 'list' for _, boco in self._mesh._bocos.items()]):
            with api.Timer(task="  reindex boundary faces with boco marks and compress"):
                self._mesh.reindex_boundaryfaces()
"""
FC="""        if not self._mesh._faces:  # empty dict of faces
            with api.Timer(task="  generate all faces"):
                self._mesh.make_face_connectivity()
"""
SL="        boundf2c = tabindex2cell[bdindex_old]" 
M=[
("unmarked before convert","C26",W,CONV+UNM,UNM+CONV),
("reindex before unmarked","C26",[(W,UNM,""),(W,RE,RE+UNM)]),
("all nodebased","C26",W,"if any([boco.nodebased() for","if all([boco.nodebased() for"),
("all list","C26",W,"if any([boco.index.type == 'list'","if all([boco.index.type == 'list'"),
("first list","C26",W,"        if any([boco.index.type == 'list' for _, boco in self._mesh._bocos.items()]):","        if [boco.index.type for _, boco in self._mesh._bocos.items()][-1:] == ['list']:"),
("no unmarked","C26",W,UNM,""),
("unmarked only if bocos none","C26",W,"        if 'boundary' in self._mesh._faces.keys():\n            if self._mesh.make","        if 'boundary' in self._mesh._faces.keys() and not self._mesh._bocos:\n            if self._mesh.make"),
("faces if none","C26",W,"if not self._mesh._faces:  # empty dict of faces","if self._mesh._faces is None:"),
("convert only when faces made","C26",W,FC+CONV,FC+"            with api.Timer(task='  change boco marks (node to face)'):\n                self._mesh.bocomarks_set_node_to_face()\n"),
("bocos all","C26",W,"self.bocos = {key: boco for key, boco in self._mesh._bocos.items() if not boco.type == 'internal'}","self.bocos = dict(self._mesh._bocos)"),
("bocos boundary range only","C26",W,"if not boco.type == 'internal'}","if boco.index.type == 'range' and boco.type != 'internal' and boco.name != 'unmarked'}"),
("bocos before mesh","C26",W,"        self.set_mesh()\n        self.set_bocos()","        self.set_bocos()\n        self.set_mesh()"),
("f2e stale","C26",[(W,RE,"        stale = self._mesh._faces['boundary']['face2cell'] if 'boundary' in self._mesh._faces else None\n        stale = None if stale is None else np.concatenate((stale.conn, self._mesh._faces['internal']['face2cell'].conn))\n"+RE),(W,"            self.f2e = f2cell.conn","            self.f2e = stale")]),
("export first","C26",[(W,RE,"        if 'mixed' not in self._mesh._faces.keys():\n            mixedfaces, f2cell = self._mesh.export_mixedfaces()\n"+RE),(W,"                mixedfaces, f2cell = self._mesh.export_mixedfaces()\n                zface","                zface")]),
("v4 skip reindex","C26","cfdtools/ic3/writerV4.py","        self._check_bocos()","        self._check_bocos()\n        self.bocos.pop('unmarked', None)"),
("conv all->any","C26",ME,"return all(map(lambda n: n in nodelist, face))","return any(map(lambda n: n in nodelist, face))"),
("conv count","C26",ME,"return all(map(lambda n: n in nodelist, face))","return sum(n in nodelist for n in face) >= 3"),
("conv reverse","C26",ME,"return all(map(lambda n: n in nodelist, face))","return all(map(lambda n: n in face, nodelist))"),
("conv pos",None if False else "C26",ME,"i for i, _ in filter(lambda t: face_in_nodelist(t[1], nodeset), index_face_tuples)","i for i, t in enumerate(index_face_tuples) if face_in_nodelist(t[1], nodeset)"),
("conv one","C26",ME,"                boco.geodim = 'bdface'\n                boco.index = _conn.indexlist(ilist=listface_index)","                boco.geodim = 'bdface'\n                boco.index = _conn.indexlist(ilist=listface_index)\n                break"),
("conv consumed","C26",ME,"        index_face_tuples = self._faces['boundary']['face2node'].index_elem_tuples()","        index_face_tuples = iter(self._faces['boundary']['face2node'].index_elem_tuples())"),
("conv range nodes","C26",ME,"nodeset = set(boco.index.list())","nodeset = range(min(boco.index.list()), max(boco.index.list()) + 1)"),
("conv geodim lost","C26",ME,"                boco.geodim = 'bdface'\n                boco.index","                boco.index"),
("missing reversed","C26",ME,"list_missing = list(set(self._faces['boundary']['face2node'].all_index()) - set(list_marked))","list_missing = list(set(list_marked) - set(self._faces['boundary']['face2node'].all_index()))"),
("missing xor","C26",ME,"list_missing = list(set(self._faces['boundary']['face2node'].all_index()) - set(list_marked))","list_missing = list(set(self._faces['boundary']['face2node'].all_index()) ^ set(list_marked))"),
("missing range","C26",ME,"list(set(self._faces['boundary']['face2node'].all_index()) -","list(set(range(self._faces['boundary']['face2node'].nelem)) -"),
("missing always","C26",ME,"            if list_missing:\n                boco","            if True:\n                boco"),
("missing all","C26",ME,"boco.index = _conn.indexlist(ilist=list_missing)","boco.index = self._faces['boundary']['face2node'].all_indexlist() if False else _conn.indexlist(ilist=list(self._faces['boundary']['face2node'].all_index()))"),
("missing no add","C26",ME,"                self.add_boco(boco)\n        else:","                pass\n        else:"),
("marked first","C26",ME,"return list(itertools.chain(*[boco.index.list() for boco in self._bocos.values()]))","return list(itertools.chain(*[boco.index.list() for boco in self._bocos.values() if boco.index.type == 'list']))"),
# refactors
("r conv set",None,ME,"return all(map(lambda n: n in nodelist, face))","return set(face) <= nodelist"),
("r conv subset",None,ME,"return all(map(lambda n: n in nodelist, face))","return nodelist.issuperset(face)"),
("r conv gen",None,ME,"return all(map(lambda n: n in nodelist, face))","return all(n in nodelist for n in face)"),
("r conv loop",None,ME,"return all(map(lambda n: n in nodelist, face))","for n in face:\n                if n not in nodelist:\n                    return False\n            return True"),
("r conv list",None,ME,"""                listface_index = [
                    i for i, _ in filter(lambda t: face_in_nodelist(t[1], nodeset), index_face_tuples)
                ]""","""                listface_index = []
                for i, face in index_face_tuples:
                    if face_in_nodelist(face, nodeset):
                        listface_index.append(i)"""),
("r missing comp",None,ME,"list_missing = list(set(self._faces['boundary']['face2node'].all_index()) - set(list_marked))","marked = set(list_marked)\n            list_missing = [i for i in self._faces['boundary']['face2node'].all_index() if i not in marked]"),
("r missing diff",None,ME,"list_missing = list(set(self._faces['boundary']['face2node'].all_index()) - set(list_marked))","list_missing = sorted(set(self._faces['boundary']['face2node'].all_index()).difference(list_marked))"),
("r always convert",None,W,CONV,"        with api.Timer(task='  change'):\n            if [b for b in self._mesh._bocos.values() if b.nodebased()]:\n                self._mesh.bocomarks_set_node_to_face()\n"),
("r helper",None,[(W,RE,"        self._order_faces()\n"),(W,"    def set_bocos(self, nboco","    def _order_faces(self):\n        for boco in self._mesh._bocos.values():\n            if boco.index.type == 'list':\n                self._mesh.reindex_boundaryfaces()\n                break\n\n    def set_bocos(self, nboco")]),
("r bocos loop",None,W,"        self.bocos = {key: boco for key, boco in self._mesh._bocos.items() if not boco.type == 'internal'}","        self.bocos = {}\n        for key, boco in self._mesh._bocos.items():\n            if boco.type != 'internal':\n                self.bocos[key] = boco"),
("r faces len",None,W,"if not self._mesh._faces:  # empty dict of faces","if len(self._mesh._faces) == 0:"),
]
