From 48920ca74479b7e9159106701614ac6dfb2e219d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:31:24 +0000
Subject: [PATCH 01/50] fix: number extruded cells with the number of cells per
 plane, not of nodes

---
 cfdtools/meshbase/_connectivity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/meshbase/_connectivity.py b/cfdtools/meshbase/_connectivity.py
index e3be8d9..303e595 100644
--- a/cfdtools/meshbase/_connectivity.py
+++ b/cfdtools/meshbase/_connectivity.py
@@ -435,6 +435,6 @@ class elem_connectivity:
             # print(etype, econ['elem2node'], elemcon)
             index = np.tile(econ['index'].list(), (ncell))
             for i in range(ncell):
-                index[i * nelem : (i + 1) * nelem] += i * inodeshift
+                index[i * nelem : (i + 1) * nelem] += i * self.nelem
             newcon.add_elems(_elem.extruded_face[etype], elemcon, indexlist(ilist=index.tolist()))
         return newcon
-- 
2.43.0


From 8718f97dc5c8ec45d92d51a096da2a87fd208e2e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:31:24 +0000
Subject: [PATCH 02/50] fix: accept any order of element types when checking
 uniqueness of indices

---
 cfdtools/meshbase/_connectivity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/meshbase/_connectivity.py b/cfdtools/meshbase/_connectivity.py
index 303e595..306b0eb 100644
--- a/cfdtools/meshbase/_connectivity.py
+++ b/cfdtools/meshbase/_connectivity.py
@@ -215,7 +215,7 @@ class elem_connectivity:
         uniq = np.unique(index)
         assert index.min() == 0
         assert index.max() == index.size - 1
-        assert np.all(uniq == index)
+        assert uniq.size == index.size
         return True
 
     # def reindexed_elems(self, etype):
-- 
2.43.0


From 60264fb3e472c913fa74e580e7bb128dce12db9c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:31:24 +0000
Subject: [PATCH 03/50] fix: cumulate sizes when merging more than two
 connectivities

---
 cfdtools/meshbase/_connectivity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/meshbase/_connectivity.py b/cfdtools/meshbase/_connectivity.py
index 306b0eb..4e97665 100644
--- a/cfdtools/meshbase/_connectivity.py
+++ b/cfdtools/meshbase/_connectivity.py
@@ -290,7 +290,7 @@ class elem_connectivity:
             np.sum([np.array(e2n['index'].list()).size for _, e2n in elemcon.items()])
             for elemcon in list_elem
         ]
-        sizes = [0] + sizes[:-1]  # start with 0, last is useless
+        sizes = np.cumsum([0] + sizes[:-1]).tolist()  # start with 0, last is useless
         mergedict = defaultdict(dict)
         for shift, elemcon in zip(sizes, list_elem):
             for key, elemtype in elemcon.items():
-- 
2.43.0


From f8066cb609bbd701cab99cead3f671a591fab200 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:31:24 +0000
Subject: [PATCH 04/50] fix: import compressed connectivity with a flat list of
 face indices

---
 cfdtools/meshbase/_connectivity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/meshbase/_connectivity.py b/cfdtools/meshbase/_connectivity.py
index 4e97665..855cc92 100644
--- a/cfdtools/meshbase/_connectivity.py
+++ b/cfdtools/meshbase/_connectivity.py
@@ -273,7 +273,7 @@ class elem_connectivity:
             index = np.argwhere(nodeperface == facesize)
             zind = zconn._index[index]
             nodes = np.hstack(tuple(zconn._value[zind + i] for i in range(facesize)))
-            self.add_elems(typef, nodes, indexlist(ilist=index))
+            self.add_elems(typef, nodes, indexlist(ilist=index.ravel()))
 
     # @profile
     def exportto_compressedindex(self) -> compressed_listofindex:
-- 
2.43.0


From 7206d8c52bf7686f4867266e5fd3dc63b26df9c3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:31:24 +0000
Subject: [PATCH 05/50] fix: compressing an empty list of indices must not fail

---
 cfdtools/meshbase/_connectivity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/meshbase/_connectivity.py b/cfdtools/meshbase/_connectivity.py
index 855cc92..413a25c 100644
--- a/cfdtools/meshbase/_connectivity.py
+++ b/cfdtools/meshbase/_connectivity.py
@@ -89,7 +89,7 @@ class indexlist:
 
     def compress(self):
         """try to make it a range"""
-        if self._type == 'list':
+        if self._type == 'list' and self._list:
             if np.all(self._list == np.arange(self._list[0], self._list[0] + len(self._list))):
                 self.set_range([self._list[0], self._list[-1]])
         # else no error, keep list
-- 
2.43.0


From 9bf961831d5f1ddb861d1f9d8b8a61f754eecbdb Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:31:24 +0000
Subject: [PATCH 06/50] fix: converting a list of indices must not modify the
 receiving index

---
 cfdtools/meshbase/_connectivity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/meshbase/_connectivity.py b/cfdtools/meshbase/_connectivity.py
index 413a25c..36c24f6 100644
--- a/cfdtools/meshbase/_connectivity.py
+++ b/cfdtools/meshbase/_connectivity.py
@@ -65,7 +65,7 @@ class indexlist:
         if isinstance(ilist, list):
             rlist = ilist
         elif isinstance(ilist, np.ndarray):
-            rlist = self._list = ilist.tolist()
+            rlist = ilist.tolist()
         else:
             log.error(f"{type(ilist)}")
             api.error_stop("unknow type in indexlist class")
-- 
2.43.0


From 77db7a0c20f178184bdf7a8c5ca9b5476fd62d7c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:31:24 +0000
Subject: [PATCH 07/50] fix: do not share the caller's index when adding
 elements

---
 cfdtools/meshbase/_connectivity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/meshbase/_connectivity.py b/cfdtools/meshbase/_connectivity.py
index 36c24f6..1e937d1 100644
--- a/cfdtools/meshbase/_connectivity.py
+++ b/cfdtools/meshbase/_connectivity.py
@@ -178,7 +178,7 @@ class elem_connectivity:
 
     def add_elems(self, etype: str, elem2node: np.ndarray, index: indexlist = None):
         dim = elem2node.shape[0]
-        ind = indexlist(irange=[self._nelem, self._nelem + dim - 1]) if index is None else index
+        ind = indexlist(irange=[self._nelem, self._nelem + dim - 1]) if index is None else index.shift(0)
         self._nelem += dim
         if etype in self.elems():
             self._elem2node[etype]['index'].append(ind.list())
-- 
2.43.0


From a3dcf77b2264bbb47c9f5777796de783737ab922 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:31:24 +0000
Subject: [PATCH 08/50] fix: build faces of meshes where a type has no internal
 or no boundary face

---
 cfdtools/meshbase/_connectivity.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/cfdtools/meshbase/_connectivity.py b/cfdtools/meshbase/_connectivity.py
index 1e937d1..dc1360c 100644
--- a/cfdtools/meshbase/_connectivity.py
+++ b/cfdtools/meshbase/_connectivity.py
@@ -359,12 +359,16 @@ class elem_connectivity:
             iface2cell = indexindirection()  #
             bface2cell = indexindirection()  #
 
-            def face_from_ufacedict(uface_dict):
-                return np.array(list(map(lambda flist: flist[0][0], uface_dict.values())))
+            def face_from_ufacedict(uface_dict, nnode):
+                faces = list(map(lambda flist: flist[0][0], uface_dict.values()))
+                return np.array(faces, dtype=np.int64).reshape(-1, nnode)  # may be empty
 
             # find pairs for a given face type
             for ftype, listfaces in faces_neighbour.items():
                 nf_all = len(listfaces)
+                if nf_all == 0:
+                    continue
+                nnode = len(listfaces[0][0])
                 # build a dict of "sorted node" face with list of tuple (face, elem)
                 # face_pairs = dict()
                 # for uface, facepair in groupby(listfaces, lambda tup: tuple(sorted(tup[0]))):
@@ -373,14 +377,14 @@ class elem_connectivity:
                 for tface in listfaces:
                     face_pairs[tuple(sorted(tface[0]))].append(tface)  # 50% COST
                 nf_unique = len(face_pairs)
-                assert nf_unique < nf_all
-                assert 2 * nf_unique >= nf_all
+                # a face is either a boundary (one cell) or shared by exactly two cells
+                assert all(len(flist) <= 2 for flist in face_pairs.values())
                 # extract all unique face
                 #   since reversed when created, boco faces are pointing outward
                 uniqueface_dict = dict(
                     filter(lambda tup: len(tup[1]) == 1, face_pairs.items())
                 )  # tup[1] is the value of key
-                boundaryfaces.add_elems(ftype, face_from_ufacedict(uniqueface_dict))
+                boundaryfaces.add_elems(ftype, face_from_ufacedict(uniqueface_dict, nnode))
                 f2c = np.full((len(uniqueface_dict), 2), -1)
                 # get index of connected cells
                 f2c[:, 0] = list(map(lambda flist: flist[0][1], uniqueface_dict.values()))
@@ -389,7 +393,7 @@ class elem_connectivity:
                 for uface in uniqueface_dict.keys():
                     face_pairs.pop(uface)
                 # get all first face of each pair of tuple (face,ielem)
-                intfaces = face_from_ufacedict(face_pairs)  # 10% COST
+                intfaces = face_from_ufacedict(face_pairs, nnode)  # 10% COST
                 internalfaces.add_elems(ftype, intfaces)
                 # get all elements connections via faces
                 # get index of connected cells # 25% COST
@@ -399,8 +403,9 @@ class elem_connectivity:
                             lambda flist: [flist[0][1], flist[1][1]],
                             face_pairs.values(),
                         )
-                    )
-                )
+                    ),
+                    dtype=np.int64,
+                ).reshape(-1, 2)
                 iface2cell.append(f2c)
 
             return internalfaces, iface2cell, boundaryfaces, bface2cell
-- 
2.43.0


From 4e435587fa0160e2d1fd9399d01a356208af8701 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:31:24 +0000
Subject: [PATCH 09/50] fix: update the number of faces when faces are removed

---
 cfdtools/meshbase/_mesh.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cfdtools/meshbase/_mesh.py b/cfdtools/meshbase/_mesh.py
index a4b57bf..c785ec0 100644
--- a/cfdtools/meshbase/_mesh.py
+++ b/cfdtools/meshbase/_mesh.py
@@ -175,6 +175,7 @@ class Mesh:
                 for key, item in self._faces[facetype].items():
                     del item
                 self._faces.pop(facetype)
+                self.nface = np.sum([fcon['face2node'].nelem for _, fcon in self._faces.items()])
 
     def export_mixedfaces(self):
         mixedfaces_con = _conn.elem_connectivity()
-- 
2.43.0


From b672c43bcf04b14f803537fc0e0c0b5823ae49dd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:31:24 +0000
Subject: [PATCH 10/50] fix: extrusion of tri3 gives the declared prism6
 element

---
 cfdtools/meshbase/_elements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/meshbase/_elements.py b/cfdtools/meshbase/_elements.py
index be7a482..e72c178 100644
--- a/cfdtools/meshbase/_elements.py
+++ b/cfdtools/meshbase/_elements.py
@@ -7,7 +7,7 @@ geodim = {'point': 0, 'line': 1, 'surface': 2, 'volume': 3}
 elem_properties = [
     (0, '   node1', 1, 0, '    bar2'),
     (0, '    bar2', 2, 1, '   quad4'),
-    (0, '    tri3', 3, 2, '  penta6'),
+    (0, '    tri3', 3, 2, '  prism6'),
     (0, '   quad4', 4, 2, '   hexa8'),
     (0, '  tetra4', 4, 3, '    none'),
     (0, '   pyra5', 5, 3, '    none'),
-- 
2.43.0


From 3edab8af0263cd7c3ff27092df4be959f3926111 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:31:24 +0000
Subject: [PATCH 11/50] fix: declare the faces of tri3 in the default (CGNS)
 table

---
 cfdtools/meshbase/_elements.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cfdtools/meshbase/_elements.py b/cfdtools/meshbase/_elements.py
index e72c178..973bfda 100644
--- a/cfdtools/meshbase/_elements.py
+++ b/cfdtools/meshbase/_elements.py
@@ -62,6 +62,7 @@ def group_faces_by_type(connectivity):
 # see https://cgns.github.io/CGNS_docs_current/sids/conv.html#unst_quad
 # QUAD 4 2D
 cgns_elem2faces = {
+    'tri3': {'bar2': [[0, 1], [1, 2], [2, 0]]},
     'quad4': {'bar2': [[0, 1], [1, 2], [2, 3], [3, 0]]},
 }
 
-- 
2.43.0


From 4c9ab7dc8015ba580be0e8f8f613eebd32a8c69f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:32:08 +0000
Subject: [PATCH 12/50] fix: keep an integer number of faces when all faces are
 removed

---
 cfdtools/meshbase/_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/meshbase/_mesh.py b/cfdtools/meshbase/_mesh.py
index c785ec0..cd03353 100644
--- a/cfdtools/meshbase/_mesh.py
+++ b/cfdtools/meshbase/_mesh.py
@@ -175,7 +175,7 @@ class Mesh:
                 for key, item in self._faces[facetype].items():
                     del item
                 self._faces.pop(facetype)
-                self.nface = np.sum([fcon['face2node'].nelem for _, fcon in self._faces.items()])
+                self.nface = sum(fcon['face2node'].nelem for fcon in self._faces.values())
 
     def export_mixedfaces(self):
         mixedfaces_con = _conn.elem_connectivity()
-- 
2.43.0


From b2bcc1def0e04324342ff22c4f122c51687ff2ee Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:32:08 +0000
Subject: [PATCH 13/50] fix: popping cell or node data removes them from the
 mesh

---
 cfdtools/data.py           | 3 +++
 cfdtools/meshbase/_mesh.py | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/cfdtools/data.py b/cfdtools/data.py
index ed853a8..6e24f09 100644
--- a/cfdtools/data.py
+++ b/cfdtools/data.py
@@ -105,6 +105,9 @@ class DataSet(DataSetBase):
     def __getitem__(self, name):
         return self._data[name]
 
+    def pop(self, name):
+        return self._data.pop(name)
+
     def dtstats(self, imin=None, imax=None):
         assert self.Trep == 'timeevol' and 'time' in self.keys()
         t = self._data['time'][imin:imax]
diff --git a/cfdtools/meshbase/_mesh.py b/cfdtools/meshbase/_mesh.py
index cd03353..0f3bdb8 100644
--- a/cfdtools/meshbase/_mesh.py
+++ b/cfdtools/meshbase/_mesh.py
@@ -324,7 +324,7 @@ class Mesh:
         return self._nodedata.pop(name) if name in self._nodedata.keys() else None
 
     def pop_celldata(self, name):
-        return self._celldata.data[name] if self._celldata else None
+        return self._celldata.pop(name) if name in self._celldata.keys() else None
 
     def reindex_boundaryfaces(self):
         assert (
-- 
2.43.0


From 0795695cc6171a59555b9c41660c9cbd585ccacb Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:32:08 +0000
Subject: [PATCH 14/50] fix: honour --remove-node-data and --remove-face-data

---
 cfdtools/_cli.py           | 15 ++++++++++-----
 cfdtools/meshbase/_mesh.py |  3 +++
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/cfdtools/_cli.py b/cfdtools/_cli.py
index 044cf32..c43eb6e 100644
--- a/cfdtools/_cli.py
+++ b/cfdtools/_cli.py
@@ -219,12 +219,17 @@ def write_generic(argv, ext, writer, fname=None):
     log.info("> export mesh ")
     cfdmesh = r.export_mesh()
     #
-    if parser.args().remove_cell_data:
-        for var in parser.args().remove_cell_data:
-            if cfdmesh.pop_celldata(var) is None:
-                log.info(f"  cannot find cell data {var}")
+    removals = (
+        ('node', parser.args().remove_node_data, cfdmesh.pop_nodedata),
+        ('face', parser.args().remove_face_data, cfdmesh.pop_facedata),
+        ('cell', parser.args().remove_cell_data, cfdmesh.pop_celldata),
+    )
+    for location, variables, pop_data in removals:
+        for var in variables or []:
+            if pop_data(var) is None:
+                log.info(f"  cannot find {location} data {var}")
             else:
-                log.info(f"  pop cell data {var}")
+                log.info(f"  pop {location} data {var}")
     #
     if parser.args().outpath is None:
         file.remove_dir()
diff --git a/cfdtools/meshbase/_mesh.py b/cfdtools/meshbase/_mesh.py
index 0f3bdb8..507d8b1 100644
--- a/cfdtools/meshbase/_mesh.py
+++ b/cfdtools/meshbase/_mesh.py
@@ -323,6 +323,9 @@ class Mesh:
     def pop_nodedata(self, name):
         return self._nodedata.pop(name) if name in self._nodedata.keys() else None
 
+    def pop_facedata(self, name):
+        return self._facedata.pop(name) if self._facedata and name in self._facedata.keys() else None
+
     def pop_celldata(self, name):
         return self._celldata.pop(name) if name in self._celldata.keys() else None
 
-- 
2.43.0


From 2fa81aba44170a952c7a417e22434ff5f242a4e9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:32:08 +0000
Subject: [PATCH 15/50] fix: cfdwritecube honours --outpath and never
 overwrites a file

---
 cfdtools/_cli.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cfdtools/_cli.py b/cfdtools/_cli.py
index c43eb6e..11d4019 100644
--- a/cfdtools/_cli.py
+++ b/cfdtools/_cli.py
@@ -324,6 +324,10 @@ def cfdwritecube(argv=None):
     mesh = cube.export_mesh()
     #
     file = api._files(parser.args().filename)
+    if parser.args().outpath is not None:
+        file.change_dir(parser.args().outpath)
+    if file.find_safe_newfile() > 0:
+        log.info("change output to safe new name " + file.filename)
     w = parser._writer(mesh)
     w.write_data(file.filename)
     return file.filename  # filename needed for pytest (for eventual rm)
-- 
2.43.0


From 742deaeec69b2552f4054e42afc81a6a7643d618 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:32:08 +0000
Subject: [PATCH 16/50] fix: keep a zero time and array coordinates, do not
 modify the caller's data

---
 cfdtools/data.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cfdtools/data.py b/cfdtools/data.py
index 6e24f09..9036efe 100644
--- a/cfdtools/data.py
+++ b/cfdtools/data.py
@@ -66,9 +66,9 @@ class DataSetBase:
     def set_nodes(self, x, y=None, z=None):
         """ """
         self._geoprop['x'] = x
-        if y:
+        if y is not None:
             self._geoprop['y'] = y
-        if z:
+        if z is not None:
             self._geoprop['z'] = z
 
     def set_mesh(self, mesh):
@@ -84,7 +84,7 @@ class DataSet(DataSetBase):
         self._data = dict()
 
     def add_data(self, name, data, time=None):
-        if time:
+        if time is not None:
             self._properties['time'] = time
         self._data[name] = data
 
@@ -178,7 +178,8 @@ class DataSetList(DataSetBase):
         self._datalist = []
 
     def add_datalist(self, datalist: dict, time=None):
-        if time:
+        datalist = dict(datalist)
+        if time is not None:
             datalist['time'] = time
         self._datalist.append(datalist)
 
-- 
2.43.0


From 6704ae8ebe158cb89242c16874421b9e65985a0d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:32:08 +0000
Subject: [PATCH 17/50] fix: spectrum and spectrogram must not modify the
 caller's list of names

---
 cfdtools/data.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/cfdtools/data.py b/cfdtools/data.py
index 9036efe..5afbaf9 100644
--- a/cfdtools/data.py
+++ b/cfdtools/data.py
@@ -127,16 +127,14 @@ class DataSet(DataSetBase):
         f = fftm.fftfreq(n, dtavg)
         newdataset = DataSet(self.Xrep, self.ndof, Trep='spectrum')
         newdataset.add_data('freq', f)
-        datalist = datafilter if datafilter else list(self.keys())
-        datalist.remove('time')
+        datalist = [name for name in (datafilter if datafilter else self.keys()) if name != 'time']
         for name in datalist:
             newdataset.add_data(name, np.abs(fftm.fft(self[name])))
         return newdataset
 
     def dataSet_spectrogram(self, datafilter=None, window=None):
         lowcrop = 2
-        datalist = datafilter if datafilter else list(self.keys())
-        datalist.remove('time')
+        datalist = [name for name in (datafilter if datafilter else self.keys()) if name != 'time']
         dtavg, dtdev, ntot = self.dtstats()  # check 'timeevol'
         if dtdev / dtavg > 1.0e-6:
             log.warning(f"dt standard deviation is significant: {100*dtdev / dtavg:.4f}%")
@@ -184,8 +182,7 @@ class DataSetList(DataSetBase):
         self._datalist.append(datalist)
 
     def dataSet(self, datafilter=None):
-        datalist = datafilter if datafilter else list(self.keys())
-        datalist.remove('time')
+        datalist = [name for name in (datafilter if datafilter else self.keys()) if name != 'time']
         dtavg, dtdev, ntot = self.dtstats()  # check 'timeevol'
         if dtdev / dtavg > 1.0e-6:
             log.warning(f"dt standard deviation is significant: {100*dtdev / dtavg:.4f}%")
-- 
2.43.0


From aa16672dd3dc04b4a6db870a79927d217594d6fc Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:32:08 +0000
Subject: [PATCH 18/50] fix: format error messages

---
 cfdtools/data.py     | 2 +-
 cfdtools/ic3/_ic3.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfdtools/data.py b/cfdtools/data.py
index 5afbaf9..edb6a2a 100644
--- a/cfdtools/data.py
+++ b/cfdtools/data.py
@@ -249,7 +249,7 @@ class DataSetList(DataSetBase):
         if isinstance(self._geoprop['mesh'], meshbase.Mesh):
             celldict = dict(self._geoprop['mesh']._cell2node)
         else:
-            api.error_stop("not yet implemented to dump mesh with instance {self._geoprop['mesh']}")
+            api.error_stop(f"not yet implemented to dump mesh with instance {self._geoprop['mesh']}")
         file.write_unsmesh(celldict, self._geoprop['mesh'].nodescoord(ndarray=True), **options)
         #
         hdata = file._h5file.create_group("datalist")
diff --git a/cfdtools/ic3/_ic3.py b/cfdtools/ic3/_ic3.py
index 14558a0..bc12c56 100644
--- a/cfdtools/ic3/_ic3.py
+++ b/cfdtools/ic3/_ic3.py
@@ -197,7 +197,7 @@ def BinaryWrite(bfile, endian, form, varargs):
     try:
         bfile.write(packed_ba)
     except IOError:
-        api.error_stop("Fatal error. Could not write to {bfile.name!r}. Exiting.")
+        api.error_stop(f"Fatal error. Could not write to {bfile.name!r}. Exiting.")
 
 
 class restartSectionHeader:
-- 
2.43.0


From 569eeb043640f2ab6942ddeb2c12c4f29d42a387 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:32:08 +0000
Subject: [PATCH 19/50] fix: check mode, type and version before opening
 (truncating) an hdf5 file

---
 cfdtools/hdf5/_hdf5.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/cfdtools/hdf5/_hdf5.py b/cfdtools/hdf5/_hdf5.py
index 39220d0..da3bf21 100755
--- a/cfdtools/hdf5/_hdf5.py
+++ b/cfdtools/hdf5/_hdf5.py
@@ -33,30 +33,31 @@ class h5File(_files):
         """open hdf5 file and parse some version info
 
         Args:
-            mode (str, default: 'r'): could be 'r', 'r+', 'w', 'w-', 'x', 'a' (see h5py.File)
+            mode (str, default: 'r'): could be 'r', 'r+', 'w', 'w-', 'x' (see h5py.File)
             datatype (_type_, optional): _description_. Defaults to None.
             version (_type_, optional): _description_. Defaults to None.
         """
+        # check arguments first: an existing file must not be truncated by a bad request
+        if mode not in ('r', 'r+', 'w', 'w-', 'x'):
+            error_stop("unknown mode for opening h5 file")
+        if mode in ('w', 'w-', 'x'):
+            assert datatype in _available_types
+            if version is None:
+                error_stop('an existing cfdtools datatype must provide a version number for writing')
         try:
             self._h5file = h5py.File(self._path, mode=mode)
         except NameError:
             raise NameError(f"{self._path} can not be open in {mode} mode.")
         if mode in ('w', 'w-', 'x'):
-            assert datatype in _available_types
             self._h5file.attrs.update({'cfdtools_version': __version__, 'cfd_datatype': datatype})
-            if datatype is not None and (version is None):
-                error_stop('an existing cfdtools datatype must provide a version number for writing')
-            if datatype is not None:
-                self._h5file.attrs.update({'data_version': version})
-        elif mode in ('r', 'r+'):
+            self._h5file.attrs.update({'data_version': version})
+        else:
             # only for cgns file (I guess)
             self._h5ver = self._h5file.get(' hdf5version', None)
             self._datatype = self._h5file.attrs.get('cfd_datatype', None)
             self._cfdtools_version = self._h5file.attrs.get('cfdtools_version', None)
             # if datatype, read or set to 0 (backward compatibility) else ignore
             self._version = self._h5file.attrs.get('data_version', 0 if self._datatype else None)
-        else:
-            error_stop("unknown mode for opening h5 file")
         self._openedmode = mode
 
     def close(self):
-- 
2.43.0


From 43c184739e47105098cd7d23074368cd4e9061fd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:32:08 +0000
Subject: [PATCH 20/50] fix: volumes can be asked twice

---
 cfdtools/vtk/_vtk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/vtk/_vtk.py b/cfdtools/vtk/_vtk.py
index c2d25ad..24c97a2 100644
--- a/cfdtools/vtk/_vtk.py
+++ b/cfdtools/vtk/_vtk.py
@@ -169,7 +169,7 @@ class vtkMesh:
         return lines
 
     def volumes(self):
-        if not self._volume:
+        if self._volume is None:
             self._volume = self._grid.compute_cell_sizes().cell_data["Volume"]
         return self._volume
 
-- 
2.43.0


From 1891953facfe4e08d86d7d8775a45e9d64b939eb Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:32:46 +0000
Subject: [PATCH 21/50] fix: reading a truncated IC3 file is an error

---
 cfdtools/ic3/_ic3.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/cfdtools/ic3/_ic3.py b/cfdtools/ic3/_ic3.py
index bc12c56..e6a4842 100644
--- a/cfdtools/ic3/_ic3.py
+++ b/cfdtools/ic3/_ic3.py
@@ -163,13 +163,7 @@ def BinaryRead(bfile, form, byte_swap, size):
         while True:
             record = bfile.read(size)
             if len(record) != size:
-                log.error(
-                    "mismatched record ({}) and expected ({}) sizes".format(
-                        len(record),
-                        size,
-                    ),
-                )
-                break
+                api.error_stop(f"mismatched record ({len(record)}) and expected ({size}) sizes")
             return s.unpack(record)
     except IOError:
         api.error_stop(f"Fatal error. Could not read {size} bytes from {bfile.name!r}. Exiting.")
-- 
2.43.0


From ed70575a94d04f1eb1a7703b5cbdf2e7ec07a098 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:32:46 +0000
Subject: [PATCH 22/50] fix: IC3 variables are located by their section type
 and all exported

---
 cfdtools/ic3/reader_legacy.py | 40 +++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/cfdtools/ic3/reader_legacy.py b/cfdtools/ic3/reader_legacy.py
index a224267..307eb2d 100644
--- a/cfdtools/ic3/reader_legacy.py
+++ b/cfdtools/ic3/reader_legacy.py
@@ -453,6 +453,21 @@ class reader(binreader):
         fa_count = self.mesh["params"]["fa_count"]
         cv_count = self.mesh["params"]["cv_count"]
 
+        # location of data is given by the type of section, counts may be identical
+        node_sections, face_sections, cell_sections = (
+            [ic3_restart_codes[f"UGP_IO_{loc}_{kind}"] for kind in kinds]
+            for loc, kinds in (
+                ("NO", ("D1", "D3", "II1")),
+                ("FA", ("D1", "D3", "II1")),
+                ("CV", ("D1", "D3", "D33", "II1")),
+            )
+        )
+        section_count = {
+            **dict.fromkeys(node_sections, no_count),
+            **dict.fromkeys(face_sections, fa_count),
+            **dict.fromkeys(cell_sections, cv_count),
+        }
+
         # First come the scalars
         log.info("  First the scalars...")
         reset_offset = True
@@ -465,6 +480,7 @@ class reader(binreader):
                     "UGP_IO_NO_D1",
                     "UGP_IO_NO_II1",
                     "UGP_IO_FA_D1",
+                    "UGP_IO_FA_II1",
                     "UGP_IO_CV_D1",
                     "UGP_IO_CV_II1",
                 ],
@@ -477,14 +493,17 @@ class reader(binreader):
             typesize = properties_ugpcode[h.id[0]]['size']
             nptype = properties_ugpcode[h.id[0]]['numpytype']
             #
-            if h.idata[0] == no_count:
+            if h.idata[0] != section_count[h.id[0]]:
+                api.error_stop(f"Fatal error. Incoherence in dataset {h.name}. Exiting.")
+            elif h.id[0] in node_sections:
                 s = BinaryRead(self.fid, "%d" % no_count + typechar, self.byte_swap, typesize * no_count)
                 scalar = self.variables["nodes"][h.name] = np.asarray(s).astype(nptype)
                 self.nodedata.add_data(h.name, scalar)
-            elif h.idata[0] == fa_count:
+            elif h.id[0] in face_sections:
                 s = BinaryRead(self.fid, "%d" % fa_count + typechar, self.byte_swap, typesize * fa_count)
                 scalar = self.variables["faces"][h.name] = np.asarray(s).astype(nptype)
-            elif h.idata[0] == cv_count:
+                self.facedata.add_data(h.name, scalar)
+            else:
                 ndof = self._set_ndof_properties(h.idata[1])
                 if ndof > 1:
                     self.celldata.Xrep = 'spectralcell'
@@ -503,8 +522,6 @@ class reader(binreader):
                     for uns_type, indices in self.mesh["connectivity"]["cell_indices"].items():
                         scalar = np.concatenate((scalar, aux[indices]))
                 self.celldata.add_data(h.name, scalar)
-            else:
-                api.error_stop(f"Fatal error. Incoherence in dataset {h.name}. Exiting.")
             print_stats_scalar(h.name, scalar)
         log.info("  end of scalars")
 
@@ -526,18 +543,21 @@ class reader(binreader):
                 break
             reset_offset = False
             #
-            if h.idata[0] == no_count:
+            if h.idata[0] != section_count[h.id[0]]:
+                api.error_stop(f"Fatal error. Incoherence in dataset {h.name}. Exiting.")
+            elif h.id[0] in node_sections:
                 s = BinaryRead(
                     self.fid, "%dd" % (no_count * 3), self.byte_swap, type2nbytes["float64"] * no_count * 3
                 )
                 vector = self.variables["nodes"][h.name] = np.asarray(s).reshape((no_count, 3))
-            elif h.idata[0] == fa_count:
-                self.variables["faces"][h.name] = np.zeros((fa_count, 3), dtype=np.float64)
+                self.nodedata.add_data(h.name, vector)
+            elif h.id[0] in face_sections:
                 s = BinaryRead(
                     self.fid, "%dd" % (fa_count * 3), self.byte_swap, type2nbytes["float64"] * fa_count * 3
                 )
                 vector = self.variables["faces"][h.name] = np.asarray(s).reshape((fa_count, 3))
-            elif h.idata[0] == cv_count:
+                self.facedata.add_data(h.name, vector)
+            else:
                 ndof = self._set_ndof_properties(h.idata[1])
                 if ndof > 1:
                     self.celldata.Xrep = 'spectralcell'
@@ -556,8 +576,6 @@ class reader(binreader):
                     for indices in self.mesh["connectivity"]["cell_indices"].values():
                         vector = np.concatenate((vector, aux[indices, :]), axis=0)
                 self.celldata.add_data(h.name, vector)
-            else:
-                api.error_stop(f"Fatal error. Incoherence in dataset {h.name}. Exiting.")
             print_stats_vector(h.name, vector)
         log.info("  end of vectors")
 
-- 
2.43.0


From 4a11cfefcc3916727482b5d22ea6f0066bc615aa Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:32:46 +0000
Subject: [PATCH 23/50] fix: check IC3 data before opening the output, V2
 format has no ndof

---
 cfdtools/ic3/writerV2.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/cfdtools/ic3/writerV2.py b/cfdtools/ic3/writerV2.py
index a7ac120..df23f9b 100644
--- a/cfdtools/ic3/writerV2.py
+++ b/cfdtools/ic3/writerV2.py
@@ -162,13 +162,12 @@ class writer:
         """
         log.info(f"> WRITING FILE {filename!r}")
         self.filename = filename
-        # Open the file for binary reading
+        log.info("> check consistency before writing")
+        if not self.check():
+            raise RuntimeError("Inconsistent data to write")
+        # Open the file for binary writing
         with open(self.filename, "wb") as self.fid:
             #
-            log.info("> check consistency before writing")
-            if not self.check():
-                raise RuntimeError("Inconsistent data to write")
-            #
             log.info("> Writing header")
             self.__WriteRestartHeader()
             #
@@ -195,13 +194,11 @@ class writer:
         check_error = True
         # bad field size
         keylist = []
-        # for key, cellitem in self.vars["cells"].items():
-        #     if cellitem.ndof() != 1:
-        #         keylist.append(key)
-        # if len(keylist) >= 1:
-        #     check_error = False
-        #     log.error('wrong size (ndof) of cell data: ' + keylist.__str__()
-        #     )
+        if self.vars["cells"] and self.vars["cells"].ndof != 1:
+            keylist = list(self.vars["cells"].keys())
+        if len(keylist) >= 1:
+            check_error = False
+            log.error('wrong size (ndof) of cell data: ' + keylist.__str__())
         return check_error
 
     def __WriteRestartHeader(self):
-- 
2.43.0


From 8dc9fa7f6ef29634931be0c6917e7474fa01efd0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:33:21 +0000
Subject: [PATCH 24/50] fix: averaging weights of IC3 files are kept when
 converting

---
 cfdtools/ic3/writerV2.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cfdtools/ic3/writerV2.py b/cfdtools/ic3/writerV2.py
index df23f9b..cf7a485 100644
--- a/cfdtools/ic3/writerV2.py
+++ b/cfdtools/ic3/writerV2.py
@@ -134,6 +134,10 @@ class writer:
             for key in self.simstate.keys():
                 if key in refdict.keys():
                     self.simstate[key] = refdict[key]
+        # weights of averages are read as '<name>_wgt' parameters
+        suffix = '_wgt'
+        weights = {key[: -len(suffix)]: value for key, value in self._mesh._params.items() if key.endswith(suffix)}
+        self.simstate['wgt'] = {**weights, **self.simstate['wgt']}
 
     def set_vars(self):
         """
-- 
2.43.0


From 257c91300ce0f326651c7f1928d39f25202c97cf Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:34:47 +0000
Subject: [PATCH 25/50] fix: all readers have the common interface (cIntegrity,
 ncell)

---
 cfdtools/cgns/cgns.py    | 3 ++-
 cfdtools/ic3/readerV4.py | 7 ++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/cfdtools/cgns/cgns.py b/cfdtools/cgns/cgns.py
index 40a6306..bb0397a 100644
--- a/cfdtools/cgns/cgns.py
+++ b/cfdtools/cgns/cgns.py
@@ -146,8 +146,9 @@ class cgnsfile(h5File):
 
 @fileformat_reader('CGNS', '.cgns')
 class cgnsMesh:
-    def __init__(self, filename) -> None:
+    def __init__(self, filename, cIntegrity=False) -> None:
         self._filename = filename
+        self.check_integrity = cIntegrity
         self._ncell = None
 
     @property
diff --git a/cfdtools/ic3/readerV4.py b/cfdtools/ic3/readerV4.py
index fce4423..67ee3c0 100644
--- a/cfdtools/ic3/readerV4.py
+++ b/cfdtools/ic3/readerV4.py
@@ -32,8 +32,9 @@ class reader:
 
     __version__ = "4"
 
-    def __init__(self, mesh_filename: str, solution_filename: str = None):
+    def __init__(self, mesh_filename: str, solution_filename: str = None, cIntegrity=False):
         """Initialization of a ic3 restart file reader."""
+        self.check_integrity = cIntegrity
         self._mesh_filename = Path(mesh_filename)
         if not self._mesh_filename.exists():
             raise FileExistsError()
@@ -109,6 +110,8 @@ class reader:
             log.info("Reading connectivity...")
             self._read_connectivity(fid)
 
+        self._ncell = self.mesh['params']['cv_count']  # for generic writer and timer
+
         if self._solution_filename is None:
             return
 
@@ -120,8 +123,6 @@ class reader:
             log.info("Reading informative values...")
             self._read_informative_values(fid)
 
-            self._ncell = self.mesh['params']['cv_count']  # for generic writer and timer
-
     def export_mesh(self):
         """Export Mesh."""
         meshdata = _mesh.Mesh(self.mesh['params']['cv_count'], self.mesh['params']['no_count'])
-- 
2.43.0


From f46150cbaaa2e4af93afb80df0a0b678e513e491 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:34:47 +0000
Subject: [PATCH 26/50] fix: IC3V4 solutions without conservative variables can
 be read

---
 cfdtools/ic3/readerV4.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/ic3/readerV4.py b/cfdtools/ic3/readerV4.py
index 67ee3c0..5e9fcf8 100644
--- a/cfdtools/ic3/readerV4.py
+++ b/cfdtools/ic3/readerV4.py
@@ -301,7 +301,7 @@ class reader:
                 else:
                     print_stats_scalar(var_up, field)
 
-        read_vars(fid, ['rho', 'rhou', 'rhoe'])
+        read_vars(fid, [var for var in ('rho', 'rhou', 'rhoe') if var in fid])
 
         if 'VolumeStats' in fid:
             read_vars(fid['VolumeStats'], fid['VolumeStats'].keys())
-- 
2.43.0


From af88e48e1181d000c020a432886d1710abb69bb2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:34:47 +0000
Subject: [PATCH 27/50] fix: explicit error for formats without reader or
 writer

---
 cfdtools/_cli.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cfdtools/_cli.py b/cfdtools/_cli.py
index 11d4019..c34958a 100644
--- a/cfdtools/_cli.py
+++ b/cfdtools/_cli.py
@@ -140,6 +140,8 @@ def cfdinfo(argv=None):
     parser.parse_filenameformat()
     #
     inputfile = Path(parser.args('filename'))
+    if parser._reader is None:
+        api.error_stop(f"no reader available for format {parser._fileformat}")
     r = parser._reader(str(inputfile), cIntegrity=parser.args('check'))
     r.read_data()
     mesh = r.export_mesh()
@@ -212,6 +214,8 @@ def write_generic(argv, ext, writer, fname=None):
     log.info(f"> read mesh file {file.filename}")
     timer = api.Timer()
     timer.start()
+    if parser._reader is None:
+        api.error_stop(f"no reader available for format {parser._fileformat}")
     r = parser._reader(file.filename)
     r.read_data()
     ncell = r.ncell
@@ -317,6 +321,8 @@ def cfdwritecube(argv=None):
     )
     parser.parse_cli_args(argv)
     parser.parse_filenameformat()
+    if parser._writer is None:
+        api.error_stop(f"no writer available for format {parser._fileformat}")
     nx, ny, nz = parser.args().nx, parser.args().ny, parser.args().nz
     #
     log.info(f"> create Cube {nx}x{ny}x{nz}")
-- 
2.43.0


From 4513edcf3bf229cc58fd1a3405a11ec1c9588d12 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:34:47 +0000
Subject: [PATCH 28/50] fix: read all the nodes of gmsh V4 files when last
 block has one node

---
 cfdtools/gmsh/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/gmsh/reader.py b/cfdtools/gmsh/reader.py
index 1e87df5..c0640b5 100755
--- a/cfdtools/gmsh/reader.py
+++ b/cfdtools/gmsh/reader.py
@@ -315,7 +315,7 @@ class reader(api._files):
         log.info("  parse Nodes")
         coords = self.__get_section_from_name(msh, "$Nodes")
         nnodes = int(coords[0][3])
-        nodes = 1
+        nodes = 0
         count = 1
         counter = 1
         x = [None] * (nnodes)
-- 
2.43.0


From 2eb1b19cebe0d3867d188f66e43f914e611920ab Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:34:47 +0000
Subject: [PATCH 29/50] fix: look for gmsh V4 physical groups in entities of
 the right dimension

---
 cfdtools/gmsh/reader.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/cfdtools/gmsh/reader.py b/cfdtools/gmsh/reader.py
index c0640b5..fb213be 100755
--- a/cfdtools/gmsh/reader.py
+++ b/cfdtools/gmsh/reader.py
@@ -300,16 +300,17 @@ class reader(api._files):
 
         # To find the entity number used for concatenation of the mesh.
         # The returned values corresponds to the physical group
-        def find_ent(j):
+        def find_ent(dim, j):
             entities = self.__get_section_from_name(msh, "$Entities")
-            addd = 0  # temporary variable to seek the line and return
-            bot = int(entities[0][0]) + int(entities[0][1])
-            top = int(entities[0][2]) + bot
-            for i in range(bot, top + 1):
-                if j == int(entities[i][0]) and len(entities[i]) >= 8:
-                    addd = int(entities[i][8])
-                    break
-            return addd
+            # points, curves, surfaces and volumes are listed in this order after the header line
+            sizes = [int(n) for n in entities[0]]
+            first = 1 + sum(sizes[:dim])
+            # column of the number of physical groups, after entity index and point or bounding box
+            icol = 4 if dim == 0 else 7
+            for entity in entities[first : first + sizes[dim]]:
+                if j == int(entity[0]):
+                    return int(entity[icol + 1]) if int(entity[icol]) > 0 else 0
+            return 0
 
         # Find the coordinates.
         log.info("  parse Nodes")
@@ -345,7 +346,7 @@ class reader(api._files):
             a = int(elements[count][2])  # dimension
             b = int(2)  # No. of tags
             d = int(elements[count][1])  # Entity group
-            c = find_ent(d)  # Physical group
+            c = find_ent(int(elements[count][0]), d)  # Physical group
             nxtrange = int(elements[count][3])
             for j in range(count + 1, count + nxtrange + 1):
                 elt1 = [int(k) for k in elements[j]]
-- 
2.43.0


From 9de5a8c9670f08b0f5d5b0427b59f2c3e6511bfe Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:34:48 +0000
Subject: [PATCH 30/50] fix: get colormaps with all recent matplotlib versions

---
 cfdtools/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfdtools/plot.py b/cfdtools/plot.py
index 6e378e3..1eb09a5 100644
--- a/cfdtools/plot.py
+++ b/cfdtools/plot.py
@@ -3,8 +3,8 @@ import matplotlib
 
 
 def normalizeCmap(cmapStr, nBins):
-    colormap = matplotlib.cm.get_cmap(cmapStr, nBins)
+    colormap = matplotlib.colormaps[cmapStr].resampled(nBins)
     if isinstance(colormap, matplotlib.colors.LinearSegmentedColormap):
         return matplotlib.colors.LinearSegmentedColormap(cmapStr, segmentdata=colormap._segmentdata, N=nBins)
     else:
-        return matplotlib.colors.ListedColormap(matplotlib.cm.get_cmap(cmapStr, nBins).colors)
+        return matplotlib.colors.ListedColormap(colormap.colors)
-- 
2.43.0


From f1bdf6ec8e0fca9a91e47760c8a602b6d60a8f80 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:34:48 +0000
Subject: [PATCH 31/50] fix: plot probe data whose name has several letters

---
 cfdtools/probes/plot.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cfdtools/probes/plot.py b/cfdtools/probes/plot.py
index 8a3e373..f892d55 100644
--- a/cfdtools/probes/plot.py
+++ b/cfdtools/probes/plot.py
@@ -15,7 +15,7 @@ def check_axis(axisdata):
         axis = np.mean(axisdata, axis=0)
         # print(axis.shape)
         err = np.mean(axisdata**2, axis=0) - axis**2
-        log.info(f"min:avg:max change of several axis {err.shape}: {list(*minavgmax(err))}")
+        log.info(f"min:avg:max change of several axis {err.shape}: {list(minavgmax(err))}")
         log.warning(
             "several lines for axis: they are merged (average change is {:.2e})".format(
                 np.sqrt(np.mean(np.abs(err)))
@@ -29,7 +29,7 @@ def check_axis(axisdata):
 def plot_timemap(data, **kwargs):
     basename = kwargs.get('prefix')
     axis = kwargs.get('axis')
-    var = kwargs.get('datalist')[0]
+    var = kwargs.get('datalist')
     cmap, nlevels = kwargs['cmap'], kwargs['nlevels']
     figname = basename + "." + var + ".time.png"
     fig = plt.figure(1, figsize=(10, 8))
@@ -63,7 +63,7 @@ def plot_timemap(data, **kwargs):
 def plot_freqmap(data, **kwargs):
     basename = kwargs.get('prefix')
     axis = kwargs.get('axis')
-    var = kwargs.get('datalist')[0]
+    var = kwargs.get('datalist')
     cmap, nlevels = kwargs['cmap'], kwargs['nlevels']
     figname = basename + "." + var + ".freq.png"
     t = data.alldata["time"]
@@ -85,7 +85,7 @@ def plot_freqmap(data, **kwargs):
     f = fftm.fftfreq(n, dtavg)
     psdmap = np.abs(fftm.fft(data.alldata[var] - np.average(data.alldata[var]), axis=0))
     if kwargs['verbose']:
-        log.info(data.alldata[var].shape, n, psdmap.shape, f.shape)
+        log.info("- sizes are %r %r %r %r", data.alldata[var].shape, n, psdmap.shape, f.shape)
     colmap = cfdplt.normalizeCmap(cmap, nlevels)
     axis = check_axis(data.alldata[axis])
     plt.contourf(
-- 
2.43.0


From 0d6c90bbc67234630a78fbf10e1059dbb16fb683 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:34:48 +0000
Subject: [PATCH 32/50] fix: the file name property can be set

---
 cfdtools/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/api.py b/cfdtools/api.py
index 165a0f2..c6e8aa6 100644
--- a/cfdtools/api.py
+++ b/cfdtools/api.py
@@ -73,7 +73,7 @@ class _files:
         return str(self._path)
 
     @filename.setter
-    def set_filename(self, filename):
+    def filename(self, filename):
         self._path = Path(filename)
 
     def exists(self):
-- 
2.43.0


From ad734d41b4124e52a98f019f8fcd0be2dbae1e37 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:34:48 +0000
Subject: [PATCH 33/50] fix: cfdtools.data can be imported first

---
 cfdtools/meshbase/_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/meshbase/_mesh.py b/cfdtools/meshbase/_mesh.py
index 507d8b1..aaf1b93 100644
--- a/cfdtools/meshbase/_mesh.py
+++ b/cfdtools/meshbase/_mesh.py
@@ -308,7 +308,7 @@ class Mesh:
     def update_params(self, params):
         self._params.update(params)
 
-    def set_celldata(self, celldata: _data.DataSet):
+    def set_celldata(self, celldata: "_data.DataSet"):
         self._celldata = celldata
 
     def set_facedata(self, facedata):
-- 
2.43.0


From 0399eed6842bc3013b1b553260bdf8892149b00d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:34:48 +0000
Subject: [PATCH 34/50] fix: a final --log option without value must not
 prevent import

---
 cfdtools/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/__init__.py b/cfdtools/__init__.py
index ee3d1a3..4ca9897 100644
--- a/cfdtools/__init__.py
+++ b/cfdtools/__init__.py
@@ -7,7 +7,7 @@ __version__ = "0.6.0"
 level = 'info'
 if '--log' in sys.argv:
     index = sys.argv.index('--log')
-    if not sys.argv[index + 1].startswith('-'):
+    if index + 1 < len(sys.argv) and not sys.argv[index + 1].startswith('-'):
         level = sys.argv[index + 1]
 
 numeric_level = getattr(logging, level.upper(), None)
-- 
2.43.0


From 62cc71b62367db8f11dd26f3f96c9f8520d3fad6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:34:48 +0000
Subject: [PATCH 35/50] fix: check the mesh before opening (truncating) the
 dump file

---
 cfdtools/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/data.py b/cfdtools/data.py
index edb6a2a..f845030 100644
--- a/cfdtools/data.py
+++ b/cfdtools/data.py
@@ -244,12 +244,12 @@ class DataSetList(DataSetBase):
         file = hdf5.h5File(filename)
         if not overwrite:
             file.find_safe_newfile()
-        file.open(mode="w", datatype='datalist', version=self._version)
         # map element types from vtk type to cfdtools type
         if isinstance(self._geoprop['mesh'], meshbase.Mesh):
             celldict = dict(self._geoprop['mesh']._cell2node)
         else:
             api.error_stop(f"not yet implemented to dump mesh with instance {self._geoprop['mesh']}")
+        file.open(mode="w", datatype='datalist', version=self._version)
         file.write_unsmesh(celldict, self._geoprop['mesh'].nodescoord(ndarray=True), **options)
         #
         hdata = file._h5file.create_group("datalist")
-- 
2.43.0


From 77925eaa8fe0859c11e121152c2a82c68ecd18e3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:35:20 +0000
Subject: [PATCH 36/50] fix: gmsh V2 nodes are identified by their number, not
 by their rank

---
 cfdtools/gmsh/reader.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cfdtools/gmsh/reader.py b/cfdtools/gmsh/reader.py
index fb213be..1ee6dde 100755
--- a/cfdtools/gmsh/reader.py
+++ b/cfdtools/gmsh/reader.py
@@ -262,9 +262,14 @@ class reader(api._files):
         log.info("  parse Nodes")
         coords = self.__get_section_from_name(msh, "$Nodes")
         nnodes = int(coords[0][0])
-        x = [float(coords[i][1]) for i in range(1, nnodes + 1)]
-        y = [float(coords[i][2]) for i in range(1, nnodes + 1)]
-        z = [float(coords[i][3]) for i in range(1, nnodes + 1)]
+        x = [None] * (nnodes)
+        y = [None] * (nnodes)
+        z = [None] * (nnodes)
+        for i in range(1, nnodes + 1):
+            pos = int(coords[i][0]) - 1  # nodes may be listed in any order
+            x[pos] = float(coords[i][1])
+            y[pos] = float(coords[i][2])
+            z[pos] = float(coords[i][3])
 
         # Find the elements.
         log.info("  parse Elements")
-- 
2.43.0


From 306865ecec1758486f296023b504b1d10008a752 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:35:20 +0000
Subject: [PATCH 37/50] fix: keep full names of gmsh physical groups including
 spaces

---
 cfdtools/gmsh/reader.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cfdtools/gmsh/reader.py b/cfdtools/gmsh/reader.py
index 1ee6dde..df3486a 100755
--- a/cfdtools/gmsh/reader.py
+++ b/cfdtools/gmsh/reader.py
@@ -250,8 +250,9 @@ class reader(api._files):
             fam = {}
             bctype = {}
             for i in range(1, int(families[0][0]) + 1):
-                fam[families[i][1]] = families[i][2][1:-1]
-                bctype[families[i][2][1:-1]] = families[i][0]
+                name = ' '.join(families[i][2:])[1:-1]  # quoted name may include spaces
+                fam[families[i][1]] = name
+                bctype[name] = families[i][0]
             log.info(f"    found Physical names {fam}")
             log.info(f"    found Entities {bctype}")
         else:
@@ -295,8 +296,9 @@ class reader(api._files):
             fam = {}
             bctype = {}
             for i in range(1, int(families[0][0]) + 1):
-                fam[families[i][1]] = families[i][2][1:-1]
-                bctype[families[i][2][1:-1]] = families[i][0]
+                name = ' '.join(families[i][2:])[1:-1]  # quoted name may include spaces
+                fam[families[i][1]] = name
+                bctype[name] = families[i][0]
             log.info(f"    found Physical names {fam}")
             log.info(f"    found Entities {bctype}")
         else:
-- 
2.43.0


From 9a60125974b68f7b55355262595a49660edbfe77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:09 +0000
Subject: [PATCH 38/50] fix: cfdwrite_* hand the --check option to the reader

---
 cfdtools/_cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/_cli.py b/cfdtools/_cli.py
index c34958a..22bcce6 100644
--- a/cfdtools/_cli.py
+++ b/cfdtools/_cli.py
@@ -216,7 +216,7 @@ def write_generic(argv, ext, writer, fname=None):
     timer.start()
     if parser._reader is None:
         api.error_stop(f"no reader available for format {parser._fileformat}")
-    r = parser._reader(file.filename)
+    r = parser._reader(file.filename, cIntegrity=parser.args().check)
     r.read_data()
     ncell = r.ncell
     timer.stop(nelem=ncell)
-- 
2.43.0


From 2ffdb413ec813ac3aafc729847bd131b7d77f337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:34 +0000
Subject: [PATCH 39/50] fix: IC3 writers refuse bad boundary marks before
 truncating the output file

---
 cfdtools/ic3/writerV2.py | 13 +++++++++----
 cfdtools/ic3/writerV4.py |  6 +-----
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/cfdtools/ic3/writerV2.py b/cfdtools/ic3/writerV2.py
index cf7a485..e99aa95 100644
--- a/cfdtools/ic3/writerV2.py
+++ b/cfdtools/ic3/writerV2.py
@@ -169,6 +169,7 @@ class writer:
         log.info("> check consistency before writing")
         if not self.check():
             raise RuntimeError("Inconsistent data to write")
+        self._check_bocos()
         # Open the file for binary writing
         with open(self.filename, "wb") as self.fid:
             #
@@ -205,6 +206,14 @@ class writer:
             log.error('wrong size (ndof) of cell data: ' + keylist.__str__())
         return check_error
 
+    def _check_bocos(self):
+        """check boundary marks can be written, must be called before the file is opened for writing"""
+        for key, boco in self.bocos.items():
+            assert key == boco.name
+            assert boco.geodim in ('face', 'bdface'), "boco marks must be faces index"
+            assert boco.type in type2zonekind.keys(), f"unsupported type of boco for IC3 output: {boco.type}"
+            assert boco.index.type == 'range', "indexing must be a range and may need reordering"
+
     def __WriteRestartHeader(self):
         """
         Method writing the header of a restart file.
@@ -328,19 +337,15 @@ class writer:
         log.info("  marks (face based)")
         last_boco = 0
         for key, boco in self.bocos.items():
-            assert key == boco.name
-            assert boco.geodim in ('face', 'bdface'), "boco marks must be faces index"
             # Header
             header = restartSectionHeader()
             header.name = key
             header.id = ic3_restart_codes["UGP_IO_FA_ZONE"]
             header.skip = header.hsize
             # diff# print(self.bocos[key]["type"], type2zonekind)
-            assert boco.type in type2zonekind.keys(), f"unsupported type of boco for IC3 output: {boco.type}"
             ifmin, ifmax = boco.index.range()
             log.info(f"  . ({boco.type}) {boco.name}: {ifmin}-{ifmax}")
             header.idata[0] = type2zonekind[boco.type]
-            assert boco.index.type == 'range', "indexing must be a range and may need reordering"
             header.idata[1] = ifmin
             header.idata[2] = ifmax
             last_boco = max(last_boco, ifmax)
diff --git a/cfdtools/ic3/writerV4.py b/cfdtools/ic3/writerV4.py
index dfdc07f..ef4e4ee 100644
--- a/cfdtools/ic3/writerV4.py
+++ b/cfdtools/ic3/writerV4.py
@@ -38,6 +38,7 @@ class writer(writerV2.writer):
     def write_data(self, mesh_filename: str, solution_filename: str = None):
         """Write the ic3 restart file in the HDF5 format."""
         log.info(f"> Writing file {mesh_filename!r}")
+        self._check_bocos()
         # Open the mesh file
         with h5py.File(mesh_filename, "w") as fid:
             log.info("> Writing mesh attributes")
@@ -138,11 +139,6 @@ class writer(writerV2.writer):
         max_range = []
         min_range = []
         for key, boco in self.bocos.items():
-            assert key == boco.name
-            assert boco.geodim in ('face', 'bdface'), "boco marks must be faces index"
-            assert boco.type in type2zonekind.keys(), f"unsupported type of boco for IC3 output: {boco.type}"
-            assert boco.index.type == 'range', "indexing must be a range and may need reordering"
-
             labels.append(key)
             ifmin, ifmax = boco.index.range()
             min_range.append(ifmin)
-- 
2.43.0


From 6a2cdf8b04c8042b7b405700d785d3e26841b133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:40 +0000
Subject: [PATCH 40/50] fix: vtkMesh.dumphdf refuses unsupported cell types
 before truncating the output file

---
 cfdtools/vtk/_vtk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/vtk/_vtk.py b/cfdtools/vtk/_vtk.py
index 24c97a2..c139eda 100644
--- a/cfdtools/vtk/_vtk.py
+++ b/cfdtools/vtk/_vtk.py
@@ -188,9 +188,9 @@ class vtkMesh:
         file = hdf5.h5File(filename)
         if not overwrite:
             file.find_safe_newfile()
-        file.open(mode="w", datatype='dataset', version=self._version)
         # map element types from vtk type to cfdtools type
         celldict = {ele_vtktype[itype]: cellco for itype, cellco in self._grid.cells_dict.items()}
+        file.open(mode="w", datatype='dataset', version=self._version)
         file.write_unsmesh(celldict, self._grid.points, **options)
         file.close()
         return file.filename
-- 
2.43.0


From b8d8696bf314d69576e3f71b05d7454d72dc791b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:18 +0000
Subject: [PATCH 41/50] fix: IC3 v3 writer refuses unsupported scalar types
 before truncating the output file

---
 cfdtools/ic3/writerV3.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cfdtools/ic3/writerV3.py b/cfdtools/ic3/writerV3.py
index 59444b7..eb8a858 100644
--- a/cfdtools/ic3/writerV3.py
+++ b/cfdtools/ic3/writerV3.py
@@ -31,7 +31,14 @@ class writer(writerV2.writer):
         super().__init__(mesh, endian)
 
     def check(self):
-        return True
+        check_error = True
+        # scalar data types select the section type
+        for data in (self.vars["nodes"], self.vars["cells"]):
+            for name, values in data.items():
+                if values.size == values.shape[0] and values.dtype.name not in ("float64", "int64"):
+                    check_error = False
+                    log.error(f'unsupported type of scalar data {name}: {values.dtype.name}')
+        return check_error
 
     def __WriteRestartHeader(self):
         """
-- 
2.43.0


From 027d5e4f1dc52c6c77d0814f66fa1c2e68d73ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:28 +0000
Subject: [PATCH 42/50] fix: modules import without h5py, declared optional
 (Group was missing)

---
 cfdtools/hdf5/_hdf5.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cfdtools/hdf5/_hdf5.py b/cfdtools/hdf5/_hdf5.py
index da3bf21..5af0812 100755
--- a/cfdtools/hdf5/_hdf5.py
+++ b/cfdtools/hdf5/_hdf5.py
@@ -11,6 +11,7 @@ try:
 
     import_h5py = True
 except ImportError:  # pragma: no cover
+    Group = None  # still importable from cfdtools.hdf5
     import_h5py = False
 
 _available_types = ('external', 'dataset', 'datalist', 'probes', 'cfdmesh')
-- 
2.43.0


From 0346d6c295b0b1290f79ae1670602e653ea5180d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:44 +0000
Subject: [PATCH 43/50] fix: XDMF topology name of a prism is Wedge

---
 cfdtools/vtk/_vtk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/vtk/_vtk.py b/cfdtools/vtk/_vtk.py
index c139eda..3e867db 100644
--- a/cfdtools/vtk/_vtk.py
+++ b/cfdtools/vtk/_vtk.py
@@ -36,7 +36,7 @@ if importpyvista:
         CellType.HEXAHEDRON: "Hexahedron",
         CellType.TETRA: "Tetrahedron",
         CellType.PYRAMID: "Pyramid",
-        CellType.WEDGE: "Prism",
+        CellType.WEDGE: "Wedge",
     }
 else:
     log.warning("pyvista missing or failing at import: some features will be missing.")
-- 
2.43.0


From 23b5fc066199c8c60f3350c9ff835bc1150d878e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:13 +0000
Subject: [PATCH 44/50] fix: extrusion of a bar2 gives a quad4 whose nodes turn
 around the face

---
 cfdtools/meshbase/_connectivity.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cfdtools/meshbase/_connectivity.py b/cfdtools/meshbase/_connectivity.py
index dc1360c..d2a4d82 100644
--- a/cfdtools/meshbase/_connectivity.py
+++ b/cfdtools/meshbase/_connectivity.py
@@ -437,6 +437,8 @@ class elem_connectivity:
             elemcon[:, fnnode : 2 * fnnode] += inodeshift
             for i in range(ncell):
                 elemcon[i * nelem : (i + 1) * nelem, :] += i * inodeshift
+            if etype == 'bar2':  # nodes turn around the extruded quad4
+                elemcon = elemcon[:, [0, 1, 3, 2]]
             # print(etype, econ['elem2node'], elemcon)
             index = np.tile(econ['index'].list(), (ncell))
             for i in range(ncell):
-- 
2.43.0


From 9a5a99f2f3ade808c09d73821965d69c75087658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:49 +0000
Subject: [PATCH 45/50] fix: node coordinates given as lists are stored as
 arrays, so meshes read from GMSH can be scaled

---
 cfdtools/meshbase/_mesh.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cfdtools/meshbase/_mesh.py b/cfdtools/meshbase/_mesh.py
index aaf1b93..c0789e0 100644
--- a/cfdtools/meshbase/_mesh.py
+++ b/cfdtools/meshbase/_mesh.py
@@ -132,9 +132,9 @@ class Mesh:
     def set_nodescoord_xyz(self, x, y, z):
         for c in [x, y, z]:
             assert len(c) == self.nnode
-        self._nodes['x'] = x
-        self._nodes['y'] = y
-        self._nodes['z'] = z
+        self._nodes['x'] = np.asarray(x)
+        self._nodes['y'] = np.asarray(y)
+        self._nodes['z'] = np.asarray(z)
 
     def nodescoord(self, ndarray=False):
         coords = tuple(self._nodes[c] for c in ['x', 'y', 'z'])
-- 
2.43.0


From 9a95b02a69710bc17924d5f7f631591d25e313e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:05 +0000
Subject: [PATCH 46/50] fix: reading a GMSH file does not replace the face
 tables of the meshes read afterwards

---
 cfdtools/gmsh/reader.py        | 3 ---
 cfdtools/meshbase/_elements.py | 2 +-
 2 files changed, 1 insertion(+), 4 deletions(-)

diff --git a/cfdtools/gmsh/reader.py b/cfdtools/gmsh/reader.py
index df3486a..5b6e613 100755
--- a/cfdtools/gmsh/reader.py
+++ b/cfdtools/gmsh/reader.py
@@ -38,9 +38,6 @@ class reader(api._files):
         if not self.exists():
             api.error_stop(f"File not found: {self.filename!r}")
 
-        # Set the node ordering convention
-        _elem.elem2faces = _elem.gmsh_elem2faces
-
         # Read file.
         filename = self.filename
         fam, bctype, x, y, z, elts = self.__read_sections(filename)
diff --git a/cfdtools/meshbase/_elements.py b/cfdtools/meshbase/_elements.py
index 973bfda..7aa593f 100644
--- a/cfdtools/meshbase/_elements.py
+++ b/cfdtools/meshbase/_elements.py
@@ -225,5 +225,5 @@ gmsh_elem2faces = {
     'tetra4': group_faces_by_type(gmsh_connectivity_tetra4),
 }
 
-# either CGNS or GMSH to be set in the reader. Default is CGNS.
+# convention shared by all readers: CGNS (readers must not change it, it is common to all meshes of the process)
 elem2faces = cgns_elem2faces
-- 
2.43.0


From 740934605c4f966bee0cdd507df8cfdd338bed2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:30 +0000
Subject: [PATCH 47/50] fix: dictionaries given to set_params, properties and
 data are not modified by later updates

---
 cfdtools/data.py           | 2 +-
 cfdtools/meshbase/_mesh.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cfdtools/data.py b/cfdtools/data.py
index f845030..0950339 100644
--- a/cfdtools/data.py
+++ b/cfdtools/data.py
@@ -94,7 +94,7 @@ class DataSet(DataSetBase):
 
     @data.setter
     def data(self, value):
-        self._data = value
+        self._data = dict(value)  # own copy, changed by add_data and pop
 
     def keys(self):
         return self._data.keys()
diff --git a/cfdtools/meshbase/_mesh.py b/cfdtools/meshbase/_mesh.py
index c0789e0..0a899c8 100644
--- a/cfdtools/meshbase/_mesh.py
+++ b/cfdtools/meshbase/_mesh.py
@@ -80,7 +80,7 @@ class submeshmark:
 
     @properties.setter
     def properties(self, properties: dict):
-        self._properties = properties
+        self._properties = dict(properties)  # own copy, changed by type
 
     def __str__(self):
         return f"{self.name:12} ({self.geodim}): {self.index}"
@@ -303,7 +303,7 @@ class Mesh:
         return newmesh
 
     def set_params(self, params):
-        self._params = params
+        self._params = dict(params)  # own copy, changed by update_params
 
     def update_params(self, params):
         self._params.update(params)
-- 
2.43.0


From d7c058d004a1c85b005f8d196ae8f7de86c312e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:47 +0000
Subject: [PATCH 48/50] fix: transform the samples of the window given to
 dataSet_spectrum, not the whole signal

---
 cfdtools/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/data.py b/cfdtools/data.py
index 0950339..64d283f 100644
--- a/cfdtools/data.py
+++ b/cfdtools/data.py
@@ -129,7 +129,7 @@ class DataSet(DataSetBase):
         newdataset.add_data('freq', f)
         datalist = [name for name in (datafilter if datafilter else self.keys()) if name != 'time']
         for name in datalist:
-            newdataset.add_data(name, np.abs(fftm.fft(self[name])))
+            newdataset.add_data(name, np.abs(fftm.fft(self[name][imin:imax])))
         return newdataset
 
     def dataSet_spectrogram(self, datafilter=None, window=None):
-- 
2.43.0


From 10b9a286aef8b4cdb8f80a7a839660f6a376ab1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:47 +0000
Subject: [PATCH 49/50] fix: count the slices of a spectrogram that fit in the
 signal

---
 cfdtools/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/data.py b/cfdtools/data.py
index 64d283f..1e771d2 100644
--- a/cfdtools/data.py
+++ b/cfdtools/data.py
@@ -143,7 +143,7 @@ class DataSet(DataSetBase):
         hwin = int(nwind / 2)
         f = fftm.fftfreq(nwind, dtavg)
         newdataset.add_data('freq', f[lowcrop : hwin + 1])
-        nit = int(2 * ntot / nwind) - 1
+        nit = (ntot - 1) // hwin - 1  # slices of 2*hwin+1 samples, every hwin samples
         newdataset.add_data('time', (self['time'][hwin::hwin])[:-1])
         for name in datalist:
             v = np.zeros((nit, hwin + 1 - lowcrop))
-- 
2.43.0


From f52edd8ad7161d6f401e8a5837dc9a9d5832eb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:47 +0000
Subject: [PATCH 50/50] fix: frequencies of a spectrogram are those of its
 slices of 2*hwin+1 samples

---
 cfdtools/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/data.py b/cfdtools/data.py
index 1e771d2..bd80a7d 100644
--- a/cfdtools/data.py
+++ b/cfdtools/data.py
@@ -141,7 +141,7 @@ class DataSet(DataSetBase):
         newdataset = DataSet(self.Xrep, self.ndof, Trep='spectrogram')
         nwind = window if window else int(ntot / 100)
         hwin = int(nwind / 2)
-        f = fftm.fftfreq(nwind, dtavg)
+        f = fftm.rfftfreq(2 * hwin + 1, dtavg)
         newdataset.add_data('freq', f[lowcrop : hwin + 1])
         nit = (ntot - 1) // hwin - 1  # slices of 2*hwin+1 samples, every hwin samples
         newdataset.add_data('time', (self['time'][hwin::hwin])[:-1])
-- 
2.43.0

