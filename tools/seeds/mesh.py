import os, sys
sys.path.insert(0, os.path.dirname(__file__))
from common import PRE
M, K, E, S_ = ("cfdtools/meshbase/" + x for x in ("_mesh.py", "_connectivity.py", "_elements.py", "simple.py"))

S = [
 dict(id="c09-merge-order-f2c", property="C09",
      edits=[(M, """                self._faces['boundary']['face2cell'].conn,
                self._faces['internal']['face2cell'].conn,
            ),
            axis=0,""", """                self._faces['internal']['face2cell'].conn,
                self._faces['boundary']['face2cell'].conn,
            ),
            axis=0,""")],
      needs="internal and boundary faces merged, then rows of both tables compared",
      breaks="face-to-cell rows of merged faces are in another order than the faces",
      demo=PRE + '''
m = cube(2, 1, 1)
m.make_face_connectivity()
f2n, f2c = m.export_mixedfaces()
cells = dict(m._cell2node.index_elem_tuples())
for i, nodes in f2n.index_elem_tuples():
    for c in f2c.conn[i]:
        if c >= 0 and not set(nodes) <= set(cells[c]):
            fail("face %d is not a face of cell %d" % (i, c))
'''),
 dict(id="c09-reindex-inverse", property="C09",
      edits=[(M, "self._faces['boundary']['face2cell'].conn = self._faces['boundary']['face2cell'].conn[oldindex, :]",
              "self._faces['boundary']['face2cell'].conn = self._faces['boundary']['face2cell'].conn[newindex, :]")],
      needs="marks whose renumbering is not an involution (three marks, interleaved faces)",
      breaks="cells of boundary faces follow the inverse permutation",
      demo=PRE + '''
m = cube(3, 2, 2)
m.make_face_connectivity()
m.bocomarks_set_node_to_face()
m.make_unmarked_BC()
m.reindex_boundaryfaces()
cells = dict(m._cell2node.index_elem_tuples())
b = m._faces["boundary"]
for i, nodes in b["face2node"].index_elem_tuples():
    c = b["face2cell"].conn[i, 0]
    if not set(nodes) <= set(cells[c]):
        fail("face %d is not a face of cell %d" % (i, c))
'''),
 dict(id="c10-extrude-layer-offset", property="C10",
      edits=[(K, "index = np.tile(econ['index'].list(), (ncell))", "index = np.repeat(econ['index'].list(), ncell)")],
      needs="a surface mesh with two element types and at least three planes",
      breaks="extruded cells of different types share indices",
      demo=PRE + '''
from cfdtools.meshbase._mesh import Mesh
from cfdtools.meshbase._connectivity import elem_connectivity
m = Mesh(ncell=3, nnode=7)
e = elem_connectivity()
e.add_elems("quad4", np.array([[0, 1, 4, 3], [1, 2, 5, 4]]))
e.add_elems("tri3", np.array([[3, 4, 6]]))
m.set_cell2node(e)
m.set_nodescoord_nd(np.array([[0, 0, 0], [1, 0, 0], [2, 0, 0], [0, 1, 0], [1, 1, 0], [2, 1, 0], [.5, 2, 0]], dtype=float))
x = m.export_extruded(extrude=[0., 1., 2.])
idx = sorted(x._cell2node.all_index())
if idx != list(range(6)):
    fail("indices of cells: %s" % idx)
'''),
 dict(id="c10-last-plane-mark", property="C10",
      edits=[(M, "index = (np.array(index) + (nrange - 1) * ntotnode).tolist()", "index = (np.array(index) + ntotnode).tolist()")],
      needs="an extrusion over more than two planes",
      breaks="the mark of the last plane designates the nodes of the second plane",
      demo=PRE + '''
from cfdtools.meshbase._mesh import Mesh
from cfdtools.meshbase._connectivity import elem_connectivity
m = Mesh(ncell=1, nnode=4)
e = elem_connectivity()
e.add_elems("quad4", np.array([[0, 1, 2, 3]]))
m.set_cell2node(e)
m.set_nodescoord_nd(np.array([[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0]], dtype=float))
x = m.export_extruded(extrude=[0., 1., 3.], domain="d")
z = x.nodescoord(ndarray=True)[:, 2]
if set(z[x._bocos["d1"].index.list()]) != {3.0}:
    fail("last plane mark is on z=%s" % set(z[x._bocos["d1"].index.list()]))
'''),
 dict(id="c11-elem-stride", property="C11",
      edits=[(S_, "return k + self._nz * (j + self._ny * i)", "return k + self._nz * (j + self._nx * i)")],
      needs="a cube with nx different from ny",
      breaks="cell numbers are not those of the declared numbering: they collide or leave holes",
      demo=PRE + '''
m = cube(3, 2, 1)
idx = sorted(m._cell2node.all_index())
if idx != list(range(6)):
    fail("indices of cells: %s" % idx)
'''),
 dict(id="c11-jmax-mark", property="C11",
      edits=[(S_, "'jmax': {'ijknodes': product(range(self._nx + 1), [self._ny], range(self._nz + 1))}",
              "'jmax': {'ijknodes': product(range(self._nx + 1), [self._nz], range(self._nz + 1))}")],
      needs="a cube with ny different from nz",
      breaks="mark jmax holds the nodes of another plane",
      demo=PRE + '''
m = cube(2, 3, 2)
y = np.asarray(m.nodescoord()[1])
s = set(y[m._bocos["jmax"].index.list()])
if s != {1.0}:
    fail("jmax on y=%s" % s)
'''),
 dict(id="c11-node-order", property="C11",
      edits=[(S_, "return list(product(range(self._nx + 1), range(self._ny + 1), range(self._nz + 1)))",
              "return [(i, j, k) for j in range(self._ny + 1) for i in range(self._nx + 1) for k in range(self._nz + 1)]")],
      needs="looking at coordinates of numbered nodes",
      breaks="coordinates are listed in another order than the numbering used by cells and marks",
      demo=PRE + '''
m = cube(2, 3, 4)
x, y, z = map(np.asarray, m.nodescoord())
c = m._cell2node["hexa8"][0]
if x[c[0]] == x[c[1]] or y[c[0]] != y[c[1]]:
    fail("first edge of the first cell is not along x")
'''),
 dict(id="c23-readd-faces", property="C23",
      edits=[(M, "        self.nface = np.sum([fcon['face2node'].nelem for _, fcon in self._faces.items()])", "        self.nface += face2node.nelem")],
      needs="faces of the same kind set twice (faces rebuilt)",
      breaks="the number of faces adds up the replaced table and the new one",
      demo=PRE + '''
m = cube(2, 2, 2)
m.make_face_connectivity()
m.make_face_connectivity()
n = sum(f["face2node"].nelem for f in m._faces.values())
if m.nface != n:
    fail("nface %d for %d faces" % (m.nface, n))
'''),
 dict(id="c23-append-indirection", property="C23",
      edits=[(K, """            assert array.shape[1] == 2
            self.conn = np.concatenate((self.conn, array), axis=0)""", """            assert array.shape[1] == 2
            self._conn = np.concatenate((self.conn, array), axis=0)""")],
      needs="a second table appended to an indirection (two face types)",
      breaks="the reported number of rows stays the one of the first table",
      demo=PRE + '''
from cfdtools.meshbase._connectivity import indexindirection
i = indexindirection(np.array([[0, 1]]))
i.append(np.array([[1, 2], [2, 3]]))
if i.nelem != i.conn.shape[0]:
    fail("nelem %d for %d rows" % (i.nelem, i.conn.shape[0]))
'''),
 dict(id="c18-shift-inplace", property="C18",
      edits=[(K, "            return indexlist(ilist=[j + i for j in self._list])", """            if i:
                for k in range(len(self._list)):
                    self._list[k] += i
            return indexlist(ilist=self._list)""")],
      needs="a connectivity with listed (not ranged) indices merged in second position, used again afterwards",
      breaks="merging tables shifts the indices of the merged table itself",
      demo=PRE + '''
from cfdtools.meshbase._connectivity import elem_connectivity, indexlist
a, b = elem_connectivity(), elem_connectivity()
a.add_elems("tri3", np.array([[0, 1, 2], [1, 2, 3]]))
b.add_elems("quad4", np.array([[0, 1, 2, 3]]), indexlist(ilist=[0]))
m = elem_connectivity()
m.importfrom_merge([a, b])
if b.all_index() != [0]:
    fail("merged table modified: %s" % b.all_index())
'''),
 dict(id="c18-extrude-direction", property="C18",
      edits=[(M, "newcoords = np.tile(self.nodescoord(ndarray=True), (nrange, 1))",
              "direction /= np.linalg.norm(direction)\n        newcoords = np.tile(self.nodescoord(ndarray=True), (nrange, 1))"),
             (M, "            direction = np.array([0.0, 0.0, 1.0])", "            direction = (0.0, 0.0, 1.0)\n        direction = np.asarray(direction, dtype=float)")],
      needs="a direction given as an array of floats that is not of length one and is used again",
      breaks="the caller's direction is normalised in place",
      demo=PRE + '''
from cfdtools.meshbase._mesh import Mesh
from cfdtools.meshbase._connectivity import elem_connectivity
m = Mesh(ncell=1, nnode=4)
e = elem_connectivity()
e.add_elems("quad4", np.array([[0, 1, 2, 3]]))
m.set_cell2node(e)
m.set_nodescoord_nd(np.array([[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0]], dtype=float))
d = np.array([0., 0., 2.])
m.export_extruded(direction=d, extrude=[0., 1.])
if d[2] != 2.0:
    fail("direction modified")
'''),
 dict(id="c07-prism-face", property="C07",
      edits=[(E, "    'F3': ['N3', 'N1', 'N4', 'N6'],", "    'F3': ['N1', 'N3', 'N4', 'N6'],")],
      needs="a prism in a mesh whose faces are built",
      breaks="one side of prisms is a crossed quadrangle: its edges belong to no other face",
      demo=PRE + '''
from collections import Counter
from cfdtools.meshbase._elements import elem2faces
c = Counter()
for fl in elem2faces["prism6"].values():
    for f in fl:
        for a, b in zip(f, f[1:] + f[:1]):
            c[(a, b)] += 1
if any(c[(b, a)] != n for (a, b), n in c.items()):
    fail("edges of prism faces do not match")
'''),
 dict(id="c07-tetra-orientation", property="C07",
      edits=[(E, """connectivity_tetra4 = set_starting_index_to_zero(face_corners)
connectivity_tetra4 = set_inward_normal(connectivity_tetra4)
""", """connectivity_tetra4 = set_starting_index_to_zero(face_corners)
""")],
      needs="tetrahedra mixed with other elements",
      breaks="faces of tetrahedra are oriented to the other side than those of other elements",
      demo=PRE + '''
from cfdtools.meshbase._elements import elem2faces
X = {"tetra4": [[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]],
     "hexa8": [[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0], [0, 0, 1], [1, 0, 1], [1, 1, 1], [0, 1, 1]]}
side = {}
for e, p in X.items():
    p = np.array(p, dtype=float)
    for fl in elem2faces[e].values():
        for f in fl:
            n = np.cross(p[f[1]] - p[f[0]], p[f[2]] - p[f[1]])
            side.setdefault(e, set()).add(np.sign(np.dot(n, p[f].mean(axis=0) - p.mean(axis=0))))
if side["tetra4"] != side["hexa8"]:
    fail("orientation differs: %s" % side)
'''),
 dict(id="c24-default-index", property="C24",
      edits=[(K, """class elem_connectivity:
    def __init__(self):
        self._nelem = 0
        self._elem2node = OrderedDict()
""", """class elem_connectivity:
    def __init__(self, elem2node=OrderedDict()):
        self._nelem = 0
        self._elem2node = elem2node
        if not any(v['elem2node'].size for v in elem2node.values()):
            self._elem2node.clear()
        else:
            self._elem2node = OrderedDict()
""")],
      needs="two connectivities alive in the same process, the first one still empty when the second is made",
      breaks="two empty connectivities share one table",
      demo=PRE + '''
from cfdtools.meshbase._connectivity import elem_connectivity
a = elem_connectivity()
b = elem_connectivity()
a.add_elems("tri3", np.array([[0, 1, 2]]))
if len(list(b.keys())):
    fail("tables shared")
'''),
 dict(id="c24-class-bocos", property="C24",
      edits=[(M, "        self._properties = {}\n\n    @property\n    def name", "        self._properties = self._default_properties\n\n    @property\n    def name"),
             (M, "    def __init__(self, name):\n        self._name = name", "    _default_properties = {'type': 'boundary'}\n\n    def __init__(self, name):\n        self._name = name")],
      needs="two marks of different types made one after the other",
      breaks="all marks share their properties: the type of the last one wins",
      demo=PRE + '''
from cfdtools.meshbase._mesh import submeshmark
a, b = submeshmark("a"), submeshmark("b")
a.type = "boundary"
b.type = "perio_cart"
if a.type != "boundary":
    fail("type of another mark changed")
'''),
 dict(id="c26-node-any", property="C26",
      edits=[(M, """            list_missing = list(set(self._faces['boundary']['face2node'].all_index()) - set(list_marked))
            if list_missing:""", """            list_missing = list(set(self._faces['boundary']['face2node'].all_index()) - set(list_marked))
            if not list_marked:""")],
      needs="a mesh with marks that do not cover all boundary faces, written to IC3",
      breaks="unmarked faces are only marked when there is no mark at all: the others are lost",
      demo=PRE + '''
m = cube(2, 2, 2)
m.remove_boco("kmax")
m.make_face_connectivity()
m.bocomarks_set_node_to_face()
m.make_unmarked_BC()
n = len(m.list_boco_index())
if n != m._faces["boundary"]["face2node"].nelem:
    fail("%d faces marked" % n)
'''),
]
S = [s for s in S if s["id"] not in ("c23-append-indirection", "c24-class-bocos")]  # these fail the tests
