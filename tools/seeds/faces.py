import os, sys
sys.path.insert(0, os.path.dirname(__file__))
from common import PRE
K = "cfdtools/meshbase/_connectivity.py"

S = [
 dict(id="c29-face-key", property="C29",
      edits=[(K, "face_pairs[tuple(sorted(tface[0]))]", "face_pairs[(min(tface[0]), max(tface[0]), sum(tface[0]))]")],
      needs="two different faces with the same smallest node, largest node and sum of nodes (nodes not numbered plane by plane)",
      breaks="two boundary faces are taken for one face shared by two cells",
      demo=PRE + '''
from cfdtools.meshbase._connectivity import elem_connectivity
from itertools import permutations
bad = []
for perm in list(permutations(range(8)))[::37]:
    e = elem_connectivity()
    e.add_elems("hexa8", np.array([[perm[i] for i in range(8)]]))
    _, _, bf, bc = e.create_faces_from_elems()
    if sum(len(i["elem2node"]) for _, i in bf.items()) != 6:
        bad.append(perm)
if bad:
    fail("one hexahedron %s does not have six boundary faces" % (bad[0],))
'''),
 dict(id="c29-neighbour-order", property="C29",
      edits=[(K, "lambda flist: [flist[0][1], flist[1][1]],", "lambda flist: sorted((flist[0][1], flist[1][1])),")],
      needs="a shared face that comes earlier in the list of faces of the cell with the larger number",
      breaks="an internal face points into the first of its two cells",
      demo=PRE + '''
from cfdtools.meshbase._connectivity import elem_connectivity, indexlist
e = elem_connectivity()
e.add_elems("tri3", np.array([[0, 1, 2], [2, 1, 3]]))
f, c, bf, bc = e.create_faces_from_elems()
(i, nodes), = list(f.index_elem_tuples())
own = int(c.conn[0][0])
import collections
around = [list(map(int, nodes))] + [list(map(int, n)) for k, n in bf.index_elem_tuples() if bc.conn[k][0] == own]
if len({n[0] for n in around}) != 3 or len({n[1] for n in around}) != 3:
    fail("faces %s of cell %d do not go round it" % (around, own))
'''),
]
