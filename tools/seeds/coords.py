import os, sys
sys.path.insert(0, os.path.dirname(__file__))
from common import PRE
M = "cfdtools/meshbase/_mesh.py"
G = "cfdtools/cgns/cgns.py"
S = [
 dict(id="c30-scale-in-turn", property="C30",
      edits=[(M, """            self._nodes['z'] * scale_xyz[2],
        )
""", """            self._nodes['z'] * scale_xyz[-2],
        )
""")],
      needs="different factors for y and z",
      breaks="z is multiplied by the factor of y",
      demo=PRE + '''
m = cube(2, 2, 2)
x, y, z = (np.array(c) for c in m.nodescoord())
m.scale([2., 3., 5.])
got = m.nodescoord()
for c, a, b, f in zip("xyz", got, (x, y, z), (2., 3., 5.)):
    if not np.allclose(a, b * f):
        fail("%s is not multiplied by %g" % (c, f))
'''),
 dict(id="c30-morph-order", property="C30",
      edits=[(M, "fmorph(self._nodes['x'], self._nodes['y'], self._nodes['z'])", "fmorph(*(self._nodes[c] for c in sorted(self._nodes, reverse=self._nodes['x'][0] > self._nodes['x'][-1])))")],
      needs="a mesh whose first node has a larger x than its last node",
      breaks="the function of morph is given z, y, x",
      demo=PRE + '''
m = cube(2, 3, 4)
x, y, z = (np.array(c) for c in m.nodescoord())
m.set_nodescoord_xyz(-x, y, z)
m.morph(lambda a, b, c: (a, b + 1, c + 2))
got = m.nodescoord()
for c, a, b in zip("xyz", got, (-x, y + 1, z + 2)):
    if not np.allclose(a, b):
        fail("%s is not what the function returned" % c)
'''),
]
