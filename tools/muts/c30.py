M_ = "cfdtools/meshbase/_mesh.py"
G = "cfdtools/cgns/cgns.py"
V = "cfdtools/vtk/_vtk.py"
D = "cfdtools/data.py"
SC = """        self.set_nodescoord_xyz(
            self._nodes['x'] * scale_xyz[0],
            self._nodes['y'] * scale_xyz[1],
            self._nodes['z'] * scale_xyz[2],
        )
"""
ND = """        for i, c in enumerate(['x', 'y', 'z']):
            self._nodes[c] = xyz[:, i]
"""
GET = """        coords = tuple(self._nodes[c] for c in ['x', 'y', 'z'])
        return np.column_stack(coords) if ndarray else coords
"""
XY = """        self._nodes['x'] = np.asarray(x)
        self._nodes['y'] = np.asarray(y)
        self._nodes['z'] = np.asarray(z)
"""
MO = """        newx, newy, newz = fmorph(self._nodes['x'], self._nodes['y'], self._nodes['z'])
        self.set_nodescoord_xyz(newx, newy, newz)
"""
M = [
    ("scale z by y", "C30", M_, "self._nodes['z'] * scale_xyz[2]", "self._nodes['z'] * scale_xyz[1]"),
    ("scale swap", "C30", M_, "self._nodes['y'] * scale_xyz[1]", "self._nodes['z'] * scale_xyz[1]"),
    ("scale in turn", "C30", M_, SC, "        for c, s in zip('xyz', scale_xyz):\n            self._nodes[c] = self._nodes['x'] * s\n"),
    ("scale once", "C30", M_, SC, "        self.set_nodescoord_nd(np.asarray(self.nodescoord(ndarray=True)) * max(scale_xyz[0], scale_xyz[1]))\n"),
    ("morph in turn", "C30", M_, MO, "        for i, c in enumerate('xyz'):\n            self._nodes[c] = fmorph(self._nodes['x'], self._nodes['y'], self._nodes['z'])[i]\n"),
    ("morph yz", "C30", M_, "        self.set_nodescoord_xyz(newx, newy, newz)\n", "        self.set_nodescoord_xyz(newx, newz, newy)\n"),
    ("nd reshape", "C30", M_, ND, "        for i, c in enumerate(['x', 'y', 'z']):\n            self._nodes[c] = xyz.ravel()[i * self.nnode : (i + 1) * self.nnode]\n"),
    ("nd order", "C30", M_, ND, ND.replace("['x', 'y', 'z']", "['x', 'z', 'y']")),
    ("get sorted", "C30", M_, GET, GET.replace("['x', 'y', 'z']", "sorted(self._nodes, reverse=True)")),
    ("get stack", "C30", M_, "np.column_stack(coords) if ndarray", "np.stack(coords).reshape(-1, 3) if ndarray"),
    ("xyz y", "C30", M_, "self._nodes['z'] = np.asarray(z)", "self._nodes['z'] = np.asarray(y)"),
    ("xyz list", "C30", M_, XY, "        self._nodes['x'], self._nodes['y'], self._nodes['z'] = x, y, z\n"),
    ("cgns zy", "C30", G, "        return x, y, z\n", "        return x, z, y\n"),
    ("cgns name", "C30", G, "z = self._zone['GridCoordinates']['CoordinateZ/ data'][:]", "z = self._zone['GridCoordinates']['CoordinateY/ data'][:]"),
    ("cgns order of groups", "C30", G, """        x = self._zone['GridCoordinates']['CoordinateX/ data'][:]
        y = self._zone['GridCoordinates']['CoordinateY/ data'][:]
        z = self._zone['GridCoordinates']['CoordinateZ/ data'][:]
        return x, y, z
""", """        return tuple(self._zone['GridCoordinates'][f'Coordinate{c}/ data'][:] for c in 'XZY')
"""),
    ("vtk in", "C30", V, "mesh.set_nodescoord_nd(self._grid.points)", "mesh.set_nodescoord_nd(self._grid.points[:, ::-1])"),
    ("vtk out", "C30", V, "coords = self._mesh.nodescoord(ndarray=True)", "coords = np.array(self._mesh.nodescoord()).reshape(-1, 3)"),
    ("hdf5 out", "C30", D, "self._geoprop['mesh'].nodescoord(ndarray=True), **options)", "np.array(self._geoprop['mesh'].nodescoord()).reshape(-1, 3), **options)"),
    # behaviour kept
    ("rf scale loop", None, M_, SC, "        coords = self.nodescoord()\n        self.set_nodescoord_xyz(*[c * s for c, s in zip(coords, scale_xyz)])\n"),
    ("rf scale dict", None, M_, SC, "        for i, c in enumerate('xyz'):\n            self._nodes[c] = self._nodes[c] * scale_xyz[i]\n"),
    ("rf scale nd", None, M_, SC, "        self.set_nodescoord_nd(self.nodescoord(ndarray=True) * np.asarray(scale_xyz))\n"),
    ("rf morph star", None, M_, MO, "        self.set_nodescoord_xyz(*fmorph(*self.nodescoord()))\n"),
    ("rf nd", None, M_, ND, "        self.set_nodescoord_xyz(xyz[:, 0], xyz[:, 1], xyz[:, 2])\n"),
    ("rf nd T", None, M_, ND, "        self._nodes.update(zip('xyz', np.asarray(xyz).T))\n"),
    ("rf xyz", None, M_, XY, "        for name, c in zip('xyz', (x, y, z)):\n            self._nodes[name] = np.asarray(c)\n"),
    ("rf xyz dict", None, M_, XY, "        self._nodes = {name: np.array(c) for name, c in zip('xyz', (x, y, z))}\n"),
    ("rf get", None, M_, GET, "        x, y, z = (self._nodes[c] for c in 'xyz')\n        if ndarray:\n            return np.stack((x, y, z), axis=1)\n        return x, y, z\n"),
    ("rf get T", None, M_, GET, "        coords = [self._nodes[c] for c in 'xyz']\n        if not ndarray:\n            return tuple(coords)\n        return np.array(coords).T\n"),
    ("rf cgns", None, G, """        x = self._zone['GridCoordinates']['CoordinateX/ data'][:]
        y = self._zone['GridCoordinates']['CoordinateY/ data'][:]
        z = self._zone['GridCoordinates']['CoordinateZ/ data'][:]
        return x, y, z
""", """        coords = self._zone['GridCoordinates']
        return tuple(coords[f'Coordinate{c}'][' data'][:] for c in 'XYZ')
"""),
    ("rf vtk", None, V, "mesh.set_nodescoord_nd(self._grid.points)", "points = np.asarray(self._grid.points)\n        mesh.set_nodescoord_xyz(points[:, 0], points[:, 1], points[:, 2])"),
]
