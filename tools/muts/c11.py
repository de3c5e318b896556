F = "cfdtools/meshbase/simple.py"
M = [
    ("node stride ny", "C11", F, "return k + (self._nz + 1) * (j + (self._ny + 1) * i)", "return k + (self._nz + 1) * (j + (self._nx + 1) * i)"),
    ("node stride nz", "C11", F, "return k + (self._nz + 1) * (j + (self._ny + 1) * i)", "return k + (self._ny + 1) * (j + (self._ny + 1) * i)"),
    ("node no +1", "C11", F, "return k + (self._nz + 1) * (j + (self._ny + 1) * i)", "return k + (self._nz + 1) * (j + self._ny * i)"),
    ("node i fastest", "C11", F, "return k + (self._nz + 1) * (j + (self._ny + 1) * i)", "return i + (self._nx + 1) * (j + (self._ny + 1) * k)"),
    ("elem stride", "C11", F, "return k + self._nz * (j + self._ny * i)", "return k + self._nz * (j + self._nx * i)"),
    ("elem stride2", "C11", F, "return k + self._nz * (j + self._ny * i)", "return k + self._ny * (j + self._ny * i)"),
    ("elem i fastest ok", "C11", F, "return k + self._nz * (j + self._ny * i)", "return i + self._nx * (j + self._nz * k)"),
    ("elem i fastest fine", None, F, "return k + self._nz * (j + self._ny * i)", "return i + self._nx * (j + self._ny * k)"),
    ("corners swapped", "C11", F, "self.nodeglobindex_ijk(ei + 1, ej + 1, ek),\n                            self.nodeglobindex_ijk(ei, ej + 1, ek),", "self.nodeglobindex_ijk(ei, ej + 1, ek),\n                            self.nodeglobindex_ijk(ei + 1, ej + 1, ek),"),
    ("corner twice", "C11", F, "self.nodeglobindex_ijk(ei + 1, ej + 1, ek + 1),", "self.nodeglobindex_ijk(ei + 1, ej + 1, ek),"),
    ("corner beyond", "C11", F, "self.nodeglobindex_ijk(ei + 1, ej, ek + 1),", "self.nodeglobindex_ijk(ei + 1, ej, ek + 2),"),
    ("inside out", "C11", F, """                            self.nodeglobindex_ijk(ei, ej, ek),
                            self.nodeglobindex_ijk(ei + 1, ej, ek),
                            self.nodeglobindex_ijk(ei + 1, ej + 1, ek),
                            self.nodeglobindex_ijk(ei, ej + 1, ek),
                            self.nodeglobindex_ijk(ei, ej, ek + 1),
                            self.nodeglobindex_ijk(ei + 1, ej, ek + 1),
                            self.nodeglobindex_ijk(ei + 1, ej + 1, ek + 1),
                            self.nodeglobindex_ijk(ei, ej + 1, ek + 1),
""", """                            self.nodeglobindex_ijk(ei, ej, ek),
                            self.nodeglobindex_ijk(ei, ej + 1, ek),
                            self.nodeglobindex_ijk(ei + 1, ej + 1, ek),
                            self.nodeglobindex_ijk(ei + 1, ej, ek),
                            self.nodeglobindex_ijk(ei, ej, ek + 1),
                            self.nodeglobindex_ijk(ei, ej + 1, ek + 1),
                            self.nodeglobindex_ijk(ei + 1, ej + 1, ek + 1),
                            self.nodeglobindex_ijk(ei + 1, ej, ek + 1),
"""),
    ("imax nx-1", "C11", F, "product([self._nx], range(self._ny + 1), range(self._nz + 1))", "product([self._nx - 1], range(self._ny + 1), range(self._nz + 1))"),
    ("jmin z range", "C11", F, "product(range(self._nx + 1), [0], range(self._nz + 1))", "product(range(self._nx + 1), [0], range(self._nz))"),
    ("kmin ranges exchanged", "C11", F, "product(range(self._nx + 1), range(self._ny + 1), [0])", "product(range(self._ny + 1), range(self._nx + 1), [0])"),
    ("kmax uses ny", "C11", F, "range(self._ny + 1), [self._nz])", "range(self._ny + 1), [self._ny])"),
    ("jmax imax swapped names", "C11", F, "'imax': {'ijknodes': product([self._nx], range(self._ny + 1), range(self._nz + 1))},\n            'jmin': {'ijknodes': product(range(self._nx + 1), [0], range(self._nz + 1))},\n", "'jmin': {'ijknodes': product([self._nx], range(self._ny + 1), range(self._nz + 1))},\n            'imax': {'ijknodes': product(range(self._nx + 1), [0], range(self._nz + 1))},\n"),
    ("x over ny", "C11", F, "return (i / float(self._nx), j / float(self._ny), k / float(self._nz))", "return (i / float(self._nx), j / float(self._nz), k / float(self._ny))"),
    ("x uses j", "C11", F, "return (i / float(self._nx), j / float(self._ny), k / float(self._nz))", "return (j / float(self._nx), i / float(self._ny), k / float(self._nz))"),
    ("x over nx+1", "C11", F, "return (i / float(self._nx),", "return (i / float(self._nx + 1),"),
    ("cells range nodes", "C11", F, "product(range(self._nx), range(self._ny), range(self._nz))", "product(range(self._nx), range(self._ny), range(self._nz + 1))"),
    ("cells order exchanged", "C11", F, "product(range(self._nx), range(self._ny), range(self._nz))", "product(range(self._ny), range(self._nx), range(self._nz))"),
    ("nnode", "C11", F, "(nx + 1) * (ny + 1) * (nz + 1)\n", "(nx + 1) * (ny + 1) * nz\n"),
    ("ncell", "C11", F, "self.ncell = nx * ny * nz", "self.ncell = nx * ny * (nz + 1)"),
    ("ctor exchanged", "C11", F, "        self._ny = ny\n        self._nz = nz", "        self._ny = nz\n        self._nz = ny"),
    ("geodim", "C11", F, "bcmark.geodim = 'bdnode'", "bcmark.geodim = 'intnode'"),
    # behaviour kept
    ("rf k slowest everywhere", None, F, "return k + (self._nz + 1) * (j + (self._ny + 1) * i)", "return (self._nz + 1) * (self._ny + 1) * i + (self._nz + 1) * j + k"),
    ("rf column stack", None, F, [("        hexa2node = np.array(\n            list(\n                zip(\n                    *tuple(\n                        c.tolist()\n                        for c in [\n", "        hexa2node = np.column_stack([\n"), ], None),
    ("rf marks by helper", None, F, "            ni, nj, nk = np.array(list(task['ijknodes'])).T\n            nodes = self.nodeglobindex_ijk(ni, nj, nk)\n            bcmark.index = _conn.indexlist(ilist=nodes.tolist())", "            nodes = [self.nodeglobindex_ijk(i, j, k) for i, j, k in task['ijknodes']]\n            bcmark.index = _conn.indexlist(ilist=nodes)"),
    ("rf range index", None, F, "return hexa2node, index.tolist()", "return hexa2node, list(range(self.ncell))"),
    ("rf default index", None, F, "cell2node.add_elems('hexa8', np.array(hexanode), _conn.indexlist(ilist=ielem))", "cell2node.add_elems('hexa8', np.array(hexanode))"),
    ("rf xyz division", None, F, "return (i / float(self._nx), j / float(self._ny), k / float(self._nz))", "return (i / self._nx, j / self._ny, k / self._nz)"),
    ("rf product order", None, F, "product(range(self._nx), range(self._ny), range(self._nz))", "((i, j, k) for i in range(self._nx) for j in range(self._ny) for k in range(self._nz))"),
    ("rf corner offsets", None, F, """                        c.tolist()
                        for c in [
                            self.nodeglobindex_ijk(ei, ej, ek),
                            self.nodeglobindex_ijk(ei + 1, ej, ek),
                            self.nodeglobindex_ijk(ei + 1, ej + 1, ek),
                            self.nodeglobindex_ijk(ei, ej + 1, ek),
                            self.nodeglobindex_ijk(ei, ej, ek + 1),
                            self.nodeglobindex_ijk(ei + 1, ej, ek + 1),
                            self.nodeglobindex_ijk(ei + 1, ej + 1, ek + 1),
                            self.nodeglobindex_ijk(ei, ej + 1, ek + 1),
                        ]
""", """                        self.nodeglobindex_ijk(ei + di, ej + dj, ek + dk).tolist()
                        for dk in (0, 1)
                        for di, dj in ((0, 0), (1, 0), (1, 1), (0, 1))
"""),
    ("rf meshgrid", None, F, "ei, ej, ek = map(np.array, zip(*self.elem_ijk()))", "ei, ej, ek = (g.ravel() for g in np.meshgrid(np.arange(self._nx), np.arange(self._ny), np.arange(self._nz), indexing='ij'))"),
]
M = [m for m in M if isinstance(m[3], str)]
