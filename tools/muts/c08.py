G = "cfdtools/gmsh/reader.py"
K = "cfdtools/cgns/cgns.py"
CELLS = "            connectivity[elt_type] = np.array(connectivity[elt_type]) - 1\n"
BC = "                connect_bc[bnd_tag][elt_type] = np.array(connect_bc[bnd_tag][elt_type]) - 1\n"
M = [
    ("cells not shifted", "C08", G, CELLS, CELLS.replace(" - 1", "")),
    ("cells shifted twice", "C08", G, CELLS, CELLS.replace(" - 1", " - 2")),
    ("bc not shifted", "C08", G, BC, BC.replace(" - 1", "")),
    ("bc only last tag", None, G, "        for bnd_tag in connect_bc.keys():\n            for elt_type in connect_bc[bnd_tag].keys():\n" + BC,
     "        for elt_type in connect_bc[bnd_tag].keys():\n" + BC[4:]),
    ("v2 nodes shifted at parse too", None, G, "            elts.append([int(j) for j in elements[i]])", "            elts.append([int(j) for j in elements[i][:5]] + [int(j) - 1 for j in elements[i][5:]])"),
    ("export shifts again", "C08", G, "                cellconn.add_elems(etype, econn)", "                cellconn.add_elems(etype, econn - 1)"),
    ("mark shift again", "C08", G, "boco.index = _conn.indexlist(ilist=bc_dict['slicing'])", "boco.index = _conn.indexlist(ilist=bc_dict['slicing'] - 1)"),
    ("merge family shifted again", "C08", G, '                bc2["slicing"] += raveled.tolist()', '                bc2["slicing"] += (raveled - 1).tolist()'),
    ("node pos not shifted v2", "C08", G, "            pos = int(coords[i][0]) - 1  # nodes may be listed in any order", "            pos = int(coords[i][0]) - 2"),
    ("cgns econ", "C08", K, "                econ -= 1  # shift node index (starts 0)\n", ""),
    ("cgns range", "C08", K, 'irange=elements["ElementRange/ data"][:] - 1', 'irange=elements["ElementRange/ data"][:]'),
    ("cgns pointlist", "C08", K, '(BC["PointList/ data"][:] - 1)', '(BC["PointList/ data"][:])'),
    ("cgns elementlist", "C08", K, '(BC["ElementList/ data"][:] - 1)', '(BC["ElementList/ data"][:])'),
    ("cgns index shifted later", "C08", K, "boco.index = _conn.indexlist(ilist=nodelist)", "boco.index = _conn.indexlist(ilist=[i - 1 for i in nodelist])"),
    ("cgns shift facecon twice", "C08", K, "        return self.elemcon(self._geodim - 1)", "        con = self.elemcon(self._geodim - 1)\n        for etype, e2n in con.items():\n            e2n['elem2node'] -= 1\n        return con"),
    # behaviour kept
    ("refactor comprehension", None, G, CELLS, "            rows = connectivity[elt_type]\n            connectivity[elt_type] = np.asarray(rows, dtype=int) - np.int64(1)\n"),
    ("refactor items", None, G, "        for elt_type in connectivity.keys():\n" + CELLS, "        connectivity = {etype: np.array(rows) - 1 for etype, rows in connectivity.items()}\n"),
    ("refactor shift at append", None, [(G, CELLS, "            connectivity[elt_type] = np.array(connectivity[elt_type])\n"),
                                        ][0][0], "                    connectivity[elt_type].append(elt[3 + ntag :])", "                    nodes = elt[3 + ntag :]\n                    connectivity[elt_type].append(nodes)"),
    ("refactor per node", None, [(G, CELLS, "            connectivity[elt_type] = np.array(connectivity[elt_type])\n"),
                                 (G, "                    connectivity[elt_type].append(elt[3 + ntag :])", "                    connectivity[elt_type].append([n - 1 for n in elt[3 + ntag :]])")]),
    ("refactor helper", None, [(G, CELLS, "            connectivity[elt_type] = self._zero_based(connectivity[elt_type])\n"), (G, BC, "                connect_bc[bnd_tag][elt_type] = self._zero_based(connect_bc[bnd_tag][elt_type])\n"),
                               (G, "    def export_mesh(self):", "    @staticmethod\n    def _zero_based(rows):\n        return np.array(rows) - 1\n\n    def export_mesh(self):")]),
    ("refactor inplace", None, G, CELLS, "            arr = np.array(connectivity[elt_type])\n            arr -= 1\n            connectivity[elt_type] = arr\n"),
    ("refactor cgns", None, K, "                econ -= 1  # shift node index (starts 0)\n                cellconn.add_elems(etype, econ, index)", "                cellconn.add_elems(etype, econ - 1, index)"),
    ("refactor cgns subtract", None, K, "                econ -= 1  # shift node index (starts 0)\n", "                econ = np.subtract(econ, 1)\n"),
    ("refactor slicing", None, G, '                bc["slicing"] += raveled.tolist()\n            bc["slicing"] = np.array(bc["slicing"])\n            bc["type"] = "boundary"', '                bc["slicing"].extend(int(n) for n in raveled)\n            bc["slicing"] = np.array(bc["slicing"])\n            bc["type"] = "boundary"'),
    ("v2 all shifted at parse too", None, G, "            elts.append([int(j) for j in elements[i]])", "            elts.append([int(elements[i][0]), int(elements[i][1]), int(elements[i][2])] + [int(j) - 1 for j in elements[i][3:]])"),
    ("refactor slicing shift in place", None, [(G, BC, BC.replace(" - 1", "")), (G, '                bc2["slicing"] += raveled.tolist()', '                bc2["slicing"] += (raveled - 1).tolist()'),
        (G, '            bc["slicing"] = np.array(bc["slicing"])\n            bc["type"] = "boundary"', '            bc["slicing"] = np.array(bc["slicing"]) - 1\n            bc["type"] = "boundary"')]),
]
