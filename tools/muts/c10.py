K = "cfdtools/meshbase/_connectivity.py"
F = "cfdtools/meshbase/_mesh.py"
M = [
    ("top nodes of own plane", "C10", K, "            elemcon[:, fnnode : 2 * fnnode] += inodeshift\n", ""),
    ("layer shift i*inode missing", "C10", K, "elemcon[i * nelem : (i + 1) * nelem, :] += i * inodeshift", "elemcon[i * nelem : (i + 1) * nelem, :] += inodeshift"),
    ("layer shift only bottom", "C10", K, "elemcon[i * nelem : (i + 1) * nelem, :] += i * inodeshift", "elemcon[i * nelem : (i + 1) * nelem, :fnnode] += i * inodeshift"),
    ("index shift nelem", "C10", K, "index[i * nelem : (i + 1) * nelem] += i * self.nelem", "index[i * nelem : (i + 1) * nelem] += i * nelem"),
    ("index shift none", "C10", K, "            for i in range(ncell):\n                index[i * nelem : (i + 1) * nelem] += i * self.nelem\n", ""),
    ("ncell planes", "C10", K, "ncell = nplanes - 1", "ncell = nplanes"),
    ("last layer forgotten", "C10", K, "            for i in range(ncell):\n                elemcon", "            for i in range(ncell - 1):\n                elemcon"),
    ("first layer skip ok", None, K, "            for i in range(ncell):\n                elemcon", "            for i in range(1, ncell):\n                elemcon"),
    ("bar not turned", "C10", K, "elemcon = elemcon[:, [0, 1, 3, 2]]", "elemcon = elemcon[:, [0, 1, 2, 3]]"),
    ("quad turned", "C10", K, "            if etype == 'bar2':", "            if fnnode == 4:"),
    ("total of new con", "C10", K, "i * self.nelem", "i * newcon.nelem"),
    ("np tile order", "C10", K, "np.tile(econ['index'].list(), (ncell))", "np.repeat(econ['index'].list(), ncell)"),
    ("coords sign", "C10", F, "+= s * np.array(direction)", "-= s * np.array(direction)"),
    ("coords index instead of s", "C10", F, "+= s * np.array(direction)", "+= i * np.array(direction)"),
    ("coords cumulate", "C10", F, "newcoords[i * ntotnode : (i + 1) * ntotnode, :] += s", "newcoords[i * ntotnode :, :] += s"),
    ("marks shift", "C10", F, "index[i * nbcnode : (i + 1) * nbcnode] += i * ntotnode", "index[i * nbcnode : (i + 1) * nbcnode] += i * nbcnode"),
    ("marks nodes count", "C10", F, "            nbcnode = boco.index.size\n", "            nbcnode = ntotnode\n"),
    ("marks one plane less", "C10", F, "            for i in range(nrange):\n                index[", "            for i in range(nrange - 1):\n                index["),
    ("last plane nrange", "C10", F, "(nrange - 1) * ntotnode).tolist()", "nrange * ntotnode).tolist()"),
    ("last plane 1", "C10", F, "(nrange - 1) * ntotnode).tolist()", "ntotnode).tolist()"),
    ("mark geodim", "C10", F, "            newboco.geodim = boco.geodim\n", "            newboco.geodim = 'intnode'\n"),
    ("mark type", "C10", F, "            newboco.type = boco.type\n", "            newboco.type = 'boundary'\n"),
    ("no refusal", "C10", F, '            assert boco.nodebased(), "extrusion only possible with node marks"\n', ''),
    ("ends exchanged", "C10", F, "newboco = submeshmark(name=domain + '1')", "newboco = submeshmark(name=domain + '2')"),
    ("default offsets", "C10", F, "extrude = [0.0, 1.0]", "extrude = [0.0, 2.0]"),
    ("default direction", "C10", F, "direction = np.array([0.0, 0.0, 1.0])", "direction = np.array([0.0, 1.0, 0.0])"),
    ("prism type", "C10", "cfdtools/meshbase/_elements.py", "'tri3': 'prism6'", "'tri3': 'tetra4'"),
    ("nodes per plane", "C10", F, "self._cell2node.extrude(nrange, ntotnode)", "self._cell2node.extrude(nrange, ntotnode + 1)"),
    ("nplanes arg", "C10", F, "self._cell2node.extrude(nrange, ntotnode)", "self._cell2node.extrude(nrange + 1, ntotnode)"),
    ("nodelist first type only", "C10", K, "        for _, econ in self.items():\n            nodeset.update(econ['elem2node'].ravel().tolist())", "        for _, econ in self.items():\n            nodeset = set(econ['elem2node'].ravel().tolist())"),
    ("nodelist first column", "C10", K, "nodeset.update(econ['elem2node'].ravel().tolist())", "nodeset.update(econ['elem2node'][:, 0].tolist())"),
    # behaviour kept
    ("rf concatenate layers", None, K, "            elemcon = np.tile(econ['elem2node'], (ncell, 2))\n            fnnode = _elem.nnode_elem[etype]\n            elemcon[:, fnnode : 2 * fnnode] += inodeshift\n            for i in range(ncell):\n                elemcon[i * nelem : (i + 1) * nelem, :] += i * inodeshift\n",
     "            fnnode = _elem.nnode_elem[etype]\n            layer = np.hstack((econ['elem2node'], econ['elem2node'] + inodeshift))\n            elemcon = np.concatenate([layer + i * inodeshift for i in range(ncell)], axis=0)\n"),
    ("rf add repeat", None, K, "            index = np.tile(econ['index'].list(), (ncell))\n            for i in range(ncell):\n                index[i * nelem : (i + 1) * nelem] += i * self.nelem\n", "            index = np.tile(econ['index'].list(), ncell) + np.repeat(np.arange(ncell) * self.nelem, nelem)\n"),
    ("rf marks comprehension", None, F, "            index = np.tile(boco.index.list(), (nrange))\n            nbcnode = boco.index.size\n            for i in range(nrange):\n                index[i * nbcnode : (i + 1) * nbcnode] += i * ntotnode\n            newboco.index = _conn.indexlist(ilist=index.tolist())", "            index = [n + i * ntotnode for i in range(nrange) for n in boco.index.list()]\n            newboco.index = _conn.indexlist(ilist=index)"),
    ("rf coords stacked", None, F, "        newcoords = np.tile(self.nodescoord(ndarray=True), (nrange, 1))\n        for i, s in enumerate(extrude_range):\n            newcoords[i * ntotnode : (i + 1) * ntotnode, :] += s * np.array(direction)\n", "        coords = self.nodescoord(ndarray=True)\n        newcoords = np.vstack([coords + s * np.array(direction) for s in extrude_range])\n"),
    ("rf start variable", None, K, "            for i in range(ncell):\n                elemcon[i * nelem : (i + 1) * nelem, :] += i * inodeshift\n", "            for i in range(ncell):\n                start = i * nelem\n                elemcon[start : start + nelem] += i * inodeshift\n"),
    ("rf nodelist unique", None, K, "        nodeset = set()\n        for _, econ in self.items():\n            nodeset.update(econ['elem2node'].ravel().tolist())\n        return list(nodeset)", "        allnodes = np.concatenate([econ['elem2node'].ravel() for _, econ in self.items()])\n        return np.unique(allnodes).tolist()"),
    ("rf reshape", None, F, "        newcoords = np.tile(self.nodescoord(ndarray=True), (nrange, 1))\n        for i, s in enumerate(extrude_range):\n            newcoords[i * ntotnode : (i + 1) * ntotnode, :] += s * np.array(direction)\n", "        newcoords = (self.nodescoord(ndarray=True)[None, :, :] + np.outer(extrude_range, direction)[:, None, :]).reshape(-1, 3)\n"),
]
