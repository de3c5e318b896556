G = "cfdtools/gmsh/reader.py"
Q = '            assert'
M = [
    ("v2 x column", "C28", G, "x[pos] = float(coords[i][1])", "x[pos] = float(coords[i][0])"),
    ("v2 y z swapped", "C28", G, "            y[pos] = float(coords[i][2])\n            z[pos] = float(coords[i][3])\n", "            z[pos] = float(coords[i][2])\n            y[pos] = float(coords[i][3])\n"),
    ("v2 first node skipped", "C28", G, "for i in range(1, nnodes + 1):\n            pos", "for i in range(2, nnodes + 1):\n            pos"),
    ("v2 last node skipped", "C28", G, "for i in range(1, nnodes + 1):\n            pos", "for i in range(1, nnodes):\n            pos"),
    ("v2 nodes in order of lines", None, G, "pos = int(coords[i][0]) - 1  # nodes may be listed in any order", "pos = i - 1"),
    ("v2 elements from 0", "C28", G, "for i in range(1, nelems + 1):", "for i in range(0, nelems):"),
    ("type column", "C28", G, "                elt_type = gmshtype_elem[elt[1]]\n                if elt_type in mesh_elt:", "                elt_type = gmshtype_elem[elt[2]]\n                if elt_type in mesh_elt:"),
    ("cell nodes fixed 2 tags", "C28", G, "connectivity[elt_type].append(elt[3 + ntag :])", "connectivity[elt_type].append(elt[5:])"),
    ("cell nodes 2+ntag", "C28", G, "connectivity[elt_type].append(elt[3 + ntag :])", "connectivity[elt_type].append(elt[2 + ntag :])"),
    ("bc nodes 5", "C28", G, "connect_bc[bnd_tag][elt_type].append(elt[3 + ntag :])", "connect_bc[bnd_tag][elt_type].append(elt[5:])"),
    ("bc family is elementary tag", "C28", G, "bnd_fam = elt[3]", "bnd_fam = elt[4]"),
    ("bc dim", "C28", G, "if dim == self._maxdim - 1]", "if dim == self._maxdim - 2]"),
    ("bc dim 1", "C28", G, "if dim == self._maxdim - 1]", "if dim == 1]"),
    ("mesh dim", "C28", G, "if dim == self._maxdim]", "if dim == 3]"),
    ("bc le", "C28", G, "if dim == self._maxdim - 1]", "if dim <= self._maxdim - 1]"),
    ("name first word", "C28", G, "name = ' '.join(families[i][2:])[1:-1]  # quoted name may include spaces\n                fam[families[i][1]] = name\n                bctype[name] = families[i][0]\n            log.info(f\"    found Physical names {fam}\")\n            log.info(f\"    found Entities {bctype}\")\n        else:\n            fam = None\n            bctype = None\n\n        # Find the coordinates.", "name = families[i][2][1:-1]\n                fam[families[i][1]] = name\n                bctype[name] = families[i][0]\n        else:\n            fam = None\n            bctype = None\n\n        # Find the coordinates."),
    ("name key dim", "C28", G, "                fam[families[i][1]] = name\n                bctype[name] = families[i][0]\n            log.info(f\"    found Physical names {fam}\")\n            log.info(f\"    found Entities {bctype}\")\n        else:\n            fam = None\n            bctype = None\n\n        # To", "                fam[families[i][0]] = name\n                bctype[name] = families[i][0]\n        else:\n            fam = None\n            bctype = None\n\n        # To"),
    ("name key int", "C28", G, "                fam[families[i][1]] = name\n                bctype[name] = families[i][0]\n            log.info(f\"    found Physical names {fam}\")\n            log.info(f\"    found Entities {bctype}\")\n        else:\n            fam = None\n            bctype = None\n\n        # To", "                fam[int(families[i][1])] = name\n                bctype[name] = families[i][0]\n        else:\n            fam = None\n            bctype = None\n\n        # To"),
    ("v4 coords no cnt", "C28", G, "y[pos] = float(coords[i + cnt][1])", "y[pos] = float(coords[i + cnt][2])"),
    ("v4 coords offset", "C28", G, "z[pos] = float(coords[i + cnt][2])", "z[pos] = float(coords[i + cnt - 1][2])"),
    ("v4 counter", "C28", G, "counter = counter + 2 * cnt + 1", "counter = counter + 2 * cnt"),
    ("v4 counter 1", "C28", G, "counter = counter + 2 * cnt + 1", "counter = counter + cnt + 1"),
    ("v4 cnt column", "C28", G, "cnt = int(coords[counter][3])", "cnt = int(coords[counter][2])"),
    ("v4 cnt of first", "C28", G, "cnt = int(coords[counter][3])", "cnt = int(coords[1][3])"),
    ("v4 start", "C28", G, "        count = 1\n        neltypes", "        count = 0\n        neltypes"),
    ("v4 elem block step", "C28", G, "count += nxtrange + 1", "count += nxtrange"),
    ("v4 elem type col", "C28", G, "a = int(elements[count][2])", "a = int(elements[count][0])"),
    ("v4 entity dim", "C28", G, "c = find_ent(int(elements[count][0]), d)", "c = find_ent(int(elements[count][2]), d)"),
    ("v4 entity tag", None, G, "d = int(elements[count][1])  # Entity group", "d = int(elements[1][1])"),
    ("v4 icol", "C28", G, "icol = 4 if dim == 0 else 7", "icol = 7"),
    ("v4 physical is count", "C28", G, "return int(entity[icol + 1]) if", "return int(entity[icol]) if"),
    ("v4 sizes", "C28", G, "first = 1 + sum(sizes[:dim])", "first = sum(sizes[:dim])"),
    ("v4 sizes dim+1", "C28", G, "first = 1 + sum(sizes[:dim])", "first = 1 + sum(sizes[: dim + 1])"),
    ("v4 all entities", "C28", G, "for entity in entities[first : first + sizes[dim]]:", "for entity in entities[1:]:"),
    ("version 3", "C28", G, "if self.version <= 2:", "if self.version <= 3:"),
    ("version lt 2", "C28", G, "if self.version <= 2:", "if self.version < 2:"),
    ("version ge 3", "C28", G, "elif self.version >= 4:", "elif self.version >= 3:"),
    ("version else", "C28", G, "elif self.version >= 4:", "elif self.version:"),
    ("no ascii check", "C28", G, '        assert int(version[0][1]) == 0, "only ASCII version is supported"\n', ''),
    ("no size check", "C28", G, '        assert int(version[0][2]) == 8, "size of float must be 8 (64bits)"\n', ''),
    ("ascii column", "C28", G, 'assert int(version[0][1]) == 0,', 'assert int(version[0][2]) != 0,'),
    ("end mark", "C28", G, 'iend = msh.index(["$End" + sectionName[1:]])', 'iend = msh.index(["$EndElements"])'),
    # behaviour kept
    ("rf assert as if", None, G, '        assert int(version[0][1]) == 0, "only ASCII version is supported"\n', '        if int(version[0][1]) != 0:\n            raise AssertionError("only ASCII version is supported")\n'),
    ("rf nnodes slice", None, G, "        for i in range(1, nnodes + 1):\n            pos = int(coords[i][0]) - 1  # nodes may be listed in any order\n            x[pos] = float(coords[i][1])\n            y[pos] = float(coords[i][2])\n            z[pos] = float(coords[i][3])\n",
     "        for line in coords[1 : nnodes + 1]:\n            tag, xx, yy, zz = line[:4]\n            pos = int(tag) - 1\n            x[pos], y[pos], z[pos] = float(xx), float(yy), float(zz)\n"),
    ("rf insert slice", None, G, "                elt1.insert(1, a)\n                elt1.insert(2, b)\n                elt1.insert(3, c)\n                elt1.insert(4, d)\n                elts.append(elt1)", "                elts.append(elt1[:1] + [a, b, c, d] + elt1[1:])"),
    ("rf elts comprehension", None, G, "        for i in range(1, nelems + 1):\n            elts.append([int(j) for j in elements[i]])\n", "        elts = [[int(j) for j in line] for line in elements[1 : nelems + 1]]\n"),
    ("rf dims direct", None, G, "                if elt_type in mesh_elt:\n", "                if _elem.dim_elem[elt_type] == self._maxdim:\n"),
    ("rf max builtin", None, G, "self._maxdim = np.amax([_elem.dim_elem[gmshtype_elem[e[1]]] for e in elts])", "self._maxdim = max(_elem.dim_elem[gmshtype_elem[e[1]]] for e in elts)"),
    ("rf names by int", None, G, [], []),
    ("rf version order", None, G, "        if self.version <= 2:\n            return self.__read_sections_V2(msh)\n        elif self.version >= 4:\n            return self.__read_sections_V4(msh)\n        else:\n", "        if self.version >= 4:\n            return self.__read_sections_V4(msh)\n        if self.version < 3:\n            return self.__read_sections_V2(msh)\n        if True:\n"),
    ("rf v4 counter", None, G, "            for i in range(counter + 1, counter + cnt + 1):\n                pos = int(coords[i][0]) - 1\n                x[pos] = float(coords[i + cnt][0])\n                y[pos] = float(coords[i + cnt][1])\n                z[pos] = float(coords[i + cnt][2])\n", "            for k in range(cnt):\n                i = counter + 1 + k\n                pos = int(coords[i][0]) - 1\n                x[pos] = float(coords[i + cnt][0])\n                y[pos] = float(coords[i + cnt][1])\n                z[pos] = float(coords[i + cnt][2])\n"),
    ("rf v4 accumulated", None, G, "            counter = counter + 2 * cnt + 1", "            counter += 1\n            counter += cnt * 2"),
]
M = [m for m in M if m[3] != []]
