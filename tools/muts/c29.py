F = "cfdtools/meshbase/_connectivity.py"
MM = "cfdtools/meshbase/_mesh.py"
LOOP = """                    for eface in face_of_elem:
                        reindex_f = elemsarray[:, list(reversed(eface))].tolist()
                        faces_neighbour[ftype].extend(
                            [(tuple(fnodes), ind) for fnodes, ind in zip(reindex_f, index)]
                        )
"""
PAIRS = """                face_pairs = defaultdict(list)
                for tface in listfaces:
                    face_pairs[tuple(sorted(tface[0]))].append(tface)  # 50% COST
"""
UNIQ = """                uniqueface_dict = dict(
                    filter(lambda tup: len(tup[1]) == 1, face_pairs.items())
                )  # tup[1] is the value of key
"""
POP = """                for uface in uniqueface_dict.keys():
                    face_pairs.pop(uface)
"""
F2C = """                            lambda flist: [flist[0][1], flist[1][1]],
"""
NODES = "        joinlist = list(chain.from_iterable(map(dict(zip(ind, f2n)).get, elemlist)))\n        return list(set(joinlist))  # make unique\n"
M = [
    ("not reversed", "C29", F, "list(reversed(eface))", "list(eface)"),
    ("cell rank", "C29", F, "for fnodes, ind in zip(reindex_f, index)]", "for ind, fnodes in enumerate(reindex_f)]"),
    ("first face dropped", "C29", F, "for eface in face_of_elem:", "for eface in face_of_elem[1:]:"),
    ("key not sorted", "C29", F, "face_pairs[tuple(sorted(tface[0]))]", "face_pairs[tuple(tface[0])]"),
    ("key min max", "C29", F, "face_pairs[tuple(sorted(tface[0]))]", "face_pairs[(min(tface[0]), max(tface[0]))]"),
    ("key three nodes", "C29", F, "face_pairs[tuple(sorted(tface[0]))]", "face_pairs[tuple(sorted(tface[0])[:2])]"),
    ("unique all", "C29", F, "lambda tup: len(tup[1]) == 1, face_pairs.items()", "lambda tup: len(tup[1]) >= 1, face_pairs.items()"),
    ("unique two", "C29", F, "lambda tup: len(tup[1]) == 1, face_pairs.items()", "lambda tup: len(tup[1]) == 2, face_pairs.items()"),
    ("no pop", "C29", F, POP, ""),
    ("face second", "C29", F, "map(lambda flist: flist[0][0], uface_dict.values())", "map(lambda flist: flist[-1][0], uface_dict.values())"),
    ("f2c swapped", "C29", F, F2C, F2C.replace("flist[0][1], flist[1][1]", "flist[1][1], flist[0][1]")),
    ("f2c same", "C29", F, F2C, F2C.replace("flist[1][1]", "flist[0][1]")),
    ("boundary zero", "C29", F, "f2c = np.full((len(uniqueface_dict), 2), -1)", "f2c = np.full((len(uniqueface_dict), 2), 0)"),
    ("boundary second column", "C29", F, "f2c[:, 0] = list(map(", "f2c[:, 1] = list(map("),
    ("f2c order", "C29", F, "                            face_pairs.values(),\n", "                            reversed(list(face_pairs.values())),\n"),
    ("f2c sorted", "C29", F, "                            face_pairs.values(),\n", "                            sorted(face_pairs.values(), key=lambda flist: flist[0][1]),\n"),
    ("returned swapped", "C29", F, "return internalfaces, iface2cell, boundaryfaces, bface2cell", "return internalfaces, bface2cell, boundaryfaces, iface2cell"),
    ("boundary into internal", "C29", F, "                bface2cell.append(f2c)\n", "                iface2cell.append(f2c)\n"),
    ("mesh swap", "C29", MM, "            boundfaces,\n            boundf2c,\n        ) = self", "            boundf2c,\n            boundfaces,\n        ) = self"),
    ("mesh keeps mixed", "C29", MM, "        self.pop_faces('mixed')  # remove if it exists\n", ""),
    ("mesh names", "C29", MM, "        self.add_faces('internal', intfaces, intf2c)\n        self.add_faces('boundary', boundfaces, boundf2c)", "        self.add_faces('internal', boundfaces, boundf2c)\n        self.add_faces('boundary', intfaces, intf2c)"),
    ("nodes last type", "C29", F, "            ind.extend(e2n['index'].list())\n            f2n.extend", "            ind = e2n['index'].list()\n            f2n.extend"),
    ("nodes by rank", "C29", F, NODES, NODES.replace("dict(zip(ind, f2n)).get", "dict(enumerate(f2n)).get")),
    ("export unsorted", "C29", F, "concat = sorted(self.index_elem_tuples())", "concat = self.index_elem_tuples()"),
    ("export node sorted", "C29", F, "for face in [face for _, face in concat]" if False else "list(chain(*[face for _, face in concat]))", "list(chain(*[sorted(face) for _, face in concat]))"),
    ("import index", "C29", F, "self.add_elems(typef, nodes, indexlist(ilist=index.ravel()))", "self.add_elems(typef, nodes)"),
    ("import shift", "C29", F, "zconn._value[zind + i] for i in range(facesize)", "zconn._value[zind + i] for i in reversed(range(facesize))"),
    ("import end", "C29", F, "zind = zconn._index[index]", "zind = zconn._index[index + 1] - facesize + 0 * index if False else zconn._index[index + 1]"),
    ("index tuples rank", "C29", F, "[(ind[i], f2n[i, :].ravel().tolist()) for i in range(f2n.shape[0])]", "[(i, f2n[i, :].ravel().tolist()) for i in range(f2n.shape[0])]"),
    # behaviour kept
    ("rf loop", None, F, LOOP, """                    for eface in face_of_elem:
                        outward = eface[::-1]
                        for ielem in range(elemsarray.shape[0]):
                            faces_neighbour[ftype].append((tuple(elemsarray[ielem, outward].tolist()), index[ielem]))
"""),
    ("rf loop element first", None, F, LOOP, """                    for ielem in range(elemsarray.shape[0]):
                        for eface in face_of_elem:
                            faces_neighbour[ftype].append((tuple(elemsarray[ielem, list(reversed(eface))]), index[ielem]))
"""),
    ("rf frozenset", None, F, "face_pairs[tuple(sorted(tface[0]))]", "face_pairs[frozenset(tface[0])]"),
    ("rf setdefault", None, F, PAIRS, """                face_pairs = {}
                for tface in listfaces:
                    face_pairs.setdefault(tuple(sorted(tface[0])), []).append(tface)
"""),
    ("rf if in", None, F, PAIRS, """                face_pairs = {}
                for tface in listfaces:
                    key = tuple(sorted(tface[0]))
                    if key in face_pairs:
                        face_pairs[key].append(tface)
                    else:
                        face_pairs[key] = [tface]
"""),
    ("rf comprehension", None, F, UNIQ, "                uniqueface_dict = {key: flist for key, flist in face_pairs.items() if len(flist) == 1}\n"),
    ("rf no pop", None, F, POP, "                face_pairs = {key: flist for key, flist in face_pairs.items() if key not in uniqueface_dict}\n"),
    ("rf no pop len", None, F, POP, "                face_pairs = {key: flist for key, flist in face_pairs.items() if len(flist) == 2}\n"),
    ("rf unpack", None, F, F2C, "                            lambda flist: [cell for _, cell in flist],\n"),
    ("rf del", None, F, POP, "                for uface in uniqueface_dict:\n                    del face_pairs[uface]\n"),
    ("rf second face", None, F, [], []) if False else
    ("rf both turned", None, [(F, "map(lambda flist: flist[0][0], uface_dict.values())", "map(lambda flist: flist[-1][0], uface_dict.values())"), (F, F2C, F2C.replace("flist[0][1], flist[1][1]", "flist[1][1], flist[0][1]"))]),
    ("rf nodes", None, F, NODES, """        nodes = dict(zip(ind, f2n))
        found = set()
        for elem in elemlist:
            found.update(nodes[elem])
        return list(found)
"""),
    ("rf export", None, F, "concat = sorted(self.index_elem_tuples())", "concat = sorted(self.index_elem_tuples(), key=lambda tup: tup[0])"),
]
