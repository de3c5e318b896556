F = "cfdtools/meshbase/_elements.py"
M = [
    ("pyra5 face", "C07", F, "'F3': ['N2', 'N3', 'N5'],\n    'F4': ['N3', 'N4', 'N5'],", "'F3': ['N2', 'N4', 'N5'],\n    'F4': ['N3', 'N4', 'N5'],"),
    ("prism orient", "C07", F, "'F5': ['N4', 'N5', 'N6'],\n}", "'F5': ['N4', 'N6', 'N5'],\n}"),
    ("tetra all reversed", "C07", F, "connectivity_tetra4 = set_inward_normal(connectivity_tetra4)\n", ""),
    ("gmsh perm", "C07", F, "prism6_cgns2gmsh = [1, 2, 3, 4, 5, 6]", "prism6_cgns2gmsh = [1, 3, 2, 4, 6, 5]"),
    ("gmsh code", "C07", "cfdtools/gmsh/_gmsh.py", '6: "prism6",\n    7: "pyra5"', '6: "pyra5",\n    7: "prism6"'),
    ("cgns code", "C07", "cfdtools/cgns/cgns.py", "5: 'tri3', 7: 'quad4', 17: 'hexa8'", "5: 'tri3', 7: 'quad4', 14: 'hexa8'"),
    ("vtk swap", "C07", "cfdtools/vtk/_vtk.py", "'pyra5': CellType.PYRAMID,\n        'prism6': CellType.WEDGE,", "'pyra5': CellType.WEDGE,\n        'prism6': CellType.PYRAMID,"),
    ("extr", "C07", F, "(0, '    tri3', 3, 2, '  prism6'),", "(0, '    tri3', 3, 2, '  tetra4'),"),
    ("group quad missing", "C07", F, "'quad4': [elt for elt in connectivity if len(elt) == 4],", "'quad4': [elt for elt in connectivity if len(elt) > 4],"),
    ("face_from_nnode all dims", "C07", F, "for _, e, n, d, _ in elem_properties if d <= 2}\nextr", "for _, e, n, d, _ in elem_properties if d <= 3}\nextr"),
    ("xdmf", "C07", "cfdtools/vtk/_vtk.py", '        CellType.TETRA: "Tetrahedron",\n', ''),
    ("refactor tables", None, F, "dim_elem = {e: d for _, e, _, d, _ in elem_properties}\nnnode_elem = {e: n for _, e, n, _, _ in elem_properties}",
     "dim_elem, nnode_elem = {}, {}\nfor _p in elem_properties:\n    dim_elem[_p[1]] = _p[3]\n    nnode_elem[_p[1]] = _p[2]"),
    ("refactor inward", None, F, """    return [
        [elt[0], elt[2], elt[1]] if len(elt) == 3 else [elt[0], elt[3], elt[2], elt[1]]
        for elt in connectivity
    ]
""", """    new = []
    for elt in connectivity:
        new.append([elt[0]] + list(reversed(elt[1:])))
    return new
"""),
    ("refactor cgns2gmsh", None, F, "return [np.array([i - 1 for i in element_cgns2gmsh])[face].tolist() for face in face_connectivity]",
     "perm = [i - 1 for i in element_cgns2gmsh]\n    return [[perm[k] for k in face] for face in face_connectivity]"),
    ("refactor N", None, F, "int(x.replace('N', '')) - 1", "int(x[1:]) - 1"),
]
