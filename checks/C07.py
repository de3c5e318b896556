"""Element tables are complete and mutually consistent.

The module bodies that build the tables are evaluated on their own constants (list comprehensions, loops, constant indexing)
and the resulting constant tables are checked in full against each other and against the definition of the elements: node
count and dimension, faces of every element as closed oriented surfaces, agreement of the tables of the file formats, codes of
the file formats, extrusion."""
import re

from sa import registry
from sa.terms import T, is_const
from sa.engine import Exc

TECHNIQUE = "constant propagation of the module bodies; exhaustive decision over the finite tables"
LEVEL_NOTE = "Every entry of every table for the declared elements. Codes of undeclared second-order elements are only required not to name a declared element. Node numbering of CGNS, GMSH and VTK is taken as the reference for linear elements, where they coincide."
RULES = {"declared": "a declared element has the node count and dimension of its name",
         "complete": "every declared surface or volume element has its faces in the table",
         "face": "a face is of a declared type one dimension lower, with as many distinct nodes of the element as its type",
         "closed": "each edge of a volume element (each node of a surface element) is shared by exactly two faces in opposite directions",
         "side": "all faces of all elements of a table are oriented to the same side",
         "agree": "the tables of two file formats list the same oriented faces for an element",
         "nnode": "the face type found from a number of nodes is the face type of the element tables",
         "extrude": "the extrusion of an element is one dimension higher, has twice its nodes and contains both copies of it as faces",
         "code": "a code of a file format names the element of that code",
         "inverse": "a reverse table is the inverse of the forward table"}
ASSUMPTIONS = ["pyvista.CellType members have the meaning of their names"]

SHAPE = {"node1": (1, 0), "bar2": (2, 1), "tri3": (3, 2), "quad4": (4, 2), "tetra4": (4, 3), "pyra5": (5, 3), "prism6": (6, 3), "hexa8": (8, 3)}
NFACES = {"tri3": {2: 3}, "quad4": {2: 4}, "tetra4": {3: 4}, "pyra5": {3: 4, 4: 1}, "prism6": {3: 2, 4: 3}, "hexa8": {4: 6}}
GMSH = {1: "bar2", 2: "tri3", 3: "quad4", 4: "tetra4", 5: "hexa8", 6: "prism6", 7: "pyra5", 15: "node1"}
CGNS = {2: "node1", 3: "bar2", 5: "tri3", 7: "quad4", 10: "tetra4", 12: "pyra5", 14: "prism6", 17: "hexa8"}
VTK = {"VERTEX": "node1", "LINE": "bar2", "TRIANGLE": "tri3", "QUAD": "quad4", "TETRA": "tetra4", "PYRAMID": "pyra5", "WEDGE": "prism6", "HEXAHEDRON": "hexa8"}
XDMF = {"TRIANGLE": "triangle", "QUAD": "quadrilateral", "TETRA": "tetrahedron", "PYRAMID": "pyramid", "WEDGE": "wedge", "HEXAHEDRON": "hexahedron"}
POINTS = {"tetra4": [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)],
          "pyra5": [(0, 0, 0), (2, 0, 0), (2, 2, 0), (0, 2, 0), (1, 1, 1)],
          "prism6": [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (0, 1, 1)],
          "hexa8": [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]}


class NotConstant(Exception):
    pass


def value(t):
    """constant term -> Python value"""
    if is_const(t):
        v = t.args[0]
        return list(v) if isinstance(v, (tuple, range)) else v
    if t.op in ("tuple", "vec"):
        return [value(x) for x in t.args]
    if t.op == "seq" and all(c.op == "e" for c in t.args):
        return [value(c.args[0]) for c in t.args]
    if t.op == "dictof" and is_const(t.args[0]) and t.args[0].args[0] is None and all(is_const(present) and present.args[0] is True for _, _, present in t.args[1]):
        return {value(k): value(v) for k, v, _ in t.args[1]}
    if t.op == "ext":
        return "ext:" + t.args[0]
    raise NotConstant(t.op)


def sign(face, pts):
    """+1 outward, -1 inward, 0 degenerate, for a convex element"""
    p = [pts[i] for i in face]
    n = [0, 0, 0]
    for a, b in zip(p, p[1:] + p[:1]):
        n[0] += a[1] * b[2] - a[2] * b[1]
        n[1] += a[2] * b[0] - a[0] * b[2]
        n[2] += a[0] * b[1] - a[1] * b[0]
    c = [sum(q[k] for q in pts) / len(pts) for k in range(3)]
    f = [sum(q[k] for q in p) / len(p) for k in range(3)]
    d = sum(n[k] * (f[k] - c[k]) for k in range(3))
    return (d > 1e-9) - (d < -1e-9)


def canon(face):
    i = face.index(min(face))
    return tuple(face[i:] + face[:i])


def faces_of(rep, where, table, dims):
    """checks one table; returns {element: [(type, face)]} of what is well formed"""
    out = {}
    sides = {}
    for e, (n, d) in SHAPE.items():
        if e not in dims or d < 2:
            continue
        rep.check(e in table, "complete", where, f"{e} has an entry", key=f"complete:{where}:{e}")
        if e not in table:
            continue
        got, good = [], True
        for ft, lst in table[e].items():
            for f in lst:
                bad = None
                if ft not in SHAPE or SHAPE[ft][1] != d - 1:
                    bad = f"face type {ft}"
                elif len(f) != SHAPE[ft][0]:
                    bad = f"{len(f)} nodes for a {ft}"
                elif len(set(f)) != len(f):
                    bad = "repeated node"
                elif not all(isinstance(i, int) and 0 <= i < n for i in f):
                    bad = f"node out of 0..{n - 1}"
                rep.check(bad is None, "face", where, f"{e}: {ft} {f}" + (f": {bad}" if bad else ""), key=f"face:{where}:{e}:{f}")
                good = good and bad is None
                got.append((ft, list(f)))
        if not good:
            continue
        count = {}
        for ft, f in got:
            count[len(f)] = count.get(len(f), 0) + 1
        rep.check(count == NFACES[e], "complete", where, f"{e} has faces {NFACES[e]} (nodes: number), found {count}", key=f"count:{where}:{e}")
        if d == 3:
            edges = [(a, b) for _, f in got for a, b in zip(f, f[1:] + f[:1])]
            wrong = sorted({x for x in edges if edges.count(x) != 1 or edges.count((x[1], x[0])) != 1})
            rep.check(not wrong, "closed", where, f"{e}: edges {wrong[:6] if wrong else 'shared by two faces in opposite directions'}", key=f"closed:{where}:{e}")
            for f in got:
                sides.setdefault(sign(f[1], POINTS[e]), set()).add(e)
        else:
            wrong = [i for i in range(n) if [f[0] for _, f in got].count(i) != 1 or [f[1] for _, f in got].count(i) != 1]
            around = all((f[1] - f[0]) % n == 1 for _, f in got) or all((f[0] - f[1]) % n == 1 for _, f in got)
            rep.check(not wrong and around, "closed", where, f"{e}: edges turn around the element", key=f"closed:{where}:{e}")
        out[e] = got
    if sides:
        rep.check(len(sides) == 1 and 0 not in sides, "side", where,
                  "orientation of faces: " + "; ".join(f"{ {1: 'outward', -1: 'inward', 0: 'crossed'}[s]} for {sorted(v)}" for s, v in sorted(sides.items())),
                  key=f"side:{where}")
    return out


def run(rep):
    en = registry.engine()
    M = "cfdtools.meshbase._elements"

    def table(mod, name):
        try:
            return value(en.freeze(en.module_attr(mod, name)))
        except (NotConstant, Exc, KeyError, TypeError, ValueError, AttributeError) as ex:
            rep.undecided("declared", f"{mod}.{name}", f"table not evaluated: {type(ex).__name__} {ex}"[:160])
            return None

    def entries(name, t, code):
        """pairs of a dict, undecided otherwise"""
        return t.items() if isinstance(t, dict) else ()

    nn, dims = table(M, "nnode_elem"), table(M, "dim_elem")
    rep.function("cfdtools/meshbase/_elements.py", "cfdtools/gmsh/_gmsh.py", "cfdtools/cgns/cgns.py", "cfdtools/vtk/_vtk.py")
    if nn is None or dims is None:
        return
    w = "_elements.nnode_elem/dim_elem"
    for e in SHAPE:
        rep.check(e in nn and e in dims, "declared", w, f"{e} is declared", key=f"declared:{e}")
    for e in nn:
        if e in SHAPE:
            rep.check((nn[e], dims.get(e)) == SHAPE[e], "declared", w, f"{e}: {nn[e]} nodes, dimension {dims.get(e)}", key=f"declared:{e}")
        else:
            m = re.search(r"\d+$", e)
            rep.check(e in dims and (m is None or int(m.group(0)) == nn[e]), "declared", w, f"{e}: {nn[e]} nodes", key=f"declared:{e}")
    # faces
    tabs = {}
    for name in ("elem2faces", "cgns_elem2faces", "gmsh_elem2faces"):
        t = table(M, name)
        if t is not None:
            tabs[name] = faces_of(rep, f"_elements.{name}", t, dims)
    ref = tabs.get("elem2faces")
    for name in ("cgns_elem2faces", "gmsh_elem2faces"):
        for e in (ref or {}):
            if e in tabs.get(name, {}):
                a, b = ({(ft, canon(f)) for ft, f in tabs[x][e]} for x in ("elem2faces", name))
                rep.check(a == b, "agree", f"_elements.{name}", f"{e}: same oriented faces as the default table" + ("" if a == b else f"; differ: {sorted(a ^ b)}"), key=f"agree:{name}:{e}")
    ffn = table(M, "face_from_nnode")
    if ffn is not None:
        for e, lst in (ref or {}).items():
            for ft, f in lst:
                rep.check(ffn.get(len(f)) == ft, "nnode", "_elements.face_from_nnode", f"{len(f)} nodes is {ft}, found {ffn.get(len(f))}", key=f"nnode:{len(f)}")
    ext = table(M, "extruded_face")
    if ext is not None:
        for e, (n, d) in SHAPE.items():
            if d > 2:
                continue
            x = ext.get(e)
            rep.check(x in SHAPE and SHAPE[x] == (2 * n, d + 1), "extrude", "_elements.extruded_face", f"{e} is extruded to {x}", key=f"extrude:{e}")
            if d == 2 and x in (ref or {}):
                sets = [frozenset(f) for _, f in ref[x]]
                need = [frozenset(range(n)), frozenset(range(n, 2 * n))] + [frozenset((i, (i + 1) % n, i + n, (i + 1) % n + n)) for i in range(n)]
                rep.check(sorted(map(sorted, sets)) == sorted(map(sorted, need)), "extrude", "_elements.extruded_face", f"faces of {x} are the two copies of {e} and the {n} sides", key=f"extrude:faces:{e}")
    # codes of the file formats
    def codes(mod, name, oracle, key=lambda c: c, el=lambda v: v):
        t = table(mod, name)
        w = f"{mod.split('.')[-1]}.{name}"
        for k, v in (t or {}).items():
            c, e = key(k), el(v)
            if c in oracle:
                rep.check(e == oracle[c], "code", w, f"{c} is {oracle[c]}, found {e}", key=f"code:{name}:{c}")
            else:
                rep.check(e not in SHAPE, "code", w, f"{c} is not a declared element, found {e}", key=f"code:{name}:{c}")
        return t

    cell = lambda v: v.split(".")[-1] if isinstance(v, str) else v
    g = codes("cfdtools.gmsh._gmsh", "gmshtype_elem", GMSH)
    for c, e in (GMSH.items() if g is not None else ()):
        rep.check(c in g, "complete", "_gmsh.gmshtype_elem", f"code {c} ({e}) has an entry", key=f"code:gmsh:{c}")
    codes("cfdtools.cgns.cgns", "ele_cgns2local", CGNS)
    inv = {v: k for k, v in VTK.items()}
    v = codes("cfdtools.vtk._vtk", "vtktype_ele", inv, el=cell)
    if v is not None:
        for e, (n, d) in SHAPE.items():
            if d > 0:
                rep.check(e in v, "complete", "_vtk.vtktype_ele", f"{e} has a VTK cell type", key=f"code:vtk:{e}")
        r = table("cfdtools.vtk._vtk", "ele_vtktype")
        if r is not None:
            rep.check(r == {b: a for a, b in v.items()} and len(r) == len(v), "inverse", "_vtk.ele_vtktype", "inverse of vtktype_ele")
        x = table("cfdtools.vtk._vtk", "PYVISTA2XDMF")
        if x is not None:
            for k, name in x.items():
                if cell(k) in XDMF:
                    rep.check(str(name).lower() == XDMF[cell(k)], "code", "_vtk.PYVISTA2XDMF", f"{cell(k)} is {XDMF[cell(k)]}, found {name}", key=f"code:xdmf:{cell(k)}")
            have = {cell(k) for k in x}
            for e, c in v.items():
                if SHAPE.get(e, (0, 0))[1] >= 2:
                    rep.check(cell(c) in have, "complete", "_vtk.PYVISTA2XDMF", f"{cell(c)} has an XDMF topology name", key=f"code:xdmf:{cell(c)}")
    rep.extra["tables"] = sorted(tabs) + ["face_from_nnode", "extruded_face", "gmshtype_elem", "ele_cgns2local", "vtktype_ele", "ele_vtktype", "PYVISTA2XDMF"]
