"""Cube meshes number nodes, cells and marks consistently.

The generator is executed abstractly with symbolic sizes nx, ny, nz.  The tables of the mesh it exports are rewritten as loop
nests: coordinates, corners of the cells and marks are polynomials of the loop variables and of the sizes, and are compared with
one another for all sizes at once."""
from sa import surface
from sa.arrays import Arrays, Unknown, leaves, size, pos_tree, refresh, is_tree, var, divide
from sa.engine import Exc
from sa.terms import T, C, Term, add, sub, mul, subst, show, is_int, is_num, poly_of, contains, walk
from sa.util import site

TECHNIQUE = "abstract execution with symbolic sizes; tables as loop nests, index formulas compared as polynomials of the loop variables and sizes"
LEVEL_NOTE = "All sizes nx, ny, nz >= 1. Tables built by other means than ranges, products, arithmetic, stacking and slices are reported as undecided."
RULES = {"coordinates": "a coordinate of a node is its step along the direction divided by the number of cells",
         "rank": "the number of a node is its row in the table of coordinates",
         "corner": "each cell joins its eight corner nodes",
         "order": "the corners are in the order of a right-handed hexahedron",
         "cells": "each cell has its own number, from 0 to the number of cells",
         "mark": "a mark holds the nodes of its own side",
         "count": "counters are the sizes of the tables"}
ASSUMPTIONS = ["sizes are positive integers"]
MOD = "cfdtools.meshbase.simple"
S = {q: T("sym", "n" + q) for q in "xyz"}


def loops_of(tree, rep, rule, where, what):
    """(loops, row) when the table is one loop nest"""
    ls = list(leaves(tree))
    if len(ls) != 1:
        rep.undecided(rule, where, f"{what}: {len(ls)} families of rows")
        return None
    return ls[0]


def same_number(a, b):
    """True / False / None for polynomials over sizes and loop variables"""
    if a == b:
        return True
    d = sub(a, b)
    if all(x.op == "sym" for m in poly_of(d) for x in m):
        return False
    return None


def step(t):
    """(variable part, number) of a coordinate  v / float(N)"""
    if t.op == "bin" and t.args[0] == "/":
        d = t.args[2]
        if d.op == "call" and d.args[0].op == "ext" and d.args[0].args[0].split(".")[-1] in ("float", "float64", "int"):
            d = d.args[1][0]
        return t.args[1], d
    return None


def run(rep):
    en = surface.fresh()
    cls = en.module_attr(MOD, "Cube")
    where = "cfdtools.meshbase.simple.Cube"
    rep.function(where + ".export_mesh")
    try:
        cube = en.call(cls, [S["x"], S["y"], S["z"]], {})
        mesh = en.call(en.getattr(cube, "export_mesh"), [], {})
    except Exc as e:
        rep.bad("count", where, f"cannot be exported: {show(e.value, 3) if hasattr(e, 'value') else e}", key="raise")
        return
    A = Arrays(en, scalars=S.values())
    o = en.obj(mesh)

    def num(t):
        try:
            return A.scalar(en.freeze(t))
        except Unknown:
            return None

    def table(t, rule, what):
        try:
            return A.tree(en.freeze(t))
        except Unknown as e:
            rep.undecided(rule, where, f"{what}: {e}")
            return None

    # ---- nodes
    strides, total = None, C(1)
    for q in "xyz":
        total = mul(total, add(S[q], C(1)))
    st = {}
    for q in "xyz":
        try:
            t = en.getitem(o.f["_nodes"], C(q))
        except Exc:
            rep.bad("coordinates", where, f"coordinate {q} is not set", key=f"no-{q}")
            return
        tree = table(t, "coordinates", f"coordinate {q}")
        if tree is None:
            return
        lr = loops_of(tree, rep, "coordinates", where, f"coordinate {q}")
        if lr is None:
            return
        loops, row = lr
        f = step(row)
        if f is None:
            rep.undecided("coordinates", where, f"coordinate {q} is {show(row, 3)}")
            return
        v, n = f
        hit = [(w, c) for w, c in loops if w == v]
        ok = same_number(n, S[q])
        if not hit:
            ok = False if all(x.op == "sym" for m in poly_of(v) for x in m) else None
        rep.check(ok, "coordinates", where, f"coordinate {q} is a step over {show(n, 3)}" + ("" if hit else f": {show(v, 4)} is not a step from 0"), key=f"coord-{q}")
        if ok is not True:
            return
        rep.check(same_number(hit[0][1], add(S[q], C(1))), "coordinates", where, f"{show(hit[0][1], 3)} planes of nodes along {q}", key=f"planes-{q}")
        p = list(leaves(pos_tree(tree)))[0]
        # stride of this direction: position at step 1 minus position at step 0
        w = [x for x, _ in p[0]][[x for x, _ in loops].index(v)]
        s = sub(subst(p[1], {w: C(1)}), subst(p[1], {w: C(0)}))
        st[q] = s
        rep.check(same_number(size(tree), total), "count", where, f"{show(size(tree), 4)} values of coordinate {q}", key=f"size-{q}")

    def rank(i, j, k):
        return add(add(mul(i, st["x"]), mul(j, st["y"])), mul(k, st["z"]))
    ijk = [T("sym", c) for c in "ijk"]
    try:
        g = num(en.call(en.getattr(cube, "nodeglobindex_ijk"), list(ijk), {}))
        rep.check(None if g is None else same_number(g, rank(*ijk)), "rank", where + ".nodeglobindex_ijk", f"node (i, j, k) is row {show(rank(*ijk), 4)}" + ("" if g is None or g == rank(*ijk) else f", numbered {show(g, 4)}"), key="rank")
    except Exc:
        rep.bad("rank", where + ".nodeglobindex_ijk", "raises", key="rank")
    # ---- cells
    c2n = en.obj(o.f["_cell2node"])
    entries = en.obj(c2n.f["_elem2node"]).f["entries"]
    rep.check(len(entries) == 1 and entries[0][0] in (C("hexa8"), "hexa8"), "corner", where, "one table of hexa8", key="hexa8")
    if len(entries) == 1:
        e = dict((getattr(k, "args", [k])[0] if isinstance(k, Term) else k, v) for k, v, _ in en.obj(entries[0][1]).f["entries"])
        tree = table(e["elem2node"], "corner", "corners of the cells")
        lr = tree is not None and loops_of(tree, rep, "corner", where, "corners of the cells")
        if lr:
            cells(rep, en, A, where, lr, st, rank, cube, e, num)
            ncell = mul(mul(S["x"], S["y"]), S["z"])
            rep.check(same_number(size(tree), ncell), "count", where, f"{show(size(tree), 4)} cells", key="ncells")
    ncell = mul(mul(S["x"], S["y"]), S["z"])
    for who, ob, name, want in (("mesh", mesh, "ncell", ncell), ("mesh", mesh, "nnode", total), ("cube", cube, "ncell", ncell), ("cube", cube, "nnode", total)):
        try:
            v = num(en.getattr(ob, name))
        except Exc:
            v = None
        rep.check(None if v is None else same_number(v, want), "count", where, f"{name} of the {who} is {show(v, 4) if v is not None else '?'}", key=f"{who}-{name}")
    # ---- marks
    b = {k.args[0] if isinstance(k, Term) else k: v for k, v, _ in en.obj(o.f["_bocos"]).f["entries"]}
    for d, q in zip("ijk", "xyz"):
        for side in ("min", "max"):
            name = d + side
            if name not in b:
                rep.bad("mark", where, f"there is no mark {name}", key=f"no-{name}")
                continue
            try:
                lst = en.call(en.getattr(en.getattr(b[name], "index"), "list"), [], {})
                geodim = en.getattr(b[name], "geodim")
                typ = en.getattr(b[name], "type")
            except Exc:
                rep.bad("mark", where, f"mark {name} has no index, place or type", key=f"bare-{name}")
                continue
            rep.check(geodim in (C("bdnode"), C("node")) or (False if geodim.op == "const" else None), "mark", where, f"mark {name} is of {show(geodim, 2)}", key=f"geodim-{name}")
            rep.check(typ == C("boundary") or (False if typ.op == "const" else None), "mark", where, f"mark {name} is of type {show(typ, 2)}", key=f"type-{name}")
            tree = table(lst, "mark", f"mark {name}")
            if tree is None:
                continue
            lr = loops_of(tree, rep, "mark", where, f"mark {name}")
            if not lr:
                continue
            mark(rep, where, name, q, side, lr, st)


def mark(rep, where, name, q, side, lr, st):
    loops, row = lr
    if row.op == "cols":
        rep.undecided("mark", where, f"mark {name} is a table")
        return
    others = [r for r in "xyz" if r != q]
    n = C(1)
    for _, c in loops:
        n = mul(n, c)
    want = mul(add(S[others[0]], C(1)), add(S[others[1]], C(1)))
    ok = same_number(n, want)
    if ok is not True:
        rep.check(ok, "mark", where, f"mark {name} has {show(n, 4)} nodes, {show(want, 4)} on its side", key=f"n-{name}")
        return
    left, assign = list(loops), {}
    for r in others:
        hit = [(v, c) for v, c in left if c == add(S[r], C(1))]
        if not hit:
            rep.undecided("mark", where, f"mark {name}: loops over {', '.join(show(c, 3) for _, c in loops)}")
            return
        assign[r] = hit[0][0]
        left.remove(hit[0])
    v = {q: C(0) if side == "min" else S[q], **assign}
    node = C(0)
    for r in "xyz":
        node = add(node, mul(v[r], st[r]))
    ok = same_number(row, node)
    rep.check(ok, "mark", where, f"mark {name} holds the nodes " + (show(row, 5) if ok is not True else "of its side") + ("" if ok is True else f", those of the side are {show(node, 5)}"), key=f"mark-{name}")


def cells(rep, en, A, where, lr, st, rank, cube, e, num):
    loops, row = lr
    if row.op != "cols" or len(row.args) != 8:
        rep.check(False if row.op == "cols" else None, "corner", where, f"a cell has {len(row.args)} nodes", key="width")
        return
    left, assign = list(loops), {}
    for q in "xyz":
        hit = [(v, c) for v, c in left if c == S[q]]
        if hit:
            assign[q] = hit[0][0]
            left.remove(hit[0])
    if len(assign) < 3 or left:
        counts = sorted(show(c, 3) for _, c in loops)
        ok = None
        n = C(1)
        for _, c in loops:
            n = mul(n, c)
        if same_number(n, mul(mul(S["x"], S["y"]), S["z"])) is False:
            ok = False
        rep.check(ok, "corner", where, f"cells are built for {' x '.join(counts)} steps", key="loops")
        return
    i, j, k = (assign[q] for q in "xyz")
    base = rank(i, j, k)
    steps = {}
    for a in (0, 1):
        for b in (0, 1):
            for c in (0, 1):
                steps[rank(C(a), C(b), C(c))] = (a, b, c)
    got = []
    for m, x in enumerate(row.args):
        d = sub(x, base)
        if d in steps:
            got.append(steps[d])
            rep.ok("corner", where, f"corner {m} is at {steps[d]} of its cell")
        else:
            known = all(y.op == "sym" for mo in poly_of(d) for y in mo)
            rep.check(False if known else None, "corner", where, f"corner {m} of cell (i, j, k) is node {show(x, 6)}, which is no corner of it", key=f"corner{m}")
    if len(got) == 8:
        rep.check(len(set(got)) == 8, "order", where, "the eight corners differ" if len(set(got)) == 8 else f"corners {got} are not eight nodes", key="distinct")
        if len(set(got)) == 8:
            bad = right_handed(got)
            rep.check(not bad, "order", where, "corners are those of a right-handed hexahedron" if not bad else bad, key="order")
    # number of the cells
    try:
        lst = en.call(en.getattr(e["index"], "list"), [], {})
        tree = A.tree(en.freeze(lst))
    except (Unknown, Exc) as x:
        rep.undecided("cells", where, f"numbers of the cells: {x}")
        return
    ls = list(leaves(tree))
    if len(ls) != 1:
        rep.undecided("cells", where, f"numbers of the cells: {len(ls)} families")
        return
    cl, num_ = ls[0]
    if [c for _, c in cl] == [c for _, c in loops]:
        num_ = subst(num_, {a[0]: b[0] for a, b in zip(cl, loops)})
        cl = loops
    chain = radix(num_, cl)
    rep.check(chain, "cells", where, "cells are numbered once each, from 0" if chain else f"cells are numbered {show(num_, 5)}: not a numbering from 0 to the number of cells", key="cells")
    if cl == loops:
        try:
            ijk = [T("sym", c) for c in "ijk"]
            g = num(en.call(en.getattr(cube, "elemglobindex_ijk"), list(ijk), {}))
            here = subst(num_, dict(zip((i, j, k), ijk)))
            rep.check(None if g is None else same_number(g, here), "cells", where + ".elemglobindex_ijk", f"cell (i, j, k) is number {show(here, 4)}" + ("" if g is None or g == here else f", numbered {show(g, 4)}"), key="elemglob")
        except Exc:
            rep.bad("cells", where + ".elemglobindex_ijk", "raises", key="elemglob")


def radix(t, loops):
    """the polynomial is a mixed-radix number of the loop variables: True / False / None"""
    vs = {v: n for v, n in loops}
    strides, rest = {}, C(0)
    for m, c in poly_of(t).items():
        w = [x for x in m if x in vs]
        if len(w) > 1:
            return None
        if not w:
            return False if all(x.op == "sym" for x in m) else None
        r = list(m)
        r.remove(w[0])
        p = C(c)
        for x in r:
            p = mul(p, x)
        strides[w[0]] = add(strides.get(w[0], C(0)), p)
    if any(x.op != "sym" for s in strides.values() for m in poly_of(s) for x in m):
        return None
    if set(strides) != set(vs):
        return False
    left, p = dict(strides), C(1)
    while left:
        nxt = [v for v, s in left.items() if s == p]
        if not nxt:
            return False
        p = mul(p, vs[nxt[0]])
        del left[nxt[0]]
    return True


def right_handed(p):
    """'' when the corners are in the order of a right-handed hexahedron"""
    def minus(a, b):
        return tuple(x - y for x, y in zip(a, b))
    e1, e2, e3 = minus(p[1], p[0]), minus(p[3], p[0]), minus(p[4], p[0])
    for e, n in ((e1, 1), (e2, 3), (e3, 4)):
        if sum(abs(x) for x in e) != 1:
            return f"nodes 0 and {n} are not on one edge"
    plus = lambda a, b: tuple(x + y for x, y in zip(a, b))
    if p[2] != plus(p[1], e2):
        return "nodes 0 1 2 3 are not around a face"
    for a, b in ((5, 1), (6, 2), (7, 3)):
        if p[a] != plus(p[b], e3):
            return f"node {a} is not above node {b}"
    det = (e1[0] * (e2[1] * e3[2] - e2[2] * e3[1]) - e1[1] * (e2[0] * e3[2] - e2[2] * e3[0]) + e1[2] * (e2[0] * e3[1] - e2[1] * e3[0]))
    return "" if det > 0 else "the hexahedron is turned inside out"
