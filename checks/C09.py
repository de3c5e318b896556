"""Faces, neighbour cells and marks stay in one numbering.

Face tables whose arrays have symbolic content and size are merged, renumbered and extended abstractly.  The tables that result are
rewritten as loop nests over the rows of the tables given and compared with what one numbering requires: row i of the face-to-cell
table is the row of face i, faces of a table come after all faces of the tables before it, and a mark designates the same faces."""
from sa import surface
from sa.arrays import Arrays, Unknown, cat, decide, loop, normal
from sa.engine import Exc
from sa.terms import T, C, Term, NONE, add, sub, show, is_num, walk
from checks.C11 import same_number

TECHNIQUE = "abstract execution on arrays of symbolic content and size; tables of the result as loop nests over the rows of the tables given, compared in normal form"
LEVEL_NOTE = "Any number of faces and marked faces; one and two types of faces in the same and in different orders on each side, with and without given numbers; marks held as lists and as ranges."
RULES = {"merge": "faces of a merged table are the faces of the tables in order, numbered after those of the tables before",
         "neighbours": "row i of the face-to-cell table is that of face i",
         "renumber": "faces and marks go through the same permutation, marks become contiguous",
         "append": "elements added are numbered after those present; lists of numbers hold the numbers given",
         "pairs": "an element is listed with its own number",
         "untouched": "the tables given are not changed"}
ASSUMPTIONS = ["every table given has at least one row", "boundary faces are marked once each (checked by the code, see C21)"]
MESH, CONN = "cfdtools.meshbase._mesh", "cfdtools.meshbase._connectivity"
MERGE, RENUMBER = MESH + ".Mesh.export_mixedfaces", MESH + ".Mesh.reindex_boundaryfaces"
NODES = {"bar2": 2, "tri3": 3, "quad4": 4, "tetra4": 4, "pyra5": 5, "prism6": 6, "hexa8": 8}


def sym(*parts):
    return T("sym", "".join(parts))


def given_list(en, term):
    return en.ref("list", {"chunks": (T("spread", term),)})


def numbers(en, term):
    return en.call(en.module_attr(CONN, "indexlist"), [], {"ilist": given_list(en, term)})


def entries(en, ec):
    return {k.args[0] if isinstance(k, Term) else k: {a.args[0] if isinstance(a, Term) else a: b for a, b, _ in en.obj(v).f["entries"]} for k, v, _ in en.obj(en.obj(ec).f["_elem2node"]).f["entries"]}


class Case:
    def __init__(self, rep, name, where):
        self.rep, self.name, self.where = rep, name, where
        self.en = surface.fresh()
        self.shapes, self.env, self.contents = {}, {}, {}

    def table(self, side, types, numbered=False):
        """an elem_connectivity of the given types; sizes, numbers and total"""
        en = self.en
        ec = en.call(en.module_attr(CONN, "elem_connectivity"), [], {})
        total = C(0)
        rows = {}
        for n in types:
            E, I, ne = sym(side, n), sym("I", side, n), sym("n", side, n)
            self.shapes[E], self.shapes[I] = (ne, NODES[n]), (ne, None)
            self.env[ne] = C(2 + len(self.env) % 3)
            en.call(en.getattr(ec, "add_elems"), [C(n), E], {"index": numbers(en, I)} if numbered else {})
            start = total
            rows[n] = (E, ne, (lambda r, I=I: T("at", I, r)) if numbered else (lambda r, s=start: add(s, r)))
            total = add(total, ne)
        return ec, rows, total

    def check(self, t, want, rule, what):
        ok, why = decide(self.en, t, want, self.shapes, [], self.env, self.contents)
        self.rep.check(ok, rule, self.where, f"{self.name}: {what}" + ("" if ok else ": " + why), key=f"{self.name}:{what}")

    def number(self, t, want, rule, what):
        try:
            got = Arrays(self.en, self.shapes).scalar(self.en.freeze(t))
        except Unknown as e:
            self.rep.undecided(rule, self.where, f"{self.name}: {what}: {e}")
            return
        ok = same_number(got, want)
        self.rep.check(ok, rule, self.where, f"{self.name}: {what} is {show(got, 5)}" + ("" if ok else f", {show(want, 5)} expected"), key=f"{self.name}:{what}")

    def compare(self, ec, want, rule):
        """`want`: {type: (rows, numbers)}"""
        es = entries(self.en, ec)
        for n, (rws, idx) in want.items():
            if n not in es:
                self.rep.bad(rule, self.where, f"{self.name}: elements {n} are lost", key=f"{self.name}:{n}:lost")
                continue
            self.check(es[n]["elem2node"], rws, rule, f"rows of {n}")
            try:
                lst = self.en.call(self.en.getattr(es[n]["index"], "list"), [], {})
            except Exc:
                self.rep.bad(rule, self.where, f"{self.name}: elements {n} have no number", key=f"{self.name}:{n}:none")
                continue
            self.check(lst, idx, rule, f"numbers of {n}")
        for n in es:
            if n not in want:
                self.rep.bad(rule, self.where, f"{self.name}: elements {n} come from nowhere", key=f"{self.name}:{n}:new")


def table_rows(E, ne, w):
    return loop(ne, lambda r: T("one", T("cols", *(T("at", E, r, C(c)) for c in range(w)))))


def merged(tables):
    """[(rows, total)] -> {type: (rows, numbers)} of the merged table"""
    out, shift = {}, C(0)
    for rws, total in tables:
        for n, (E, ne, idx) in rws.items():
            a, b = out.get(n, ([], []))
            out[n] = (a + [table_rows(E, ne, NODES[n])], b + [loop(ne, lambda r, idx=idx, s=shift: T("one", add(s, idx(r))))])
        shift = add(shift, total)
    return {n: (cat(a), cat(b)) for n, (a, b) in out.items()}, shift


def mixed(rep, btypes, itypes, numbered, order=("boundary", "internal")):
    c = Case(rep, f"boundary {'+'.join(btypes)}, internal {'+'.join(itypes)}" + (" numbered" if numbered else "") + ("" if order[0] == "boundary" else ", internal first"), MERGE)
    en = c.en
    mesh = en.call(en.module_attr(MESH, "Mesh"), [], {})
    parts = {}
    for side, types in (("boundary", btypes), ("internal", itypes)):
        ec, rws, total = c.table(side, types, numbered)
        f2c = sym(side, "f2c")
        c.shapes[f2c] = (total, 2)
        parts[side] = (ec, rws, total, f2c, en.call(en.module_attr(CONN, "indexindirection"), [f2c], {}))
    try:
        for side in order:
            en.call(en.getattr(mesh, "add_faces"), [C(side), parts[side][0], parts[side][4]], {})
        r = en.call(en.getattr(mesh, "export_mixedfaces"), [], {})
        faces, conn = en.getitem(r, C(0)), en.getattr(en.getitem(r, C(1)), "conn")
    except Exc:
        rep.bad("merge", MERGE, f"{c.name}: faces cannot be merged", key=f"{c.name}:raise")
        return
    both = [parts["boundary"], parts["internal"]]
    want, total = merged([(p[1], p[2]) for p in both])
    c.compare(faces, want, "merge")
    c.number(en.getattr(faces, "nelem"), total, "merge", "number of faces")
    c.check(conn, cat([table_rows(p[3], p[2], 2) for p in both]), "neighbours", "cells of the merged faces")
    c.number(en.getattr(en.getitem(r, C(1)), "nelem"), total, "neighbours", "number of rows of cells")
    for side in parts:
        w, _ = merged([(parts[side][1], parts[side][2])])
        c.name += f" ({side} afterwards)"
        c.compare(parts[side][0], w, "untouched")
        c.name = c.name.rsplit(" (", 1)[0]


def three(rep, types, numbered):
    where = CONN + ".elem_connectivity.importfrom_merge"
    c = Case(rep, "three tables " + ", ".join("+".join(t) for t in types) + (" numbered" if numbered else ""), where)
    en = c.en
    parts = [c.table(s, t, numbered) for s, t in zip("abc", types)]
    ec = en.call(en.module_attr(CONN, "elem_connectivity"), [], {})
    try:
        en.call(en.getattr(ec, "importfrom_merge"), [T("tuple", *(p[0] for p in parts))], {})
    except Exc:
        rep.bad("merge", where, f"{c.name}: cannot be merged", key=f"{c.name}:raise")
        return
    want, total = merged([(p[1], p[2]) for p in parts])
    c.compare(ec, want, "merge")
    c.number(en.getattr(ec, "nelem"), total, "merge", "number of elements")


def append(rep):
    """elements of a type already present, and of a new type afterwards"""
    where = CONN + ".elem_connectivity.add_elems"
    for numbered in (False, True):
        c = Case(rep, "elements added twice" + (", numbered" if numbered else ""), where)
        en = c.en
        ec = en.call(en.module_attr(CONN, "elem_connectivity"), [], {})
        total, want, given = C(0), {}, []
        try:
            for k, n in enumerate(("quad4", "tri3", "quad4", "tri3", "quad4")):
                E, I, ne = sym("E", str(k)), sym("I", str(k)), sym("n", str(k))
                c.shapes[E], c.shapes[I] = (ne, NODES[n]), (ne, None)
                c.env[ne] = C(2 + k % 3)
                kw = {"index": numbers(en, I)} if numbered else {}
                given += [(x, I, ne) for x in kw.values()]
                en.call(en.getattr(ec, "add_elems"), [C(n), E], kw)
                a, b = want.get(n, ([], []))
                idx = loop(ne, (lambda r, I=I: T("one", T("at", I, r))) if numbered else (lambda r, s=total: T("one", add(s, r))))
                want[n] = (a + [table_rows(E, ne, NODES[n])], b + [idx])
                total = add(total, ne)
        except Exc:
            rep.bad("append", where, f"{c.name}: raises", key=f"{c.name}:raise")
            continue
        c.compare(ec, {n: (cat(a), cat(b)) for n, (a, b) in want.items()}, "append")
        c.number(en.getattr(ec, "nelem"), total, "append", "number of elements")
        for k, (x, I, ne) in enumerate(given):
            c.check(en.call(en.getattr(x, "list"), [], {}), loop(ne, lambda r: T("one", T("at", I, r))), "untouched", f"numbers given with elements {k}")
    where = CONN + ".indexindirection.append"
    c = Case(rep, "rows of cells added", where)
    en = c.en
    ii = en.call(en.module_attr(CONN, "indexindirection"), [], {})
    want, total = [], C(0)
    for k in "abc":
        E, ne = sym("F", k), sym("nF", k)
        c.shapes[E] = (ne, 2)
        c.env[ne] = C(2)
        try:
            en.call(en.getattr(ii, "append"), [E], {})
        except Exc:
            rep.bad("append", where, f"{c.name}: raises", key=f"{c.name}:raise")
            return
        want.append(table_rows(E, ne, 2))
        total = add(total, ne)
    c.check(en.getattr(ii, "conn"), cat(want), "append", "rows")
    c.number(en.getattr(ii, "nelem"), total, "append", "number of rows")


def listed(rep):
    """lists of (number, nodes) and of numbers keep each element with its number"""
    for fn in ("index_elem_tuples", "all_index"):
        where = f"{CONN}.elem_connectivity.{fn}"
        for numbered in (False, True):
            c = Case(rep, fn + (" numbered" if numbered else ""), where)
            ec, rws, _ = c.table("t", ("tri3", "quad4"), numbered)
            try:
                r = c.en.call(c.en.getattr(ec, fn), [], {})
            except Exc:
                rep.bad("pairs", where, f"{c.name}: raises", key=f"{c.name}:raise")
                continue
            if fn == "all_index":
                c.check(r, cat([loop(ne, lambda r, idx=idx: T("one", idx(r))) for _, ne, idx in rws.values()]), "pairs", "numbers")
                continue
            pair_rows(c, r, rws)


def pair_rows(c, r, rws):
    """each pair is the number and the nodes of one row"""
    en = c.en
    t = en.freeze(r)
    if t.op != "seq" or len(t.args) != len(rws):
        c.rep.undecided("pairs", c.where, f"{c.name}: {show(t, 3)}")
        return
    for part, (n, (E, ne, idx)) in zip(t.args, rws.items()):
        if part.op != "each" or len(part.args) != 3 or part.args[2].op != "e" or part.args[2].args[0].op != "tuple" or len(part.args[2].args[0].args) != 2:
            c.rep.undecided("pairs", c.where, f"{c.name}: {n}: {show(part, 3)}")
            continue
        i, space, e = part.args
        for k, want, what in ((0, loop(ne, lambda r, idx=idx: T("one", idx(r))), f"numbers of {n}"),
                              (1, table_rows(E, ne, NODES[n]), f"nodes of {n}")):
            x = e.args[0].args[k]
            if k == 1:
                # a row given as a list of its values
                c.check_row(i, space, x, E, n) if hasattr(c, "check_row") else nodes_of(c, i, space, x, E, ne, n)
            else:
                c.check(T("seq", T("each", i, space, T("e", x))), want, "pairs", what)


def nodes_of(c, i, space, x, E, ne, n):
    """x, for each turn i, is row i of E"""
    w = NODES[n]
    while x.op == "call" and x.args[0].op in ("method", "attr") and x.args[0].args[1] in ("tolist", "ravel", "flatten", "copy") and not x.args[1] or x.op in ("flat", "seq") and len(x.args) == 1:
        x = x.args[0].args[0] if x.op == "call" else x.args[0]
        if x.op == "spread":
            x = x.args[0]
    cols = [T("seq", T("each", i, space, T("e", T("item", E, T("tuple", row_of(x, E), C(k)))))) for k in range(w)] if row_of(x, E) is not None else None
    if cols is None:
        c.rep.undecided("pairs", c.where, f"{c.name}: nodes of {n}: {show(x, 4)}")
        return
    for k, t in enumerate(cols):
        c.check(t, loop(ne, lambda r: T("one", T("at", E, r, C(k)))), "pairs", f"node {k} of {n}")


def row_of(x, E):
    """index r when x is row r of E"""
    if x.op == "item" and x.args[0] is E:
        k = x.args[1]
        if k.op == "tuple" and len(k.args) == 2 and k.args[1].op == "slice" and all(z == NONE for z in k.args[1].args):
            return k.args[0]
        return None if k.op in ("tuple", "slice") else k
    return None


def contents(rep):
    """operations of a list of numbers hold the numbers they must"""
    where = CONN + ".indexlist"
    a, b, d, lo, nr = sym("na"), sym("nb"), T("sym", "d"), T("sym", "lo"), sym("nr")
    new = loop(b, lambda r: T("one", T("at", sym("Ib"), r)))
    for state in ("list", "range"):
        old = (lambda r: T("at", sym("Ia"), r)) if state == "list" else (lambda r: add(lo, r))
        n = a if state == "list" else nr
        was = loop(n, lambda r: T("one", old(r)))
        for op, want in (("set_list", new), ("set_range", loop(nr, lambda r: T("one", add(lo, r)))), ("append", cat([was, new])), ("shift", loop(n, lambda r: T("one", add(d, old(r))))), ("__add__", cat([was, new]))):
            c = Case(rep, f"{op} of a {state}", f"{where}.{op}")
            rep.function(c.where)
            en = c.en
            c.shapes = {sym("Ia"): (a, None), sym("Ib"): (b, None)}
            c.env = {a: C(3), b: C(2), nr: C(3)}
            rng = T("tuple", lo, add(lo, sub(nr, C(1))))
            try:
                x = numbers(en, sym("Ia")) if state == "list" else en.call(en.module_attr(CONN, "indexlist"), [], {"irange": rng})
                arg = {"set_range": rng, "shift": d, "__add__": numbers(en, sym("Ib"))}.get(op) or given_list(en, sym("Ib"))
                r = en.call(en.getattr(x, op), [arg], {})
                lst = en.call(en.getattr(r if op in ("shift", "__add__") else x, "list"), [], {})
                kept = en.call(en.getattr(x, "list"), [], {}) if op in ("shift", "__add__") else None
            except Exc:
                rep.bad("append", c.where, f"{c.name}: raises", key=f"{c.name}:raise")
                continue
            c.check(lst, want, "append", "numbers")
            if kept is not None:
                c.check(kept, was, "untouched", "numbers of the list operated on")


def renumber(rep, types, marks, numbered, instance, ranged=()):
    name = f"faces {'+'.join(types)}, marks {'+'.join(marks)}" + (" (ranges)" if ranged else "") + ("" if numbered else " in order")
    c = Case(rep, name, RENUMBER)
    en = c.en
    mesh = en.call(en.module_attr(MESH, "Mesh"), [], {})
    ec, rws, total = c.table("b", types, numbered)
    f2c = sym("f2c")
    c.env = {}
    lists, count = [], C(0)
    for m in marks:
        L, nl = sym("L", m), sym("n", m)
        c.shapes[L] = (nl, None)
        c.env[nl] = C(len(instance[m]))
        c.contents[L] = instance[m]
        lists.append((m, L, nl, count))
        count = add(count, nl)
    for n in types:
        c.env[sym("nb", n)] = C(len(instance[n]))
        if numbered:
            c.contents[sym("Ib", n)] = instance[n]
    c.shapes[f2c] = (count, 2)
    c.shapes[T("sym", "order")] = (count, None)
    old = T("seq", *(T("spread", L) for _, L, _, _ in lists))
    try:
        en.call(en.getattr(mesh, "add_faces"), [C("boundary"), ec, en.call(en.module_attr(CONN, "indexindirection"), [f2c], {})], {})
        for m, L, nl, _ in lists:
            b = en.call(en.module_attr(MESH, "submeshmark"), [C(m)], {})
            en.setattr(b, "geodim", C("bdface"))
            en.setattr(b, "index", numbers(en, L))
            en.call(en.getattr(mesh, "add_boco"), [b], {})
        en.call(en.getattr(mesh, "reindex_boundaryfaces"), [], {})
        bd = en.getitem(en.getattr(mesh, "_faces"), C("boundary"))
        conn = en.getattr(en.getitem(bd, C("face2cell")), "conn")
        ec = en.getitem(bd, C("face2node"))
    except Exc:
        rep.bad("renumber", RENUMBER, f"{c.name}: faces cannot be renumbered", key=f"{c.name}:raise")
        return
    c.check(conn, cat([loop(nl, lambda r, L=L: T("one", T("cols", *(T("at", f2c, T("at", L, r), C(k)) for k in range(2))))) for _, L, nl, _ in lists]), "neighbours", "cells of the faces renumbered")
    # ---- numbers of the faces: old numbers through the permutation
    es = entries(en, ec)
    ext = lambda n: T("ext", n)
    perm = T("store", T("call", ext("numpy.full_like"), (old, C(-1)), ()), old, T("call", ext("numpy.arange"), (count,), ()))
    for n in types:
        E, ne, idx = rws[n]
        if n not in es:
            rep.bad("renumber", RENUMBER, f"{c.name}: faces {n} are lost", key=f"{c.name}:{n}:lost")
            continue
        c.check(es[n]["elem2node"], table_rows(E, ne, NODES[n]), "renumber", f"rows of {n}")
        try:
            lst = en.call(en.getattr(es[n]["index"], "list"), [], {})
        except Exc:
            rep.bad("renumber", RENUMBER, f"{c.name}: faces {n} have no number", key=f"{c.name}:{n}:none")
            continue
        where_now = [instance[m] for m in marks]
        flat = [x for l in where_now for x in l]
        if numbered:
            want = Arrays(en, c.shapes).tree(T("item", perm, T("seq", T("spread", sym("Ib", n)))))
            ref = cat([T("one", C(flat.index(x))) for x in instance[n]])
        else:
            want, ref = None, cat([T("one", C(flat.index(x))) for x in instance[n]])
        settle(c, lst, want, ref, f"numbers of {n}")
    # ---- marks
    for m, L, nl, start in lists:
        try:
            b = en.getitem(en.getattr(mesh, "_bocos"), C(m))
            ix = en.getattr(b, "index")
            lst = en.call(en.getattr(ix, "list"), [], {})
            typ = en.getattr(ix, "type")
        except Exc:
            rep.bad("renumber", RENUMBER, f"{c.name}: mark {m} has no faces", key=f"{c.name}:{m}:none")
            continue
        c.check(lst, loop(nl, lambda r, s=start: T("one", add(s, r))), "renumber", f"faces of mark {m}")
        kind = None
        for env in (None, c.env):
            try:
                kind = kind or Arrays(en, c.shapes, env=env, contents=c.contents if env else None).ev(en.freeze(typ))
            except Unknown:
                pass
        rep.check(None if kind is None or kind.op != "const" else kind == C("range"), "renumber", RENUMBER, f"{c.name}: mark {m} is held as a {show(kind, 2) if kind is not None else '?'}", key=f"{c.name}:{m}:range")


def settle(c, t, want, ref, what):
    """`want` in general; `ref` for the content of the witness"""
    if want is not None:
        ok, why = decide(c.en, t, want, c.shapes, [], {}, None)
        if ok:
            c.rep.ok("renumber", c.where, f"{c.name}: {what}")
            return
    ok, why = decide(c.en, t, ref, c.shapes, [], c.env, c.contents)
    if ok is None and want is None:
        try:
            got = Arrays(c.en, c.shapes, env=c.env, contents=c.contents).tree(c.en.freeze(t))
            ok = True if normal(got) == normal(ref) else None
        except Unknown:
            pass
        if ok:
            c.rep.extra.setdefault("by_witness_only", []).append(f"{c.name}: {what}") if isinstance(getattr(c.rep, "extra", None), dict) else None
            return
    c.rep.check(ok, "renumber", c.where, f"{c.name}: {what}" + ("" if ok else ": " + why), key=f"{c.name}:{what}")


def run(rep):
    for f in (MERGE, RENUMBER, CONN + ".elem_connectivity.importfrom_merge", CONN + ".elem_connectivity.add_elems", CONN + ".indexindirection.append",
              CONN + ".indexlist.shift", CONN + ".indexlist.compress", CONN + ".elem_connectivity.index_elem_tuples", CONN + ".elem_connectivity.all_index"):
        rep.function(f)
    sides = [(("tri3", "quad4"), ("tri3", "quad4")), (("tri3", "quad4"), ("quad4", "tri3")), (("tri3",), ("quad4",)), (("quad4",), ("quad4",)), (("quad4", "tri3"), ("tri3",)), (("tri3",), ("tri3", "quad4"))]
    for b, i in sides:
        for numbered in (False, True):
            mixed(rep, b, i, numbered)
    mixed(rep, ("tri3", "quad4"), ("quad4", "tri3"), True, ("internal", "boundary"))
    for numbered in (False, True):
        three(rep, (("tri3", "quad4"), ("quad4",), ("quad4", "tri3")), numbered)
        three(rep, (("bar2",), ("tri3", "bar2"), ("quad4", "bar2")), numbered)
    append(rep)
    listed(rep)
    contents(rep)
    renumber(rep, ("tri3", "quad4"), "AB", True, {"A": [2, 0], "B": [4, 1, 3], "tri3": [0, 3], "quad4": [1, 4, 2]})
    renumber(rep, ("quad4",), "AB", True, {"A": [3, 1], "B": [0, 2], "quad4": [2, 0, 1, 3]})
    renumber(rep, ("quad4",), "A", True, {"A": [2, 0, 1], "quad4": [0, 1, 2]})
    renumber(rep, ("tri3", "quad4"), "ABC", True, {"A": [4, 2], "B": [0], "C": [1, 3, 5], "tri3": [5, 0, 3], "quad4": [1, 4, 2]})
    renumber(rep, ("quad4", "tri3"), "AB", False, {"A": [3, 1], "B": [0, 2], "quad4": [0, 1], "tri3": [2, 3]})
