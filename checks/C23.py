"""Counters equal the sizes of the tables they count.

The counters and tables of connectivities and meshes are compared after every public operation, started from states in which they
agree: whatever the sequence of operations, they then agree after it.  Tables have symbolic content and size."""
from sa import surface
from sa.arrays import Arrays, Unknown, size
from sa.engine import Exc
from sa.terms import T, C, Term, NONE, TRUE, FALSE, is_num, add, sub, gamma, poly_of, show, walk, contains, subst, not_
from checks.C09 import Case, entries, numbers, sym, NODES, CONN, MESH
from checks.C11 import same_number

TECHNIQUE = "abstract execution of each public operation from states where the invariant holds (induction over histories); counters compared with the sizes of symbolic tables"
LEVEL_NOTE = "Connectivities holding no, one and two types of elements; meshes holding each combination of face tables; operations that take tables get tables of symbolic size."
RULES = {"elements": "an element table counts its rows", "rows": "a face-to-cell table counts its rows", "list": "a list of numbers counts its numbers",
         "faces": "a mesh counts the faces of its tables", "nodes": "a mesh counts its coordinates", "cells": "a mesh counts the cells of its table"}
ASSUMPTIONS = ["tables given have at least one row", "fields of a class are changed by its own methods"]


class Inv(Case):
    def num(self, t):
        return Arrays(self.en, self.shapes, given=list(self.en.st.facts)).scalar(self.en.freeze(t))

    def value(self, t):
        try:
            return self.num(t)
        except Unknown:
            return t

    def rows_of(self, t):
        """number of rows of a table; by its shape when its content is not modelled"""
        try:
            return size(Arrays(self.en, self.shapes, given=list(self.en.st.facts)).tree(self.en.freeze(t)))
        except Unknown:
            return self.en.freeze(self.en.getitem(self.en.getattr(t, "shape"), C(0)))

    def agree(self, rule, count, parts, what):
        """the counter is the sum of the sizes of the tables present; `parts`: (present, table or None, number when there is no table)"""
        results = []
        try:
            self.split(summed(self.en.freeze(count)), [(g if isinstance(g, Term) else C(bool(g)), None if t is None else self.en.freeze(t), n) for g, t, n in parts], {}, results)
        except Unknown as e:
            results.append((None, str(e), ""))
        bad = next((r for r in results if r[0] is False), None)
        if bad is None and any(r[0] is None for r in results):
            bad = self.uncounted(count, parts)
        open_ = next((r for r in results if r[0] is None), None)
        ok, got, want = bad or open_ or results[0]
        self.rep.check(ok, rule, self.where, f"{self.name}: {what} is {got}" + ("" if ok else f", the tables hold {want}"), key=f"{self.name}:{what}")

    def uncounted(self, count, parts):
        """the difference is the size of a table whatever the case"""
        got, want = self.value(summed(self.en.freeze(count))), C(0)
        for g, t, n in parts:
            k = self.value(n) if t is None else C(0) if t == NONE else self.rows_of(t)
            want = add(want, k if g is True or g == TRUE else gamma(g, k, C(0)))
        d = sub(got, want)
        terms = poly_of(d)
        if terms and not is_num(d) and len({k > 0 for k in terms.values()}) == 1 and all(len(m) == 1 and is_size(m[0]) for m in terms):
            return False, show(got, 5), show(want, 5)
        return None

    def split(self, count, parts, assign, results):
        """by cases on the conditions the counter and the tables depend on"""
        if len(results) > 64:
            raise Unknown("too many cases")
        for t in [count] + [x for p in parts for x in p if x is not None]:
            for x in walk(t):
                c = x.args[0] if x.op in ("gamma", "g") else t if t is not count and any(t is p[0] for p in parts) and t not in (TRUE, FALSE) else None
                if c is None or c in (TRUE, FALSE) or any(y.op in ("gamma", "g") for y in walk(c)):
                    continue
                c = c.args[0] if c.op == "not" else c
                while c.op == "truth" and c.args[0].op in ("truth", "cmp"):
                    c = c.args[0]
                known = bool(c.args[0].args[0]) if c.op == "truth" and c.args[0].op == "const" else Arrays(self.en, self.shapes, given=list(self.en.st.facts)).truth(c)
                for v in ((TRUE, FALSE) if known is None else (C(known),)):
                    m = {c: v}
                    if c.op == "cmp":
                        m[not_(c)] = not_(v)
                    self.split(subst(count, m), [tuple(None if z is None else subst(z, m) for z in q) for q in parts], {**assign, c: v}, results)
                return
        self.leaf(count, [p for p in parts if p[0] == TRUE], assign, results)

    def leaf(self, count, parts, assign, results):
        want = C(0)
        for _, t, n in parts:
            want = add(want, self.value(n) if t is None else C(0) if t == NONE else self.rows_of(t))
        got = self.value(count)
        if got == want or self.en.simp(got) == self.en.simp(want) or same_number(got, want) is True:
            results.append((True, show(got, 4), ""))
            return
        ok = True if self.equal_by_facts(got, want) else None if self.witness(got, want, assign) is None else False
        results.append((ok, show(got, 5), show(want, 5)))

    def witness(self, got, want, assign):
        """sizes for which everything checked by the code holds, the case is met, and the numbers differ"""
        mine = {x for t in [got, want, *assign, *self.shapes, *(n for n, _ in self.shapes.values())] for x in walk(t) if x.op == "sym"}
        facts = [f for f in map(self.en.freeze, self.en.st.facts) if any(x in mine for x in walk(f))] + [c if v == TRUE else not_(c) for c, v in assign.items() if not (c.op == "truth" and c.args[0].op == "const")]
        syms = sorted({x for t in [got, want, *facts, *(n for n, _ in self.shapes.values())] for x in walk(t) if x.op == "sym" and x not in self.shapes}, key=lambda x: x.n)
        group = {x: x for x in syms}

        def root(x):
            while group[x] is not x:
                x = group[x]
            return x
        for a, bs in self.equalities().items():
            for b in bs:
                if a in group and b in group:
                    group[root(a)] = root(b)
        roots = [x for x in syms if root(x) is x]
        values = (3, 5, 2, 7, 4, 11, 6, 13, 8, 17)
        for k in range(6):
            env = {x: C(values[(roots.index(root(x)) * (1 + k // 3) + k) % len(values)]) for x in syms}
            A = Arrays(self.en, self.shapes, env=env)
            try:
                a, b = A.scalar(got), A.scalar(want)
            except Unknown:
                continue
            if not (is_num(a) and is_num(b)) or a == b:
                continue
            if all(A.truth(f) for f in facts):
                return env
        return None

    def equalities(self):
        out = {}
        for f in self.en.st.facts:
            if f.op == "cmp" and f.args[0] == "==":
                try:
                    a, b = self.num(f.args[1]), self.num(f.args[2])
                except Unknown:
                    continue
                out.setdefault(a, set()).add(b)
                out.setdefault(b, set()).add(a)
        return out

    def equal_by_facts(self, a, b):
        eq, seen, todo = self.equalities(), {a}, [a]
        while todo:
            x = todo.pop()
            for y in eq.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        return b in seen

    # ------------------------------------------------------------ invariants
    def elements(self, ec, what="number of elements"):
        en = self.en
        o = en.obj(ec)
        table = en.obj(o.f["_elem2node"])
        want = []
        for k, v, g in table.f["entries"]:
            e = {a.args[0] if isinstance(a, Term) else a: b for a, b, _ in en.obj(v).f["entries"]} if en.obj(v) is not None else None
            if e is None or "elem2node" not in e or not isinstance(g, bool) and not isinstance(g, Term):
                self.rep.undecided("elements", self.where, f"{self.name}: {what}")
                return
            want.append((g, e["elem2node"], None))
        self.agree("elements", en.getattr(ec, "nelem"), want, what)

    def rows(self, ii, what="number of rows"):
        en = self.en
        self.agree("rows", en.getattr(ii, "nelem"), [(True, en.getattr(ii, "conn"), None)], what)

    def numbers(self, ix, what="size"):
        en = self.en
        self.agree("list", en.getattr(ix, "size"), [(True, en.call(en.getattr(ix, "list"), [], {}), None)], what)

    def mesh(self, m, parts=("faces", "nodes", "cells")):
        en = self.en
        o = en.obj(m)
        if "faces" in parts:
            d = en.obj(o.f["_faces"])
            want = []
            for k, v, g in d.f["entries"]:
                ec = en.getitem(v, C("face2node"))
                self.elements(ec, f"number of {k.args[0] if isinstance(k, Term) else k} faces")
                want.append((g, None, summed(en.freeze(en.getattr(ec, "nelem")))))
            self.agree("faces", en.getattr(m, "nface"), want, "number of faces")
        if "cells" in parts and o.f["_cell2node"] is not NONE and en.obj(o.f["_cell2node"]) is not None:
            self.elements(o.f["_cell2node"], "number of cells of the table")
            self.agree("cells", en.getattr(m, "ncell"), [(True, None, en.freeze(en.getattr(o.f["_cell2node"], "nelem")))], "number of cells")
        if "nodes" in parts:
            for k, v, g in en.obj(o.f["_nodes"]).f["entries"]:
                self.agree("nodes", en.getattr(m, "nnode"), [(g, v, None)], f"number of nodes, by coordinate {k.args[0] if isinstance(k, Term) else k}")


def is_size(t):
    """a number of rows, positive for some input"""
    if t.op == "gamma":
        return all(is_size(x) or is_num(x) and x.args[0] >= 0 for x in t.args[1:])
    return t.op == "len" or t.op == "item" and t.args[0].op in ("attr", "method") and t.args[0].args[1] == "shape"


def outside(events, obj, table, method, inside=False):
    """events that change the counter or the table outside `method`"""
    out = []
    for e in events:
        if e[0] == "enterfn" and e[2] == method:
            inside += 1
        elif e[0] == "leavefn" and e[2] == method:
            inside -= 1
        elif not inside and (e[0] == "setattr" and e[2] is obj and e[3] in ("_nelem", "_elem2node") or e[0] in ("setitem", "delitem", "mutate") and (e[2] is table or isinstance(e[2], Term) and contains(e[2], lambda x: x is table))):
            out.append(e)
        for x in e[2:]:
            if isinstance(x, (list, tuple)) and x and not isinstance(x, Term) and isinstance(x[0], tuple) and x[0] and isinstance(x[0][0], str):
                out += outside(x, obj, table, method, inside)
    return out


def summed(t):
    """sums of known terms written out"""
    for x in list(walk(t)):
        if x.op == "call" and x.args[0].op == "ext" and x.args[0].args[0] in ("numpy.sum", "builtins.sum") and len(x.args[1]) == 1 and not x.args[2]:
            q = x.args[1][0]
            if q.op == "seq" and all(c.op == "e" for c in q.args):
                s = C(0)
                for c in q.args:
                    s = add(s, summed(c.args[0]))
                return summed(subst(t, {x: s}))
    return t


def attempt(c, f, rule):
    """run an operation; False when it always raises"""
    try:
        f()
        return True
    except Exc:
        c.rep.bad(rule, c.where, f"{c.name}: always raises", key=f"{c.name}:raise")
        return False


STATES = {"empty": (), "one type": ("quad4",), "two types": ("tri3", "quad4")}


def connectivities(rep):
    where = CONN + ".elem_connectivity"
    for state, types in STATES.items():
        for numbered in (False, True) if types else (False,):
            tag = state + (", numbered" if numbered else "")

            def start(op):
                c = Inv(rep, f"{op} ({tag})", f"{where}.{op.split()[0]}")
                rep.function(c.where)
                ec, _, _ = c.table("s", types, numbered)
                return c, ec

            c, ec = start("add_elems")
            c.elements(ec, "number of elements before")
            for n in ("quad4", "tri3", "quad4"):
                E, ne = sym("new", n, str(len(c.shapes))), sym("nnew", n, str(len(c.shapes)))
                c.shapes[E] = (ne, NODES[n])
                if attempt(c, lambda: c.en.call(c.en.getattr(ec, "add_elems"), [C(n), E], {}), "elements"):
                    c.elements(ec, f"number of elements after {n}")
            c, ec = start("importfrom_merge")
            a, b = c.table("a", ("tri3", "quad4")), c.table("b", ("quad4", "bar2"), True)
            if attempt(c, lambda: c.en.call(c.en.getattr(ec, "importfrom_merge"), [T("tuple", a[0], b[0])], {}), "elements"):
                c.elements(ec)
                c.elements(a[0], "number of elements of a table given")
                c.elements(b[0], "number of elements of another table given")
            c, ec = start("importfrom_compressedindex")
            z = c.en.call(c.en.module_attr(CONN, "compressed_listofindex"), [T("sym", "index"), T("sym", "value")], {})
            n = len(c.en.st.events)
            table = c.en.obj(ec).f["_elem2node"]
            if attempt(c, lambda: c.en.call(c.en.getattr(ec, "importfrom_compressedindex"), [z], {}), "elements"):
                out = outside(c.en.st.events[n:], ec, table, where + ".add_elems")
                if not out:
                    rep.ok("elements", c.where, f"{c.name}: the table and its counter are changed by add_elems only")
                else:
                    c.elements(ec)
            if types:
                c, ec = start("extrude")
                N = T("sym", "nplane")
                out = []
                if attempt(c, lambda: out.append(c.en.call(c.en.getattr(ec, "extrude"), [N, T("sym", "shift")], {})), "elements"):
                    c.elements(ec, "number of elements of the table extruded")
                    c.elements(out[0])
            for op in ("all_index", "index_elem_tuples", "nodelist", "exportto_compressedindex", "check", "print", "items", "elems"):
                c, ec = start(op)
                try:
                    c.en.call(c.en.getattr(ec, op), [], {})
                except Exc:
                    pass
                c.elements(ec)
    for types in (("tetra4",), ("hexa8",), ("prism6",), ("tetra4", "pyra5")):
        c = Inv(rep, f"create_faces_from_elems ({'+'.join(types)})", where + ".create_faces_from_elems")
        rep.function(c.where)
        en = c.en
        ec = en.call(en.module_attr(CONN, "elem_connectivity"), [], {})
        for n in types:
            c.shapes[sym("E", n)] = (sym("n", n), {"tetra4": 4, "hexa8": 8, "prism6": 6, "pyra5": 5}[n])
            en.call(en.getattr(ec, "add_elems"), [C(n), sym("E", n)], {})
        out = []
        if attempt(c, lambda: out.append(en.call(en.getattr(ec, "create_faces_from_elems"), [], {})), "elements"):
            for k, what in enumerate(("internal faces", "rows of cells of internal faces", "boundary faces", "rows of cells of boundary faces")):
                (c.rows if k % 2 else c.elements)(en.getitem(out[0], C(k)), "number of " + what)


def directions(rep):
    where = CONN + ".indexindirection"
    rep.function(where + ".append")
    rep.function(where + ".conn")
    for state in ("empty", "given"):
        for op in ("append", "conn", "append twice"):
            c = Inv(rep, f"{op} ({state})", f"{where}.{op.split()[0]}")
            en = c.en
            for k in "abc":
                c.shapes[sym("F", k)] = (sym("n", k), 2)
            ii = en.call(en.module_attr(CONN, "indexindirection"), [] if state == "empty" else [sym("Fa")], {})
            c.rows(ii, "number of rows before")
            if op == "conn":
                ok = attempt(c, lambda: en.setattr(ii, "conn", sym("Fb")), "rows")
            else:
                ok = attempt(c, lambda: [en.call(en.getattr(ii, "append"), [sym("F", k)], {}) for k in ("bc" if op.endswith("twice") else "b")], "rows")
            if ok:
                c.rows(ii)


def lists(rep):
    where = CONN + ".indexlist"
    for f in ("size", "set_range", "set_list", "append", "shift", "compress", "__add__"):
        rep.function(f"{where}.{f}")
    for state in ("list", "range"):
        for op in ("nothing", "set_list", "set_range", "append", "shift", "compress", "add"):
            c = Inv(rep, f"{op} (from a {state})", f"{where}.{op}")
            en = c.en
            for k in "ab":
                c.shapes[sym("I", k)] = (sym("n", k), None)
            IL = en.module_attr(CONN, "indexlist")
            rng = T("tuple", T("sym", "lo"), add(T("sym", "lo"), sub(sym("nr"), C(1))))
            ix = numbers(en, sym("Ia")) if state == "list" else en.call(IL, [], {"irange": rng})
            res = [ix]
            run_ = {"nothing": lambda: None,
                    "set_list": lambda: en.call(en.getattr(ix, "set_list"), [en.ref("list", {"chunks": (T("spread", sym("Ib")),)})], {}),
                    "set_range": lambda: en.call(en.getattr(ix, "set_range"), [rng], {}),
                    "append": lambda: en.call(en.getattr(ix, "append"), [en.ref("list", {"chunks": (T("spread", sym("Ib")),)})], {}),
                    "shift": lambda: res.append(en.call(en.getattr(ix, "shift"), [T("sym", "d")], {})),
                    "compress": lambda: en.call(en.getattr(ix, "compress"), [], {}),
                    "add": lambda: res.append(en.call(en.getattr(ix, "__add__"), [numbers(en, sym("Ib"))], {}))}[op]
            if attempt(c, run_, "list"):
                for k, x in enumerate(res):
                    c.numbers(x, "size" + (" of the result" if k else ""))


def meshes(rep):
    where = MESH + ".Mesh"

    def faces(c, mesh, side, types=("quad4", "tri3")):
        en = c.en
        ec, _, total = c.table(side + str(len(c.shapes)), types)
        f = sym("f2c", side, str(len(c.shapes)))
        c.shapes[f] = (total, 2)
        en.call(en.getattr(mesh, "add_faces"), [C(side), ec, en.call(en.module_attr(CONN, "indexindirection"), [f], {})], {})

    starts = {"no face": (), "boundary": ("boundary",), "both sides": ("boundary", "internal"), "mixed": ("mixed",), "all": ("mixed", "internal", "boundary")}
    for state, sides in starts.items():
        ops = [(f"add_faces {s}", s) for s in ("mixed", "internal", "boundary")] + [(f"pop_faces {s}", s) for s in ("mixed", "internal", "boundary")] + [("export_mixedfaces", None), ("make_face_connectivity", None), ("printinfo", None), ("list_boco_index", None)]
        for op, s in ops:
            if op == "export_mixedfaces" and not {"boundary", "internal"} <= set(sides):
                continue
            fn = op.split()[0]
            c = Inv(rep, f"{op} ({state})", f"{where}.{fn}")
            rep.function(c.where)
            en = c.en
            mesh = en.call(en.module_attr(MESH, "Mesh"), [], {})
            try:
                for x in sides:
                    faces(c, mesh, x)
                if fn == "make_face_connectivity":
                    ec = en.call(en.module_attr(CONN, "elem_connectivity"), [], {})
                    c.shapes[sym("cells")] = (sym("ncells"), 4)
                    en.call(en.getattr(ec, "add_elems"), [C("tetra4"), sym("cells")], {})
                    en.call(en.getattr(mesh, "set_cell2node"), [ec], {})
            except Exc:
                rep.bad("faces", c.where, f"{c.name}: always raises", key=f"{c.name}:raise")
                continue
            try:
                if fn == "add_faces":
                    faces(c, mesh, s, ("tri3",))
                else:
                    en.call(en.getattr(mesh, fn), [C(s)] if s else [], {})
            except Exc:
                if fn in ("add_faces", "pop_faces", "export_mixedfaces", "make_face_connectivity"):
                    rep.bad("faces", c.where, f"{c.name}: always raises", key=f"{c.name}:raise")
                continue
            c.mesh(mesh, ("faces", "cells"))
    # ---- cells
    for twice in (False, True):
        c = Inv(rep, "set_cell2node" + (" twice" if twice else ""), where + ".set_cell2node")
        rep.function(c.where)
        en = c.en
        mesh = en.call(en.module_attr(MESH, "Mesh"), [], {"ncell": T("sym", "other")})
        if attempt(c, lambda: [en.call(en.getattr(mesh, "set_cell2node"), [c.table(k, t)[0]], {}) for k, t in (("u", ("quad4", "tri3")), ("v", ("tri3",)))[: 1 + twice]], "cells"):
            c.mesh(mesh, ("cells",))
    # ---- nodes
    for op in ("set_nodescoord_nd", "set_nodescoord_xyz", "morph", "scale"):
        c = Inv(rep, op, f"{where}.{op}")
        rep.function(c.where)
        en = c.en
        mesh = en.call(en.module_attr(MESH, "Mesh"), [], {"nnode": T("sym", "nnode")})
        for q in "XYZ":
            c.shapes[sym(q)] = (sym("n", q), None)
        c.shapes[sym("XYZ")] = (sym("nXYZ"), 3)
        xyz = [sym(q) for q in "XYZ"]

        def go():
            if op in ("morph", "scale"):
                en.call(en.getattr(mesh, "set_nodescoord_xyz"), xyz, {})
            en.call(en.getattr(mesh, op), {"set_nodescoord_nd": [sym("XYZ")], "set_nodescoord_xyz": xyz, "morph": [T("sym", "f")], "scale": [T("tuple", *(sym("s", q) for q in "XYZ"))]}[op], {})
        if attempt(c, go, "nodes"):
            for k, v, g in en.obj(en.obj(mesh).f["_nodes"]).f["entries"]:
                for x in walk(en.freeze(v)):
                    if x.op == "item" and x.args[0].op == "call" and x.args[0].args[0] == T("sym", "f"):
                        c.shapes[x] = (sym("nf", str(x.args[1].args[0])), None)
            c.mesh(mesh, ("nodes",))




def run(rep):
    connectivities(rep)
    directions(rep)
    lists(rep)
    meshes(rep)
