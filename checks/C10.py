"""Extrusion builds exact layers of nodes, cells and marks.

A surface mesh whose tables are arrays of symbolic content and size is extruded abstractly over a symbolic number of planes.  The
tables of the result are rewritten as loop nests over planes and rows and compared with the layers they must be."""
from sa import surface
from sa.arrays import Arrays, Unknown, decide, loop, normal
from sa.engine import Exc
from sa.terms import T, C, Term, NONE, add, sub, mul, show, is_num, poly_of
from checks.C11 import same_number

TECHNIQUE = "abstract execution on arrays of symbolic content and size; tables of the result as loop nests over planes and rows, compared in normal form"
LEVEL_NOTE = "Any number of planes, nodes, elements and marked nodes; meshes of one and of two types of elements, with and without given numbers; default and given direction and offsets."
RULES = {"nodes": "plane a holds the nodes displaced by offset a along the direction",
         "cells": "layer a joins the nodes of planes a and a+1",
         "numbers": "cells of layer a are numbered after those of layer a-1",
         "type": "an element becomes the volume it sweeps",
         "marks": "a mark holds its nodes on every plane",
         "ends": "the first and the last planes are the two new marks",
         "count": "counters are the sizes of the tables",
         "refused": "marks of faces are refused"}
ASSUMPTIONS = ["at least two planes"]
MESH, CONN = "cfdtools.meshbase._mesh", "cfdtools.meshbase._connectivity"
WHERE = "cfdtools.meshbase._mesh.Mesh.export_extruded"
NODES = {"bar2": 2, "tri3": 3, "quad4": 4}
SWEPT = {"bar2": "quad4", "tri3": "prism6", "quad4": "hexa8"}
NN, NP, NL = T("sym", "nnode"), T("sym", "nplane"), T("sym", "nmarked")


def source(en, types, numbered, geodim="bdnode"):
    """a mesh of the given types of elements with one mark, and the arrays it is made of"""
    Mesh, EC = en.module_attr(MESH, "Mesh"), en.module_attr(CONN, "elem_connectivity")
    IL, SM = en.module_attr(CONN, "indexlist"), en.module_attr(MESH, "submeshmark")
    shapes = {T("sym", q): (NN, None) for q in "XYZ"}
    mesh = en.call(Mesh, [], {"nnode": NN})
    en.call(en.getattr(mesh, "set_nodescoord_xyz"), [T("sym", q) for q in "XYZ"], {})
    ec = en.call(EC, [], {})
    for n in types:
        E, I, ne = T("sym", "E" + n), T("sym", "I" + n), T("sym", "n" + n)
        shapes[E] = (ne, NODES[n])
        shapes[I] = (ne, None)
        kw = {"index": en.call(IL, [], {"ilist": en.ref("list", {"chunks": (T("spread", I),)})})} if numbered else {}
        en.call(en.getattr(ec, "add_elems"), [C(n), E], kw)
    en.call(en.getattr(mesh, "set_cell2node"), [ec], {})
    b = en.call(SM, [C("side")], {})
    en.setattr(b, "geodim", C(geodim))
    en.setattr(b, "type", C("perio_cart"))
    L = T("sym", "L")
    shapes[L] = (NL, None)
    en.setattr(b, "index", en.call(IL, [], {"ilist": en.ref("list", {"chunks": (T("spread", L),)})}))
    en.call(en.getattr(mesh, "add_boco"), [b], {})
    return mesh, shapes


class Case:
    def __init__(self, rep, types, numbered, given):
        self.rep, self.types, self.numbered, self.given = rep, types, numbered, given
        self.name = "+".join(types) + (" numbered" if numbered else "") + ("" if given else " by default")
        self.np = NP if given else C(2)
        self.env = {NN: C(5), NP: C(3), NL: C(2), **{T("sym", "n" + n): C(2 + i) for i, n in enumerate(types)}}

    def check(self, t, want, rule, what):
        ok, why = decide(self.en, t, want, self.shapes, [NN, NP], self.env)
        self.rep.check(ok, rule, WHERE, f"{self.name}: {what}" + ("" if ok else ": " + why), key=f"{self.name}:{what}")

    def number(self, t, want, what):
        try:
            got = self.A.scalar(self.en.freeze(t))
        except Unknown as e:
            self.rep.undecided("count", WHERE, f"{self.name}: {what}: {e}")
            return
        self.rep.check(same_number(got, want), "count", WHERE, f"{self.name}: {what} is {show(got, 5)}" + ("" if got == want else f", {show(want, 5)} expected"), key=f"{self.name}:{what}")

    def run(self):
        rep = self.rep
        en = self.en = surface.fresh()
        mesh, shapes = source(en, self.types, self.numbered)
        ext, d = T("sym", "offsets"), T("sym", "direction")
        shapes[ext], shapes[d] = (NP, None), (C(3), None)
        self.shapes = shapes
        self.A = Arrays(en, shapes, scalars=[NN, NP])
        kw = {"direction": d, "extrude": ext} if self.given else {}
        try:
            new = en.call(en.getattr(mesh, "export_extruded"), [], kw)
        except Exc as e:
            rep.bad("nodes", WHERE, f"{self.name}: a surface mesh cannot be extruded", key=f"{self.name}:raise")
            return
        o = en.obj(new)
        off = (lambda a: T("at", ext, a)) if self.given else (lambda a: a)
        np_ = self.np
        for q, i in zip("XYZ", range(3)):
            t = en.getitem(o.f["_nodes"], C(q.lower()))
            along = (lambda a: mul(off(a), T("at", d, C(i)))) if self.given else (lambda a: off(a) if i == 2 else C(0))
            want = loop(np_, lambda a: loop(NN, lambda n: T("one", add(along(a), T("at", T("sym", q), n)))))
            self.check(t, want, "nodes", f"coordinate {q.lower()} of each plane")
        # ---- cells
        total = C(0)
        for n in self.types:
            total = add(total, T("sym", "n" + n))
        entries = en.obj(en.obj(o.f["_cell2node"]).f["_elem2node"]).f["entries"]
        by = {k.args[0] if isinstance(k, Term) else k: v for k, v, _ in entries}
        start = C(0)
        for n in self.types:
            E, I, ne, w = T("sym", "E" + n), T("sym", "I" + n), T("sym", "n" + n), NODES[n]
            if SWEPT[n] not in by:
                rep.bad("type", WHERE, f"{self.name}: {n} does not become {SWEPT[n]} but {', '.join(map(str, by))}", key=f"{self.name}:{n}")
                continue
            rep.ok("type", WHERE, f"{self.name}: {n} becomes {SWEPT[n]}")
            e = {k.args[0] if isinstance(k, Term) else k: v for k, v, _ in en.obj(by[SWEPT[n]]).f["entries"]}

            def cell(a, r):
                low = [add(T("at", E, r, C(c)), mul(a, NN)) for c in range(w)]
                up = [add(x, NN) for x in low]
                return T("one", T("cols", *(low + (up[::-1] if w == 2 else up))))
            self.check(e["elem2node"], loop(sub(np_, C(1)), lambda a: loop(ne, lambda r: cell(a, r))), "cells", f"cells on {n}")
            old = (lambda r: T("at", I, r)) if self.numbered else (lambda r: add(start, r))
            try:
                lst = en.call(en.getattr(e["index"], "list"), [], {})
            except Exc:
                rep.bad("numbers", WHERE, f"{self.name}: cells on {n} have no number", key=f"{self.name}:{n}:none")
                lst = None
            if lst is not None:
                self.check(lst, loop(sub(np_, C(1)), lambda a: loop(ne, lambda r: T("one", add(old(r), mul(a, total))))), "numbers", f"numbers of the cells on {n}")
            start = add(start, ne)
        self.number(en.getattr(new, "nnode"), mul(np_, NN), "number of nodes")
        self.number(en.getattr(new, "ncell"), mul(sub(np_, C(1)), total), "number of cells")
        # ---- marks
        b = {k.args[0] if isinstance(k, Term) else k: v for k, v, _ in en.obj(o.f["_bocos"]).f["entries"]}
        nodes = T("set", *sorted({normal(loop(T("sym", "n" + n), lambda r: T("one", T("at", T("sym", "E" + n), r, C(c))))) for n in self.types for c in range(NODES[n])}, key=lambda p: p.n))
        side = loop(np_, lambda a: loop(NL, lambda r: T("one", add(T("at", T("sym", "L"), r), mul(a, NN)))))
        first = loop(T("card", nodes), lambda r: T("one", T("at", nodes, r)))
        last = loop(T("card", nodes), lambda r: T("one", add(T("at", nodes, r), mul(sub(np_, C(1)), NN))))
        for name, want, typ, rule in (("side", side, "perio_cart", "marks"), ("fluid0", first, "boundary", "ends"), ("fluid1", last, "boundary", "ends")):
            if name not in b:
                rep.bad(rule, WHERE, f"{self.name}: there is no mark {name}", key=f"{self.name}:{name}:none")
                continue
            try:
                geodim, mt = en.getattr(b[name], "geodim"), en.getattr(b[name], "type")
                lst = en.call(en.getattr(en.getattr(b[name], "index"), "list"), [], {})
            except Exc:
                rep.bad(rule, WHERE, f"{self.name}: mark {name} has no place, type or nodes", key=f"{self.name}:{name}:bare")
                continue
            rep.check(geodim == C("bdnode") or (False if geodim.op == "const" else None), rule, WHERE, f"{self.name}: mark {name} is of {show(geodim, 2)}", key=f"{self.name}:{name}:geodim")
            rep.check(mt == C(typ) or (False if mt.op == "const" else None), rule, WHERE, f"{self.name}: mark {name} is {show(mt, 2)}", key=f"{self.name}:{name}:type")
            self.check(lst, want, rule, f"nodes of mark {name}")


def run(rep):
    rep.function(WHERE)
    rep.function("cfdtools.meshbase._connectivity.elem_connectivity.extrude")
    for types, numbered, given in ((("quad4",), False, True), (("tri3",), True, True), (("bar2",), False, True), (("bar2",), True, True),
                                   (("quad4", "tri3"), False, True), (("tri3", "quad4"), True, True), (("quad4",), False, False)):
        Case(rep, types, numbered, given).run()
    for geodim in ("bdface", "intface", "face"):
        en = surface.fresh()
        mesh, _ = source(en, ("quad4",), False, geodim)
        try:
            en.call(en.getattr(mesh, "export_extruded"), [], {})
            rep.bad("refused", WHERE, f"a mark of {geodim} is extruded as if it held nodes", key=f"refused:{geodim}")
        except Exc:
            rep.ok("refused", WHERE, f"a mark of {geodim} is refused")
