"""One-based numbers become zero-based exactly once.

The registered readers are executed abstractly up to the exported mesh.  For the cell tables and for the marks of that mesh, every
way a number read from the file can take to get there is followed (arrays, lists, tables rewritten entry by entry, merges, look-ups)
and the constants added on the way are summed: the sum has to be -1 on each of them."""
from sa import registry, gmsh
from sa.terms import T, C, Term, walk, show, is_str
from sa.cli import flat

TECHNIQUE = "abstract execution of the readers; def-use origins of the exported numbers with the shift accumulated on every path"
LEVEL_NOTE = "GMSH in each of its two layouts, CGNS; cell tables, boundary marks given as nodes, as faces and as elements, element ranges."
RULES = {"cells": "each node number of a cell table is a number of the file minus one",
         "marks": "each number of a mark is a number of the file minus one",
         "range": "element numbers and the ranges they are looked up in are shifted alike",
         "owner": "the positions nodes are stored at are the node numbers of the file minus one"}
ASSUMPTIONS = ["numbers start at one in GMSH and CGNS files", "numpy copies and reorderings keep the values"]


def label(l):
    return show(l[1], 3) if isinstance(l, tuple) else show(l, 3) if isinstance(l, Term) else str(l)


def brief(fmt, l):
    l = l[1] if isinstance(l, tuple) else l
    if fmt.startswith("GMSH"):
        return f"section {l.args[1].args[0].args[0]}" if l.op == "row" and l.args[1].op == "item" and l.args[1].args[0].op == "sec" else f"section {l.args[0]}" if l.op != "row" else "a line"
    return l.args[1].args[0].split("/")[0] if l.op == "item" and is_str(l.args[1]) else label(l)


def judge(rep, rule, where, fmt, what, origins, want=-1, relevant=lambda l: True):
    """every path brings the number of the file plus `want`"""
    sure = [(l, s) for l, s in origins if isinstance(l, Term) and relevant(l)]
    open_ = [(l, s) for l, s in origins if not isinstance(l, Term)]
    wrong = sorted({(brief(fmt, l), s) for l, s in sure if s != want})
    for b, s in wrong:
        rep.bad(rule, where, f"{fmt}: {what} are the numbers of {b} {'' if s == 0 else 'shifted by %+d' % s if isinstance(s, int) else '?'}"
                f"{'unchanged' if s == 0 else ''}, not shifted by {want:+d} once", key=f"{fmt}:{rule}:{b}:{s}")
    if wrong:
        return
    if not sure or open_:
        rep.undecided(rule, where, f"{fmt}: where {what} come from is not followed")
        return
    for b in sorted({brief(fmt, l) for l, _ in sure}):
        rep.ok(rule, where, f"{fmt}: {what} from {b}: shift {want:+d} on every path")


def mark_indices(en, mesh):
    """values of the index of each mark of the mesh"""
    out = []
    bocos = en.obj(en.obj(mesh).f.get("_bocos"))
    if bocos is None:
        return out
    for _, v, _ in bocos.f["entries"]:
        o = en.obj(v)
        ix = en.obj(o.f.get("_index")) if o is not None and o.kind == "inst" else None
        if ix is not None:
            out += [x for k, x in ix.f.items() if k != "__fresh__" and isinstance(x, Term) and k != "_type"]
    return out


def cell_table(en, mesh):
    c = en.obj(en.obj(mesh).f.get("_cell2node"))
    if c is None or c.kind != "inst":
        return None
    for k, x in c.f.items():
        if isinstance(x, Term) and any(is_str(y) and y.args[0] == "elem2node" for y in walk(en.freeze(x))):
            return x
    return None


def stored(en, events, orig, norm):
    """origins, shifted too far, of what is stored in records under the names the numbers of marks went through
    (what is not shifted there may be later)"""
    out = set()
    for e in flat(events):
        if e[0] == "setitem" and e[3] in orig.keys and isinstance(e[4], Term):
            out |= orig(norm(en.freeze(e[4])))
    return {(l, s) for l, s in out if isinstance(l, Term) and isinstance(s, int) and s < -1}


def where_of(en, cls, name="export_mesh"):
    m = en.class_lookup(en.classes[cls.args[0]], name) if cls.op == "class" else None
    if m is not None and m.op == "func":
        f = en.funcs[m.args[0]]
        return f.qual
    return show(cls, 2)


def positions(t):
    """(position, value) of the stores a list is filled with"""
    return [(x.args[1], x.args[2]) for x in walk(t) if x.op == "store"]


def run(rep):
    for v, r in gmsh.layouts():
        en = r.en
        fmt = f"GMSH (layout {v})"
        where = where_of(en, r.cls, "read_data")
        if r.stage != "done":
            rep.undecided("cells", where, f"{fmt}: the reader is not followed to the end")
            continue
        rep.function(where)
        norm = gmsh.Norm(en)
        orig = gmsh.Origins(gmsh.leaf, en, norm)
        t = cell_table(en, r.mesh)
        judge(rep, "cells", where, fmt, "the nodes of cells", orig.field(norm(en.freeze(t)), C("elem2node"), set()) if t is not None else ())
        o = set()
        for x in mark_indices(en, r.mesh):
            o |= orig(norm(en.freeze(x)))
        o |= stored(en, r.events, orig, norm)
        judge(rep, "marks", where, fmt, "the numbers of marks", o)
        nodes = set()
        for q in "xyz":
            for p, val in positions(norm(en.freeze(en.getitem(en.obj(r.mesh).f["_nodes"], C(q))))):
                if any(l.op == "ftok" for l, _ in orig(val) if isinstance(l, Term)):
                    nodes |= orig(p)
        if nodes:
            judge(rep, "owner", where, fmt, "the positions of nodes", nodes)
    r = registry.run_reader("CGNS")
    en = r.en
    where = where_of(en, r.cls)
    if r.stage != "done":
        rep.undecided("cells", where, "CGNS: the reader is not followed to the end")
        return
    rep.function(where)

    def leaf(t):
        return t if t.op == "item" and is_str(t.args[1]) and t.args[1].args[0].split("/")[-1] == " data" else None
    orig = gmsh.Origins(leaf, en)
    t = cell_table(en, r.mesh)
    ft = en.freeze(t) if t is not None else C(None)
    judge(rep, "cells", where, "CGNS", "the nodes of cells", orig.field(ft, C("elem2node"), set()))
    judge(rep, "cells", where, "CGNS", "the ranges of elements", orig.field(ft, C("index"), set()))
    o, marks = set(), [en.freeze(x) for x in mark_indices(en, r.mesh)]
    for x in marks:
        o |= orig(x)
    o |= stored(en, r.events, orig, lambda t: t)
    judge(rep, "marks", where, "CGNS", "the numbers of marks", {x for x in o if not isinstance(x[0], str)} or o)
    done = False
    for m in marks:
        for x in walk(m):
            if x.op == "mapof" and x.args[0].op in ("method", "attr") and isinstance(x.args[0].args[0], Term):
                table = en.freeze(x.args[0].args[0])
                if table.op != "dictof":
                    continue
                ids = {s for l, s in orig(x.args[1]) if isinstance(l, Term)}
                keys = set()
                for e in table.args[1]:
                    k = e[0].args[2] if e[0].op == "eachkey" else e[0]
                    keys |= {s for l, s in orig(k) if isinstance(l, Term)}
                if ids and keys:
                    done = True
                    rep.check(ids == keys and len(ids) == 1, "range", where, f"CGNS: numbers shifted by {sorted(ids)} are looked up in ranges shifted by {sorted(keys)}", key="CGNS:range")
    if not done:
        rep.undecided("range", where, "CGNS: how element numbers are looked up is not followed")
