"""GMSH files are decoded with the layout of their declared version.

The reader is executed abstractly for each header line (version, file type, size of numbers).  What it exports is a set of terms over
tokens of the file: section, line and column of each token are compared with the format (MSH 2.2 and 4.1)."""
from sa import registry, gmsh
from sa.cli import flat
from sa.terms import T, C, Term, TRUE, FALSE, walk, show, is_str, is_int, is_const, is_num, add, sub, mul, subst, lookup, contains, poly_of
from checks.C08 import cell_table, mark_indices, where_of, positions

TECHNIQUE = "abstract execution of the reader per declared version; section, line and column of every token used, compared with the format"
LEVEL_NOTE = "Header lines of MSH 1-4.1; nodes, elements, tags, entities and physical names of layouts 2.2 and 4.1. Layout 4.0 is refused by an index error only."
RULES = {"version": "the declared version is decoded, or refused when it is not supported",
         "header": "binary files and numbers of another size are refused",
         "section": "a section is delimited by its own marks",
         "node": "tag and coordinates of a node are read from their line and column",
         "block": "the next block starts after the lines of this one",
         "element": "the nodes of an element are read from their line and column",
         "type": "the type of an element is read from its line and column",
         "dimension": "cells have the dimension of the mesh, boundary elements one less",
         "physical": "the physical group of a boundary is read from its line and column",
         "entity": "the physical group of an entity is read from its line in the entities of its dimension",
         "name": "a physical name is found by its tag"}
ASSUMPTIONS = ["files conform to the format they declare", "node tags are dense"]
DIM = {1: 1, 2: 2, 3: 2, 4: 3, 5: 3, 6: 3, 7: 3}


def free_atoms(t):
    return {a for m in poly_of(t) for a in m}


def agree(a, b):
    """True / False / None"""
    if a == b:
        return True
    d = sub(a, b)
    if is_num(d):
        return d.args[0] == 0
    if all(x.op in ("idx", "mu", "itok") and (x.op != "mu" or x.args[0]) for x in free_atoms(d)):
        return False
    return None


class Layout:
    def __init__(self, rep, version, r):
        self.rep, self.version, self.r, self.en = rep, version, r, r.en
        self.fmt = f"layout {version}"
        self.norm = gmsh.Norm(r.en)
        self.orig = gmsh.Origins(gmsh.leaf, r.en, self.norm)
        self.where = where_of(r.en, r.cls, "read_data")
        self.v4 = version.startswith("4")

    def check(self, cond, rule, what):
        self.rep.check(cond, rule, self.where, f"{self.fmt}: {what}", key=f"{self.version}:{rule}:{what}"[:120])

    def leaves(self, o, op=None):
        return {l for l, s in o if isinstance(l, Term) and (op is None or l.op == op)}

    def blocks(self, line, lines, rule):
        """`line` is i-th line after the header of a block (or of the section): (header, i) with the advance of blocks verified"""
        mus = [a for a in free_atoms(line) if a.op == "mu"]
        if len(mus) != 1:
            return None
        return mus[0]

    def even(self, line):
        """lines of a block are found by its number times a size that is the same for all blocks"""
        return not any(a.op == "mu" for x in walk(line) for a in (x,)) and any(
            any(a.op == "idx" for a in m) and any(a.op == "itok" and not contains(a, lambda x: x.op == "idx") for a in m) for m in poly_of(line))

    def advance(self, mu, section, per, rule):
        """the header line of the first block is 1 and the next one comes per*n+1 lines later"""
        nxt = None
        for m, (n, init) in self.en.loopnext.items():
            if m.op == "mu" and self.norm(m) == mu:
                nxt = (self.norm(n), init)
        if nxt is None:
            self.rep.undecided(rule, self.where, f"{self.fmt}: how blocks of {section} follow each other")
            return
        n = T("itok", section, mu, C(3))
        want = add(add(mu, mul(C(per), n)), C(1))
        ok = agree(nxt[0], want)
        self.check(ok, "block", f"the next block of {section} starts {show(sub(nxt[0], mu), 4)} lines after the header of this one, {show(sub(want, mu), 4)} expected" if not ok
                   else f"blocks of {section} follow each other")
        if isinstance(nxt[1], Term):
            self.check(agree(nxt[1], C(1)), "block", f"the first block of {section} starts at line {show(nxt[1], 3)} of the section")

    # ---------------------------------------------------------------- nodes
    def nodes(self):
        en = self.en
        for c, q in enumerate("xyz"):
            st = [(p, v) for p, v in positions(self.norm(en.freeze(en.getitem(en.obj(self.r.mesh).f["_nodes"], C(q))))) if self.leaves(self.orig(v), "ftok")]
            if not st:
                self.rep.undecided("node", self.where, f"{self.fmt}: how coordinate {q} is filled is not followed")
                continue
            for p, v in st:
                vs, ps = self.leaves(self.orig(v), "ftok"), self.leaves(self.orig(p), "itok")
                if len(vs) != 1 or len(ps) != 1:
                    self.rep.undecided("node", self.where, f"{self.fmt}: coordinate {q} is not one number at one position")
                    continue
                val, pos = vs.pop(), ps.pop()
                self.check(val.args[0] == "Nodes" and pos.args[0] == "Nodes", "section", f"nodes are read from {val.args[0]} and {pos.args[0]}")
                col = C(c) if self.v4 else C(c + 1)
                self.check(agree(val.args[2], col), "node", f"coordinate {q} is column {show(val.args[2], 3)} of its line, column {c if self.v4 else c + 1} expected" if agree(val.args[2], col) is not True else f"coordinate {q} column")
                self.check(agree(pos.args[2], C(0)), "node", f"the tag of a node is column {show(pos.args[2], 3)} of its line")
                if not self.v4:
                    self.check(agree(val.args[1], pos.args[1]), "node", f"coordinate {q} is on the line of the tag")
                    i = [a for a in free_atoms(pos.args[1]) if a.op == "idx"]
                    if len(i) == 1:
                        self.check(agree(pos.args[1], add(i[0], C(1))), "node", "the first node is on the line after the count")
                        self.check(self.range_of(p, v, i[0], T("itok", "Nodes", C(0), C(0))), "node", "as many nodes as the section says")
                    else:
                        self.rep.undecided("node", self.where, f"{self.fmt}: which lines are nodes")
                    continue
                mu = self.blocks(pos.args[1], val.args[1], "node")
                if mu is None and self.even(pos.args[1]):
                    self.check(False, "block", "blocks of Nodes are taken to be of one size")
                    continue
                if mu is None:
                    self.rep.undecided("node", self.where, f"{self.fmt}: which lines are nodes")
                    continue
                n = T("itok", "Nodes", mu, C(3))
                i = [a for a in free_atoms(pos.args[1]) if a.op == "idx"]
                if len(i) != 1:
                    self.rep.undecided("node", self.where, f"{self.fmt}: which lines of a block are nodes")
                    continue
                self.check(agree(pos.args[1], add(add(mu, i[0]), C(1))), "node", f"tags start on the line after the header of a block")
                self.check(agree(sub(val.args[1], pos.args[1]), n), "node", f"coordinates are {show(sub(val.args[1], pos.args[1]), 4)} lines after the tag" if agree(sub(val.args[1], pos.args[1]), n) is not True else f"coordinate {q} line")
                if c == 0:
                    self.advance(mu, "Nodes", 2, "node")

    def range_of(self, p, v, i, want):
        """the loop index i runs over as many turns as the file says"""
        for q in "xyz":
            t = self.norm(self.en.freeze(self.en.getitem(self.en.obj(self.r.mesh).f["_nodes"], C(q))))
            for x in walk(t):
                if x.op in ("fold", "each", "last") and x.args[0] is i and x.args[1].op == "rangespace":
                    return agree(x.args[1].args[0], want)
        return None

    # ---------------------------------------------------------------- elements
    def elements(self):
        en = self.en
        t = cell_table(en, self.r.mesh)
        ft = self.norm(en.freeze(t)) if t is not None else C(None)
        marks = [self.norm(en.freeze(x)) for x in mark_indices(en, self.r.mesh)]
        cells = self.leaves(self.orig.field(ft, C("elem2node"), set()))
        bnd = set()
        for m in marks:
            bnd |= self.leaves(self.orig(m))
        for what, rows in (("cell", cells), ("boundary element", bnd)):
            if not rows or any(r.op != "row" for r in rows):
                self.rep.undecided("element", self.where, f"{self.fmt}: the nodes of a {what} are not the end of a line")
                continue
            for row in rows:
                self.row(what, row)
        lines = {gmsh.line_of(r.args[1])[1] for r in cells | bnd if r.op == "row"}
        self.types(ft, marks, lines)
        self.guards(ft, marks)
        self.physical(marks, lines)

    def row(self, what, row):
        head, x, first = row.args
        s, line = gmsh.line_of(x)
        if head:
            self.check(False, "element", f"the nodes of a {what} come with {len(head)} other numbers in front")
            return
        self.check(s == "Elements" or (None if s == "?" else False), "section", f"the nodes of a {what} are read from section {s}")
        i = [a for a in free_atoms(line) if a.op == "idx"]
        if not self.v4:
            want = add(C(3), T("itok", s, line, C(2)))
            if len(i) == 1:
                self.check(agree(line, add(i[0], C(1))), "element", "the first element is on the line after the count")
        else:
            want = C(1)
            mu = self.blocks(line, None, "element")
            if mu is None and self.even(line):
                self.check(False, "block", "blocks of Elements are taken to be of one size")
            elif mu is None or len(i) != 1:
                self.rep.undecided("element", self.where, f"{self.fmt}: which lines are elements")
            else:
                self.check(agree(line, add(add(mu, i[0]), C(1))), "element", "elements start on the line after the header of a block")
                self.advance(mu, "Elements", 1, "element")
        ok = agree(first, want)
        self.check(ok, "element", f"the nodes of a {what} start at column {show(first, 4)}, column {show(want, 4)} expected" if ok is not True else f"columns of the nodes of a {what}")

    def codes(self, t):
        """(table, code) of the look-ups by the type of an element"""
        out = set()
        for x in walk(t):
            if x.op == "lookup" and x.args[1].op == "itok" and any(is_str(v) for _, v in x.args[0]):
                out.add(x)
        return out

    def types(self, ft, marks, lines):
        found = {x.args[1] for t in [ft] + marks for x in self.codes(t)}
        if not found:
            self.rep.undecided("type", self.where, f"{self.fmt}: the type of an element is not looked up by a number of the file")
        for k in found:
            if self.v4:
                heads = {a for l in lines for a in free_atoms(l) if a.op == "mu"}
                ok = agree(k.args[2], C(2)) if k.args[1] in heads else (None if not heads else False if k.args[1] in lines else None)
                self.check(ok, "type", f"the type of an element is column {show(k.args[2], 3)} of " + ("the header of its block" if k.args[1] in heads else f"line {show(k.args[1], 3)}"))
            else:
                ok = agree(k.args[2], C(1)) if k.args[1] in lines else None
                self.check(ok, "type", f"the type of an element is column {show(k.args[2], 3)} of its line")

    # ---------------------------------------------------------------- what is a cell, what is a boundary
    def entries(self, t, out, seen):
        """(row, guard) of the tables the rows are collected in"""
        for x in walk(t):
            if x.op == "dictof":
                for e in x.args[1]:
                    if not isinstance(e[1], Term) or not isinstance(e[2], Term):
                        continue
                    if any(y.op == "row" for y in walk_flat(e[1])):
                        out.add(e[2])
        return out

    def guards(self, ft, marks):
        """conditions under which an element is taken: evaluated for each type and each dimension of the mesh"""
        cells = self.entries(ft, set(), set())
        self.dimension("cell", cells, 0)
        taken, some, unknown = set(), False, False
        for e in flat(self.r.events):
            if e[0] != "listadd":
                continue
            added = [y for x in terms(e[2:]) for y in walk_flat(self.norm(self.content(x)))]
            if not any(y.op == "row" for y in added) or any(y.op in ("ext", "method") and y.args[-1] in ("numpy.unique", "ravel", "flatten") for y in added):
                continue        # numbers gathered from tables of rows are not rows
            g = [self.norm(f) for f in e.facts]
            s = self.selected([f for f in g if any(x.op == "itok" and x.args[0] == "Elements" for x in walk(f))])
            some = True
            if s is None:
                unknown = True
                continue
            extra = sorted((d, k) for d, k in s if d - DIM[k] > 1)
            if extra and any(d - DIM[k] <= 1 for d, k in s):
                self.check(False, "dimension", f"type {extra[0][1]} (dimension {DIM[extra[0][1]]}) is taken with the elements of a mesh of dimension {extra[0][0]}")
            taken |= s
        missed = sorted((d, k) for d in (2, 3) for k in DIM if 0 <= d - DIM[k] <= 1 and (d, k) not in taken)
        self.check(None if not some or unknown and missed else not missed, "dimension",
                   f"type {missed[0][1]} (dimension {DIM[missed[0][1]]}) is never taken from a mesh of dimension {missed[0][0]}" if some and missed else "elements of the dimension of the mesh and of one less are taken")

    def content(self, x):
        """the value added, with what a new list holds in place of its reference"""
        for y in list(walk(x)):
            if y.op == "ref" and self.en.obj(y) is not None and self.en.obj(y).kind == "list" and "chunks" in self.en.obj(y).f:
                x = subst(x, {y: T("list", *[c for c in self.en.obj(y).f["chunks"] if isinstance(c, Term)])})
        return x

    def selected(self, conds):
        """(dimension of the mesh, type) for which the conditions hold; None when that is not known"""
        conds = [p for g in conds for p in (g.args if g.op == "and" else (g,)) if any(x.op == "itok" for x in walk(p)) and not contains(p, lambda x: x.op == "keysof" or x.op == "mu" and x.args[-1] == "entries")]
        tops = {x for g in conds for x in walk(g) if top_of(x)}
        codes = {x.args[1] for g in conds for x in walk(g) if x.op == "lookup" and x.args[1].op == "itok"}
        codes = codes or {x for g in conds for x in walk(g) if x.op == "itok" and x.args[0] == "Elements"}
        if len(tops) > 1 or len(codes) != 1:
            return None
        top, code, out = (tops or {C(None)}).pop(), codes.pop(), set()
        conds = [g for g in conds if contains(g, lambda y: y == code)]
        for d in (2, 3):
            for k, dk in DIM.items():
                if dk > d:
                    continue
                vs = [decide(subst(subst(g, {top: C(d)}), {code: C(k)})) for g in conds if not top_only(g, top)]
                if False in vs:
                    continue
                if None in vs:
                    return None
                out.add((d, k))
        return out

    def dimension(self, what, guards, less):
        """what is taken as a cell"""
        guards = {g for g in guards if g != TRUE and any(x.op == "itok" for x in walk(g))}
        done = None
        for g in guards:
            s = self.selected([g])
            if s is None:
                continue
            done = True
            for d in (2, 3):
                for k, dk in DIM.items():
                    if dk <= d and ((d, k) in s) != (dk == d - less):
                        self.check(False, "dimension", f"type {k} (dimension {dk}) is {'' if (d, k) in s else 'not '}taken as a {what} of a mesh of dimension {d}")
                        return
        self.check(done, "dimension", f"elements of the dimension of the mesh are taken as {what}s")

    # ---------------------------------------------------------------- names
    def physical(self, marks, lines):
        en = self.en
        keys = set()
        for k, v, g in en.obj(en.obj(self.r.mesh).f["_bocos"]).f["entries"]:
            keys.add(self.norm(en.freeze(k)))
            o = en.obj(v)
            if o is not None:
                keys |= {self.norm(en.freeze(x)) for n, x in o.f.items() if n == "_name" and isinstance(x, Term)}
        uses = set()
        for k in keys | set(marks):
            for x in walk(k):
                if x.op == "item" and x.args[0].op == "dictof" and any(named(e[0]) for e in x.args[0].args[1] if isinstance(e[0], Term)):
                    uses.add((x.args[0], x.args[1]))
        if not uses:
            self.rep.undecided("name", self.where, f"{self.fmt}: how physical names are looked up is not followed")
        for table, k in uses:
            for e in table.args[1]:
                key = e[0].args[2] if e[0].op == "eachkey" else e[0]
                toks = [key] if key.op in ("tok", "itok") else [x for x in walk(key) if x.op in ("tok", "itok")]
                if key.op not in ("tok", "itok") and not (key.op in ("str", "tuple")) or len(toks) != 1:
                    self.rep.undecided("name", self.where, f"{self.fmt}: by what physical names are kept")
                    continue
                self.check(agree(toks[0].args[2], C(1)), "name", f"a physical name is kept under column {show(toks[0].args[2], 3)} of its line" if agree(toks[0].args[2], C(1)) is not True else "the key of a physical name is its tag")
                text = key.op in ("tok", "str")
                asked = k.op in ("str", "tok")
                if k.op in ("str", "tok", "itok", "item", "gamma"):
                    self.check(True if text == asked else (None if k.op in ("item", "gamma") and not contains(k, lambda y: y.op == "str") and text is False else False), "name",
                               f"names are kept under {'text' if text else 'numbers'} and looked up by {'text' if asked else 'numbers'}")
                val = [x.args[1].args[0] for x in walk(e[1]) if x.op == "item" and gmsh.is_slice(x.args[1]) and x.args[0].op == "item" and x.args[0].args[0].op == "sec"]
                val += [x.args[2] for x in walk(e[1]) if x.op == "tok" and x.args[0] == "PhysicalNames"]
                if e[1].op == "tok" and val or e[1].op == "item" and e[1].args[0].op == "tok":
                    self.check(False, "name", "a physical name is one word of its line: what follows a space is lost")
                elif len(set(val)) == 1:
                    self.check(agree(val[0], C(2)), "name", f"a physical name starts at column {show(val[0], 3)} of its line" if agree(val[0], C(2)) is not True else "a physical name is the rest of its line")
                else:
                    self.rep.undecided("name", self.where, f"{self.fmt}: columns of a physical name")
            x = k.args[0] if k.op == "str" else k
            ls = self.leaves(self.orig(x), "itok") | self.leaves(self.orig(x), "tok")
            if not ls:
                self.rep.undecided("physical", self.where, f"{self.fmt}: the physical group of a boundary is not a number of the file")
            for l in ls:
                if not self.v4:
                    self.check(l.args[0] == "Elements" and (agree(l.args[2], C(3)) if l.args[1] in lines else None), "physical", f"the physical group of a boundary is column {show(l.args[2], 3)} of its line in {l.args[0]}")
                elif l.args[0] == "Elements":
                    self.check(False, "physical", f"the physical group of a boundary is column {show(l.args[2], 3)} of a line of Elements: layout 4 has it with the entities")
                elif l.args[0] == "Entities":
                    self.entity(l, {a for n in lines for a in free_atoms(n) if a.op == "mu"}, x)
                else:
                    self.rep.undecided("physical", self.where, f"{self.fmt}: the physical group of a boundary comes from {l.args[0]}")

    def entity(self, l, heads, x):
        """line and column of the physical group of an entity, for each dimension"""
        dims = {y for y in walk(l) if y.op == "itok" and y.args[0] == "Elements" and y.args[1] in heads}
        cols = {d.args[2] for d in dims}
        if not dims:
            self.rep.undecided("entity", self.where, f"{self.fmt}: entities of which dimension are searched")
            return
        self.check(cols == {C(0)} or (False if cols == {C(1)} or cols == {C(2)} else None), "entity", f"the dimension of the entities searched is column {', '.join(show(c, 2) for c in cols)} of the header of a block")
        if len(dims) != 1:
            return
        dim = dims.pop()
        for d in range(4):
            y = gmsh.Norm()(subst(l, {dim: C(d)}))
            want = C(5 if d == 0 else 8)
            col = y.args[2]
            self.check(agree(col, want) if is_num(col) else None, "entity", f"dimension {d}: the physical group is column {show(col, 3)} of the line of an entity, column {show(want, 2)} expected" if not is_num(col) or agree(col, want) is not True else f"dimension {d}: column of the physical group")
            i = [a for a in free_atoms(y.args[1]) if a.op in ("idx", "mu")]
            first = C(1)
            for j in range(d):
                first = add(first, T("itok", "Entities", C(0), C(j)))
            if len(i) == 1:
                got = sub(y.args[1], i[0])
                ok = agree(got, first)
                self.check(ok, "entity", f"entities of dimension {d} are searched from line {show(got, 4)}, {show(first, 4)} expected" if ok is not True else f"dimension {d}: lines of the entities")
            else:
                self.rep.undecided("entity", self.where, f"{self.fmt}: lines of the entities of dimension {d}")
        for y in walk(x):
            if y.op == "gamma" and y.args[1] == l or y.op == "gamma" and y.args[2] == l:
                cs = [z for z in walk(y.args[0]) if z.op == "itok" and z.args[0] == "Entities" and z.args[1] == l.args[1]]
                for z in cs:
                    for d in (0, 2):
                        cc = gmsh.Norm()(subst(z, {dim: C(d)})).args[2]
                        if is_num(cc):
                            self.check(agree(cc, C(4 if d == 0 else 7)), "entity", f"dimension {d}: the number of physical groups is column {show(cc, 2)} of the line of an entity")


def top_of(x):
    """the largest dimension of the elements of the file"""
    return (x.op == "call" and x.args[0].op == "ext" and x.args[0].args[0].split(".")[-1] in ("amax", "max")
            and contains(x.args[1][0], lambda y: y.op == "itok" and y.args[0] == "Elements"))


def top_only(g, top):
    """a condition on the dimension of the mesh, not on an element"""
    return subst(g, {top: C(3)}) in (TRUE, FALSE)


def terms(a):
    for x in a:
        if isinstance(x, tuple):
            yield from terms(x)
        elif isinstance(x, Term):
            yield x


def named(key):
    """the key of a table is, or is made of, tokens of a line of PhysicalNames"""
    while key.op == "eachkey":
        key = key.args[2]
    parts = key.args if key.op == "tuple" else (key,)
    return any(contains(x, lambda y: y.op in ("tok", "itok") and y.args[0] == "PhysicalNames") for x in parts if x.op in ("tok", "itok", "str"))


def walk_flat(t):
    """sub-terms of a value without going through tables"""
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack += x
        elif isinstance(x, Term) and x not in seen and x.op != "dictof":
            seen.add(x)
            yield x
            if x.op == "item" or x.op == "mu":
                continue
            stack += [y for m, _ in x.args for y in m] if x.op == "poly" else list(x.args)


def decide(t):
    """truth of a condition over constants"""
    if t == TRUE:
        return True
    if t == FALSE:
        return False
    if t.op == "not":
        v = decide(t.args[0])
        return None if v is None else not v
    if t.op in ("and", "or"):
        vs = [decide(a) for a in t.args]
        if t.op == "and":
            return False if False in vs else None if None in vs else True
        return True if True in vs else None if None in vs else False
    if t.op == "truth":
        return decide(t.args[0]) if isinstance(t.args[0], Term) else None
    if t.op == "cmp" and t.args[0] in ("in", "not in"):
        x, s = t.args[1], members(t.args[2])
        if s is None or not is_const(x):
            return None
        r = x.args[0] in s
        return r if t.args[0] == "in" else not r
    if t.op == "cmp" and t.args[0] in ("==", "!=", "<", "<=", ">", ">=") and all(is_const(a) for a in t.args[1:]):
        a, b = t.args[1].args[0], t.args[2].args[0]
        try:
            return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[t.args[0]] if t.args[0] in ("==", "!=") else eval("a %s b" % t.args[0], {"a": a, "b": b})
        except TypeError:
            return None
    return None


def members(t):
    """constants of a sequence whose parts are kept under decidable conditions"""
    if t.op in ("seq", "chunks", "setof", "tuple", "vec", "oneof"):
        out = set()
        for c in t.args:
            m = members(c) if c.op != "const" else {c.args[0]}
            if m is None:
                return None
            out |= m
        return out
    if t.op == "e":
        return {t.args[0].args[0]} if is_const(t.args[0]) else None
    if t.op == "spread":
        return members(t.args[0])
    if t.op == "g":
        v = decide(t.args[0])
        return None if v is None else members(t.args[1] if v else t.args[2])
    if t.op == "gamma":
        v = decide(t.args[0])
        return None if v is None else members(t.args[1] if v else t.args[2])
    if t.op == "const" and isinstance(t.args[0], (tuple, str)):
        return set(t.args[0])
    return None


def run(rep):
    r0 = registry.run_reader("GMSH")
    where = where_of(r0.en, r0.cls, "read_data")
    rep.function(where)
    conds = gmsh.version_conditions(r0)
    # ---- headers
    for v, ok in (("2", True), ("2.0", True), ("2.1", True), ("2.2", True), ("4.1", True), ("3", False), ("3.0", False), ("3.5", False)):
        r, open_, assumed = gmsh.run_header((v, "0", "8"))
        if open_:
            rep.undecided("version", where, f"version {v}: {len(open_)} conditions on the header are not decided")
            continue
        if ok:
            rep.check(r.stage == "done" and not refused(r), "version", where, f"version {v} is decoded" if r.stage == "done" else f"version {v} is refused", key=f"version:{v}")
        else:
            rep.check(r.stage != "done" or refused(r), "version", where, f"version {v} is refused" if r.stage != "done" else f"version {v} is decoded although its layout is not supported", key=f"version:{v}")
    for h, what in ((("2.2", "1", "8"), "a binary file"), (("4.1", "1", "8"), "a binary file"), (("2.2", "0", "4"), "a file of 4-byte numbers"), (("4.1", "0", "4"), "a file of 4-byte numbers")):
        r, open_, assumed = gmsh.run_header(h)
        if open_:
            rep.undecided("header", where, f"{what}: conditions on the header are not decided")
            continue
        bad = r.stage != "done" or refused(r)
        rep.check(bad, "header", where, f"{what} ({' '.join(h)}) is refused" if bad else f"{what} ({' '.join(h)}) is decoded as text of 8-byte numbers", key=f"header:{' '.join(h)}")
    # ---- layouts
    for v in ("2.2", "4.1"):
        r, open_, _ = gmsh.run_header((v, "0", "8"))
        if r.stage != "done" or open_:
            rep.undecided("node", where, f"layout {v}: the reader is not followed to the end")
            continue
        L = Layout(rep, v, r)
        L.nodes()
        L.elements()
        for names in sorted(L.norm.odd):
            if len(names) == 2 and (names[0].startswith("$End") or names[1] != "$End" + names[0][1:]) and not (len(set(names)) == 2 and "$" + names[0][4:] == names[1]):
                L.check(False, "section", f"a section is delimited by {names[0]} and {names[1]}")


def refused(r):
    """an assertion or a refusal is met for certain"""
    for e in r.events:
        if e[0] == "assert" and any(x == FALSE for x in e[2:] if isinstance(x, Term)):
            return True
        if e[0] == "raise":
            return True
    return False
