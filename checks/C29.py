"""Faces built from cells.

The faces of tables of cells whose rows and numbers have symbolic content are built abstractly.  The list of oriented faces that is
grouped is rewritten as a loop nest over the rows of the tables and compared with the faces of each type of cell; the tables of faces
that result, and the accessors of a table of elements, are evaluated as terms on small meshes where every pair of types shares a face."""
import itertools

from sa import surface
from sa.arrays import Arrays, Unknown, leaves, normal, zipw
from sa.engine import Exc
from sa.terms import T, C, Term, TRUE, contains, is_const, is_int, show, subst, walk
from sa.witness import Unknown as NoValue, Witness, shape
from checks.C07 import value
from checks.C09 import CONN, MESH, Case, entries, numbers, sym

TECHNIQUE = ("abstract execution on tables of symbolic content; grouped faces as loop nests over cell rows compared in normal form; "
             "resulting terms evaluated on small meshes where types of cells share faces")
LEVEL_NOTE = ("Any number of cells of every type and pair of types for the list of oriented faces; grouping, pairing and numbering are "
              "decided on terms evaluated for meshes of one to three cells, numbered in any order (bounded).")
RULES = {"listed": "each face of each cell is listed once, turned round, with the number of its cell",
         "key": "two faces are taken for one exactly when they have the same nodes",
         "paired": "a face shared by two cells becomes one internal face with both cells, first the cell it points out of",
         "boundary": "a face of one cell becomes one boundary face, with its cell and -1, pointing out of it",
         "numbering": "row i of the face-to-cell table is the row of face i",
         "mesh": "the mesh keeps the internal and boundary tables as built, each with its neighbours, and drops mixed faces",
         "access": "elements and nodes of a table are found by the numbers of the elements",
         "compressed": "the compressed form lists the nodes of face 0, 1, ... and comes back to the same faces"}
ASSUMPTIONS = ["the table of faces of each type of cell is right (checked by C07)", "the numbers of cells are given once each"]
WHERE = CONN + ".elem_connectivity.create_faces_from_elems"
SIZE = {"tri3": 3, "quad4": 4, "tetra4": 4, "pyra5": 5, "prism6": 6, "hexa8": 8, "bar2": 2}


class Groups(Witness):
    """values of terms that group in dictionaries as well"""

    def ev(self, t):
        if t.op not in ("groupby", "dictfrom", "withoutall", "dictof", "seq", "call", "store"):
            return super().ev(t)
        if t not in self.memo:
            self.memo[t] = ({x if x.op == "idx" else T("idx", *x.args[:2]) for x in walk(t) if x.op in ("idx", "mu")}, {})
        free, got = self.memo[t]
        k = tuple(sorted((id(i), v) for i, v in self.idx.items() if i in free))
        if k not in got:
            got[k] = super().ev(t)
        return got[k]

    def turns(self, i, space):
        if space.op == "keys":
            return super().turns(i, T("rangespace", C(len(self.ev(space.args[0])))))
        if space.op in ("groupby", "rev", "reversedof", "dvalues", "ditems", "dkeys", "filterof", "mapof", "seq", "call", "item"):
            return super().turns(i, T("rangespace", C(len(self.items(self.ev(space))))))
        return super().turns(i, space)

    def function(self, f):
        """the function, as a Python one on values"""
        if f.op in ("func", "bound", "class"):
            arg = T("sym", "argument", len(self.contents))
            t = self.en.freeze(self.en.call(f, [arg], {}))

            def run(x):
                had = self.contents.get(arg)
                self.contents[arg] = x
                self.memo = {}
                try:
                    return self.ev(t)
                finally:
                    self.contents[arg] = had
            return run
        if f.op in ("method", "attr") and not (f.op == "attr" and f.args[0].op == "sym"):
            base, o = self.ev(f.args[0]), self.en.obj(f.args[0])
            if o is not None and o.kind == "dict" and not isinstance(base, dict):
                base = {self.hashable(k): v for k, v in base}
            return lambda x: self.get(base, x) if f.args[1] == "__getitem__" else self.apply(f.args[1], [base, x])
        if f.op == "ext":
            return lambda x: self.apply(f.args[0].split(".")[-1], [x])
        raise NoValue("function")

    def op_rev(self, x, *a):
        return self.items(self.ev(x))[::-1]
    op_reversedof = op_rev

    def op_filterof(self, f, x):
        g = self.function(f)
        return [v for v in self.items(self.ev(x)) if g(v)]

    def items(self, v):
        return list(v) if isinstance(v, dict) else super().items(v)

    def op_groupby(self, i, space, key, chunks):
        out = {}
        for _ in self.turns(i, space):
            out.setdefault(self.hashable(self.ev(key)), []).extend(self.op_seq(*chunks.args))
        return out

    def op_dictfrom(self, c):
        return {self.hashable(k): v for k, v in self.chunk(c)}

    def op_withoutall(self, d, i, space, key):
        out = dict(self.ev(d))
        for _ in self.turns(i, space):
            del out[self.hashable(self.ev(key))]
        return out

    def op_dictof(self, base, ents):
        out = dict(self.ev(base)) if base is not None and not (base.op == "const" and base.args[0] is None) else {}
        had, self.building = self.building, out
        try:
            return self.filled(out, ents)
        finally:
            self.building = had

    building = None

    def filled(self, out, ents):
        for k, v, g in ents:
            if k.op == "eachkey":
                for _ in self.turns(k.args[0], k.args[1]):
                    if g is TRUE or self.ev(g):
                        out[self.hashable(self.ev(k.args[2]))] = self.ev(v)
            elif g is TRUE or self.ev(g):
                out[self.hashable(self.ev(k))] = self.ev(v)
        return out

    def op_keysof(self, *a):
        if self.building is None or not any(contains(x, lambda y: y.op == "mu") for x in a if isinstance(x, Term)):
            raise NoValue("keys")
        return list(self.building)      # those that earlier turns of the loop added

    def op_obj(self, cls, oid):
        o = self.en.obj(T("ref", oid))
        if o is None or o.base is not None:
            raise NoValue("object")
        out = {}
        for k, v in o.f.items():
            try:
                out[k] = self.ev(self.en.freeze(v)) if isinstance(v, Term) else None
            except NoValue:
                pass
        return out

    def op_cmp(self, op, a, b):
        x, y = self.ev(a), self.ev(b)
        if op in ("==", "!=") and (isinstance(x, list) and not isinstance(y, (list, tuple))):
            return self.mapped(lambda v: (v == y) == (op == "=="), x)
        return super().op_cmp(op, a, b)

    def op_poly(self, *monos):
        vals = [([self.ev(x) for x in m], c) for m, c in monos]
        arrays = [x for m, c in vals for x in m if isinstance(x, list)]
        if not arrays:
            return super().op_poly(*monos)
        numbers = [m for m, c in vals if not any(isinstance(x, list) for x in m)]
        if not (numbers or any(c < 0 for m, c in vals)) or len({str(shape(x)) for x in arrays}) != 1:
            raise NoValue("arithmetic of lists")     # lists that are joined, or arrays of different shapes

        def plain(pick):
            r = 0
            for m, c in vals:
                for x in m:
                    c = c * (pick(x) if isinstance(x, list) else x)
                r += c
            return r

        def over(s, path):
            return [over(s[1:], path + (i,)) for i in range(s[0])] if s else plain(lambda x: self.deep(x, path))
        return over(shape(arrays[0]), ())

    @staticmethod
    def deep(x, path):
        for i in path:
            x = x[i]
        return x

    def op_keys(self, d):
        return list(self.ev(d))

    def op_dkey(self, d, i):
        return list(self.ev(d))[self.ev(i)]

    def op_ditems(self, d, *a):
        return list(self.ev(d).items())

    def op_dvalues(self, d, *a):
        return list(self.ev(d).values())

    def op_mapof(self, f, *seqs):
        g = self.function(f)
        if len(seqs) != 1:
            raise NoValue("mapped function")
        return [g(x) for x in self.items(self.ev(seqs[0]))]

    def op_mu(self, depth, seq, *rest):
        """the value at the head of the turn: the one before the loop, then the one at the end of each turn"""
        mu = T("mu", depth, seq, *rest)
        i = T("idx", depth, seq)
        if mu not in self.en.loopnext or i not in self.idx:
            raise NoValue("value kept by a loop")
        nxt, init = (self.en.freeze(x) for x in self.en.loopnext[mu])
        k = self.idx[i]
        v = self.ev(init)
        for n in range(k):
            self.idx[i] = n
            self.contents[mu] = v
            self.memo = {}
            try:
                v = self.ev(nxt)
            finally:
                self.idx[i] = k
                self.contents.pop(mu, None)
                self.memo = {}
        return v

    def op_enumof(self, x, start):
        n = self.ev(start)
        return [(n + i, v) for i, v in enumerate(self.items(self.ev(x)))]

    def op_elems(self, x):
        return self.items(self.ev(x))

    def op_store(self, a, k, v):
        a, k, v = self.ev(a), self.ev(k), self.ev(v)
        a = [list(r) if isinstance(r, (list, tuple)) else r for r in a]
        if isinstance(k, tuple) and len(k) == 2 and isinstance(k[1], int) and isinstance(k[0], slice):
            n = range(len(a))[k[0]]
            v = v if isinstance(v, (list, tuple)) else [v] * len(n)
            if len(v) != len(n):
                raise NoValue("sizes differ")
            for r, x in zip(n, v):
                a[r][k[1]] = x
            return a
        if isinstance(k, list) and isinstance(v, list) and len(k) == len(v) and all(isinstance(x, int) for x in k):
            for r, x in zip(k, v):
                a[r] = x
            return a
        raise NoValue("store")

    def get(self, v, k):
        if isinstance(v, dict):
            return v[self.hashable(k)]
        if isinstance(k, list) and k and isinstance(k[0], list):
            return [self.get(v, x) for x in k]
        return super().get(v, k)

    def op_call(self, f, args, kw):
        kw = dict(kw) if kw else {}
        name = f.args[1] if f.op in ("method", "attr") else f.args[0].split(".")[-1] if f.op == "ext" else ""
        if name in ("concatenate",) and kw.get("axis") is not None and self.ev(kw["axis"]) == 0:
            kw.pop("axis")
        if name in ("sorted", "min", "max") and f.op == "ext" and f.args[0].startswith("builtins.") and kw and set(kw) <= {"key", "reverse"} and len(args) == 1:
            more = {"key": self.function(kw["key"])} if "key" in kw else {}
            if "reverse" in kw:
                more["reverse"] = self.ev(kw["reverse"])
            return {"sorted": sorted, "min": min, "max": max}[name](self.items(self.ev(args[0])), **more)
        if name == "unique" and set(kw) <= {"return_counts", "return_index", "return_inverse"} and kw and len(args) == 1:
            f1 = flatten(self.ev(args[0]))
            u = sorted(set(f1))
            more = {"return_index": [f1.index(x) for x in u], "return_inverse": [u.index(x) for x in f1], "return_counts": [f1.count(x) for x in u]}
            return tuple([u] + [v for k, v in more.items() if k in kw and self.ev(kw[k])])
        if f.op == "ext" and f.args[0] == "itertools.chain" and len(args) == 1 and args[0].op == "star":
            return [x for y in self.items(self.ev(args[0].args[0])) for x in self.items(y)]
        if name == "full" and len(args) >= 2:
            s, v = self.ev(args[0]), self.ev(args[1])
            s = (s,) if isinstance(s, int) else tuple(s)
            return [v] * s[0] if len(s) == 1 else [[v] * s[1] for _ in range(s[0])]
        return super().op_call(f, args, tuple(kw.items()))

    def apply(self, name, vals):
        if name in ("min", "max") and len(vals) > 1 and not any(isinstance(v, (list, tuple)) for v in vals):
            return (min if name == "min" else max)(vals)
        if name == "reshape":
            s = vals[1:] if len(vals) > 2 else tuple(vals[1]) if isinstance(vals[1], (list, tuple)) else (vals[1],)
            f = flatten(vals[0])
            if len(s) == 2 and isinstance(s[1], int) and s[1] > 0:
                if len(f) % s[1] or s[0] not in (-1, len(f) // s[1]):
                    raise NoValue("rows of another size")
                return [f[i:i + s[1]] for i in range(0, len(f), s[1])]
            if s == (-1,):
                return f
            raise NoValue("reshape")
        if name in ("values", "items", "keys") and isinstance(vals[0], dict):
            return [tuple(x) if name == "items" else x for x in getattr(vals[0], name)()]
        if name == "get" and isinstance(vals[0], dict):
            return vals[0].get(*[self.hashable(x) for x in vals[1:]])
        if name in ("tuple", "list") and len(vals) == 1:
            return (tuple if name == "tuple" else list)(self.items(vals[0]))
        if name in ("argwhere", "flatnonzero") and len(vals) == 1:
            return [[i] if name == "argwhere" else i for i, x in enumerate(vals[0]) if x]
        if name in ("nonzero", "where") and len(vals) == 1:
            return ([i for i, x in enumerate(vals[0]) if x],)
        if name == "diff" and len(vals) == 1:
            return [b - a for a, b in zip(vals[0], vals[0][1:])]
        if name == "from_iterable":
            return [x for y in self.items(vals[0]) for x in self.items(y)]
        if name == "cumsum" and len(vals) == 1:
            return list(itertools.accumulate(flatten(vals[0])))
        if name == "hstack" and len(vals) == 1 and all(len(x) and isinstance(x[0], list) for x in vals[0]):
            return [[y for p in r for y in p] for r in zip(*vals[0])]
        if name == "dict" and len(vals) == 1:
            return {self.hashable(k): v for k, v in self.items(vals[0])} if not isinstance(vals[0], dict) else dict(vals[0])
        return super().apply(name, vals)


def flatten(v):
    return [x for y in v for x in flatten(y)] if isinstance(v, (list, tuple)) else [v]


def turns_of(face):
    return {tuple(face[i:] + face[:i]) for i in range(len(face))} if len(face) > 2 else {tuple(face)}


def run(rep):
    en = surface.fresh()
    en.grouping = True
    try:
        table = value(en.freeze(en.module_attr("cfdtools.meshbase._elements", "elem2faces")))
    except Exception as e:
        rep.undecided("listed", WHERE, f"table of faces: {type(e).__name__}")
        return
    faces = {t: {f: [list(x) for x in l] for f, l in table[t].items()} for t in SIZE if t in table}
    rep.function(WHERE)
    for types in [(t,) for t in faces] + [("tri3", "quad4"), ("hexa8", "prism6"), ("pyra5", "tetra4"), ("prism6", "pyra5")]:
        if all(t in faces for t in types):
            listed(rep, types, faces)
    for f in {f for t in faces for f in faces[t]} - KEYS:
        rep.undecided("key", f"key of {f}", "not followed as a function of the nodes of the face")
    for name, mesh in MESHES.items():
        if all(t in faces for t in mesh):
            built(rep, name, mesh, faces)
    mesh_tables(rep)
    access(rep)
    compressed(rep)


# ---------------------------------------------------------------------- the list of oriented faces
def project(c, p):
    if c.op in ("seq", "chunks"):
        return T(c.op, *(project(x, p) for x in c.args))
    if c.op == "each":
        return T("each", c.args[0], c.args[1], *(project(x, p) for x in c.args[2:]))
    if c.op == "e" and c.args[0].op == "tuple" and len(c.args[0].args) == 2:
        return T("e", c.args[0].args[p])
    raise Unknown("faces are not pairs of nodes and cell")


def listed(rep, types, faces):
    case = Case(rep, "+".join(types), WHERE)
    en = case.en
    out = call(case, types)
    if out is None:
        return
    found = {}
    try:
        for t in (entries(en, out[0]), entries(en, out[2])):
            for f, e in t.items():
                for g in walk(en.freeze(e["elem2node"])):
                    if g.op == "groupby":
                        found.setdefault(f, set()).add(g)
    except (Exc, KeyError, AttributeError, TypeError):
        pass
    for f in sorted({f for t in types for f in faces[t] if faces[t][f]}):
        where = f"{'+'.join(types)}: {f}"
        gs = found.get(f, set())
        if len(gs) != 1:
            rep.undecided("listed", where, "the faces are not grouped in a way the analysis follows")
            continue
        g = gs.pop()
        if len(types) == 1 and f not in KEYS and key(rep, en, g, f):
            KEYS.add(f)
        try:
            i, space, body = g.args[0], g.args[1], g.args[3].args
            if space.op == "elems" and len(body) == 1 and body[0] is T("e", T("item", space.args[0], i)):
                S = space.args[0]
            else:
                S = T("seq", T("each", i, space, *body))
            arr = Arrays(en, case.shapes)
            pairs = zipw(lambda a, b: T("pair", a, b), normal(arr.tree(project(S, 0))), normal(arr.tree(project(S, 1))))
            got, bad = read(pairs, types)
        except Unknown as e:
            rep.undecided("listed", where, str(e))
            continue
        if bad is not None:
            rep.check(False if closed(bad) else None, "listed", where, f"{show(bad, 6)} is listed", key=where)
            continue
        want = [(t, face[::-1]) for t in types for face in faces[t].get(f, [])]
        for t, cols in got:
            m = [w for w in want if w[0] == t and (cols in turns_of(w[1]))]
            if not m:
                same = [w for w in want if w[0] == t and sorted(w[1]) == sorted(cols)]
                rep.bad("listed", where, f"nodes {list(cols)} of {t} are " + ("listed in the direction of the table, pointing in" if same and tuple(reversed(cols)) in turns_of(same[0][1]) else "not a face left to list"), key=where)
                break
            want.remove(m[0])
        else:
            rep.check(not want, "listed", where, f"{len(got)} faces" if not want else f"face {want[0][1]} of {want[0][0]} is not listed", key=where)


KEYS = set()
NUMBERS = (range(8), (0, 1, 9, 10, 999, 1000, 2**31, 2**32))


def key(rep, en, g, f):
    """the key of a face: the same for two faces exactly when they have the same nodes"""
    where = f"key of {f}"
    F, n = T("sym", "a face"), SIZE[f]
    body = g.args[3].args
    b = body[0].args[0] if len(body) == 1 and body[0].op == "e" else None
    if b is None:
        return False
    face = b.args[0] if b.op == "tuple" else T("item", b, C(0))
    same = {face: F}
    if face.op == "seq" and len(face.args) == 1 and face.args[0].op == "spread":
        same[face.args[0].args[0]] = F
    k = subst(g.args[2], same)
    if contains(k, lambda x: x is g.args[0]):
        return False
    count = 0
    for nums in NUMBERS:
        seen = {}
        for nodes in itertools.combinations(nums, n):
            for p in itertools.permutations(nodes):
                w = Groups(en, {F: p})
                try:
                    v = w.hashable(w.value(k))
                except (NoValue, Unknown) as e:
                    return False
                count += 1
                if v in seen and seen[v] != nodes or p != nodes and seen.get(v) != nodes:
                    rep.bad("key", where, f"faces {list(seen[v])} and {list(p)} have the same key" if v in seen else f"faces {list(nodes)} and {list(p)} have different keys", key=where)
                    return True
                seen[v] = nodes
    rep.ok("key", where, f"{count} faces")
    return True


def closed(t):
    return all(x.op in ("pair", "at", "cols", "sym", "poly", "const", "var") or x.op.startswith("%") for x in walk(t))


def read(tree, types):
    """[(type of cell, columns)] and the first item that is not one face of one row with the number of that row"""
    out = []
    for item in leaves(tree):
        loops, x = item if isinstance(item, tuple) else (None, item)
        if not isinstance(x, Term):
            loops, x = x, loops
        p = x.args[0] if x.op == "one" else x
        if p.op != "pair" or p.args[0].op != "cols":
            raise Unknown("faces of another form")
        ats, n = p.args[0].args, p.args[1]
        if not all(a.op == "at" and len(a.args) == 3 and is_int(a.args[2]) for a in ats):
            raise Unknown("nodes of another form")
        E, r = ats[0].args[0], ats[0].args[1]
        t = next((t for t in types if E is sym("T", t)), None)
        if t is None or any(a.args[0] is not E or a.args[1] is not r for a in ats) or not (n.op == "at" and n.args[0] is sym("I", "T", t) and n.args[1] is r):
            return out, p
        out.append((t, tuple(a.args[2].args[0] for a in ats)))
    return out, None


def call(case, types, numbered=True):
    en = case.en
    try:
        ec, rows, total = case.table("T", types, numbered)
        r = en.call(en.getattr(ec, "create_faces_from_elems"), [], {})
        return [en.getitem(r, C(i)) for i in range(4)]
    except Exc:
        case.rep.bad("listed", case.where, f"{case.name}: building the faces ends in an exception", key=case.name + ":raises")
    return None


# ---------------------------------------------------------------------- tables that result
# cells are given outward-consistently: two cells of the mesh share one face
MESHES = {
    "one triangle": {"tri3": [[4, 7, 2]]},
    "two triangles": {"tri3": [[0, 1, 2], [2, 1, 3]]},
    "triangle and quadrangle": {"tri3": [[0, 1, 2]], "quad4": [[1, 4, 3, 2]]},
    "three quadrangles": {"quad4": [[0, 1, 4, 5], [1, 2, 3, 4], [2, 6, 7, 3]]},
    "two hexahedra": {"hexa8": [[0, 1, 2, 3, 4, 5, 6, 7], [4, 5, 6, 7, 8, 9, 10, 11]]},
    "hexahedron and prism": {"hexa8": [[0, 1, 2, 3, 4, 5, 6, 7]], "prism6": [[1, 8, 2, 5, 9, 6]]},
    "pyramid and tetrahedron": {"pyra5": [[0, 1, 2, 3, 4]], "tetra4": [[1, 5, 2, 4]]},
}


def contents(mesh, offset):
    out, n, rows = {}, sum(len(r) for r in mesh.values()), []
    nums = list(range(n))[::-1] if offset else list(range(n))
    for t, rs in mesh.items():
        mine, nums = nums[:len(rs)], nums[len(rs):]
        out[sym("T", t)] = [list(r) for r in rs]
        out[sym("I", "T", t)] = list(mine)
        out[sym("n", "T", t)] = len(rs)
        rows += [(t, r, k) for r, k in zip(rs, mine)]
    return out, rows


def read_tables(en, con, tab, conn):
    """[(type, number, nodes, cells)] of a table of faces and its neighbours"""
    w = Groups(en, con)
    out = []
    f2c = w.value(en.freeze(en.getattr(conn, "_conn"))) if conn is not None else None
    for f, e in entries(en, tab).items():
        rows = w.value(en.freeze(e["elem2node"]))
        nums = w.value(en.freeze(en.call(en.getattr(e["index"], "list"), [], {})))
        if len(rows) != len(nums):
            raise ValueError(f"{len(rows)} faces {f}, {len(nums)} numbers")
        out += [(f, n, list(r)) for n, r in zip(nums, rows)]
    return out, f2c


def built(rep, name, mesh, faces):
    case = Case(rep, name, WHERE)
    en = case.en
    out = call(case, tuple(mesh))
    if out is None:
        return
    for offset in (0, 1):
        con, cells = contents(mesh, offset)
        every = {}
        for t, row, k in cells:
            for f, l in faces[t].items():
                for face in l:
                    nodes = [row[i] for i in face][::-1]
                    every.setdefault(tuple(sorted(nodes)), []).append((f, nodes, k))
        for rule, i, n in (("paired", 0, 2), ("boundary", 2, 1)):
            where = f"{name}{', numbers reversed' if offset else ''}: {'internal' if n == 2 else 'boundary'} faces"
            try:
                got, f2c = read_tables(en, con, out[i], out[i + 1])
            except (NoValue, Unknown) as e:
                if str(e).startswith("IndexError"):
                    rep.bad(rule, where, f"an entry that is not there is asked for: {e}", key=where)
                else:
                    rep.undecided(rule, where, str(e)[:120])
                continue
            except (Exc, KeyError, AttributeError, TypeError) as e:
                rep.undecided(rule, where, type(e).__name__)
                continue
            except ValueError as e:
                rep.bad("numbering", where, str(e), key=where)
                continue
            want = {k: v for k, v in every.items() if len(v) == n}
            why = judge(got, f2c, want, n)
            if why:
                rep.bad(why[0] or rule, where, why[1], key=where)
            else:
                rep.ok(rule, where, f"{len(got)} faces of {len(cells)} cells")
                rep.ok("numbering", where, "neighbours in the order of the numbers")


def judge(got, f2c, want, n):
    left = dict(want)
    if not isinstance(f2c, list):
        return ("numbering", "no neighbours are kept") if got else None
    if sorted(g[1] for g in got) != list(range(len(got))) or len(f2c) != len(got):
        return "numbering", f"{len(got)} faces numbered {sorted(g[1] for g in got)}, {len(f2c)} rows of neighbours"
    for f, num, nodes in got:
        k = tuple(sorted(nodes))
        if k not in left:
            return None, f"{f} {nodes} is not {'shared by two cells' if n == 2 else 'a face of one cell'}, or is there twice"
        owners = left.pop(k)
        pair = list(f2c[num])
        if f != owners[0][0]:
            return None, f"{nodes} is kept as {f}"
        if n == 1 and pair != [owners[0][2], -1] or n == 2 and sorted(pair) != sorted(o[2] for o in owners):
            if any(sorted(pair) == sorted([o[2] for o in w] + [-1] * (n == 1)) for w in want.values()):
                return "numbering", f"face {num} {nodes} is of cells {[o[2] for o in owners]}, row {num} of the neighbours is {pair}"
            return None, f"face {num} {nodes} is of cells {[o[2] for o in owners]}, its neighbours are {pair}"
        own = next(o for o in owners if o[2] == pair[0])
        if tuple(nodes) not in turns_of(own[1]):
            return None, f"face {num} {nodes} does not point out of its first cell {pair[0]}"
    if left:
        return None, f"face {list(left)[0]} is missing"
    return None


# ---------------------------------------------------------------------- the mesh
def mesh_tables(rep):
    where = MESH + ".Mesh.make_face_connectivity"
    en = surface.fresh()
    names = ["internal", "internal cells", "boundary", "boundary cells"]
    objs = []
    seen = []

    def made(e, a, k):
        if not objs:
            for n in names:
                cls = en.module_attr(CONN, "indexindirection" if "cells" in n else "elem_connectivity")
                objs.append(en.call(cls, [], {}))
        seen.append(1)
        return T("tuple", *objs)
    en.intercept[WHERE] = made
    try:
        m = en.call(en.module_attr(MESH, "Mesh"), [], {})
        en.setitem(en.getattr(m, "_faces"), C("mixed"), en.ref("dict", {"entries": ()}))
        en.setattr(m, "_cell2node", en.call(en.module_attr(CONN, "elem_connectivity"), [], {}))
        en.call(en.getattr(m, "make_face_connectivity"), [], {})
    except Exc:
        rep.bad("mesh", where, "ends in an exception", key="mesh:raises")
        return
    f = en.obj(en.getattr(m, "_faces"))
    if not seen or f is None or any(not is_const(k) or g is not TRUE for k, _, g in f.f.get("entries", ())) or f.base is not None:
        rep.undecided("mesh", where, "tables of faces of the mesh are not followed")
        return
    tabs = {k.args[0]: en.obj(v) for k, v, _ in f.f["entries"]}
    for n, (i, j) in (("internal", (0, 1)), ("boundary", (2, 3))):
        o = tabs.get(n)
        if o is None:
            rep.check(False if n not in tabs else None, "mesh", where, f"no table of {n} faces", key=n)
            continue
        d = {k.args[0]: v for k, v, _ in o.f.get("entries", ()) if is_const(k)}
        for fld, x in (("face2node", objs[i]), ("face2cell", objs[j])):
            rep.check(d[fld] is x if fld in d else None, "mesh", where, f"{fld} of {n} faces is " + ("the one built" if d.get(fld) is x else names[objs.index(d[fld])] if d.get(fld) in objs else "another table"), key=f"{n}:{fld}")
    rep.check("mixed" not in tabs, "mesh", where, "mixed faces are dropped" if "mixed" not in tabs else "mixed faces are kept next to the faces built", key="mixed")


# ---------------------------------------------------------------------- accessors
ROWS = {"tri3": ([[7, 3, 5], [1, 2, 9]], [4, 0]), "quad4": ([[3, 5, 8, 6], [2, 9, 4, 7], [0, 1, 2, 3]], [2, 1, 3])}


def small(case):
    ec, rows, total = case.table("T", tuple(ROWS), numbered=True)
    con = {}
    for t, (r, k) in ROWS.items():
        con[sym("T", t)], con[sym("I", "T", t)], con[sym("n", "T", t)] = [list(x) for x in r], list(k), len(r)
    return ec, con


def access(rep):
    flat = {k: r for rs, ks in ROWS.values() for r, k in zip(rs, ks)}

    def one(name, make, want, order=True):
        where = CONN + ".elem_connectivity." + name
        case = Case(rep, name, where)
        rep.function(where)
        ec, con = small(case)
        if case.en.class_lookup(case.en.find_class(CONN, "elem_connectivity"), name) is None:
            return
        try:
            t = make(case, ec, con)
            got = Groups(case.en, con).value(case.en.freeze(t))
        except (NoValue, Unknown, Exc, KeyError, TypeError, AttributeError) as e:
            rep.undecided("access", where, f"{type(e).__name__} {str(e)[:100]}")
            return
        norm = (lambda v: [list(x) if isinstance(x, tuple) else x for x in v]) if order else sorted
        try:
            ok = norm(list(got)) == norm(list(want))
        except TypeError:
            ok = None
        rep.check(ok, "access", where, "as asked" if ok else f"gives {str(got)[:120]}, {str(list(want))[:120]} expected", key=name)

    def listof(name, ks):
        def make(case, ec, con):
            en = case.en
            l = en.ref("list", {"chunks": (T("spread", T("sym", "L")),)})
            con[T("sym", "L")] = ks
            return en.call(en.getattr(ec, name), [l], {})
        return make
    for ks in ([3], [0, 2], [4, 1, 3]):
        one("nodes_of_indexlist", listof("nodes_of_indexlist", ks), sorted({n for k in ks for n in flat[k]}), order=False)
    one("nodelist", lambda c, ec, con: c.en.call(c.en.getattr(ec, "nodelist"), [], {}), sorted({n for r in flat.values() for n in r}), order=False)
    one("all_index", lambda c, ec, con: c.en.call(c.en.getattr(ec, "all_index"), [], {}), [k for _, ks in ROWS.values() for k in ks])
    one("index_elem_tuples", lambda c, ec, con: c.en.call(c.en.getattr(ec, "index_elem_tuples"), [], {}),
        [[k, r] for rs, ks in ROWS.values() for r, k in zip(rs, ks)])


def compressed(rep):
    flat = {k: r for rs, ks in ROWS.values() for r, k in zip(rs, ks)}
    where = CONN + ".elem_connectivity.exportto_compressedindex"
    rep.function(where)
    case = Case(rep, "compressed", where)
    en = case.en
    ec, con = small(case)
    try:
        z = en.call(en.getattr(ec, "exportto_compressedindex"), [], {})
        w = Groups(en, con)
        ind, val = (flatten(w.value(en.freeze(en.getattr(z, a)))) for a in ("_index", "_value"))
    except (NoValue, Unknown, Exc, KeyError, TypeError, AttributeError) as e:
        rep.undecided("compressed", where, f"{type(e).__name__} {str(e)[:100]}")
    else:
        rows = [val[a:b] for a, b in zip(ind, ind[1:])]
        want = [flat[k] for k in sorted(flat)]
        rep.check(rows == want and ind[0] == 0 and ind[-1] == len(val), "compressed", where, "row k is face k" if rows == want else f"rows are {rows}, {want} expected", key="export")
    where = CONN + ".elem_connectivity.importfrom_compressedindex"
    rep.function(where)
    en = surface.fresh()
    ZI, ZV = T("sym", "ZI"), T("sym", "ZV")
    order = sorted(flat)
    con = {ZI: [0], ZV: []}
    for k in order:
        con[ZV] += flat[k]
        con[ZI] = con[ZI] + [len(con[ZV])]
    try:
        z = en.call(en.module_attr(CONN, "compressed_listofindex"), [ZI, ZV], {})
        ec = en.call(en.module_attr(CONN, "elem_connectivity"), [], {})
        en.call(en.getattr(ec, "importfrom_compressedindex"), [z], {})
        got = Groups(en, con).value(en.freeze(en.getattr(ec, "_elem2node")))
        rows = {t: ([list(r) for r in e["elem2node"]], e["index"]) for t, e in got.items()}
    except (NoValue, Unknown, Exc, KeyError, TypeError, AttributeError) as e:
        if str(e).startswith("IndexError"):
            rep.bad("compressed", where, f"an entry that is not there is asked for: {e}", key="import")
        else:
            rep.undecided("compressed", where, f"{type(e).__name__} {str(e)[:100]}")
        return
    found = {}
    for t, (rs, ix) in rows.items():
        ends = ix.get("_range")
        nums = ix.get("_list") if ix.get("_type") == "list" else list(range(ends[0], ends[1] + 1)) if ix.get("_type") == "range" and ends else None
        if nums is None or len(nums) != len(rs):
            rep.check(None if nums is None else False, "compressed", where, f"{len(rs)} faces {t}, numbers {nums}", key="import:" + t)
            return
        found.update({n: (t, r) for n, r in zip(nums, rs)})
    want = {j: ({3: "tri3", 4: "quad4"}[len(flat[k])], flat[k]) for j, k in enumerate(order)}
    rep.check(found == want, "compressed", where, "face k is row k" if found == want else f"faces are {found}, {want} expected", key="import")
