"""Lists of VTK files: fields in the ordering of the first file.

`vtkList.read` is executed abstractly on lists of files with known names; what the files hold stays symbolic.  The data sets it
stores and the refusals it may raise are terms over the contents of the files; they are then valued on witness files: coincident
grids, grids numbered differently (permutations without symmetry, another one for each file), grids that do not match."""
from sa import surface
from sa.engine import Exc
from sa.terms import T, C, Term, TRUE, not_, show
from sa.witness import Text, Unknown, flatten, shape
from checks.C09 import sym

TECHNIQUE = "abstract execution of the reading of a list; stored fields and refusals, as terms over file contents, compared on witness files"
LEVEL_NOTE = "Lists of one to four files; permutations of five cells without symmetry; scalar and vector fields; with and without selection and time. Positions of cells are distinct; pyvista, numpy and the search tree are modelled by what they return."
RULES = {"order": "a field is stored in the ordering of the cells of the first file",
         "set": "each file gives one data set with the fields of this file, all of them or those selected",
         "time": "the time of a file is that of its data set",
         "refused": "files whose cells do not match are refused",
         "accepted": "files whose cells match are not refused",
         "mesh": "the mesh kept is that of the first file",
         "compare": "files are said coincident when they all are"}
ASSUMPTIONS = ["cells of a file have distinct centers", "all files have as many cells", "nearest neighbours are found exactly"]
L = "cfdtools.vtk._vtkList"
CENTERS = [(0.0, 0.0, 0.0), (1.0, 0.25, 0.0), (2.0, 0.0, 3.0), (3.5, 1.0, 0.0), (4.0, 4.0, 1.0)]
PERMS = {"same": (0, 1, 2, 3, 4), "cycle": (1, 2, 0, 3, 4), "other": (4, 0, 1, 3, 2), "long": (1, 2, 3, 4, 0)}


class Grid:
    def __init__(self, name, perm=PERMS["same"], move=(), time=None, fields=("Q", "U"), tag=0):
        self.name = name
        self.centers = [tuple(CENTERS[p]) for p in perm]
        for i, dx in move:
            c = self.centers[i]
            self.centers[i] = (c[0] + dx, c[1], c[2])
        self.points = [(x + 0.5, y, z) for x, y, z in self.centers]
        self.perm = perm
        self.cell_data = {}
        for j, f in enumerate(fields):
            v = [1000 * tag + 100 * j + p for p in perm]
            self.cell_data[f] = [[x, -x, 2 * x] for x in v] if f == "U" else v
        self.field_data = {} if time is None else {"TimeValue": [time]}

    def ordered(self, name):
        """field in the ordering of the first file"""
        a = self.cell_data[name]
        return [a[self.perm.index(p)] for p in PERMS["same"]]


class Points:
    def __init__(self, points):
        self.points = points


class Tree:
    def __init__(self, points):
        self.data = points


class Files(Text):
    """values of terms over the contents of files"""

    def __init__(self, en, grids):
        super().__init__(en, {})
        self.grids = {g.name: g for g in grids}

    # ---- arrays
    def broadcast(self, f, a, b):
        la, lb = isinstance(a, (list, tuple)), isinstance(b, (list, tuple))
        if la and lb:
            if len(a) != len(b):
                raise Unknown("shapes")
            return [self.broadcast(f, x, y) for x, y in zip(a, b)]
        if la:
            return [self.broadcast(f, x, b) for x in a]
        if lb:
            return [self.broadcast(f, a, x) for x in b]
        if not isinstance(a, (int, float)) or not isinstance(b, (int, float)):
            raise Unknown("arithmetic")
        return f(a, b)

    def op_poly(self, *monos):
        r = None
        for m, c in monos:
            t = c
            for x in m:
                t = self.broadcast(lambda p, q: p * q, t, self.ev(x))
            r = t if r is None else self.broadcast(lambda p, q: p + q, r, t)
        return r

    def op_bin(self, op, a, b):
        f = {"+": lambda p, q: p + q, "-": lambda p, q: p - q, "*": lambda p, q: p * q, "/": lambda p, q: p / q, "**": lambda p, q: p ** q, "//": lambda p, q: p // q}.get(op)
        if f is None:
            raise Unknown(op)
        return self.broadcast(f, self.ev(a), self.ev(b))

    def op_cmp(self, op, a, b):
        if op in ("<", "<=", ">", ">=", "==", "!="):
            x, y = self.ev(a), self.ev(b)
            if isinstance(x, (list, tuple)) or isinstance(y, (list, tuple)):
                f = {"<": lambda p, q: p < q, "<=": lambda p, q: p <= q, ">": lambda p, q: p > q, ">=": lambda p, q: p >= q, "==": lambda p, q: p == q, "!=": lambda p, q: p != q}[op]
                return self.broadcast(f, x, y)
        if op in ("in", "not in"):
            x, y = self.ev(a), self.ev(b)
            if isinstance(y, dict):
                return (x in y) == (op == "in")
        return super().op_cmp(op, a, b)

    def op_store(self, base, k, v, *more):
        if more:
            raise Unknown("store")
        base, k, v = self.ev(base), self.ev(k), self.ev(v)
        out = list(base)
        if isinstance(k, int):
            out[k] = v
        elif isinstance(k, (list, tuple)) and all(isinstance(x, int) and not isinstance(x, bool) for x in k):
            for j, x in enumerate(k):
                out[x] = v[j] if isinstance(v, (list, tuple)) else v
        elif isinstance(k, slice):
            n = len(out[k])
            out[k] = v if isinstance(v, list) else [v] * n
        else:
            raise Unknown("store")
        return out

    # ---- files
    def op_attr(self, base, name):
        v = self.ev(base)
        if isinstance(v, Grid):
            if name in ("points", "cell_data", "field_data"):
                return getattr(v, name)
            if name in ("n_cells",):
                return len(v.centers)
        if isinstance(v, Points) and name == "points":
            return v.points
        if isinstance(v, Tree) and name == "data":
            return v.data
        if isinstance(v, (int, float)) and name == "size":
            return 1
        return super().op_attr(base, name)

    def get(self, v, k):
        if isinstance(v, (dict, Grid)):
            if isinstance(v, Grid):
                v = v.cell_data
            if k not in v:
                raise Unknown("key " + str(k))
            return v[k]
        return super().get(v, k)

    def items(self, v):
        if isinstance(v, dict):
            return list(v)
        return super().items(v)

    def turns(self, i, space):
        if space.op in ("keys", "dkeys", "ditems"):
            had = self.idx.get(i)
            for k in range(len(self.items(self.ev(space.args[0])))):
                self.idx[i] = k
                yield k
            self.idx[i] = had
            return
        yield from super().turns(i, space)

    def op_dkey(self, d, i):
        return self.items(self.ev(d))[self.ev(i)]

    def op_keys(self, d):
        return self.items(self.ev(d))
    op_dkeys = op_keys

    def op_oneof(self, *a):
        return [self.ev(x) for x in a]

    def op_dictof(self, base, entries):
        r = {} if base in (None,) or base.op == "const" else dict(self.ev(base))
        for k, v, g in entries:
            if k.op == "eachkey":
                for _ in self.turns(k.args[0], k.args[1]):
                    if g is True or g == TRUE or self.ev(g):
                        r[self.ev(k.args[2])] = self.ev(v)
            elif g is True or g == TRUE or self.ev(g):
                r[self.ev(k)] = self.ev(v)
        return r

    def op_call(self, f, args, kw):
        kw = {(k.args[0] if isinstance(k, Term) else k): v for k, v in (dict(kw) if kw else {}).items()}
        name = f.args[1] if f.op in ("method", "attr") else f.args[0].split(".")[-1] if f.op == "ext" else ""
        if f.op == "ext":
            if f.args[0] in ("pyvista.read", "pyvista.get_reader") and args:
                n = self.ev(args[0])
                if n not in self.grids:
                    raise Unknown("file")
                return self.grids[n]
            if name in ("KDTree", "cKDTree") and args:
                return Tree(self.ev(args[0]))
            a = [self.ev(x) for x in args]
            if name in ("square", "sqrt", "abs", "absolute") and len(a) == 1:
                return self.mapped({"square": lambda x: x * x, "sqrt": lambda x: x ** 0.5}.get(name, abs), a[0])
            axis = self.ev(kw["axis"]) if "axis" in kw else None
            if name in ("sum", "max", "min", "average", "mean", "amax", "amin", "nanmax", "norm") and a and not set(kw) - {"axis", "ord"}:
                if name == "norm" and (len(a) > 1 or "ord" in kw):
                    raise Unknown("norm")
                fn = {"sum": sum, "max": max, "amax": max, "nanmax": max, "min": min, "amin": min, "norm": lambda v: sum(x * x for x in v) ** 0.5}.get(name, lambda v: sum(v) / len(v))
                if isinstance(a[0], (int, float)) and a[0] == 0:
                    return 0            # an array minus itself
                if axis in (1, -1) and len(shape(a[0])) == 2:
                    return [fn(r) for r in a[0]]
                if axis in (None,) or len(shape(a[0])) == 1:
                    return fn(flatten(a[0]))
                raise Unknown("axis")
            if name == "argsort" and len(a) == 1 and not set(kw) - {"kind"} and len(shape(a[0])) == 1:
                return sorted(range(len(a[0])), key=lambda i: a[0][i])
            if name in ("any", "all", "count_nonzero") and len(a) == 1 and not kw:
                v = flatten(a[0])
                return any(v) if name == "any" else all(v) if name == "all" else sum(bool(x) for x in v)
            if name in ("empty_like", "zeros_like", "copy", "array", "asarray") and len(a) == 1:
                return [0] * len(a[0]) if name.endswith("_like") else a[0]
            if name in ("allclose", "array_equal") and len(a) == 2:
                if name == "array_equal":
                    return a[0] == a[1]
                rtol = self.ev(kw["rtol"]) if "rtol" in kw else 1e-5
                atol = self.ev(kw["atol"]) if "atol" in kw else 1e-8
                return all(abs(x - y) <= atol + rtol * abs(y) for x, y in zip(flatten(a[0]), flatten(a[1])))
            if name in ("take", "take_along_axis") and len(a) >= 2:
                return self.get(a[0], a[1])
            if name == "zeros" or name == "empty":
                raise Unknown("array made")
        if f.op in ("method", "attr"):
            base = self.ev(f.args[0])
            if isinstance(base, Grid) and name == "cell_centers":
                return Points(base.centers)
            if isinstance(base, Grid) and name in ("copy",):
                return base
            if isinstance(base, Tree) and name == "query" and args:
                p = self.ev(args[0])
                ord_ = self.ev(kw["p"]) if "p" in kw else 2
                if ord_ != 2 or set(kw) - {"p", "k", "workers"} or ("k" in kw and self.ev(kw["k"]) != 1) or len(args) > 1:
                    raise Unknown("query")
                ds, js = [], []
                for x in p:
                    dd = [sum((a - b) ** 2 for a, b in zip(x, y)) ** 0.5 for y in base.data]
                    j = min(range(len(dd)), key=dd.__getitem__)
                    ds.append(dd[j])
                    js.append(j)
                return (ds, js)
            if isinstance(base, dict):
                if name == "keys":
                    return list(base)
                if name == "items":
                    return list(base.items())
                if name == "get" and args:
                    return base.get(self.ev(args[0]), self.ev(args[1]) if len(args) > 1 else None)
            if isinstance(base, (list, tuple)) and name in ("max", "min", "sum", "mean", "any", "all") and not kw and not args:
                v = flatten(base)
                return {"max": max, "min": min, "sum": sum, "any": any, "all": all, "mean": lambda x: sum(x) / len(x)}[name](v)
            if isinstance(base, (list, tuple)) and name == "argsort" and not args and not kw:
                return sorted(range(len(base)), key=lambda i: base[i])
        return super().op_call(f, args, tuple(kw.items()))


def conditions(events, conds=()):
    """(event, conditions under which it happens)"""
    for e in events:
        yield e, conds + tuple(getattr(e, "facts", ()))
        if e[0] == "loop":
            yield from conditions(e[4], conds + (None,))
        elif e[0] == "if":
            yield from conditions(e[3], conds + (e[2],))
            yield from conditions(e[4], conds + (not_(e[2]) if isinstance(e[2], Term) else None,))


def holds(w, c):
    """True / False / None"""
    if c is None or not isinstance(c, Term):
        return None
    if c.op == "not":
        v = holds(w, c.args[0])
        return None if v is None else not v
    if c.op in ("and", "or"):
        vs = [holds(w, a) for a in c.args]
        if c.op == "and":
            return False if False in vs else None if None in vs else True
        return True if True in vs else None if None in vs else False
    try:
        v = w.value(c)
        return bool(v) if not isinstance(v, list) else None
    except Unknown:
        return None


SCENARIOS = {
    "one file": ([("same",)], {}, True),
    "coincident files": ([("same",), ("same",), ("same",)], {}, True),
    "one cycle": ([("same",), ("cycle",)], {}, True),
    "another for each file": ([("same",), ("cycle",), ("other",), ("long",)], {}, True),
    "then coincident": ([("same",), ("long",), ("same",)], {}, True),
    "coincident between": ([("same",), ("same",), ("other",), ("same",)], {}, True),
    "selected fields": ([("same",), ("cycle",), ("other",)], {"filterdata": T("vec", C("U"))}, True),
    "one cell elsewhere": ([("same",), ("same", ((2, 0.3),))], {}, False),
    "last file does not match": ([("same",), ("cycle",), ("same", ((4, 0.3),))], {}, False),
    "second of three does not match": ([("same",), ("other", ((0, 0.3),)), ("same",)], {}, False),
    "slightly elsewhere": ([("same",), ("cycle", ((1, 1e-5),))], {}, False),
    "within a tolerance given": ([("same",), ("cycle", ((1, 1e-5),))], {"tol": C(1e-3)}, True),
    "beyond a tolerance given": ([("same",), ("cycle", ((1, 1e-2),))], {"tol": C(1e-3), "tolverbose": C(1.0)}, False),
    "twice the same other order": ([("same",), ("cycle",), ("cycle",), ("same",)], {}, True),
    "one cell just beyond": ([("same",), ("same", ((1, 2e-3),))], {"tol": C(1e-3)}, False),
    "one cell just beyond, other order": ([("same",), ("long", ((1, 2e-3),))], {"tol": C(1e-3)}, False),
    "one cell before": ([("same",), ("same", ((3, -0.3),))], {}, False),
    "two cells, one each way": ([("same",), ("same", ((3, -0.3), (4, 0.3)))], {}, False),
    "other way": ([("same",), ("cycle", ((1, -0.3),))], {}, False),
}


def scenario(rep, name, files, kw, good):
    where = L + ".vtkList.read"
    for timed in (True, False):
        grids = [Grid(f"f{i}.vtu", PERMS[f[0]], f[1] if len(f) > 1 else (), 0.5 * i if timed else None, ("Q", "U") if i % 2 == 0 else ("U", "Q"), i) for i, f in enumerate(files)]
        en = surface.fresh()
        lst = en.call(en.module_attr(L, "vtkList"), [T("vec", *(C(g.name) for g in grids))], {})
        start, given = len(en.st.events), set(en.st.facts)
        w = Files(en, grids)
        title = name + ("" if timed else ", no time")
        try:
            en.call(en.getattr(lst, "read"), [], dict(kw))
        except Exc:
            if good:
                rep.bad("accepted", where, f"{title}: always refused", key="accepted:always")
            continue
        verdicts = []
        for e, conds in conditions(en.st.events[start:]):
            if e[0] in ("raise", "assert"):
                vs = [holds(w, c) for c in conds if c not in given]
                if e[0] == "assert":
                    v = holds(w, e[2] if isinstance(e[2], Term) else None)
                    vs.append(None if v is None else not v)
                verdicts.append(False if False in vs else None if None in vs else True)
        if not good:
            rep.check(True if True in verdicts else None if None in verdicts else False, "refused", where, f"{title}: refused", key=f"refused:{name}")
            continue
        rep.check(False if True in verdicts else None if None in verdicts else True, "accepted", where, f"{title}: not refused", key=f"accepted:{name}")
        data = en.getattr(en.getattr(lst, "_data"), "_datalist")
        try:
            sets = w.value(en.freeze(data)) if en.known_elems(data) is None else [w.value(en.freeze(x)) for x in en.known_elems(data)]
        except Unknown as x:
            rep.undecided("set", where, f"{title}: {x}")
            continue
        rep.check(len(sets) == len(grids), "set", where, f"{title}: {len(sets)} data sets for {len(grids)} files", key="set:number")
        for i, (g, ds) in enumerate(zip(grids, sets)):
            want = {"U"} if "filterdata" in kw else set(g.cell_data)
            got = set(ds) - {"time"}
            rep.check(got == want, "set", where, f"{title}: file {i} gives {', '.join(sorted(got))}", key="set:fields")
            for f in sorted(got & want):
                ok = ds[f] == g.ordered(f)
                rep.check(ok, "order", where, f"{title}: {f} of file {i}" + ("" if ok else f" is {ds[f]} instead of {g.ordered(f)}"), key=f"order:{f}")
            if timed:
                rep.check(ds.get("time") == g.field_data["TimeValue"], "time", where, f"{title}: time of file {i} is {ds.get('time')}", key="time")
            else:
                rep.check(ds.get("time") is None, "time", where, f"{title}: no time for file {i}", key="time:none")
        try:
            m = w.value(en.freeze(en.getattr(lst, "_mesh")))
            rep.check(m is grids[0], "mesh", where, f"{title}: mesh of {m.name}", key="mesh")
        except (Unknown, AttributeError) as x:
            rep.undecided("mesh", where, f"{title}: {x}")


def compare(rep):
    where = L + ".vtkList.check_order"
    for name, (files, kw, good) in SCENARIOS.items():
        grids = [Grid(f"f{i}.vtu", PERMS[f[0]], f[1] if len(f) > 1 else (), None, ("Q",), i) for i, f in enumerate(files)]
        for pos in (None, "cellcenter", "node"):
            en = surface.fresh()
            lst = en.call(en.module_attr(L, "vtkList"), [T("vec", *(C(g.name) for g in grids))], {})
            k = {} if pos is None else {"pos": C(pos)}
            if "tol" in kw:
                k["tol"] = kw["tol"]
            try:
                r = en.call(en.getattr(lst, "check_order"), [], k)
            except Exc:
                rep.bad("compare", where, f"{name}: fails", key="compare:fails")
                continue
            tol = kw["tol"].args[0] if "tol" in kw else 1e-10
            want = all(max(sum((a - b) ** 2 for a, b in zip(x, y)) ** 0.5 for x, y in zip(g.centers, grids[0].centers)) <= tol for g in grids)
            w = Files(en, grids)
            try:
                got = bool(w.value(en.freeze(r)))
            except Unknown as x:
                rep.undecided("compare", where, f"{name}, {pos}: {x}")
                continue
            rep.check(got == want, "compare", where, f"{name}, {pos or 'default'}: said {'' if got else 'not '}coincident", key=f"compare:{pos}")


def run(rep):
    rep.function(L + ".vtkList.read")
    rep.function(L + ".vtkList.check_order")
    for name, (files, kw, good) in SCENARIOS.items():
        scenario(rep, name, files, kw, good)
    compare(rep)
