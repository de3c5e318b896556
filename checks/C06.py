"""The IC3 v4 reader and writer share one HDF5 schema.

Both are executed abstractly.  Every group, data set and attribute that the writer creates and every one that the reader opens
is reduced to (file, path, kind).  What the reader needs must have been created, under no narrower condition; what the writer
stores about boundaries, variables and statistics must be opened by the reader.  The values the reader rebuilds are then
composed with the values stored under the same paths."""
TECHNIQUE = "abstract interpretation; comparison of the HDF5 paths created and opened, composition of the reader's values with the stored ones"
LEVEL_NOTE = "Mesh file and solution file, all meshes and variables symbolic. Paths that the analysis cannot name and stored values of unknown structure are undecided and quiet."
from sa import cli, ic3, outputs, registry
from sa.engine import Exc
from sa.rewrite import rewrite
from sa.terms import T, C, Term, NONE, add, contains, mul, not_, poly_of, is_const, is_int, show, sub, subst, walk
from sa.util import cases, resolve, site
from checks.C02 import coordinate, find_entry, same, slice_all, strip

RULES = {"required": "everything the reader needs is created by the writer under the same path",
         "recovered": "everything stored about boundaries, variables and statistics is opened by the reader",
         "type": "real quantities are stored and read in double precision, tables as integers",
         "table": "coordinates, face tables and counts come back",
         "mark": "name, kind, range and periodic transform of a mark come back",
         "variable": "a variable comes back under its name with its values",
         "state": "step, time and weights come back"}
ASSUMPTIONS = ["names of variables are in upper case (IC3 convention)", "marks are numbered before writing (checked by C26)",
               "HDF5 stores and returns arrays faithfully"]
INDEX = ("sym", "idx", "ix", "index")
MESH, SOL = "mesh file", "solution file"
REAL = {"f8", "d", "float64", "<f8", ">f8", "float", "double", "numpy.float64", "builtins.float", "numpy.double", "numpy.float_"}
SMALL = {"f4", "f2", "float32", "float16", "numpy.float32", "numpy.float16", "f", "numpy.single", "numpy.half", "<f4", ">f4", "e"}
INT = {"i4", "i8", "int32", "int64", "<i4", "<i8", "i", "l", "q", "int", "u4", "u8", "uint32", "uint64", "numpy.int32", "numpy.int64", "numpy.uint32", "numpy.uint64", "builtins.int", "numpy.intc", "numpy.int_", ">i4", ">i8"}
NARROW = {"i1", "i2", "u1", "u2", "int8", "int16", "uint8", "uint16", "numpy.int8", "numpy.int16", "numpy.uint8", "numpy.uint16", "?", "bool", "numpy.bool_", "builtins.bool", "b", "B", "h", "H"}


class Schema:
    """HDF5 files of one abstract run"""

    def __init__(self, en, events, mesh, sol):
        self.en = en
        self.flat, self.facts = [], {}
        self.follow(events, ())
        self.files, self.opened = {}, {}
        for e in self.flat:
            if e[0] == "open" and len(e) > 5 - 1 and str(e[-1]) == "h5py":
                n = en.freeze(e[3]) if isinstance(e[3], Term) else None
                s = contains(n, lambda x: x is sol)
                self.files[e[2]] = SOL if s else MESH
                self.opened[SOL if s else MESH] = e
        self.memo = {}

    def follow(self, events, conds):
        for e in events:
            self.flat.append(e)
            self.facts[id(e)] = tuple(getattr(e, "facts", ())) + conds
            if e[0] == "loop":
                self.follow(e[4], conds)
            elif e[0] == "if":
                self.follow(e[3], conds + ((e[2],) if isinstance(e[2], Term) else ()))
                self.follow(e[4], conds + ((not_(e[2]),) if isinstance(e[2], Term) else ()))

    def path(self, t):
        """(file, names) of an HDF5 object, None when t is something else"""
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = r = self._path(t)
        return r

    def _path(self, t):
        if not isinstance(t, Term):
            return None
        if t.op == "ref":
            return (self.files[t], ()) if t in self.files else None
        if t.op == "item" and not skip_key(t.args[1]):
            b = self.path(t.args[0])
            return b and join(b, t.args[1])
        if t.op == "call" and isinstance(t.args[0], Term) and t.args[0].op == "method":
            m = t.args[0]
            if m.args[1] in ("create_group", "require_group", "create_dataset", "require_dataset", "get") and t.args[1]:
                b = self.path(m.args[0])
                return b and join(b, t.args[1][0])
        return None

    def attrs_of(self, t):
        """path of the object whose attributes t is"""
        return self.path(t.args[0]) if isinstance(t, Term) and t.op == "attr" and t.args[1] == "attrs" else None


def skip_key(k):
    return not isinstance(k, Term) or k.op in ("slice", "tuple") or is_int(k)


def join(b, name):
    f, p = b
    if is_const(name) and isinstance(name.args[0], str):
        s = name.args[0]
        parts = tuple(C(x) for x in s.split("/") if x)
        return f, parts if s.startswith("/") else p + parts
    return f, p + (name,)


def written(sc):
    """[(kind, file, path, data, keywords, event)]"""
    out = []
    en = sc.en
    for e in sc.flat:
        if e[0] == "xcall" and isinstance(e[2], Term) and e[2].op == "method":
            b, m = sc.path(e[2].args[0]), e[2].args[1]
            a = sc.attrs_of(e[2].args[0])
            kw = dict(e[4]) if len(e) > 4 else {}
            kw = {getattr(k, "args", (k,))[0] if isinstance(k, Term) else k: v for k, v in kw.items()}
            if b is not None and m in ("create_group", "require_group") and e[3]:
                out.append(("group",) + join(b, e[3][0]) + (None, kw, e))
            elif b is not None and m in ("create_dataset", "require_dataset"):
                name = e[3][0] if e[3] else kw.get("name")
                for k, i in (("shape", 1), ("dtype", 2), ("data", 3)):
                    if len(e[3]) > i:
                        kw.setdefault(k, e[3][i])
                if name is not None:
                    out.append(("dataset",) + join(b, name) + (kw.get("data"), kw, e))
            elif a is not None and m in ("create", "__setitem__") and len(e[3]) > 1:
                out.append(("attr",) + join(a, e[3][0]) + (e[3][1], kw, e))
        elif e[0] == "setitem":
            b, a = sc.path(e[2]), sc.attrs_of(e[2])
            if a is not None:
                out.append(("attr",) + join(a, e[3]) + (e[4], {}, e))
            elif b is not None:
                out.append(("dataset",) + join(b, e[3]) + (e[4], {}, e))
        elif e[0] == "mutate" and e[3] in ("update", "create", "__setitem__"):
            a = sc.attrs_of(e[2])
            args = e[4] if isinstance(e[4], tuple) else (e[4],)
            if a is None:
                continue
            if e[3] == "update" and args:
                d = args[0] if isinstance(args[0], Term) else None
                d = en.freeze(d) if d is not None else None
                if d is not None and d.op == "dictof" and d.args[0] in (None, NONE):
                    for k, v, g in d.args[1]:
                        out.append(("attr",) + join(a, k) + (v, {"guard": g}, e))
                else:
                    out.append(("attr",) + join(a, T("unk", "attributes")) + (d, {}, e))
            elif len(args) > 1:
                out.append(("attr",) + join(a, args[0]) + (args[1], {}, e))
    return out


def guarded_names(n):
    """[(constant name, conditions)] that a path component can take, None when it is not a constant"""
    if is_const(n):
        return [(n.args[0], ())]
    if n.op == "item" and n.args[0].op == "seq":
        out = []

        def go(c, conds):
            if isinstance(c, Term):
                if c.op == "e" and is_const(c.args[0]):
                    out.append((c.args[0].args[0], conds))
                    return True
                if c.op == "g":
                    return go(c.args[1], conds + (c.args[0],)) and go(c.args[2], conds + (not_(c.args[0]),))
                if c.op == "chunks":
                    return all(go(x, conds) for x in c.args)
            return False
        return out if all(go(c, ()) for c in n.args[0].args) else None
    return None


def names_of(n):
    g = guarded_names(n)
    return None if g is None else [x for x, _ in g]


def variants(path):
    """(paths, conditions) with every component that takes a few constant names replaced by each of them"""
    out = [((), ())]
    for n in path:
        ns = guarded_names(n)
        out = [(p + (x,), c + d) for p, c in out for x, d in ([(C(s), d) for s, d in ns] if ns is not None else [(n, ())])]
    return out


def opened(sc):
    """[(kind, file, path, guarded, event)]; kind: item, attr, all (every data set), allattrs"""
    out, met = {}, set()
    for e in sc.flat:
        ts = []

        def collect(x):
            if isinstance(x, tuple):
                for y in x:
                    collect(y)
            elif isinstance(x, Term):
                ts.append(x)
        body = e[2:4] if e[0] in ("if", "loop") else e[2:]
        collect(tuple(body))
        seen = set()
        for t in ts:
            for x in walk(t):
                if x in seen:
                    continue
                seen.add(x)
                r = access(sc, x)
                if r is not None and x not in met:
                    met.add(x)
                    out.setdefault(r, []).append((guards(sc, e), e))
    return out


def access(sc, x):
    if x.op == "item":
        a = sc.attrs_of(x.args[0])
        if a is not None:
            if x.args[1].op in ("sym", "idx") or contains(x.args[1], lambda y: y is x.args[0]):
                return ("allattrs",) + a
            return ("attr",) + join(a, x.args[1])
        p = sc.path(x)
        return p and (("all",) + (p[0], p[1][:-1]) if p[1] and p[1][-1].op == "dkey" else ("item",) + p)
    if x.op == "call":
        if x.args[0].op == "method" and x.args[0].args[1] == "get":
            a = sc.attrs_of(x.args[0].args[0])
            if a is not None and x.args[1]:
                return ("attr",) + join(a, x.args[1][0])
            p = sc.path(x)
            return p and ("item",) + p
        for y in x.args[1]:
            p = sc.path(y)
            if p is not None and x.args[0].op == "ext" and not x.args[0].args[0].startswith("numpy."):
                return ("all",) + p                     # handed over to a function that is not followed
    if x.op in ("keys", "dkeys", "ditems", "dvalues", "dkey", "elems"):
        a, p = sc.attrs_of(x.args[0]), sc.path(x.args[0])
        if a is not None:
            return ("allattrs",) + a
        if p is not None:
            return ("all",) + p
    return None


def guards(sc, e):
    """paths (and attributes) known to be present where e happens"""
    return present(sc, sc.facts[id(e)])


def present(sc, conds):
    out = set()
    for f in conds:
        for x in ([f] if isinstance(f, Term) else []):
            ys = [x]
            while ys:
                y = ys.pop()
                if y.op == "and":
                    ys += [z for z in y.args if isinstance(z, Term)]
                elif y.op == "cmp" and y.args[0] == "in":
                    p, a = sc.path(y.args[2]), sc.attrs_of(y.args[2])
                    if a is not None:
                        out.add(("attr",) + join(a, y.args[1]))
                    elif p is not None:
                        out.add(("item",) + join(p, y.args[1]))
    return out


def label(p):
    return "/".join(str(x.args[0]) if is_const(x) else "<" + show(x, 3)[:60] + ">" for x in p) or "/"


def comparable(p):
    return all(names_of(x) is not None for x in p)


def reader_run():
    en = registry.engine()
    cls = registry.entries(en)[0]["IC3V4", "reader"]
    en.assume(T("not", T("cmp", "is", T("sym", "solution"), NONE)))
    o = en.call(cls, [T("sym", "filename"), T("sym", "solution")], {})
    n = len(en.st.events)
    try:
        en.call(en.getattr(o, "read_data"), [], {})
        m = en.call(en.getattr(o, "export_mesh"), [], {})
    except Exc as x:
        en.st = x.st
        m = None
    return en, en.st.events[n:], m


def run(rep):
    wen, _, wev = outputs.v4_solution()
    ren, rev, mesh = reader_run()
    rep.function(*wen.analysed)
    rep.function(*ren.analysed)
    if mesh is None:
        rep.undecided("required", "reader", "the abstract run of the reader ends with an exception")
        return
    w = Schema(wen, wev, T("sym", "filename"), T("sym", "solution"))
    r = Schema(ren, rev, T("sym", "filename"), T("sym", "solution"))
    wr, rd = written(w), opened(r)
    if set(w.files.values()) != {MESH, SOL} or set(r.files.values()) != {MESH, SOL}:
        rep.undecided("required", "files", f"files opened: {sorted(w.files.values())} / {sorted(r.files.values())}")
        return
    required(rep, w, wr, r, rd)
    recovered(rep, w, wr, r, rd)
    types(rep, w, wr)
    comp = Composition(w, wr, r)
    tables(rep, comp, mesh)
    marks(rep, comp, mesh)
    variables(rep, comp, mesh)
    state(rep, comp, mesh)


# ---------------------------------------------------------------- paths
def matches(path, wpath):
    """True: same path; None: perhaps; False: not"""
    if len(path) != len(wpath):
        return False
    res = True
    for a, b in zip(path, wpath):
        if a is b:
            continue
        if is_const(a) and is_const(b) or cased(a, b) or cased(b, a):
            return False
        res = None
    return res


def cased(a, b):
    """a is a constant that the change of case b cannot give"""
    if is_const(a) and isinstance(a.args[0], str) and b.op == "call" and b.args[0].op == "method" and b.args[0].args[1] in ("lower", "upper"):
        return getattr(a.args[0], b.args[0].args[1])() != a.args[0]
    return False


def extra(sc, e, f):
    """conditions of an event that are not conditions of the opening of its file"""
    base = set(map(id, sc.facts[id(sc.opened[f])]))
    return [x for x in sc.facts[id(e)] if id(x) not in base]


def required(rep, w, wr, r, rd):
    done = set()
    for (kind, f, p), uses in rd.items():
        if kind in ("all", "allattrs") or not p:
            continue
        for q, given in variants(p):
            key = kind, f, q
            if key in done:
                continue
            done.add(key)
            here = present(r, given)
            where = f"{f} {'attribute ' if kind == 'attr' else ''}{label(q)}"
            want = ("attr",) if kind == "attr" else ("group", "dataset")
            hit = [x for x in wr if x[0] in want and x[1] == f and matches(q, x[2]) is not False]
            exact = [x for x in hit if matches(q, x[2])]
            free = [u for u in uses if not any(g[0] == kind and g[1] == f and (matches(q, g[2]) is not False or matches(p, g[2]) is not False) for g in u[0] | here)]
            if not free:
                continue                                # only used where it is present
            if exact or hit:
                x = (exact or hit)[0]
                # written under a condition that its parent does not have
                conds = extra(w, x[5], f) if exact else []
                parent = [y for y in wr if y[0] == "group" and y[1] == f and y[2] == x[2][:-1]]
                pc = set(map(id, extra(w, parent[0][5], f))) if parent else set()
                conds = [c for c in conds if id(c) not in pc]
                if conds and parent and any(g[:2] == ("item", f) and matches(q[:-1], g[2]) for u in free for g in u[0]):
                    pass
                rep.check(True if not conds or not comparable(q) else None, "required", where,
                          "created by the writer" if not conds else f"created only if {show(conds[0], 4)}")
                continue
            if not comparable(q):
                rep.undecided("required", where, "name not constant and not matched")
                continue
            other = [x for x in wr if x[1] == f and x[2] == q]
            vague = [x for x in wr if x[1] == f and any(y.op == "unk" for y in x[2])]
            if vague and not other:
                rep.undecided("required", where, "the writer creates objects whose names are not known")
                continue
            rep.bad("required", site(free[0][1][1]), f"the reader needs {where}, which the writer " + (f"creates as {other[0][0]}" if other else "does not create"),
                    key=f"required:{f}:{kind}:{label(q)}")


def recovered(rep, w, wr, r, rd):
    bound = C("Boundaries")
    for kind, f, p, data, kw, e in wr:
        if kind == "group" or data is None:
            continue
        inside = f == SOL or any(x is bound for x in p)
        if f == MESH and not inside:
            continue
        if kind == "attr" and (is_const(data) or f == MESH):
            continue                                    # descriptive
        where = f"{f} {'attribute ' if kind == 'attr' else ''}{label(p)}"
        got = None
        for (k, g, q), uses in rd.items():
            if g != f:
                continue
            if all(impossible(h, wr) for h, _ in uses):
                continue
            if kind == "attr":
                if k == "allattrs" and same_path(q, p[:-1]):
                    got = True
                    break
                if k == "attr":
                    for v, _ in variants(q):
                        m = matches(v, p)
                        got = True if m else got
            else:
                if k == "all" and same_path(q, p[:-1]):
                    got = True
                    break
                if k == "item":
                    for v, _ in variants(q):
                        m = matches(v, p)
                        got = True if m else ("perhaps" if m is None and got is None else got)
        if got is not True and not reached(kind, f, p, rd, wr):
            got = None
            rep.bad("recovered", site(e[1]), f"{where} is stored but never read back", key=f"recovered:{f}:{label(p)}")
        elif got is True or got == "perhaps" and not comparable(p):
            rep.ok("recovered", where, "opened by the reader")
        elif got == "perhaps" or not comparable(p) and any(k == "all" and g == f for k, g, _ in rd):
            rep.undecided("recovered", where, "not matched with a path of the reader")
        else:
            rep.bad("recovered", site(e[1]), f"{where} is stored but never read back", key=f"recovered:{f}:{label(p)}")


def impossible(conds, wr):
    """one of the objects whose presence is asked for is never written"""
    for kind, f, p in conds:
        beside = [x for x in wr if x[1] == f and (x[0] == "attr") == (kind == "attr") and len(x[2]) == len(p) and matches(x[2][:-1], p[:-1]) is not False]
        if p and (all(is_const(x[2][-1]) for x in beside) if names_of(p[-1]) is None else all(matches(p, x[2]) is False for x in beside)):
            return True
    return False


def reached(kind, f, p, rd, wr):
    """the reader opens the constant groups that lead to p, and their attributes when p is one"""
    base = ()
    for n in p[:-1]:
        if names_of(n) is None:
            break
        base += (n,)

    def opens(b, kinds):
        return any(g == f and k in kinds and any(matches(v[:len(b)], b) is not False and len(v) + (k != "item") > len(b) for v, _ in variants(q)) and not all(impossible(h, wr) for h, _ in uses) for (k, g, q), uses in rd.items())
    if kind == "attr":
        return any(g == f and (k == "allattrs" and matches(q, p[:-1]) is not False or k == "attr" and matches(q, p) is not False) for k, g, q in rd)
    return not base or opens(base, ("item", "all"))


def same_path(a, b):
    return len(a) == len(b) and matches(a, b) is True


def type_name(t):
    if t is None:
        return None
    if is_const(t):
        return str(t.args[0])
    if t.op == "ext":
        return t.args[0]
    return None


def real_valued(data):
    """the stored value is one of the real quantities of the mesh"""
    return contains(data, lambda x: x.op == "attr" and x.args[1] in ("_celldata", "_nodes", "_nodedata", "_facedata")) or \
        contains(data, lambda x: is_const(x) and x.args[0] == "periodic_transform")


def types(rep, w, wr):
    for kind, f, p, data, kw, e in wr:
        if kind != "dataset" or data is None:
            continue
        d = w.en.freeze(data)
        where = f"{f} {label(p)}"
        tn = type_name(kw.get("dtype"))
        casts = {type_name(y) for x in walk(d) if x.op == "call" and x.args[0].op == "method" and x.args[0].args[1] == "astype" for y in x.args[1][:1]}
        names = ({tn} if "dtype" in kw else set()) | casts
        if None in names:
            if "dtype" in kw and kw["dtype"].op in ("xres", "call"):
                continue                                # character strings
            rep.undecided("type", where, f"type {show(kw.get('dtype'), 3) if kw.get('dtype') is not None else casts}")
            continue
        if real_valued(d):
            bad = [n for n in names if n in SMALL | INT | NARROW]
        else:
            bad = [n for n in names if n in NARROW | SMALL]
        if bad:
            rep.bad("type", site(e[1]), f"{where} is stored with type {bad[0]}", key=f"type:{label(p)}")
        else:
            rep.ok("type", where, f"stored with type {', '.join(sorted(n or '?' for n in names)) or 'of the data'}")


# ---------------------------------------------------------------- values
class Composition:
    def __init__(self, w, wr, r):
        self.w, self.r = w, r
        self.wr = wr
        self.data = {}
        for kind, f, p, data, kw, e in wr:
            if data is not None and kind in ("dataset", "attr"):
                self.data.setdefault((kind == "attr", f, p), self.deep(data))
        self.memo = {}

    def deep(self, t):
        """value with the lists of the heap expanded"""
        en = self.w.en
        t = en.freeze(t) if isinstance(t, Term) else t
        m = {}
        for x in walk(t):
            if x.op == "ref" and x not in self.w.files:
                v = en.freeze(x)
                if v is not x and v.op in ("seq", "dictof", "tuple"):
                    m[x] = v
        return subst(t, m) if m else t

    def ev(self, t):
        """term of the reader with every stored value replaced by what was written, types dropped"""
        t = self.r.en.freeze(t)
        m = {}
        for x in walk(t):
            if x.op == "item":
                a = self.r.attrs_of(x.args[0])
                if a is not None:
                    k = (True,) + join(a, x.args[1])
                    if k in self.data:
                        m[x] = self.data[k]
                elif all_of(x.args[1]):
                    p = self.r.path(x.args[0])
                    if p is not None and (False,) + p in self.data:
                        m[x] = self.data[(False,) + p]
        return strip(subst(t, m) if m else t)


def all_of(k):
    return k.op == "tuple" and not k.args or slice_all(k) or is_const(k) and k.args[0] is Ellipsis


def tables(rep, comp, mesh):
    en = comp.r.en
    mo = en.obj(mesh)
    wm = T("sym", "mesh")
    nodes = mo.f.get("_nodes")
    for k in "xyz":
        t = find_entry(en, nodes, k)
        if t is None:
            rep.undecided("table", f"coordinate {k}", "node table not found")
            continue
        got = coordinate(comp.ev(t))
        want = T("item", T("attr", wm, "_nodes"), C(k))
        others = {T("item", T("attr", wm, "_nodes"), C(o)) for o in "xyz" if o != k}
        rep.check(True if got is want else False if got in others or (got is not None and got.op == "scrambled") else None, "table", f"coordinate {k}", f"comes back as {show(got, 5)}")
    for a, want in (("nnode", "_nnode"), ("ncell", "_ncell")):
        got = comp.ev(en.getattr(mesh, a))
        other = {T("attr", wm, o) for o in ("_nnode", "_ncell") if o != want} | {x for x in walk(got) if x.op == "attr" and x.args[1] == "nface"}
        rep.check(True if got is T("attr", wm, want) else False if got in other else None, "table", f"number {a}", f"comes back as {show(got, 4)}")
    mixed = find_entry(en, mo.f.get("_faces"), "mixed")
    f2c = find_entry(en, mixed, "face2cell")
    src = comp.data.get((False, MESH, (C("Connectivities"), C("Face"), C("cvofa"))))
    if f2c is None or src is None:
        rep.undecided("table", "face to cell table", "not found")
    else:
        t = comp.ev(en.getattr(f2c, "conn"))
        res = None
        for asg, ts in cases((t, strip(src))):
            s = same(ts[0], ts[1], (2,))
            cell = contains(ts[1], lambda x: is_const(x) and x.args[0] == "face2cell" or x.op == "obj" or x.op == "attr" and x.args[1] == "_conn")
            s = s if cell or s is not True else None
            res = s if res in (None, True) and (res is None or s is not True) else res
            if s is False:
                break
        rep.check(res, "table", "face to cell table", f"comes back as {show(t, 4)}")
    f2n(rep, comp)


def difference(t):
    """table of which t is the successive differences"""
    for mo in poly_of(t):
        if len(mo) == 1 and mo[0].op == "item" and mo[0].args[1].op == "slice":
            return mo[0].args[0]
    return next((x.args[1][0] for x in walk(t) if x.op == "call" and x.args[0].op == "ext" and x.args[0].args[0] == "numpy.diff" and x.args[1]), None)


def cumulated(t):
    return t.args[0].op == "ext" and t.args[0].args[0] == "numpy.cumsum" or t.args[0].op == "method" and t.args[0].args[1] == "cumsum"


def f2n(rep, comp):
    en = comp.r.en
    cnt = comp.data.get((False, MESH, (C("Connectivities"), C("Face"), C("noofa_i"))))
    val = comp.data.get((False, MESH, (C("Connectivities"), C("Face"), C("noofa_v"))))
    if cnt is None or val is None:
        rep.undecided("table", "face to node table", "not found")
        return
    cnt, val = strip(cnt), strip(val)
    base = difference(cnt)
    if base is None and difference(val) is not None:
        rep.bad("table", "IC3 v4 writer", "noofa_i holds the nodes and noofa_v their numbers", key="table:noofa")
        return
    found = False
    for e in comp.r.flat:
        if e[0] != "new":
            continue
        o = en.obj(e[2])
        if o is None or "_index" not in o.f or "_value" not in o.f:
            continue
        found = True
        i, v = comp.ev(o.f["_index"]), comp.ev(o.f["_value"])
        rep.check(True if v is val else False if v is cnt else None, "table", "face to node values", f"stored {show(val, 4)}, rebuilt {show(v, 4)}")
        def rebuilt(i):
            if i is base:
                return True
            i = i if base is None else subst(i, {base: T("sym", "stored index")})
            conc = contains(i, lambda x: x.op == "call" and x.args[0].op == "ext" and x.args[0].args[0].split(".")[-1] in ("concatenate", "insert", "hstack", "append", "pad", "r_"))
            cum = contains(i, lambda x: x.op == "call" and (x.args[0].op == "ext" and "cumsum" in x.args[0].args[0] or x.args[0].op == "method" and x.args[0].args[1] == "cumsum"))
            if i is cnt or i is val or (cum and i.op == "call" and not conc and cumulated(i)) or (not cum and not contains(i, lambda x: x.op in ("fold", "mu", "sum"))):
                return False
            return True if cum and conc and contains(i, lambda x: x is C(0)) and contains(i, lambda x: x is cnt) else None
        rep.check(None if base is None else rebuilt(i), "table", "face to node index", f"rebuilt {show(i, 5)}")
    if not found:
        rep.undecided("table", "face to node table", "table object not found in the reader")


# ---------------------------------------------------------------- marks
def columns(t):
    """[columns], k: t is the k-th column of rows that were reordered together; None otherwise"""
    if t.op == "item" and is_int(t.args[1]) and t.args[0].op == "unzip":
        rows = t.args[0].args[0]
        k = t.args[1].args[0]
        key = None
        if rows.op == "call" and rows.args[0].op == "ext" and rows.args[0].args[0] == "builtins.sorted":
            kw = dict(rows.args[2]) if len(rows.args) > 2 else {}
            key = kw.get("key", True)
            rows = rows.args[1][0]
        if rows.op == "zipof":
            return list(rows.args), k, key
    return None


def element(t, i, off=0):
    """('col', columns, k, shift) when t[i] is the k-th column at the i-th row (or at the next one)"""
    c = columns(t)
    if c is not None:
        return c[0], c[1], off, c[2]
    if t.op == "item" and t.args[1].op == "slice":
        a, b, s = t.args[1].args
        if (s is NONE or s is C(1)) and (is_const(a)):
            return element(t.args[0], i, off + (a.args[0] or 0))
    if t.op == "seq" and t.args and t.args[0].op == "spread":
        return element(t.args[0].args[0], i, off)
    return None


def rows(t):
    """values of a column: ([value for a mark], [final value])"""
    if t.op != "seq":
        return None
    each = [c for c in t.args if c.op == "each"]
    last = [c.args[0] for c in t.args if c.op == "e"]
    if len(each) != 1 or len(last) != 1 or t.args[-1].op != "e" or each[0].args[2].op != "e":
        return None
    return each[0].args[0], each[0].args[1], each[0].args[2].args[0], last[0]


def marks(rep, comp, mesh):
    en = comp.r.en
    found = False
    for e in comp.r.flat:
        if e[0] != "new":
            continue
        o = en.obj(e[2])
        if o is None or o.kind != "inst" or not {"_properties", "_geodim"} <= set(o.f):
            continue
        found = True
        one_mark(rep, comp, e[2])
    if not found:
        rep.undecided("mark", "reader", "no mark is built")


def spread_item(t):
    """(X + c)[i] as X[i] + c"""
    def rule(x):
        if x.op == "item" and x.args[0].op == "poly" and x.args[1].op in INDEX:
            r = C(0)
            for mon, co in x.args[0].args:
                p = C(co)
                for k, a in enumerate(mon):
                    p = mul(p, T("item", a, x.args[1]) if k == 0 and not is_const(a) else a)
                r = add(r, p)
            return r
        return x
    return rewrite(t, rule)


def substitute(t, which, cols):
    """t with the elements of the stored columns replaced by those of a mark (which=2) or of the final zone (which=3)"""
    m = {}
    t = spread_item(t)
    for x in walk(t):
        if x.op == "item" and x.args[1].op in INDEX:
            el = element(x.args[0], x.args[1])
            if el is not None:
                cs, k, off, key = el
                if off == 0:
                    r = rows(cs[k]) if k < len(cs) else None
                    if r is not None:
                        m[x] = r[which]
                        cols.add(k)
                elif off == 1:
                    m[x] = T("sym", f"next_{k}")
    return strip(subst(t, m)) if m else strip(t)


def undecode(t):
    if t.op == "call" and t.args[0].op == "method" and t.args[0].args[1] in ("decode", "encode", "strip"):
        return undecode(t.args[0].args[0])
    if t.op == "str" and t.args:
        return undecode(t.args[0])
    return t


def merged(t):
    """the collection of the marks taken as one, whatever marks were completed before"""
    def leaves(x):
        return leaves(x.args[1]) and leaves(x.args[2]) if x.op == "gamma" else x.op == "ditems"
    m = {x: T("sym", "marks") for x in walk(t) if x.op in ("gamma", "ditems") and leaves(x)}
    return subst(t, m) if m else t


def owner(t, fields):
    own = {x.args[0] for x in walk(t) if x.op == "attr" and x.args[1] in fields}
    return own.pop() if len(own) == 1 else None


def names_mark(t, M):
    """t is the name of the mark M, or the key under which M is held"""
    return M is not None and (t is T("attr", M, "name") or t is T("attr", M, "_name") or t.op == "item" and M.op == "item" and t.args[0] is M.args[0] and t.args[1] is C(0))


class Worst:
    """one obligation per question, the worst answer over the cases"""

    def __init__(self):
        self.r = {}

    def add(self, what, res, detail):
        old = self.r.get(what)
        rank = {False: 0, None: 1, True: 2}
        if old is None or rank[res] < rank[old[0]]:
            self.r[what] = res, detail

    def report(self, rep, rule):
        for what, (res, detail) in self.r.items():
            rep.check(res, rule, what, detail)


def one_mark(rep, comp, ref):
    en = comp.r.en
    name, typ = en.getattr(ref, "name"), en.getattr(ref, "type")
    raw = {"name": comp.ev(name), "kind": comp.ev(typ)}
    rg = en.freeze(en.getattr(en.getattr(ref, "index"), "_range"))
    xs = [a.args[0] if a.op == "e" else a for a in rg.args] if rg.op in ("seq", "tuple", "vec") else []
    if len(xs) == 2:
        raw["first"], raw["last"] = comp.ev(xs[0]), comp.ev(xs[1])
    else:
        rep.undecided("mark", "range of a mark", show(rg, 4))
    per = stored_transform(comp)
    if per is None:
        rep.bad("mark", "IC3 v4 writer", "the periodic transform of a mark is not stored", key="mark:periodic")
    w = Worst()
    cols = set()
    order_ = list(raw)
    terms = [substitute(raw[k], 2, cols) for k in order_] + ([per[0][1]] if per is not None and len(per[0]) == 3 else [])
    for asg, ts in cases(tuple(merged(t) for t in terms)):
        d = dict(zip(order_, ts))
        kind = d["kind"]
        keys = [(k, v) for k, v in asg.items() if k.op == "attr" and k.args[1] in ("type", "_type") and isinstance(v, Term)]
        if keys:
            M = keys[0][0].args[0]
            M = resolve(M, {k: v for k, v in asg.items() if not isinstance(v, Term)})
            w.add(f"kind {show(keys[0][1])}", True if kind is keys[0][1] else False if is_const(kind) or kind.op in ("lookup", "keyerror", "undefined") else None, f"comes back as {show(kind, 4)}")
        else:
            M = owner(kind, ("type", "_type"))
            w.add("kind of a mark", True if M is not None and kind is T("attr", M, "type") else False if is_const(kind) else None, f"comes back as {show(kind, 4)}")
        nm = undecode(d["name"])
        w.add("name of a mark", True if names_mark(nm, M) else False if is_const(nm) or nm is kind else None, f"comes back as {show(nm, 4)}")
        if "first" in d:
            one_range(w, d["first"], d["last"], M)
        if len(ts) > len(order_):
            g = ts[-1]
            w.add("group of the periodic transform", True if names_mark(g, M) else False if is_const(g) or g.op == "attr" and g.args[0] is M else None, f"named {show(g, 4)}")
    kind = substitute(raw["kind"], 3, cols)
    for asg, ts in cases((kind,)):
        w.add("kind of the final zone", True if ts[0] is C("internal") else False if is_const(ts[0]) else None, f"comes back as {show(ts[0], 4)}")
    w.report(rep, "mark")
    ends(rep, comp)
    if per is not None:
        periodic(rep, comp, ref, per)


def ranged(t, k):
    """t is the k-th bound of the range of a mark"""
    return t.op == "item" and t.args[1] is C(k) and (t.args[0].op == "call" and t.args[0].args[0].op == "method" and t.args[0].args[0].args[1] == "range" or t.args[0].op == "attr" and t.args[0].args[1] == "_range")


def one_range(w, first, last, M):
    mine = M is None or contains(first, lambda x: x is M)
    nxt = [x for x in walk(last) if x.op == "sym" and str(x.args[0]).startswith("next_")]
    wrong = ranged(first, 1) or contains(first, lambda x: x.op == "sym" and str(x.args[0]).startswith("next_")) or first.op == "poly" and any(ranged(x, 0) for x in walk(first))
    w.add("first face of a mark", True if ranged(first, 0) and mine else False if wrong else None, f"comes back as {show(first, 5)}")
    if nxt:
        d = sub(last, nxt[0])
        w.add("last face of a mark", True if d is C(-1) else False if is_int(d) else None, f"the next offset {show(d)}")
    elif ranged(last, 0) or ranged(last, 1):
        w.add("last face of a mark", ranged(last, 1), f"comes back as {show(last, 5)}")
    else:
        w.add("last face of a mark", False if last.op == "poly" and any(ranged(x, 0) for x in walk(last)) else None, f"comes back as {show(last, 5)}")


def ends(rep, comp):
    """the offsets are those of the marks, of the internal zone, and the number of faces, in this order"""
    en = comp.w.en
    data = [d for (a, f, p), d in comp.data.items() if not a and f == MESH and p == (C("Boundaries"), C("offsets"))]
    if not data or data[0].op != "seq" or len(data[0].args) != 2 or data[0].args[0].op != "spread" or data[0].args[1].op != "e":
        rep.undecided("mark", "offsets", show(data[0], 4) if data else "not found")
        return
    c = columns(data[0].args[0].args[0])
    end = data[0].args[1].args[0]
    if c is None:
        rep.undecided("mark", "offsets", "order of the offsets not followed")
        return
    cs, k, key = c
    if key is None:
        rep.check(None, "mark", "order of the offsets", "no sort found")
    elif key is True:
        rep.check(True if k == 0 else None, "mark", "order of the offsets", "sorted by the first column")
    else:
        try:
            kv = en.freeze(en.call(key, [T("tuple", *[T("sym", f"col_{j}") for j in range(len(cs))])], {}))
        except Exc:
            kv = None
        rep.check(True if kv is T("sym", f"col_{k}") else False if kv is not None and kv.op in ("sym", "poly") else None, "mark", "order of the offsets", f"sorted by {show(kv, 3)}")
    r = rows(cs[k])
    if r is not None:
        last = r[3]
        ok = last.op == "poly" and contains(last, lambda x: x.op in ("fold", "last")) and contains(last, lambda x: x is C(1) or x.op == "poly")
        d = [m for m in walk(last) if m.op == "fold"]
        one = d and sub(last, d[0]) is C(1)
        ranged = d and contains(d[0], lambda x: x.op == "item" and x.args[1] is C(1) and contains(x, lambda y: y.op == "method" and y.args[1] == "range"))
        rep.check(True if one and ranged else False if d and is_int(sub(last, d[0])) and not one else None, "mark", "first face of the final zone",
                  f"{show(last, 4)}")
    nf = end
    good = True
    for asg, ts in cases((strip(nf),)):
        t = ts[0]
        if t.op == "attr" and t.args[1] == "nface" or contains(t, lambda x: x.op == "attr" and x.args[1] in ("nelem", "_nelem")):
            continue
        good = False if t.op == "poly" and contains(t, lambda x: x.op == "attr" and x.args[1] == "nface") or t.op == "attr" and t.args[1] in ("_ncell", "_nnode") else None
    rep.check(good, "mark", "end of the final zone", f"{show(nf, 4)}")


def stored_transform(comp):
    """(path, data, keywords) of the data set that holds a periodic transform"""
    for x in comp.wr:
        if x[0] == "dataset" and x[1] == MESH and x[3] is not None and contains(x[3], lambda y: is_const(y) and y.args[0] == "periodic_transform"):
            return x[2], x[3], x[4]
    return None


def periodic(rep, comp, ref, per):
    en = comp.r.en
    p, data, kw = per
    data = comp.deep(data)
    props = en.getattr(ref, "properties")
    back = find_entry(en, props, "periodic_transform")
    pr = en.freeze(props)
    reads = [x for x in walk(pr) if x.op == "item" and all_of(x.args[1]) and comp.r.path(x.args[0]) and is_const(comp.r.path(x.args[0])[1][-1]) and comp.r.path(x.args[0])[1][-1].args[0] == p[-1].args[0]]
    rep.check(True if reads else None, "mark", "periodic transform read back", f"{show(back, 4) if back is not None else 'not found'}")
    for x in reads[:1]:
        name = comp.r.path(x.args[0])[1]
        rep.check(contains(name[1], lambda y: is_const(y) and y.args[0] == "labels") or None if len(name) == 3 else None, "mark", "group of the periodic transform read back", label(name))
    kept = data.args[1] if data.op == "item" and data.args[1].op == "slice" else None
    shape = kw.get("shape")
    if shape is not None and is_int(shape) and kept is not None and is_int(kept.args[1]):
        rep.check(shape.args[0] == kept.args[1].args[0] - (kept.args[0].args[0] or 0 if is_const(kept.args[0]) else 0), "mark", "size of the periodic transform", f"shape {show(shape)}, values {show(kept)}")


# ---------------------------------------------------------------- variables and state
def fields(en, obj):
    """[(key, value, guard)] of a data set"""
    o = en.obj(obj)
    d = o.f.get("_data") if o is not None else None
    fz = en.freeze(d) if d is not None else None
    return list(fz.args[1]) if fz is not None and fz.op == "dictof" else None


def upper(t):
    """name after the changes of case"""
    if t.op == "call" and t.args[0].op == "method" and t.args[0].args[1] in ("upper", "lower"):
        b = upper(t.args[0].args[0])
        if isinstance(b, tuple):
            return b[0], t.args[0].args[1]
        if is_const(b) and isinstance(b.args[0], str):
            return C(getattr(b.args[0], t.args[0].args[1])())
        return b, t.args[0].args[1]
    return t


def variables(rep, comp, mesh):
    en = comp.r.en
    sets = [e for e in comp.r.flat if e[0] == "setitem" and isinstance(e[4], Term) and contains(en.freeze(e[4]), lambda x: all_of_item(comp, x))]
    rd = {}
    for e in sets:
        v = en.freeze(e[4])
        for x in walk(v):
            if all_of_item(comp, x):
                f, p = comp.r.path(x.args[0])
                if f == SOL:
                    rd.setdefault(x, []).append((e, v))
    hit = set()
    for k, (kind, f, p, data, kw, ev) in enumerate(comp.wr):
        if kind != "dataset" or f != SOL or data is None:
            continue
        data = comp.deep(data)
        src = [x for x in walk(data) if x.op == "item" and x.args[0].op == "attr" and x.args[0].args[1] == "_celldata"]
        where = f"{f} {label(p)}"
        if len(set(src)) != 1:
            rep.undecided("variable", where, show(data, 4))
            continue
        var = src[0].args[1]
        stored(rep, where, p[-1], var, site(ev[1]))
        for x, uses in rd.items():
            q = comp.r.path(x.args[0])[1]
            ns = names_of(q[-1])
            if len(q) != len(p) or matches(q[:-1], p[:-1]) is not True:
                continue
            if ns is not None and is_const(p[-1]) and p[-1].args[0] not in ns or ns is None and q[-1].op != "dkey":
                continue
            hit.add(k)
            for e, v in uses:
                key = upper(subst(en.freeze(e[3]), {q[-1]: p[-1]}))
                name_back(rep, where, key, p[-1], var)
                val = strip(subst(v, {x: data}))
                values(rep, where, val, strip(data), src[0])
    if comp.wr and not hit:
        rep.undecided("variable", "reader", "values of the variables not followed")


def all_of_item(comp, x):
    return x.op == "item" and all_of(x.args[1]) and comp.r.path(x.args[0]) is not None


def stored(rep, where, name, var, s):
    n, v = upper(name), upper(var)
    if is_const(name) and is_const(var):
        if str(name.args[0]).upper() == str(var.args[0]).upper():
            rep.ok("variable", where, f"holds the variable {show(var)}")
        else:
            rep.bad("variable", s, f"{where} holds the variable {show(var)}", key=f"variable:{where}")
        return
    if isinstance(n, tuple):
        n = n[0]
    same_var = n is var or n is v
    other = isinstance(n, Term) and n.op == "item" and var.op == "item" and n.args[0] is var.args[0] and n is not var
    rep.check(True if same_var else False if other else None, "variable", where, f"holds the variable {show(var, 3)}")


def name_back(rep, where, key, name, var):
    if isinstance(key, Term) and is_const(key) and is_const(var):
        rep.check(key.args[0] == var.args[0], "variable", f"{where} name", f"variable {show(var)} comes back as {show(key)}")
        return
    if isinstance(key, tuple):
        base, how = key
        rep.check(True if base is var and how == "upper" else False if base is var else None, "variable", f"{where} name", f"comes back in {how} case")
        return
    rep.check(None if key is not var else True, "variable", f"{where} name", f"comes back as {show(key, 4)}")


def values(rep, where, val, data, src):
    res = True
    for asg, ts in cases((val,)):
        t = ts[0]
        r = field_ok(t, src)
        if r is not True:
            res = r if res is True or r is False else res
    rep.check(res, "variable", f"{where} values", f"come back as {show(val, 5)}")


def field_ok(t, src):
    if t is src:
        return True
    if t.op == "flat":
        return True if t.args[0] is src and t.args[1] is not None and order(t.args[1]) == "C" else False if t.args[0] is src and order(t.args[1]) == "F" else None
    if t.op == "shaped":
        inner, dims, o = t.args
        f = inner
        if f.op == "flat" and f.args[0] is src:
            if order(f.args[1]) is None or order(o) is None:
                return None
            return order(f.args[1]) == order(o) == "C" or (False if len(dims) == 2 else None)
        if f is src:
            return True if order(o) == "C" else None
    if t.op == "transposed" and contains(t, lambda x: x is src):
        return False
    return None


def order(o):
    return o if isinstance(o, str) else o.args[0] if isinstance(o, Term) and is_const(o) else None


def state(rep, comp, mesh):
    en = comp.r.en
    par = en.obj(mesh).f.get("_params")
    fz = en.freeze(par) if par is not None else None
    text = set(walk(fz)) if fz is not None else set()
    kept = [x for x in comp.wr if x[0] == "attr" and x[1] == SOL]
    for k in ("step", "time"):
        if not any(x[2] == (C(k),) for x in kept):
            known = all(is_const(x[2][-1]) or x[2][-1].op == "eachkey" and len(x[2]) > 1 for x in kept)
            (rep.bad if known else rep.undecided)("state", "IC3 v4 writer", f"the parameter {k} is not stored in the solution file", **({"key": f"state:{k}"} if known else {}))
    for kind, f, p, data, kw, e in comp.wr:
        if kind != "attr" or f != SOL or data is None:
            continue
        where = f"{f} attribute {label(p)}"
        src = {x.args[1] for x in walk(data) if x.op == "item" and x.args[0].op == "attr" and x.args[0].args[1] == "_params"}
        name = p[-1]
        if len(src) != 1:
            rep.check(False if is_const(data) and is_const(name) and name.args[0] in ("step", "time") else None, "state", where, f"stored value {show(data, 4)}")
        else:
            k = src.pop()
            ok = k is name or name.op == "eachkey" and k is name.args[-1]
            rep.check(True if ok else False if is_const(k) and is_const(name) else None, "state", where, f"holds the parameter {show(k, 3)}")
        if is_const(name):
            base = p[:-1]
            got = any(x.op == "item" and comp.r.attrs_of(x.args[0]) == (f, base) and (not is_const(x.args[1]) or x.args[1] is name) for x in text)
            rep.check(True if got else None, "state", where + " read back", "among the parameters of the exported mesh")
