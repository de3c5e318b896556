"""Zero is a value: an optional argument given as zero is not taken for a missing one.

Each optional numeric or array argument of the public interface is given as an opaque symbol to an abstract execution of the
call and of every public method that may use what it stored.  The conditions met on the way that depend on the symbol alone are
decided for an ordinary value and for zero (for arrays: full, all zero, empty) while the data stay symbolic.  The two runs must
have the same results, effects and final state once the symbol is replaced."""
from sa.engine import Engine, Exc, REPO
from sa.cli import flat
from sa.terms import T, C, Term, TRUE, NONE, walk, subst, show, is_const

TECHNIQUE = "abstract execution with decided conditions: non-interference of the zero-ness of an optional argument with control flow"
LEVEL_NOTE = "Every declared optional numeric or array argument of the public interface; conditions on one argument and constants only."
RULES = {"zero": "a zero argument takes the same path as any other value",
         "array": "an array argument of zeros takes the same path as any other array",
         "empty": "an empty list takes the same path as any other list",
         "given": "an argument that is given is used: the outcome depends on it",
         "signature": "the optional arguments under study are those of the current signatures"}
ASSUMPTIONS = ["the numeric and array arguments are those of the table SCENARIOS"]
GENERIC = 7.125


def sy(n):
    return T("sym", n)


DATA, MESH, CONN = "cfdtools.data", "cfdtools.meshbase._mesh", "cfdtools.meshbase._connectivity"


def mesh(en):
    return en.instance_of(sy("mesh"), en.find_class(MESH, "Mesh"))


def index(en):
    return en.instance_of(sy("index"), en.find_class(CONN, "indexlist"))


def onedict(en):
    d = en.ref("dict", {"entries": ()})
    en.setitem(d, C("P"), sy("pdata"))
    return d


def conn(en):
    return en.instance_of(sy("conn"), en.find_class(CONN, "elem_connectivity"))


# (label, module, class or None, constructor arguments, method or None, arguments, optional argument, kinds)
def scenarios():
    S = []

    def add(mod, cls, ctor, meth, args, par, kinds, before=(), see=None):
        S.append((f"{cls}.{meth or '__init__'}({par})", mod, cls, ctor, meth, args, par, kinds, before, see))

    add("cfdtools.api", "Timer", {}, None, {}, "nelem", "n")
    add("cfdtools.api", "Timer", {}, None, {}, "ltab", "n")
    add("cfdtools.api", "Timer", {"nelem": sy("n0")}, "stop", {}, "nelem", "n", (("start", {}),))
    for p in "yz":
        add(DATA, "DataSet", {}, "set_nodes", {"x": sy("x")}, p, "na")
        add(DATA, "DataSetList", {"ndataset": sy("nd")}, "set_nodes", {"x": sy("x")}, p, "na", (("set_mesh", {"mesh": mesh}),))
    add(DATA, "DataSet", {}, "add_data", {"name": sy("name"), "data": sy("data")}, "time", "n")
    tev = {"Trep": C("timeevol")}
    timed = (("add_data", {"name": C("time"), "data": sy("tdata")}),)
    for p in ("imin", "imax"):
        add(DATA, "DataSet", tev, "dtstats", {}, p, "n", timed)
        add(DATA, "DataSet", tev, "dataSet_spectrum", {}, p, "n", timed + (("add_data", {"name": C("P"), "data": sy("pdata")}),))
    add(DATA, "DataSetList", {"ndataset": sy("nd")}, "add_datalist", {"datalist": onedict}, "time", "n", (("set_mesh", {"mesh": mesh}),))
    add(CONN, "indexlist", {}, None, {}, "irange", "a")
    add(CONN, "indexlist", {}, None, {}, "ilist", "l", see=("list", "size", "shift", "append", "range"))
    add(CONN, "indexlist", {}, None, {}, "ilist", "a", see=("list", "size", "shift", "append", "range"))
    add(CONN, "indexindirection", {}, None, {}, "array", "a")
    add(CONN, "elem_connectivity", {}, "add_elems", {"etype": C("quad4"), "elem2node": sy("nodes")}, "index", "a")
    add(MESH, "Mesh", "mesh", "add_faces", {"facetype": C("boundary"), "face2node": conn}, "face2cell", "a", see=("export_mixedfaces", "pop_faces"))
    for p in ("direction", "extrude"):
        add(MESH, "Mesh", "mesh", "export_extruded", {}, p, "a", see=())
    V = "cfdtools.vtk._vtk"
    add(V, "vtkMesh", "self", "vtk_zconvolution", {}, "tol", "n", see=())
    add("cfdtools.vtk._vtkList", "vtkList", "self", "check_order", {}, "tol", "n", see=())
    add("cfdtools.vtk._vtkList", "vtkList", "self", "read", {"reorder": TRUE}, "tol", "n", see=())
    return S


class Opaque(Exception):
    pass


def num(f):
    def g(x, *a):
        return [f(y) for y in x] if isinstance(x, list) else f(x)
    return g


def flatl(x):
    return x if isinstance(x, list) else [x]


FN = {"any": lambda x: any(flatl(x)), "all": lambda x: all(flatl(x)), "count_nonzero": lambda x: sum(1 for y in flatl(x) if y), "max": lambda *x: max(flatl(x[0]) if len(x) == 1 else x),
      "min": lambda *x: min(flatl(x[0]) if len(x) == 1 else x), "sum": lambda x: sum(flatl(x)), "abs": num(abs), "absolute": num(abs), "float": float, "int": int, "bool": bool, "len": len,
      "asarray": lambda x: x, "array": lambda x: x, "atleast_1d": flatl, "list": list, "isclose": lambda x, y=0, *a: num(lambda z: abs(z - y) < 1e-8)(x), "allclose": lambda x, y=0, *a: all(abs(z - y) < 1e-8 for z in flatl(x)),
      "size": lambda x: len(flatl(x)), "tolist": lambda x: x, "ravel": lambda x: x, "flatten": lambda x: x, "nonzero": lambda x: [[i for i, y in enumerate(x) if y]], "item": lambda x: x}
CMP = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}


def ev(t, env):
    """Python value of a term that depends on the symbols of env only"""
    if not isinstance(t, Term):
        raise Opaque
    if t in env:
        return env[t]
    o = t.op
    if o == "const":
        return t.args[0]
    if o == "poly":
        r = 0
        for m, c in t.args:
            p = c
            for a in m:
                x = ev(a, env)
                if isinstance(x, list):
                    raise Opaque
                p *= x
            r += p
        return r
    if o == "tuple":
        return [ev(a, env) for a in t.args]
    if o == "cmp":
        op, a, b = t.args[0], ev(t.args[1], env), ev(t.args[2], env)
        if op in ("is", "is not"):
            if a is None or b is None:
                return (a is b) == (op == "is")
            raise Opaque
        if op in ("in", "not in"):
            return (a in b) == (op == "in")
        f = CMP[op]
        if isinstance(a, list) != isinstance(b, list):
            return [f(x, b) for x in a] if isinstance(a, list) else [f(a, x) for x in b]
        return f(a, b)
    if o == "not":
        return not ev(t.args[0], env)
    if o in ("and", "or"):
        hid = None
        for a in t.args:
            try:
                x = bool(ev(a, env))
            except Opaque as e:
                hid = e
                continue
            if x == (o == "or"):
                return x
        if hid:
            raise hid
        return o == "and"
    if o == "truth":
        x = ev(t.args[0], env)
        return bool(x)
    if o == "gamma":
        return ev(t.args[1] if ev(t.args[0], env) else t.args[2], env)
    if o == "len":
        x = ev(t.args[0], env)
        if isinstance(x, (list, str)):
            return len(x)
        raise Opaque
    if o == "item":
        x = ev(t.args[0], env)
        try:
            i = ev(t.args[1], env)
        except Opaque:
            i = 0                   # whichever element
        if isinstance(x, list) and isinstance(i, int) and -len(x) <= i < len(x):
            return x[i]
        raise Opaque
    if o == "attr":
        x = ev(t.args[0], env)
        if isinstance(x, list) and t.args[1] in ("size", "ndim", "shape"):
            return {"size": len(x), "ndim": 1, "shape": [len(x)]}[t.args[1]]
        raise Opaque
    if o == "exists" and len(t.args) == 3 and t.args[1].op == "elems":
        x = ev(t.args[1].args[0], env)
        n = len(x)
        return any(ev(t.args[2], {**env, t.args[0]: i}) for i in range(n))
    if o == "bin":
        a, b = ev(t.args[1], env), ev(t.args[2], env)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            try:
                return {"/": lambda: a / b, "//": lambda: a // b, "%": lambda: a % b, "**": lambda: a ** b}[t.args[0]]()
            except (KeyError, ZeroDivisionError):
                raise Opaque
    if o == "call" and isinstance(t.args[0], Term):
        c = t.args[0]
        if c.op == "ext" and c.args[0] == "builtins.isinstance":
            v, k = t.args[1]
            x, k = ev(v, env), show(k, 3).split(".")[-1]
            if isinstance(x, list) and k in ("list", "ndarray", "tuple", "str", "int", "float", "dict", "set"):
                return k == env.get("type", "list")
            if isinstance(x, (int, float)) and k in ("int", "float", "str", "list", "ndarray", "dict", "tuple"):
                return k == type(x).__name__
            raise Opaque
        if c.op == "ext" and not t.args[2]:
            f = FN.get(c.args[0].split(".")[-1])
            if f and c.args[0].split(".")[0] in ("numpy", "builtins", "math"):
                return f(*[ev(a, env) for a in t.args[1]])
        if c.op == "method" and not t.args[2] and isinstance(c.args[0], Term) and c.args[1] in FN:
            return FN[c.args[1]](ev(c.args[0], env), *[ev(a, env) for a in t.args[1]])
    raise Opaque


VALUES = {"n": {"full": GENERIC, "zero": 0}, "list": {"full": [GENERIC, 8.25, 9.5], "zero": [0, 0, 0], "empty": []}}


class Decider(Engine):
    """decides the conditions that depend on the symbol alone as if it had a given value; the data stay symbolic"""
    value = env = None
    S = T("sym", "given")

    def truth(self, v):
        r = super().truth(v)
        if self.env is None or is_const(r) or not isinstance(r, Term):
            return r
        if not any(x is self.S for x in walk(r)):
            return r
        try:
            x = bool(ev(r, self.env))
        except Opaque:
            return r
        except Exception:
            return r
        if r.op == "truth" and r.args[0] is self.S:
            self.plain = True
        return C(x)


def norm(t, ids):
    """t with the numbers of objects replaced by their order of appearance"""
    if not isinstance(t, Term):
        return tuple(norm(x, ids) for x in t) if isinstance(t, tuple) else t
    if t.op in ("const", "sym", "ext"):
        return (t.op, repr(t.args[0]) if t.op == "const" else t.args[0])
    if t.op in ("ref", "obj"):
        return (t.op, ids.setdefault(t.args[-1], len(ids)))
    return (t.op,) + tuple(norm(x, ids) for x in t.args)


def snapshot(en, v, ids, depth=0, seen=None):
    """state reachable from v"""
    seen = {} if seen is None else seen
    v = en.simp(v) if isinstance(v, Term) else v
    o = en.obj(v) if isinstance(v, Term) else None
    if o is None or o.kind in ("arr", "list", "dict", "set"):
        if o is not None and o.kind == "dict" and depth < 6:
            return ("dict", o.base and norm(o.base, ids), tuple((norm(en.freeze(k), ids), snapshot(en, x, ids, depth + 1, seen), norm(g, ids)) for k, x, g in o.f["entries"]))
        t = en.freeze(v) if isinstance(v, Term) else v
        en.used = en.used or isinstance(t, Term) and any(x is en.S for x in walk(t))
        return norm(zero(t) if isinstance(t, Term) else t, ids)
    if o.kind != "inst" or depth > 5 or v in seen:
        return ("o", ids.setdefault(v.args[0], len(ids)))
    seen[v] = 1
    return (o.kind, o.base and norm(o.base, ids), tuple(sorted((str(k), snapshot(en, x, ids, depth + 1, seen)) for k, x in o.f.items() if isinstance(x, Term))))


def zero(t):
    return subst(t, {Decider.S: C(0)}) if isinstance(t, Term) else tuple(map(zero, t)) if isinstance(t, tuple) else t


EFFECTS = {"open", "write", "setattr", "setitem", "mutate", "delitem", "inplace", "xcall", "raise", "listadd"}


def effects(en, events, ids):
    out = []
    for e in flat(events):
        if e[0] in EFFECTS and e[0] not in ("xcall",):
            en.used = en.used or any(isinstance(x, Term) and any(y is en.S for y in walk(x)) for x in e[2:])
            out.append((e[0],) + tuple(norm(zero(x), ids) if isinstance(x, (Term, tuple)) else x for x in e[2:]))
    return tuple(out)


_en = {}


def engine(mod):
    if mod not in _en:
        en = Decider(REPO)
        for m in ("cfdtools.api", "cfdtools.meshbase", "cfdtools.data", mod):
            en.load(m)
        _en[mod] = en, en.st, en.counter, en.rdcount, en.steps
    en, st, k, r, n = _en[mod]
    en.counter, en.rdcount, en.steps = k, r, n
    en.env, en.plain, en.used, en.st = None, False, False, st.clone()
    en.st.events = []
    return en


def outcome(sc, kind, mode):
    """outcome of the scenario and of each observer: [(name, fingerprint)], uses the symbol?, plain truth test?"""
    label, mod, cls, ctor, meth, args, par, kinds, before, see = sc
    en = engine(mod)
    c, K = en.module_attr(mod, cls), en.find_class(mod, cls)
    S = en.S
    vals = VALUES["n" if kind == "n" else "list"]
    given = S
    build = lambda d: {k: (v(en) if callable(v) else v) for k, v in d.items()}
    if mode == "none":
        given, en.env = NONE, {}
    else:
        en.env = {S: vals[mode], "type": "ndarray" if kind == "a" else "list"}
    out = []

    def do(name, f):
        n0 = len(en.st.events)
        try:
            r = f()
            if isinstance(r, tuple) and not isinstance(r, Term):
                r = T("tuple", *r)
            tag = "returns"
        except Exc as x:
            en.st = x.st
            last = [e for e in flat(en.st.events) if e[0] in ("raise", "assert", "keyerror")]
            r, tag = T("tuple", *[a for a in last[-1][2:] if isinstance(a, Term)]) if last else NONE, "raises"
        ids = {}
        out.append((name, (tag, snapshot(en, r, ids), effects(en, en.st.events[n0:], ids))))
        return r, tag

    obj = None
    if meth is None:
        obj, tag = do("__init__", lambda: en.call(c, [], {**build(ctor), par: given}))
        if tag == "raises":
            return out, en.plain, en.used
    else:
        if isinstance(ctor, str):
            obj = en.instance_of(T("sym", ctor), K)
        else:
            e0, en.env = en.env, None
            obj = en.call(c, [], build(ctor))
            en.env = e0
        for m, kw in before:
            en.call(en.getattr(obj, m), [], build(kw))
        r, tag = do(meth, lambda: en.call(en.getattr(obj, meth), [], {**build(args), par: given} if mode != "omit" else build(args)))
    plain = en.plain
    ids = {}
    out.append(("state", snapshot(en, obj, ids)))
    base = en.st
    for name, prop, need in observers(en, K):
        if name == meth or see is not None and name not in see:
            continue
        en.st = base.clone()
        if name.startswith("set_") or name.startswith("add_"):
            continue
        try:
            if prop:
                do(name, lambda: en.getattr(obj, name))
            else:
                do(name, lambda: en.call(en.getattr(obj, name), [T("sym", p) for p in need], {}))
        except (Exception,) as x:
            out.append((name, ("not followed", type(x).__name__)))
    en.st = base
    return out, plain, en.used


def observers(en, c):
    """public methods and properties: (name, is property, parameters required)"""
    done = set()
    for k in c.mro:
        ns = en.st.heap[k.ns].f
        for name, v in sorted(ns.items()):
            if name in done or not isinstance(v, Term) or (name.startswith("_") and name not in ("__str__", "__getitem__")):
                continue
            done.add(name)
            if v.op == "property":
                yield name, True, []
            elif v.op == "func":
                a = en.funcs[v.args[0]].node.args
                if a.vararg or not a.args or a.args[0].arg != "self":
                    continue
                p = [x.arg for x in a.args[1:]]
                yield name, False, p[:len(p) - len(a.defaults)] if a.defaults else p


def differs(a, b):
    """name of the first observation that differs"""
    for x, y in zip(a, b):
        if x != y:
            return x[0]
    return None if len(a) == len(b) else "outcome"


def pick(events):
    for e in flat(events):
        if e[0] == "raise":
            return e
    return None


def run_checks(rep):
    todo = scenarios()
    for sc in todo:
        label, mod, cls, ctor, meth, args, par, kinds, before, see = sc
        en0 = Engine(REPO)
        en0.load("cfdtools.api")
        w = mod.replace(".", "/") + ".py"
        try:
            en0.load(mod)
            c = en0.find_class(mod, cls)
            f = en0.class_lookup(c, meth or "__init__")
            names = [a.arg for a in en0.funcs[f.args[0]].node.args.args] + [a.arg for a in en0.funcs[f.args[0]].node.args.kwonlyargs]
        except Exception as ex:
            rep.undecided("signature", w, f"{label}: not found ({type(ex).__name__})")
            continue
        if par not in names:
            rep.undecided("signature", w, f"{label}: no such argument")
            continue
        rep.ok("signature", w, label)
        rep.function(f"{mod}.{cls}.{meth or '__init__'}")
        for kind in kinds:
            modes = ["full", "zero"] + (["empty"] if kind == "l" else [])
            got = {}
            try:
                for m in modes + ["none"]:
                    got[m] = outcome(sc, kind, m)
            except Exception as ex:
                rep.undecided("zero", w, f"{label}: {type(ex).__name__} {ex}"[:160])
                continue
            for m, rule, what in (("zero", "zero" if kind == "n" else "array", "zero"), ("empty", "empty", "an empty list")):
                if m not in got:
                    continue
                d = differs(got["full"][0], got[m][0])
                if d is None:
                    rep.ok(rule, w, f"{label}: {what} follows the path of any other value in {len(got[m][0])} observations")
                    continue
                absent = got[m][0] == got["none"][0] or dict(got[m][0]).get(d) == dict(got["none"][0]).get(d)
                rep.bad(rule, w, f"{label}: {what} is " + ("taken for a missing argument" if absent else "not treated like another value") + f" (seen in {d})", key=f"{rule}:{label}")
            if kind in "a" and got["full"][1]:
                rep.bad("array", w, f"{label}: an array is tested for truth", key=f"plain:{label}")
            if par != "tol":
                d = got["full"][2] or differs(got["full"][0], got["none"][0])
                rep.check(d is not None, "given", w, f"{label}: " + ("the argument is used" if d else "the argument makes no difference"), key=f"given:{label}")


def run(rep):
    run_checks(rep)
