"""Derived flow variables are computed from their own dependencies.

The probe store is executed abstractly, with an opaque symbol for each variable read: every compute function is run on a store
that holds exactly the declared dependencies, and every request is followed down to the files it reads, under each assumption
on which files exist.  The formulas obtained as terms are compared with the perfect-gas definitions."""
import math

from sa import cli
from sa.engine import Engine, Exc, REPO
from sa.terms import T, C, Term, TRUE, FALSE, NONE, walk, show, is_const, lookup
from sa.util import site
from checks.C07 import value, NotConstant

TECHNIQUE = "abstract execution of the probe store with symbolic variables; identity of the extracted formulas with the reference formulas"
LEVEL_NOTE = "Every derived variable and every subset of missing inputs. Formulas are compared by evaluating the extracted terms on sample points (identity of expressions, tolerance 1e-9)."
RULES = {"table": "each derived variable has dependencies, a formula, and no cycle",
         "sufficient": "a formula needs nothing but the declared dependencies",
         "necessary": "a formula uses each of its declared dependencies and stores its own variable only",
         "formula": "the formula is the perfect-gas definition of the variable",
         "request": "a request reads or computes what it needs first and yields the variable",
         "missing": "a request whose inputs are missing is refused",
         "direct": "a variable that can be read or is already there is not recomputed",
         "read": "a variable is read from its own file, data after iteration, time and size",
         "plot": "what a map draws has been requested before"}
ASSUMPTIONS = ["numpy functions have their mathematical meaning", "perfect gas with heat capacity ratio 1.4"]
P = "cfdtools.probes.data"
G = 1.4
ORACLE = {
    "U": lambda v: math.sqrt(v["U-X"] ** 2 + v["U-Y"] ** 2 + v["U-Z"] ** 2),
    "Asound": lambda v: math.sqrt(G * v["P"] / v["RHO"]),
    "Mach": lambda v: ORACLE["U"](v) / ORACLE["Asound"](v),
    "S": lambda v: math.log(v["P"] / v["RHO"] ** G) / (G - 1),
    "INVX+": lambda v: 2 / (G - 1) * ORACLE["Asound"](v) + v["U-X"],
    "INVX-": lambda v: 2 / (G - 1) * ORACLE["Asound"](v) - v["U-X"]}
PRIMITIVE = {"P", "RHO", "U-X", "U-Y", "U-Z"}
POINTS = [{"P": 1.7, "RHO": 0.9, "U-X": 0.3, "U-Y": -1.1, "U-Z": 0.7, "T": 2.3, "X": 0.2, "Y": 0.4, "Z": 0.6},
          {"P": 3.1, "RHO": 2.2, "U-X": -2.3, "U-Y": 0.4, "U-Z": 1.9, "T": 1.1, "X": 1.2, "Y": 2.4, "Z": 3.6},
          {"P": 0.4, "RHO": 1.3, "U-X": 5.0, "U-Y": 2.4, "U-Z": -0.2, "T": 0.7, "X": 2.2, "Y": 0.1, "Z": 0.3}]
FN = {"sqrt": math.sqrt, "log": math.log, "log10": math.log10, "exp": math.exp, "abs": abs, "absolute": abs, "square": lambda x: x * x,
      "power": lambda x, y: x ** y, "divide": lambda x, y: x / y, "multiply": lambda x, y: x * y, "add": lambda x, y: x + y,
      "subtract": lambda x, y: x - y, "float_power": lambda x, y: x ** y, "true_divide": lambda x, y: x / y, "log2": math.log2,
      "asarray": lambda x: x, "array": lambda x: x, "negative": lambda x: -x, "reciprocal": lambda x: 1 / x,
      "cbrt": lambda x: math.copysign(abs(x) ** (1 / 3), x), "hypot": math.hypot, "log1p": math.log1p, "maximum": max, "minimum": min}


class Opaque(Exception):
    pass


def evaluate(t, env):
    if is_const(t) and isinstance(t.args[0], (int, float)):
        return t.args[0]
    if t.op == "sym":
        if t.args[0] in env:
            return env[t.args[0]]
        raise Opaque(t.args[0])
    if t.op == "poly":
        return sum(c * math.prod(evaluate(x, env) for x in mono) for mono, c in t.args)
    if t.op == "bin":
        a, b = evaluate(t.args[1], env), evaluate(t.args[2], env)
        return {"/": lambda: a / b, "**": lambda: a ** b, "*": lambda: a * b, "+": lambda: a + b, "-": lambda: a - b, "//": lambda: a // b}[t.args[0]]()
    if t.op == "call" and isinstance(t.args[0], Term) and t.args[0].op == "ext" and not t.args[2]:
        f = FN.get(t.args[0].args[0].split(".")[-1])
        if f is not None:
            return f(*[evaluate(x, env) for x in t.args[1]])
    raise Opaque(t.op)


def same(t, var):
    """True / False / None: the term is the reference formula of `var` in the primitive variables"""
    try:
        for p in POINTS:
            x, y = evaluate(t, p), ORACLE[var](p)
            if isinstance(x, complex) or abs(x - y) > 1e-9 * max(1, abs(y)):
                return False
        return True
    except (Opaque, KeyError, TypeError):
        return None
    except (ValueError, ZeroDivisionError, OverflowError):
        return False


class Store:
    """an abstract probe store"""

    def __init__(self):
        self.en = en = Engine(REPO)
        self.cls = en.module_attr(P, "phydata")
        self.obj = en.call(self.cls, [T("sym", "base")], {})
        self.base = en.st

    def fresh(self, held=()):
        self.en.st = self.base.clone()
        self.en.st.events = []
        ad = self.en.getattr(self.obj, "alldata")
        for v in held:
            self.en.setitem(ad, C(v), T("sym", v))

    def get(self, var):
        return self.en.freeze(self.en.getitem(self.en.getattr(self.obj, "alldata"), C(var)))

    def keys(self):
        o = self.en.obj(self.en.getattr(self.obj, "alldata"))
        return {k.args[0] for k, _, _ in o.f["entries"] if is_const(k)}

    def lacking(self):
        """keys definitely missing that were looked up"""
        return [e for e in cli.flat(self.en.st.events) if e[0] == "keyerror"]


def compute(rep, s, deps, funcs):
    w = "cfdtools/probes/data.py (phydata)"
    for v in deps:
        if v not in funcs:
            continue
        s.fresh(deps[v])
        try:
            s.en.call(funcs[v], [], {})
        except Exc as ex:
            last = [e for e in cli.flat(ex.st.events) if e[0] in ("keyerror", "raise")]
            rep.bad("sufficient", w, f"the formula of {v} fails with only {deps[v]} in the store" + (f": {show(last[-1][2], 3)}" if last else ""), key=f"sufficient:{v}")
            continue
        except Exception as ex:
            rep.undecided("sufficient", w, f"{v}: {type(ex).__name__} {ex}"[:120])
            continue
        miss = s.lacking()
        if miss:
            rep.bad("sufficient", site(miss[0][1]), f"the formula of {v} needs {show(miss[0][2], 3)} which is not declared", key=f"sufficient:{v}")
            continue
        rep.ok("sufficient", w, f"{v} from {deps[v]}")
        new = s.keys() - set(deps[v])
        try:
            t = s.get(v)
        except Exc:
            rep.bad("necessary", w, f"the formula of {v} does not store {v}", key=f"necessary:{v}")
            continue
        used = {x.args[0] for x in walk(t) if x.op == "sym"}
        lost = [d for d in deps[v] if d not in used]
        rep.check(not lost and new == {v}, "necessary", w,
                  f"{v} uses {sorted(used)} and stores {sorted(new)}" + (f"; {lost} declared but not used" if lost else ""), key=f"necessary:{v}")
        changed = [d for d in deps[v] if s.get(d) is not T("sym", d)]
        rep.check(not changed, "necessary", w, f"{v} leaves its dependencies unchanged" + (f": {changed}" if changed else ""), key=f"changed:{v}")


def request(rep, s, deps, prims):
    en, w = s.en, "cfdtools/probes/data.py (phydata.check_data)"
    calls = []

    def reading(available):
        def rd(e, args, kw):
            names = ["self", "varname", "prefix", "force_coordinate"]
            d = dict(zip(names, args), **kw)
            n = d.get("varname")
            calls.append((n, d.get("prefix"), d.get("force_coordinate")))
            if is_const(n) and n.args[0] in available:
                e.setitem(e.getattr(args[0], "alldata"), n, T("sym", n.args[0]))
                return TRUE
            return FALSE
        return rd

    def ask(v, available, held=()):
        s.fresh(held)
        calls.clear()
        en.intercept[P + ".phydata.read_data"] = reading(available)
        try:
            r = en.call(en.getattr(s.obj, "check_data"), [C(v), T("sym", "prefix")], {})
            if any(e[0] == "raise" for e in cli.flat(en.st.events)):
                return "unknown", None
            return "done", r
        except Exc as ex:
            es = [e for e in cli.flat(ex.st.events) if e[0] in ("raise", "keyerror")]
            return "refused", es[-1] if es else None
        finally:
            en.intercept.pop(P + ".phydata.read_data", None)

    for v in sorted(deps):
        need = prims(v)
        out, r = ask(v, PRIMITIVE)
        if not calls:
            rep.undecided("request", w, "reading is not done through read_data")
            return
        if out == "refused":
            rep.bad("request", w, f"{v} is refused although {sorted(need)} can be read", key=f"request:{v}")
            continue
        if out == "unknown":
            rep.undecided("request", w, f"request of {v} not followed")
            continue
        try:
            t = s.get(v)
        except Exc:
            t = None
        if t is None:
            rep.bad("request", w, f"{v} is not in the store after its request", key=f"request:{v}")
            continue
        if v in ORACLE:
            ok = same(t, v)
            rep.check(ok, "formula", w, f"{v} = {show(t, 8)[:160]}" + ("" if ok is not False else " is not its definition"), key=f"formula:{v}")
        miss = s.lacking()
        rep.check(not miss, "request", w, f"{v} computed after everything it needs" + (f": {show(miss[0][2], 3)} is missing" if miss else ""), key=f"request:{v}")
        pref = [p for _, p, _ in calls if p is not T("sym", "prefix")]
        rep.check(not pref, "request", w, f"{v}: files of its dependencies have the prefix of the request", key=f"prefix:{v}")
        k = en.known(en.truth(r)) if r is not None else None
        rep.check(k is not False and r is not NONE, "request", w, f"{v}: the request reports success", key=f"success:{v}")
        # refused when an input is missing
        for m in sorted(need):
            out, _ = ask(v, PRIMITIVE - {m})
            if out == "unknown":
                rep.undecided("missing", w, f"{v} without {m}")
                continue
            rep.check(out == "refused", "missing", w, f"{v} without {m} is refused", key=f"missing:{v}:{m}")
        # read when the file is there, kept when it is in the store
        out, _ = ask(v, PRIMITIVE | {v})
        if out == "done":
            rep.check(s.get(v) is T("sym", v), "direct", w, f"{v} is read when its file exists", key=f"direct:{v}")
        out, _ = ask(v, PRIMITIVE, held=[v])
        if out == "done":
            rep.check(s.get(v) is T("sym", v) and not calls, "direct", w, f"{v} is kept when it is in the store", key=f"kept:{v}")
    for v in sorted(PRIMITIVE | {"NOTAVAR"}):
        out, _ = ask(v, set())
        if out != "unknown":
            rep.check(out == "refused", "missing", w, f"{v} without file is refused", key=f"missing:{v}")
    for v in ("X", "Y", "Z", "P"):
        out, _ = ask(v, {v})
        if out == "done" and calls:
            k = calls[0][2]
            k = None if k is None else en.known(en.truth(k))
            if k is not None:
                rep.check(k == (v in ("X", "Y", "Z")), "read", w, f"{v} is {'a coordinate' if v in ('X', 'Y', 'Z') else 'not a coordinate'}", key=f"coordinate:{v}")


def fullslice(t):
    return isinstance(t, Term) and t.op == "slice" and all(x is NONE for x in t.args)


def reading(rep, s):
    en, w = s.en, "cfdtools/probes/data.py (phydata.read_data)"
    # file exists, table of lines; the decisions on the dimension of the table are taken as facts
    for dim, coord in ((2, False), (2, True), (1, True)):
        s.fresh()
        try:
            r = en.call(en.getattr(s.obj, "read_data"), [C("Q"), T("sym", "prefix")], {"force_coordinate": C(coord)})
            t = s.get("Q")
        except Exc:
            rep.bad("read", w, "a readable file is refused", key="read:refused")
            return
        except Exception as ex:
            rep.undecided("read", w, f"{type(ex).__name__} {ex}"[:120])
            return
        src = {x for x in walk(t) if x.op == "call" and isinstance(x.args[0], Term) and x.args[0].op == "ext" and x.args[0].args[0].startswith("numpy.")
               and x.args[0].args[0].split(".")[-1] in ("genfromtxt", "loadtxt")}
        if len(src) != 1:
            rep.undecided("read", w, "source of the data not recognised")
            return
        src = src.pop()
        f = src.args[1][0] if src.args[1] else None
        if f is not None and f.op == "strcat":
            f = T("strcat", *[x.args[0] if x.op == "str" and len(x.args) == 1 else x for x in f.args])
        want = T("strcat", T("sym", "prefix"), C(".Q"))
        rep.check(True if f is want else (False if f.op in ("strcat", "const", "sym") else None), "read", w, f"file {show(f, 4)} for the prefix 'prefix' and the variable Q", key="read:file") if f is not None else None
        from sa.util import resolve
        from sa.terms import cmp
        nd = T("attr", src, "ndim")
        v = resolve(t, {cmp("==", nd, C(k)): k == dim for k in (0, 1, 2)})
        tail = T("slice", C(3), NONE, NONE)
        exp = {(1, True): T("item", src, tail), (2, True): T("item", src, T("tuple", C(0), tail)),
               (2, False): T("item", src, T("tuple", T("slice", NONE, NONE, NONE), tail))}[dim, coord]
        if any(x.op in ("gamma", "method") for x in walk(v)):
            rep.undecided("read", w, f"data of a table of dimension {dim} not followed")
            continue
        # same data in another spelling ([0][3:]) is accepted
        same_ = v is exp or (dim, coord) == (2, True) and v is T("item", T("item", src, C(0)), tail)
        simple = v
        while isinstance(simple, Term) and simple.op == "item":
            simple = simple.args[0]
        simple = simple is src
        rep.check(True if same_ else (False if simple else None), "read", w,
                  f"{'coordinate' if coord else 'data'} in a table of dimension {dim}: {show(v, 6)[-60:]}", key=f"read:{dim}:{coord}")
        if (dim, coord) == (2, False):
            try:
                tm = resolve(s.get("time"), {cmp("==", nd, C(k)): k == 2 for k in (0, 1, 2)})
            except Exc:
                rep.bad("read", w, "the time of the data is not stored", key="read:time")
                continue
            col = T("item", src, T("tuple", T("slice", NONE, NONE, NONE), C(1)))
            hit = tm is col or any(x is col for x in walk(tm))
            rep.check(True if hit else (False if tm.op == "item" else None), "read", w, f"time is the second column: {show(tm, 5)[-50:]}", key="read:time")


def plots(rep):
    if "ic3probe_plotline" not in cli.scripts():
        return
    mod, fn = cli.scripts()["ic3probe_plotline"]
    en = Engine(REPO)
    asked, drawn = [], []

    def ask(e, args, kw):
        asked.append(args[1] if len(args) > 1 else kw.get("varname"))
        return TRUE
    en.intercept[P + ".phydata.check_data"] = ask
    kwargs = {}
    PL = "cfdtools.probes.plot"
    store = {}

    def plot(name):
        def f(e, args, kw):
            drawn.append((name, kw, list(asked)))
            return NONE
        return f
    tree_funcs = [n for n in ("plot_timemap", "plot_freqmap")]
    for n in tree_funcs:
        en.intercept[f"{PL}.{n}"] = plot(n)
    try:
        en.call(en.module_attr(mod, fn), [T("sym", "argv")], {})
    except Exception as ex:
        if not isinstance(ex, Exc):
            rep.undecided("plot", f"{mod}.{fn}", f"{type(ex).__name__} {ex}"[:120])
            return
    ns = [e[5] for e in cli.flat(en.st.events) if e[0] == "xcall" and isinstance(e[2], Term) and e[2].op == "method" and e[2].args[1] == "parse_args"]
    if not asked or not ns:
        rep.undecided("plot", f"{mod}.{fn}", "requests of the command not followed")
        return
    got = {x.args[1] for a in asked if isinstance(a, Term) for x in walk(a) if x.op == "attr" and x.args[0] is ns[0]}
    # which options the maps draw
    for n in tree_funcs:
        e2 = Engine(REPO)
        try:
            f = e2.module_attr(PL, n)
            o = T("sym", "data")
            e2.call(f, [o], {k: T("sym", k) for k in ("prefix", "axis", "datalist", "cmap", "nlevels", "verbose", "check", "map")})
        except Exception as ex:
            rep.undecided("plot", f"{PL}.{n}", f"{type(ex).__name__}"[:80])
            continue
        keys = set()
        for ev in cli.flat(e2.st.events):
            for a in ev[2:]:
                for t in terms_in(a):
                    for x in walk(t):
                        if x.op == "item" and x.args[0] is T("attr", o, "alldata"):
                            keys.add(x.args[1])
        rep.function(f"{PL}.{n}")
        if not keys:
            rep.undecided("plot", f"{PL}.{n}", "what is drawn is not followed")
        for k in keys:
            name = k.args[0] if k.op == "sym" or is_const(k) else None
            if name == "time" or name is None:
                continue
            rep.check(k.op == "sym" and name in got, "plot", f"{PL}.{n}", f"draws the variable of option {name}, requested by the command: {sorted(got)}", key=f"plot:{n}:{name}")


def terms_in(a):
    if isinstance(a, Term):
        yield a
    elif isinstance(a, (tuple, list)):
        for x in a:
            yield from terms_in(x)


def run(rep):
    s = Store()
    en, w = s.en, "cfdtools/probes/data.py (phydata)"
    rep.function(*[f"{P}.phydata.{n}" for n in ("__init__", "check_data", "read_data", "compute_*")])
    try:
        deps = value(en.freeze(en.getattr(s.obj, "dependency_vars")))
        tab = en.obj(en.getattr(s.obj, "compute_varname"))
        funcs = {k.args[0]: v for k, v, g in tab.f["entries"] if is_const(k) and g is TRUE}
    except (NotConstant, Exc, KeyError, AttributeError, TypeError) as ex:
        rep.undecided("table", w, f"tables not evaluated: {type(ex).__name__} {ex}"[:120])
        return
    for v in sorted(set(deps) | set(funcs) | set(ORACLE)):
        rep.check(v in deps and v in funcs, "table", w, f"{v} has dependencies and a formula" if v in deps and v in funcs else
                  f"{v} has no {'formula' if v in deps else 'dependencies'}", key=f"table:{v}")

    def prims(v, seen=()):
        if v in seen:
            raise RecursionError(v)
        return set().union(*[prims(d, seen + (v,)) for d in deps[v]]) if v in deps else {v}
    cyc = []
    for v in deps:
        try:
            p = prims(v)
            rep.check(p <= PRIMITIVE, "table", w, f"{v} ends in {sorted(p)}", key=f"primitive:{v}")
        except RecursionError:
            cyc.append(v)
            rep.bad("table", w, f"{v} depends on itself", key=f"cycle:{v}")
    if cyc:
        return
    compute(rep, s, deps, funcs)
    request(rep, s, deps, prims)
    reading(rep, s)
    plots(rep)
