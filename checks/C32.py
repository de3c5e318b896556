"""Colour maps of probes show the probed data on their axes.

The reading of a probe file and the two maps of the probe command are executed abstractly. What is given to the drawing function is
evaluated on tables whose samples are marks, not numbers: each value of the map then tells which probe, which time or which bin of the
transform it is, and is compared with the axes given to the same call. Colours, levels and the name of the figure are compared with
what the options ask for."""
from fractions import Fraction

from sa import surface
from sa.engine import Exc
from sa.terms import T, C, Term, TRUE, FALSE, walk, subst
from sa.witness import Text, Unknown as NoValue, flatten, shape
from checks.C31 import Mark, Signals, Sizes, times

TECHNIQUE = ("abstract execution of the reader and of both maps; terms given to the drawing call evaluated on tables of marks that record "
             "probe, sample and bin, compared with axes, levels and names")
LEVEL_NOTE = ("Values, coordinates and irregular times of any value; tables of 800 to 1401 times by three or four probes, coordinates in "
              "one line or one line per time (bounded).")
RULES = {"time": "the map given to the drawing call is the probed data, on its times and its coordinates",
         "frequency": "each row of the map is the modulus of the transform along time of each probe, at the frequency of its bin",
         "axis": "the abscissa is the coordinate asked for, the mean one when several lines give it",
         "levels": "levels and number of colours are those asked for, of the colour map asked for",
         "figure": "the map is drawn, then saved under the prefix, the variable and the kind of map",
         "read": "values and times read are those of the columns of the file of that variable"}
ASSUMPTIONS = ["numpy and matplotlib functions do what their documentation says", "the time step is the mean one",
               "the band of frequencies shown is a choice of the command; it is only required not to be empty"]
PLOT, DATA = "cfdtools.probes.plot", "cfdtools.probes.data"
MAPS = {"plot_timemap": "time", "plot_freqmap": "freq"}


def each(f, a, b):
    """value by value, a smaller array along the last axes"""
    da, db = len(shape(a)), len(shape(b))
    if not da and not db:
        return f(a, b)
    if da > db:
        return [each(f, x, b) for x in a]
    if da < db:
        return [each(f, a, x) for x in b]
    if len(a) != len(b) and 1 in (len(a), len(b)):
        return [each(f, x, b[0]) for x in a] if len(b) == 1 else [each(f, a[0], x) for x in b]
    if len(a) != len(b):
        raise Sizes(f"arrays of {len(a)} and {len(b)} values")
    return [each(f, x, y) for x, y in zip(a, b)]


class Maps(Signals, Text):
    """tables of marks, rows are times and columns are probes"""

    def op_call(self, f, args, kw):
        kw = dict(kw) if kw else {}
        name = f.args[1] if f.op in ("method", "attr") else f.args[0].split(".")[-1] if f.op == "ext" else ""
        if name in ("fft", "rfft", "mean", "average", "diff", "nanmean", "abs", "transpose", "min", "max"):
            base = [f.args[0]] if f.op in ("method", "attr") else []
            vals = [self.ev(a) for a in [*base, *args]]
            if name in ("fft", "rfft", "mean", "average", "nanmean") and "axis" in kw and set(kw) <= {"axis", "keepdims"} and len(vals) == 1:
                if self.ev(kw.get("keepdims", FALSE)) not in (False,):
                    raise NoValue("keepdims")
                return self.along(name, vals[0], self.ev(kw["axis"]))
            if name in ("mean", "average") and len(vals) == 2 and not kw and vals[1] is None or isinstance(vals[-1], int) and len(vals) == 2 and name in ("mean", "nanmean") and not kw:
                return self.along(name, *vals)
            if kw:
                raise NoValue("options of " + name)
            if name in ("fft", "rfft") and len(vals) == 1:
                return self.along(name, vals[0], -1)
            if len(vals) == 1 and name in ("mean", "average", "nanmean"):
                return self.along(name, vals[0], None)
            if name == "diff" and len(vals) == 1 and len(shape(vals[0])) == 1:
                return [b - a for a, b in zip(vals[0], vals[0][1:])]
        return super().op_call(f, args, tuple(kw.items()))

    def along(self, name, v, axis):
        deep = len(shape(v))
        if name in ("average", "nanmean"):
            name = "mean"
        if axis is None and name == "mean":
            return self.one(name, flatten(v))
        if axis not in range(-deep, deep):
            raise Sizes(f"axis {axis} of a table of {deep} dimensions")
        axis %= deep
        if deep == 1:
            return self.one(name, v)
        if deep != 2:
            raise NoValue("dimensions")
        cols = [list(c) for c in zip(*v)] if axis == 0 else v
        out = [self.one(name, c) for c in cols]
        return [list(r) for r in zip(*out)] if axis == 0 and name != "mean" else out

    def one(self, name, v):
        if name == "mean":
            if any(isinstance(x, Mark) for x in v):
                return Mark("mean", len(v), v[0], v[-1])
            return Fraction(sum(v)) / len(v)
        v = tuple(v)
        return [Mark("fft", v, k) for k in range(len(v) if name == "fft" else len(v) // 2 + 1)]

    def op_poly(self, *monos):
        vals = [([self.ev(x) for x in m], c) for m, c in monos]
        if len(vals) > 1 and any(isinstance(y, Mark) for m, _ in vals for x in m for y in (flatten(x)[:1] if isinstance(x, (list, tuple)) else [x])):
            if len(vals) == 2 and all(len(m) == 1 and abs(c) == 1 for m, c in vals):
                (a, s), (b, t) = sorted(((m[0], c) for m, c in vals), key=lambda p: -p[1])
                return self.shifted(a, b, s, t)
            raise NoValue("sum of samples")
        flat = [y for m, _ in vals for x in m for y in (flatten(x)[:1] if isinstance(x, (list, tuple)) else [x])]
        if all(isinstance(y, (int, float, Fraction)) for y in flat) and any(isinstance(x, list) for m, _ in vals for x in m):
            total = 0
            for m, c in vals:
                for x in m:
                    c = each(lambda p, q: p * q, c, x)
                total = each(lambda p, q: p + q, total, c)
            return total
        return super().op_poly(*monos)

    def shifted(self, a, b, s, t):
        da, db = len(shape(a)), len(shape(b))
        if da == db == 1 and len(a) != len(b) == 1 or da == db + 1 and db == 0:
            return [self.shifted(x, b[0] if db else b, s, t) for x in a]
        if da > db:
            if db and len(a[0]) != len(b) and da == 2:
                raise Sizes(f"{len(a[0])} columns, {len(b)} values")
            return [self.shifted(x, b, s, t) for x in a]
        if da < db:
            raise NoValue("sum of samples")
        if da:
            if len(a) != len(b):
                raise Sizes(f"{len(a)} and {len(b)} values")
            return [self.shifted(x, y, s, t) for x, y in zip(a, b)]
        if not isinstance(a, Mark) or a.a[0] not in ("sample", "file") or s != 1:
            raise NoValue("sum of samples")
        return Mark("shift", a, b, t)

    def op_bin(self, op, a, b):
        if op == "**" and self.ev(b) in (1,):
            return self.ev(a)
        x, y = self.ev(a), self.ev(b)
        if op in ("/", "**") and not any(isinstance(v, Mark) for z in (x, y) for v in (flatten(z)[:1] if isinstance(z, list) else [z])):
            return each(lambda p, q: Fraction(p) / q if op == "/" and not isinstance(p, float) else p / q if op == "/" else p ** q, x, y)
        return super().op_bin(op, a, b)

    def get(self, v, k):
        if isinstance(k, tuple) and k in ((slice(None), None), (None, slice(None))) and len(shape(v)) == 1:
            return [[x] for x in v] if k[0] is not None else [list(v)]
        return super().get(v, k)

    def apply(self, name, vals):
        if name in ("genfromtxt", "loadtxt"):
            raise NoValue("file")
        if name == "exists":
            return True
        if vals and len(vals) == 1 and isinstance(vals[0], (list, tuple)) and name in ("abs", "absolute", "log", "log10", "sqrt", "square", "real", "imag", "angle"):
            return self.mapped(lambda x: self.apply(name, [x]), vals[0])
        if name == "sqrt" and len(vals) == 1 and isinstance(vals[0], (int, float, Fraction)) and vals[0] >= 0:
            return float(vals[0]) ** 0.5
        if name in ("abs", "absolute") and vals and isinstance(vals[0], Mark) and vals[0].a[0] == "abs":
            return vals[0]
        return super().apply(name, vals)


def table(name, n, p):
    return [[Mark("sample", name, i, j) for j in range(p)] for i in range(n)]


NX = {"lines": "one line per time", "line": "one line"}


def coords(kind, n, p, base):
    one = [Fraction(base + 10 * j * j, 3) for j in range(p)]
    return one if kind == "line" else [[x + Fraction((i * (j + 1)) % 7, 8) for j, x in enumerate(one)] for i in range(n)]


def merged(v):
    return v if len(shape(v)) == 1 else [Fraction(sum(c)) / len(c) for c in zip(*v)]


class Map:
    """one abstract run of a map"""

    def __init__(self, fn, axis, var):
        self.fn, self.axis, self.var = fn, axis, var
        self.en = en = surface.fresh()
        self.sy = {k: T("sym", "probed " + k) for k in ("X", "Z", "P", "U", "time")}
        d = en.call(en.module_attr(DATA, "phydata"), [C("run")], {})
        al = en.getattr(d, "alldata")
        for k, s in self.sy.items():
            en.setitem(al, C(k), s)
        kw = {"prefix": C("run"), "axis": C(axis), "datalist": C(var), "cmap": C("viridis"), "nlevels": T("sym", "nlevels"),
              "verbose": T("sym", "verbose"), "check": T("sym", "check"), "map": C(MAPS[fn])}
        n = len(en.st.events)
        en.call(en.module_attr(PLOT, fn), [d], kw)
        self.calls = []
        self.flat(en.st.events[n:])

    def flat(self, evs):
        for e in evs:
            if e[0] == "xcall":
                self.calls.append(e)
            for x in e[1:]:
                if isinstance(x, tuple) and x and isinstance(x[0], tuple) and x[0] and isinstance(x[0][0], str):
                    self.flat(x)


def called(name):
    return name.split(".")[-1] if isinstance(name, str) else name.args[1] if isinstance(name, Term) and name.op in ("method", "attr") else name.args[0].split(".")[-1] if isinstance(name, Term) and name.op == "ext" else ""


def evaluate(rep, rule, where, what, m, term, con):
    try:
        return Maps(m.en, con).value(m.en.freeze(term))
    except Sizes as e:
        rep.bad(rule, where, f"{what}: {e}", key=what + ":sizes")
    except (NoValue, Exc, AttributeError) as e:
        rep.undecided(rule, where, f"{what}: {type(e).__name__} {str(e)[:90]}")
    return None


def content(m, kind, n, p):
    return {m.sy["X"]: coords(kind, n, p, 4), m.sy["Z"]: coords(kind, n, p, 900), m.sy["P"]: table("P", n, p), m.sy["U"]: table("U", n, p),
            m.sy["time"]: times(n), T("sym", "nlevels"): 23, T("sym", "verbose"): False, T("sym", "check"): False}


def sample(x):
    """mark of a sample, whatever constant of its column was removed"""
    return x.a[1] if isinstance(x, Mark) and x.a[0] == "shift" else x


def show_map(rep, fn, axis, var):
    where, what = f"{PLOT}.{fn}", f"{var} along {axis}"
    try:
        m = Map(fn, axis, var)
    except Exc:
        rep.bad("figure", where, f"{what}: ends in an exception", key=what + ":raises")
        return
    drawn = [e for e in m.calls if called(e[2]) in ("contourf", "pcolormesh", "imshow", "contour", "pcolor")]
    if len(drawn) != 1 or called(drawn[0][2]) not in ("contourf", "contour") or len(drawn[0][3]) < 3 or any(a.op == "star" for a in drawn[0][3] if isinstance(a, Term)):
        rep.check(False if not drawn else None, "figure", where, f"{what}: " + ("nothing is drawn" if not drawn else "what is drawn is not followed"), key=what + ":drawn")
        return
    call = drawn[0]
    kw = dict(call[4])
    for kind, n, p in (("line", 800, 3), ("lines", 1000, 4), ("line", 1401, 4)):
        case = f"{what}, {NX[kind]}, {n} times"
        con = content(m, kind, n, p)
        x = evaluate(rep, "axis", where, case, m, call[3][0], con)
        if x is not None:
            rep.check(x == merged(con[m.sy[axis]]), "axis", where, f"{case}: " + ("the coordinate" if x == merged(con[m.sy[axis]]) else f"abscissa {[float(v) for v in flatten(x)[:4]]}"), key=case)
        y = evaluate(rep, MAPS[fn] if fn == "plot_timemap" else "frequency", where, case + ": ordinate", m, call[3][1], con)
        z = evaluate(rep, "time" if fn == "plot_timemap" else "frequency", where, case + ": values", m, call[3][2], con)
        if y is None or z is None:
            continue
        if fn == "plot_timemap":
            rep.check(y == con[m.sy["time"]], "time", where, f"{case}: ordinate " + ("is the time" if y == con[m.sy["time"]] else f"starts with {y[:2]}"), key=case + ":ordinate")
            rep.check(z == con[m.sy[var]] if isinstance((flatten(z) or [0])[0], (Mark, int, Fraction)) else None, "time", where, f"{case}: values " + ("of the variable" if z == con[m.sy[var]] else f"start with {flatten(z)[0]!r}"), key=case)
        else:
            ok, why = bins(y, z, var, n, p, con[m.sy["time"]])
            rep.check(ok, "frequency", where, f"{case}: {why}", key=case)
    colours(rep, where, what, m, kw, call)
    figure(rep, where, what, m, drawn[0])


def bins(y, z, var, n, p, t):
    if not isinstance(y, list) or not isinstance(z, list):
        return None, "tables are not followed"
    if not y:
        return False, "no frequency is shown"
    if len(y) != len(z) or any(not isinstance(r, list) or len(r) != p for r in z):
        return False, f"{len(z)} rows of {len(z[0]) if z and isinstance(z[0], list) else '?'} values, {len(y)} frequencies and {p} probes"
    step = (t[-1] - t[0]) / (n - 1)
    judged = {}
    for f, row in zip(y, z):
        for j, v in enumerate(row):
            ops = []
            while isinstance(v, Mark) and v.a[0] not in ("fft", "sample", "shift"):
                ops.append(v.a[0])
                v = v.a[1]
            if not isinstance(v, Mark):
                return None, "values are not followed"
            if v.a[0] != "fft" or ops != ["abs"]:
                return (False if v.a[0] != "fft" or set(ops) & {"real", "imag", "angle"} or not ops else None), f"values are {' of '.join(ops + [v.a[0]])}"
            col, k = v.a[1:]
            if id(col) not in judged:
                judged[id(col)] = col, column(col, var, n)
            who, why = judged[id(col)][1]
            if who is None:
                return why
            if who != j:
                return False, f"column {j} is the transform of probe {who}"
            k = k if k < (n + 1) // 2 else k - n
            if f != Fraction(k) / (n * step):
                return False, f"bin {k} of {n} samples has frequency {float(f):.5f}, {float(k / (n * step)):.5f} expected"
    return True, f"{len(y)} bins at their frequency"


def column(col, var, n):
    """probe whose samples are transformed"""
    s = [sample(x) for x in col]
    if not all(isinstance(x, Mark) and x.a[0] == "sample" for x in s):
        return None, (None, "samples are not followed")
    if any(x.a[1] != var for x in s):
        return None, (False, f"samples of {s[0].a[1]} are transformed")
    probes = {x.a[3] for x in s}
    if len(probes) > 1:
        return None, (False, "samples of several probes are transformed together")
    if [x.a[2] for x in s] != list(range(n)):
        return None, (False, f"{len(s)} samples are transformed from {s[0].a[2]}, {n} expected")
    removed = {x.a[2] if isinstance(x, Mark) and x.a[0] == "shift" else 0 for x in col}
    if len(removed) > 1:
        return None, (False, "the samples of a probe are not shifted by the same value")
    return probes.pop(), ""


def colours(rep, where, what, m, kw, call):
    lev = kw.get("levels", call[3][3] if len(call[3]) > 3 else None)
    con = {T("sym", "nlevels"): 23}
    v = evaluate(rep, "levels", where, what + ": levels", m, lev, con) if lev is not None else None
    if lev is None:
        rep.bad("levels", where, f"{what}: the number of levels is not given", key=what + ":levels")
    elif v is not None:
        rep.check(v == 23 if isinstance(v, int) else None, "levels", where, f"{what}: {v} levels where 23 are asked for", key=what + ":levels")
    cm = kw.get("cmap")
    if cm is None:
        rep.bad("levels", where, f"{what}: the colour map is not given", key=what + ":cmap")
        return
    t = m.en.freeze(cm)
    names = {x.args[0] for x in walk(t) if x.op == "const" and isinstance(x.args[0], str)}
    sizes = [a for x in walk(t) if x.op in ("xres", "call") and isinstance(x.args[0], Term) and called(x.args[0]) == "resampled" for a in x.args[1]]
    if not sizes:
        rep.undecided("levels", where, f"{what}: colours are not followed")
        return
    rep.check("viridis" in names, "levels", where, f"{what}: colour map among {sorted(names)[:3]}", key=what + ":cmap")
    for a in sizes:
        v = evaluate(rep, "levels", where, what + ": colours", m, a, con)
        if v is not None:
            rep.check(v == 23 if isinstance(v, int) else None, "levels", where, f"{what}: {v} colours where 23 are asked for", key=what + ":colours")


def figure(rep, where, what, m, drawn):
    at = m.calls.index(drawn)
    saved = [(i, e) for i, e in enumerate(m.calls) if called(e[2]) == "savefig"]
    if not saved:
        rep.bad("figure", where, f"{what}: the map is not saved", key=what + ":saved")
        return
    wiped = [i for i, e in enumerate(m.calls) if called(e[2]) in ("clf", "close", "cla")]
    want = f"run.{m.var}.{MAPS[m.fn]}.png"
    for i, e in saved:
        rep.check(i > at and not any(at < k < i for k in wiped), "figure", where, f"{what}: " + ("drawn, then saved" if i > at else "saved before it is drawn"), key=what + ":order")
        args = e[3] or [v for k, v in e[4] if k == "fname"]
        v = evaluate(rep, "figure", where, what + ": name", m, args[0], {}) if args else None
        if v is not None:
            rep.check(v == want if isinstance(v, str) else None, "figure", where, f"{what}: saved as {v}" + ("" if v == want else f", {want} expected"), key=what + ":name")


def read(rep, var, coordinate, lines, had):
    where = f"{DATA}.phydata.read_data"
    n, p = 5, 3
    what = f"{var}, {'one line' if not lines else 'several lines'}" + (", as a coordinate" if coordinate else "") + (", times known" if had else "")
    en = surface.fresh()
    d = en.call(en.module_attr(DATA, "phydata"), [C("run")], {})
    al = en.getattr(d, "alldata")
    old = T("sym", "known times")
    if had:
        en.setitem(al, C("time"), old)
    rows = [[Mark("file", i, j) for j in range(p + 3)] for i in range(n if lines else 1)]
    file = rows if lines else rows[0]
    try:
        en.call(en.getattr(d, "read_data"), [C(var), C("run")], {"force_coordinate": C(True)} if coordinate else {})
    except Exc:
        rep.bad("read", where, f"{what}: ends in an exception", key=what + ":raises")
        return
    t = en.freeze(al)
    sources = {x for x in walk(t) if x.op in ("xres", "call") and isinstance(x.args[0], Term) and called(x.args[0]) in ("genfromtxt", "loadtxt")}
    con = {old: "known"}
    for s in sources:
        con[s] = file
    w = Maps(en, con)
    try:
        for s in sources:
            name = w.value(s.args[1][0])
            rep.check(name == "run." + var, "read", where, f"{what}: read in {name}", key=what + ":file")
        out = entries(w, t)
    except (NoValue, Exc, Sizes, AttributeError) as e:
        rep.undecided("read", where, f"{what}: {type(e).__name__} {str(e)[:90]}")
        return
    if not sources:
        rep.undecided("read", where, f"{what}: the file is not followed")
        return
    want = {var: [r[3:] for r in rows] if lines and not coordinate else rows[0][3:]}
    if had:
        want["time"] = "known"
    elif lines and not coordinate:
        want["time"] = [r[1] for r in rows]
    for k in sorted(set(want) | set(out)):
        same = out.get(k) == want.get(k)
        if k == var and coordinate and lines:
            same = same or out.get(k) == w.along("mean", [r[3:] for r in rows], 0)
        if k == "time" and k not in want:
            same = True if k not in out else same
        rep.check(same, "read", where, f"{what}: {k} " + ("is its columns" if same else f"is {str(out.get(k))[:60]}, {str(want.get(k))[:60]} expected"), key=f"{what}:{k}")


def entries(w, t):
    if t.op not in ("dictof", "dict"):
        raise NoValue("table of variables: " + t.op)
    out = {}
    for e in t.args[-1]:
        k, v, c = (*e, TRUE)[:3]
        if w.value(c):
            out[w.value(k)] = w.value(v)
    return out


def run(rep):
    for f in MAPS:
        rep.function(f"{PLOT}.{f}")
        for axis, var in (("X", "P"), ("Z", "U")):
            show_map(rep, f, axis, var)
    rep.function(f"{DATA}.phydata.read_data")
    for var, coordinate, lines, had in (("P", False, True, False), ("P", False, True, True), ("X", True, True, False), ("X", True, False, False), ("Z", True, True, True), ("U-X", False, True, False)):
        read(rep, var, coordinate, lines, had)
