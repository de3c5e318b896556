"""Spectra and spectrograms belong to their axes.

Spectra and spectrograms of data sets of symbolic content are built abstractly. The terms that result are evaluated on signals whose
samples are marks, not numbers: a transform, a window or a logarithm of marks is a mark that tells which samples it was made of, and
which bin of the transform it is. Frequencies and times are exact fractions of irregular times. Values, frequencies and times are then
compared with what the marks say."""
from fractions import Fraction

from sa import surface
from sa.engine import Exc
from sa.terms import T, C, NONE, TRUE, is_const, walk
from sa.witness import Unknown as NoValue
from checks.C29 import Groups

TECHNIQUE = ("abstract execution of the transforms on symbolic signals; resulting terms evaluated on marks that record samples, window "
             "and bin, compared with the frequency and time axes")
LEVEL_NOTE = "Signals of any values; lengths of 9 to 400 samples, windows of 4 to 9 samples and twelve cuts of the signal (bounded)."
RULES = {"spectrum": "the values are the modulus of the transform of the samples asked for",
         "frequency": "the frequency of a value is the one of its bin, for the number of samples transformed and their mean time step",
         "slices": "each row of a spectrogram is made of one slice of consecutive samples, and no slice is left out or filled in part",
         "time": "the time of a row is the time of the middle of its slice",
         "names": "each variable, or each one asked for, is transformed under its name"}
ASSUMPTIONS = ["numpy functions return what their documentation says", "the time step is the mean one (a deviation is reported by a warning)"]
D = "cfdtools.data"
CLS = D + ".DataSet."


class Mark:
    def __init__(self, *a):
        self.a = a

    def __eq__(self, o):
        return isinstance(o, Mark) and self.a == o.a

    def __hash__(self):
        return hash(self.a)

    def __repr__(self):
        return self.a[0] + "(" + ", ".join(str(x) for x in self.a[1:])[:60] + ")"


class Sizes(Exception):
    """arrays of different sizes are combined: numpy refuses"""


def length(v):
    return len(v) if isinstance(v, (list, tuple)) else None


class Signals(Groups):
    def op_fold(self, i, space, init, step):
        mus = {x for x in walk(step) if x.op == "mu" and T("idx", *x.args[:2]) is i}
        if len(mus) != 1:
            raise NoValue("loop")
        mu = mus.pop()
        v = self.ev(init)
        try:
            for _ in self.turns(i, space):
                self.contents[mu] = v
                self.memo = {}
                v = self.ev(step)
        finally:
            self.contents.pop(mu, None)
            self.memo = {}
        return v

    def op_store(self, a, k, v):
        a, k, v = self.ev(a), self.ev(k), self.ev(v)
        if isinstance(k, int):
            k = (k, slice(None))
        if isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], int) and isinstance(k[1], slice) and isinstance(a[0], list):
            if not -len(a) <= k[0] < len(a):
                raise Sizes(f"row {k[0]} of {len(a)}")
            a, n = list(a), range(len(a[0]))[k[1]]
            v = v if isinstance(v, (list, tuple)) else [v] * len(n)
            if len(v) != len(n):
                if len(v) == 1:
                    raise NoValue("one value for a row")
                raise Sizes(f"{len(v)} values for {len(n)} columns")
            row = list(a[k[0]])
            for j, x in zip(n, v):
                row[j] = x
            a[k[0]] = row
            return a
        raise NoValue("store")

    def times(self, a, b):
        if isinstance(a, list) and isinstance(b, list):
            if len(a) != len(b):
                if 1 in (len(a), len(b)):
                    raise NoValue("broadcast")
                raise Sizes(f"{len(a)} samples, window of {len(b)}")
            return [self.times(x, y) for x, y in zip(a, b)]
        if isinstance(a, list):
            return [self.times(x, b) for x in a]
        if isinstance(b, list):
            return [self.times(a, x) for x in b]
        if isinstance(a, Mark) and isinstance(b, Mark):
            return Mark("*", *sorted((a, b), key=lambda m: m.a[0] == "window"))
        if isinstance(a, Mark) or isinstance(b, Mark):
            if 1 in (a, b):
                return a if b == 1 else b
            raise NoValue("scaled samples")
        return a * b

    def op_poly(self, *monos):
        vals = [([self.ev(x) for x in m], c) for m, c in monos]
        if len(vals) == 1:
            m, c = vals[0]
            for x in m:
                c = self.times(x if not isinstance(x, (tuple, range)) else list(x), c)
            return c
        if any(isinstance(y, Mark) for m, c in vals for x in m for y in (x if isinstance(x, list) else [x])):
            raise NoValue("sum of samples")
        lens = {len(x) for m, c in vals for x in m if isinstance(x, list)}
        if len(lens) > 1:
            raise Sizes(f"arrays of {' and '.join(map(str, sorted(lens)))} values") if 1 not in lens else NoValue("broadcast")
        return super().op_poly(*monos)

    def op_bin(self, op, a, b):
        x, y = self.ev(a), self.ev(b)
        if op == "/" and all(isinstance(v, (int, Fraction)) for v in (x, y)):
            return Fraction(x) / y
        if op in ("//", "%") and all(isinstance(v, (int, Fraction)) for v in (x, y)):
            return x // y if op == "//" else x % y
        return super().op_bin(op, a, b)

    def op_call(self, f, args, kw):
        kw = dict(kw) if kw else {}
        name = f.args[1] if f.op in ("method", "attr") else f.args[0].split(".")[-1] if f.op == "ext" else ""
        if name in ("fftfreq", "rfftfreq", "zeros", "empty", "full", "fft", "rfft", "hanning", "mean", "std"):
            kw.pop("dtype", None)
            for n in ("d", "n", "fill_value"):
                if n in kw and len(args) in (0, 1):
                    args = tuple(args) + (kw.pop(n),)
        return super().op_call(f, args, tuple(kw.items()))

    def apply(self, name, vals):
        v = vals[0] if vals else None
        if name in ("fftfreq", "rfftfreq"):
            n, d = v, vals[1] if len(vals) > 1 else 1
            if not isinstance(n, int):
                raise NoValue("number of frequencies")
            ks = range(n // 2 + 1) if name == "rfftfreq" else [k if k < (n + 1) // 2 else k - n for k in range(n)]
            return [Fraction(k) / (n * d) for k in ks]
        if name in ("fft", "rfft") and isinstance(v, list) and len(vals) == 1:
            if not v:
                raise Sizes("no sample is transformed")
            return [Mark("fft", tuple(v), k) for k in range(len(v) if name == "fft" else len(v) // 2 + 1)]
        if name in ("hanning", "hamming", "blackman", "bartlett") and isinstance(v, int):
            return [Mark("window", v, j) for j in range(v)]
        if name in ("fftshift", "ifftshift") and isinstance(v, list) and len(vals) == 1:
            k = (len(v) + 1) // 2 if name == "fftshift" else len(v) // 2
            return v[k:] + v[:k]
        if name in ("abs", "absolute", "log", "log10", "log2", "log1p", "real", "imag", "angle", "conj", "sqrt", "exp", "square") and any(isinstance(x, Mark) for x in (v if isinstance(v, list) else [v])):
            return self.mapped(lambda x: Mark({"absolute": "abs"}.get(name, name), x), v)
        if name == "mean" and isinstance(v, list) and v and not any(isinstance(x, Mark) for x in v):
            return Fraction(sum(v)) / len(v)
        if name in ("int", "floor", "trunc", "floor_divide", "ceil") and isinstance(v, (int, Fraction)) and len(vals) == 1:
            return -(-v // 1) if name == "ceil" else int(v) if name != "floor" else v // 1
        if name in ("zeros", "empty", "zeros_like") and isinstance(v, (int, tuple)):
            s = (v,) if isinstance(v, int) else v
            if any(not isinstance(x, int) or x < 0 for x in s):
                raise Sizes(f"a table of {s}")
            return [0] * s[0] if len(s) == 1 else [[0] * s[1] for _ in range(s[0])]
        if name in ("array", "asarray", "list", "tuple", "stack", "vstack") and len(vals) == 1 and isinstance(v, (list, tuple)):
            return list(v)
        if name == "len":
            return len(v)
        return super().apply(name, vals)


def times(n):
    """increasing times, no two steps alike"""
    t, out = Fraction(7), []
    for i in range(n):
        out.append(t)
        t += Fraction(1, 2) + Fraction(1, 97 + i * i)
    return out


NAMES = ("P", "U", "time")


def build(en, meth, kw, n):
    ds = en.call(en.module_attr(D, "DataSet"), [], {"Trep": C("timeevol")})
    con = {}
    for name in NAMES:
        s = T("sym", "signal " + name)
        en.call(en.getattr(ds, "add_data"), [C(name), s], {})
        con[s] = times(n) if name == "time" else [Mark("sample", name, i) for i in range(n)]
    r = en.call(en.getattr(ds, meth), [], kw)
    keys = en.known_elems(en.call(en.getattr(r, "keys"), [], {}))
    return {k.args[0]: en.freeze(en.getitem(r, k)) for k in keys} if keys is not None and all(is_const(k) for k in keys) else None, con


def values(rep, meth, what, kw, n):
    en = surface.fresh()
    where = CLS + meth
    try:
        found, con = build(en, meth, kw, n)
    except Exc:
        rep.bad("names", where, f"{what}: ends in an exception", key=what + ":raises")
        return None
    if found is None:
        rep.undecided("names", where, f"{what}: variables are not followed")
        return None
    w = Signals(en, con)
    out = {}
    for k, t in found.items():
        try:
            out[k] = w.value(t)
        except Sizes as e:
            rep.bad("slices" if meth.endswith("gram") else "spectrum", where, f"{what}: {k}: {e}", key=f"{what}:{k}:sizes")
            return None
        except (NoValue, Exc, AttributeError) as e:
            rep.undecided("spectrum", where, f"{what}: {k}: {type(e).__name__} {str(e)[:90]}")
            return None
        if not isinstance(out[k], list):
            rep.undecided("spectrum", where, f"{what}: {k} is not followed as an array")
            return None
    return out


def names(rep, where, what, out, want, axes):
    got = set(out) - set(axes)
    rep.check(got == set(want) and set(axes) <= set(out), "names", where, f"{what}: variables {sorted(out)}" + ("" if got == set(want) else f", {sorted(want)} and axes {sorted(axes)} expected"), key=what + ":names")
    return got == set(want) and set(axes) <= set(out)


def other(m, *ops):
    """another known quantity of a transform than the one of these operations"""
    got = []
    while isinstance(m, Mark) and m.a[0] not in ("fft", "sample", "window", "*"):
        got.append(m.a[0])
        m = m.a[1]
    return isinstance(m, Mark) and m.a[0] in ("fft", "sample") and tuple(got) + ("fft",) != ops


def bare(m, *ops):
    for o in ops:
        if not isinstance(m, Mark) or m.a[0] != o:
            return None
        m = m.a[1:] if o == "fft" else m.a[1]
    return m


def spectrum(rep, cut, keep):
    n = 12
    kw = {k: C(v) for k, v in zip(("imin", "imax"), cut) if v is not None}
    if keep:
        kw["datafilter"] = T("tuple", *(C(x) for x in keep))
    what = f"samples {cut[0]} to {cut[1]}" + (f", {keep} only" if keep else "")
    where = CLS + "dataSet_spectrum"
    out = values(rep, "dataSet_spectrum", what, kw, n)
    if out is None:
        return
    want = [x for x in (keep or NAMES) if x != "time"]
    if not names(rep, where, what, out, want, ["freq"]):
        return
    t = times(n)[cut[0]:cut[1]]
    step = (t[-1] - t[0]) / (len(t) - 1)
    for v in want:
        ok, why = True, "modulus of the transform of the samples"
        samples = tuple(Mark("sample", v, i) for i in range(n)[cut[0]:cut[1]])
        if len(out[v]) != len(out["freq"]):
            rep.bad("frequency", where, f"{what}: {len(out[v])} values, {len(out['freq'])} frequencies", key=f"{what}:{v}")
            continue
        for f, m in zip(out["freq"], out[v]):
            b = bare(m, "abs", "fft")
            if b is None:
                ok, why = (False, f"a value is {m!r}") if other(m, "abs", "fft") else (None, "values are not followed") if isinstance(m, Mark) else (False, f"a value is {m}")
                break
            if b[0] != samples:
                ok, why = False, f"{len(b[0])} samples from {b[0][0]!r} are transformed, {len(samples)} from {samples[0]!r} expected"
                break
            k = b[1] if b[1] < (len(samples) + 1) // 2 else b[1] - len(samples)
            if f != Fraction(k) / (len(samples) * step):
                rep.bad("frequency", where, f"{what}: bin {k} of {len(samples)} has frequency {float(f):.4f}, {float(k / (len(samples) * step)):.4f} expected", key=f"{what}:{v}")
                break
        else:
            rep.ok("frequency", where, f"{what}: {v}")
        rep.check(ok, "spectrum", where, f"{what}: {v}: {why}", key=f"{what}:{v}")


def spectrogram(rep, n, window, keep):
    kw = {"window": C(window)} if window else {}
    if keep:
        kw["datafilter"] = T("tuple", *(C(x) for x in keep))
    what = f"{n} samples, window {window}" + (f", {keep} only" if keep else "")
    where = CLS + "dataSet_spectrogram"
    out = values(rep, "dataSet_spectrogram", what, kw, n)
    if out is None:
        return
    want = [x for x in (keep or NAMES) if x != "time"]
    if not names(rep, where, what, out, want, ["freq", "time"]):
        return
    t = times(n)
    step = (t[-1] - t[0]) / (n - 1)
    for v in want:
        rows = out[v]
        if not rows or len(rows) != len(out["time"]):
            rep.bad("time", where, f"{what}: {len(rows)} rows, {len(out['time'])} times", key=f"{what}:{v}")
            continue
        if any(len(r) != len(out["freq"]) for r in rows):
            rep.bad("frequency", where, f"{what}: {len(rows[0])} columns, {len(out['freq'])} frequencies", key=f"{what}:{v}")
            continue
        starts, bad, size = [], None, None
        for i, r in enumerate(rows):
            for f, m in zip(out["freq"], r):
                b = bare(m, "log", "abs", "fft")
                if b is None:
                    bad = ("slices", False if m == 0 or other(m, "log", "abs", "fft") else None, f"row {i} is not filled" if m == 0 else f"a value is {m!r}" if other(m, "log", "abs", "fft") else "values are not followed")
                    break
                ss = [x.a[1] if isinstance(x, Mark) and x.a[0] == "*" else x for x in b[0]]
                ws = [x.a[2] for x in b[0] if isinstance(x, Mark) and x.a[0] == "*"]
                if not all(isinstance(x, Mark) and x.a[0] == "sample" for x in ss):
                    bad = "slices", None, "samples are not followed"
                    break
                idx, size = [x.a[2] for x in ss], size or len(ss)
                if window and size not in (window, window + 1):
                    bad = "slices", False, f"row {i} is made of {size} samples"
                elif any(x.a[1] != v for x in ss):
                    bad = "slices", False, f"row {i} is made of {ss[0].a[1]}"
                elif idx != list(range(idx[0], idx[0] + size)):
                    bad = "slices", False, f"row {i} is made of samples {idx}"
                elif ws and ws != [Mark("window", size, j) for j in range(size)]:
                    bad = "slices", False, f"samples of row {i} are not weighted by one window"
                elif f != Fraction(b[1]) / (size * step):
                    bad = "frequency", False, f"bin {b[1]} of {size} samples has frequency {float(f):.4f}, {float(b[1] / (size * step)):.4f} expected"
                elif not len(starts) > i:
                    starts.append(idx[0])
                    mid = Fraction(t[idx[(size - 1) // 2]] + t[idx[size // 2]]) / 2
                    if out["time"][i] not in (mid, t[idx[(size - 1) // 2]], t[idx[size // 2]]):
                        bad = "time", False, f"row {i} of samples {idx[0]} to {idx[-1]} has the time of sample {t.index(out['time'][i]) if out['time'][i] in t else '?'}"
                elif starts[i] != idx[0]:
                    bad = "slices", False, f"row {i} is made of several slices"
                if bad:
                    break
            if bad:
                break
        if not bad:
            hops = {b - a for a, b in zip(starts, starts[1:])}
            if len(hops) > 1 or hops and min(hops) <= 0:
                bad = "slices", False, f"slices start at samples {starts[:6]}"
            elif hops and starts[-1] + hops.pop() + size <= n:
                bad = "slices", False, f"the slice after sample {starts[-1]} is left out"
        if bad:
            rep.check(bad[1], bad[0], where, f"{what}: {v}: {bad[2]}", key=f"{what}:{v}")
        else:
            for r in ("slices", "frequency", "time"):
                rep.ok(r, where, f"{what}: {v}: {len(rows)} rows of {size} samples")


def run(rep):
    for f in ("dataSet_spectrum", "dataSet_spectrogram", "dtstats"):
        rep.function(CLS + f)
    for cut in ((None, None), (2, 9), (None, 7), (3, None), (-6, None), (None, -3), (0, 12), (-8, -2), (-8, 10), (2, -2), (1, None), (None, 40)):
        spectrum(rep, cut, None)
    spectrum(rep, (1, 8), ("U",))
    spectrum(rep, (None, None), ("P", "time"))
    for n, window in ((9, 4), (12, 4), (13, 4), (25, 4), (20, 5), (21, 6), (24, 6), (27, 7), (33, 8), (37, 9), (400, None)):
        spectrogram(rep, n, window, None)
    spectrogram(rep, 21, 6, ("U",))
