"""Polynomial bases are exact for their degree.

Bases are built and queried abstractly. The weights that result are terms over the nodes and the position: they are evaluated on
the nodes of Gauss, where the weights must give back each polynomial of the degree of the basis, or its derivative, and then in exact
fractions on nodes of any other place, which tells whether the identity depends on the nodes."""
from fractions import Fraction
from functools import lru_cache
from math import cos, pi

from sa import surface
from sa.engine import Exc
from sa.terms import T, C, Term
from sa.witness import Unknown as NoValue, shape
from checks.C32 import Maps, each, called

TECHNIQUE = "abstract execution of the bases; resulting weights evaluated on nodes and positions and compared with the polynomials they must reproduce"
LEVEL_NOTE = "Both series, orders 1 to 6, one or several positions, bases queried in several sequences (bounded); nodes of any place."
RULES = {"value": "weights of values give back every polynomial below the order at the position asked for",
         "gradient": "weights of gradients give the derivative of every polynomial below the order at the position asked for",
         "matrix": "the matrix of the basis holds one polynomial per row and one node per column, and the other matrix is its inverse",
         "quadrature": "the weights of the nodes integrate every polynomial below twice the order"}
ASSUMPTIONS = ["roots_legendre returns nodes and weights of Gauss, numpy polynomials and linear algebra do what their documentation says",
               "rounding of the inverse is not considered"]
POLY = "cfdtools.utils.polybase"
W = POLY + ".poly1d"


class Wrong(Exception):
    """shapes that numpy refuses, or a singular matrix"""


def value(coef, x, kind):
    r = 0
    if kind == "power":
        for c in reversed(coef):
            r = r * x + c
        return r
    a, b = 1, x
    for k, c in enumerate(coef):
        r += c * a
        a, b = b, Fraction(2 * k + 3) / (k + 2) * x * b - Fraction(k + 1) / (k + 2) * a
    return r


def derived(coef, kind):
    if kind == "power":
        return [k * c for k, c in enumerate(coef)][1:] or [0]
    out = [0] * max(len(coef) - 1, 1)
    for k, c in enumerate(coef):
        for j in range(k - 1, -1, -2):
            out[j] += (2 * j + 1) * c
    return out


class Polynomial:
    def __init__(self, coef, kind):
        self.coef, self.kind = list(coef), kind


KINDS = {"Legendre": "legendre", "Polynomial": "power"}
FUNCS = {p + f: (k, f) for p, k in (("leg", "legendre"), ("poly", "power")) for f in ("val", "der", "vander")}


class Bases(Maps):
    def op_matmul(self, a, b):
        return self.dot(self.ev(a), self.ev(b))

    def op_bin(self, op, a, b):
        if op == "@":
            return self.dot(self.ev(a), self.ev(b))
        return super().op_bin(op, a, b)

    def dot(self, a, b):
        if len(shape(a)) == 1:
            return self.dot([a], b)[0]
        if len(shape(b)) == 1:
            return [r[0] for r in self.dot(a, [[x] for x in b])]
        if len(shape(a)) != 2 or len(shape(b)) != 2:
            raise NoValue("product")
        if len(a[0]) != len(b):
            raise Wrong(f"product of tables of {len(a[0])} columns and {len(b)} rows")
        return [[sum(x * y for x, y in zip(r, c)) for c in zip(*b)] for r in a]

    def solve(self, a, b):
        n = len(a)
        if not n or len(shape(a)) != 2 or any(len(r) != n for r in a) or len(b) != n:
            raise Wrong("the matrix is not square")
        m = [list(r) + list(s) for r, s in zip(a, b)]
        for i in range(n):
            k = max(range(i, n), key=lambda j: abs(m[j][i]))
            if m[k][i] == 0:
                raise Wrong("the matrix is singular")
            m[i], m[k] = m[k], m[i]
            p = m[i][i]
            m[i] = [Fraction(x) / p if isinstance(x, int) else x / p for x in m[i]]
            for j in range(n):
                if j != i and m[j][i] != 0:
                    q = m[j][i]
                    m[j] = [x - q * y for x, y in zip(m[j], m[i])]
        return [r[n:] for r in m]

    def op_attr(self, base, name):
        v = self.ev(base)
        if isinstance(v, Polynomial):
            if name == "coef":
                return list(v.coef)
            raise NoValue("attribute of a polynomial")
        return super().op_attr(base, name)

    def op_call(self, f, args, kw):
        kw = dict(kw) if kw else {}
        name = f.args[1] if f.op in ("method", "attr") else f.args[0].split(".")[-1] if f.op == "ext" else ""
        if f.op == "ext" and "numpy.polynomial" in f.args[0] and name in KINDS and len(args) == 1 and not kw:
            return Polynomial(self.items(self.ev(args[0])), KINDS[name])
        if f.op in ("method", "attr") and name == "basis" and f.args[0].op == "ext" and f.args[0].args[0].split(".")[-1] in KINDS and len(args) == 1 and not kw:
            return Polynomial([0] * self.ev(args[0]) + [1], KINDS[f.args[0].args[0].split(".")[-1]])
        if name in FUNCS and not kw:
            kind, op = FUNCS[name]
            vals = [self.ev(a) for a in args]
            if op == "val" and len(vals) == 2:
                return self.mapped(lambda x: value(self.items(vals[1]), x, kind), vals[0])
            if op == "der" and len(vals) == 1:
                return derived(self.items(vals[0]), kind)
            if op == "vander" and len(vals) == 2:
                unit = [[0] * i + [1] for i in range(vals[1] + 1)]
                return [[value(u, x, kind) for u in unit] for x in vals[0]] if shape(vals[0]) else [value(u, vals[0], kind) for u in unit]
            raise NoValue(name)
        if f.op not in ("method", "attr", "ext"):
            p = self.ev(f)
            if isinstance(p, Polynomial) and len(args) == 1 and not kw:
                return self.mapped(lambda x: value(p.coef, x, p.kind), self.ev(args[0]))
            raise NoValue("call")
        if name == "deriv" and f.op in ("method", "attr"):
            p = self.ev(f.args[0])
            n = self.ev(args[0]) if args else self.ev(kw["m"]) if set(kw) == {"m"} else 1 if not kw else None
            if not isinstance(p, Polynomial) or not isinstance(n, int):
                raise NoValue("derivative")
            c = p.coef
            for _ in range(n):
                c = derived(c, p.kind)
            return Polynomial(c, p.kind)
        return super().op_call(f, args, tuple(kw.items()))

    def apply(self, name, vals):
        if name == "inv" and len(vals) == 1:
            n = len(vals[0])
            return self.solve(vals[0], [[int(i == j) for j in range(n)] for i in range(n)])
        if name == "solve" and len(vals) == 2:
            b = vals[1]
            r = self.solve(vals[0], b if len(shape(b)) == 2 else [[x] for x in b])
            return r if len(shape(b)) == 2 else [x[0] for x in r]
        if name in ("dot", "matmul") and len(vals) == 2:
            return self.dot(*vals)
        if name in ("eye", "identity") and len(vals) == 1 and isinstance(vals[0], int):
            return [[int(i == j) for j in range(vals[0])] for i in range(vals[0])]
        if name in ("clip", "minimum", "maximum", "fmin", "fmax") and 1 < len(vals) <= 3 and not any(isinstance(v, list) for v in vals[1:]):
            lo, hi = (vals[1:] + [None])[:2] if name == "clip" else (vals[1], None) if name in ("maximum", "fmax") else (None, vals[1])
            return self.mapped(lambda x: max(lo, x) if lo is not None and x < lo else hi if hi is not None and x > hi else x, vals[0])
        if name == "array" and len(vals) == 1 and isinstance(vals[0], (int, Fraction, float)):
            return vals[0]
        return super().apply(name, vals)


@lru_cache
def gauss(n):
    """nodes and weights of Gauss, in double precision"""
    xs, ws = [], []
    for i in range(n):
        x = -cos(pi * (i + 0.75) / (n + 0.5))
        for _ in range(60):
            x -= float(value([0] * n + [1], x, "legendre")) / float(value(derived([0] * n + [1], "legendre"), x, "legendre"))
        d = float(value(derived([0] * n + [1], "legendre"), x, "legendre"))
        xs.append(x)
        ws.append(2 / ((1 - x * x) * d * d))
    return xs, ws


def anywhere(n):
    return [Fraction(3 * i * i + i - 7, 5 + i) for i in range(n)], [Fraction(1, 3 + i) for i in range(n)]


POINTS = {"one position": Fraction(2, 7), "an end": -1, "another end": 1, "outside": Fraction(9, 4), "several positions": [Fraction(-1), Fraction(1, 3), Fraction(5, 8)]}


def nodes(t, find):
    """calls of roots_legendre in a term, and their order"""
    from sa.terms import walk
    out = {}
    for x in walk(t):
        if x.op in ("xres", "call") and isinstance(x.args[0], Term) and called(x.args[0]) in ("roots_legendre", "leggauss"):
            n = find(x.args[1][0]) if len(x.args[1]) == 1 else None
            if not isinstance(n, int):
                raise NoValue("number of nodes")
            out[x] = n
    return out


class Query:
    """terms of one basis queried in one sequence"""

    def __init__(self, order, series, before=(), again=False):
        self.en = en = surface.fresh()
        mk = en.module_attr(POLY, "poly1d")
        for o, s, m in before:
            b = en.call(mk, [C(o)], {"series": C(s)})
            en.call(en.getattr(b, m), [T("sym", "elsewhere")], {})
        self.x = T("sym", "position")
        self.order = order
        b = en.call(mk, [C(order)], {"series": C(series)})
        f = en.freeze
        if again:
            for m in ("interp_weights", "diff_weights"):
                en.call(en.getattr(b, m), [T("sym", "elsewhere")], {})
        self.t = {"grad": f(en.call(en.getattr(b, "diff_weights"), [self.x], {})), "value": f(en.call(en.getattr(b, "interp_weights"), [self.x], {})),
                  "vdm": f(en.getattr(b, "vdm")), "inv": f(en.getattr(b, "invvdm")),
                  "value alias": f(en.call(en.getattr(b, "value_weights"), [self.x], {})), "grad alias": f(en.call(en.getattr(b, "gradv_weights"), [self.x], {}))}

        for name, attr, k in (("roots", "_roots", 0), ("w", "_wghts", 1)):
            try:
                self.t[name] = f(en.getattr(b, attr))
            except Exc:  # private: kept under another name
                self.t[name] = None
            if self.t[name] is None:
                for c in nodes(self.t["value"], lambda t: Bases(en, {}).value(t)):
                    self.t[name] = T("item", c, C(k))

    def value(self, name, where, x=None):
        if self.t[name] is None:
            raise NoValue("nodes")
        con = {self.x: x, T("sym", "elsewhere"): Fraction(3, 11)}
        for c, n in nodes(self.t[name], lambda t: Bases(self.en, {}).value(t)).items():
            con[c] = tuple(where(n)) + ((2,) if len(c.args) > 2 and c.args[2] else ())
        return Bases(self.en, con).value(self.t[name])


def near(a, b):
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
    return abs(a - b) <= 1e-8 * (1 + abs(b))


def sums(w, pts, p):
    """what the weights make of a polynomial, at one position or several"""
    if len(w) != len(pts):
        raise Wrong(f"{len(w)} weights for {len(pts)} nodes")
    if len(shape(w)) == 1:
        return sum(a * p(r) for a, r in zip(w, pts))
    return [sum(a * p(r) for a, r in zip(c, pts)) for c in zip(*w)]


def identity(rep, rule, what, q, test):
    """test(where) -> (found, expected) must be equal for the nodes of Gauss; whether they are for any other nodes is told"""
    try:
        a, b = test(gauss)
        if not near(a, b):
            rep.bad(rule, W, f"{what}: {numbers(a)} found, {numbers(b)} expected", key=what)
            return
        try:
            a, b = test(anywhere)
        except Wrong:
            b = None
        rep.ok(rule, W, f"{what}: for " + ("nodes of any place" if a == b else "the nodes of Gauss"))
    except Wrong as e:
        rep.bad(rule, W, f"{what}: {e}", key=what)
    except (NoValue, Exc, AttributeError, TypeError, IndexError, ValueError, ZeroDivisionError) as e:
        rep.undecided(rule, W, f"{what}: {type(e).__name__} {str(e)[:90]}")


def numbers(v):
    return [numbers(x) for x in v[:4]] if isinstance(v, (list, tuple)) else round(float(v), 6)


def basis(rep, order, series, before=(), again=False):
    what = f"{series} of order {order}" + (f" after {before[0][1]} of order {before[0][0]}" if before else "") + (" after another position" if again else "")
    try:
        q = Query(order, series, before, again)
    except Exc:
        rep.bad("value", W, f"{what}: ends in an exception", key=what + ":raises")
        return
    for pname, x in POINTS.items():
        for name, rule in (("value", "value"), ("value alias", "value"), ("grad", "gradient"), ("grad alias", "gradient")):
            def test(where, x=x, name=name):
                w, pts = q.value(name, where, x), q.value("roots", where)
                found, want = [], []
                for k in range(order):
                    p = [2] * k + [k + 1]
                    found.append(sums(w, pts, lambda r: value(p, r, "power")))
                    d = p if rule == "value" else derived(p, "power")
                    want.append([value(d, y, "power") for y in x] if isinstance(x, list) else value(d, x, "power"))
                return found, want
            identity(rep, rule, f"{what}, {pname}" + (", by its other name" if "alias" in name else ""), q, test)

    def matrix(where):
        v, i, pts = q.value("vdm", where), q.value("inv", where), q.value("roots", where)
        kind = {"legendre": "legendre", "polynomial": "power"}[series]
        one = [[int(a == b) for a in range(order)] for b in range(order)]
        return [v, Bases(q.en, {}).dot(i, v)], [[[value([0] * k + [1], r, kind) for r in pts] for k in range(order)], one]
    identity(rep, "matrix", what, q, matrix)
    try:
        pts, w = q.value("roots", gauss), q.value("w", gauss)
        found = [sums(list(w), pts, lambda r: r ** k) for k in range(2 * order)]
        want = [0 if k % 2 else 2 / (k + 1) for k in range(2 * order)]
        rep.check(near(found, want), "quadrature", W, f"{what}: " + (f"exact to degree {2 * order - 1}" if near(found, want) else f"{numbers(found)} found, {numbers(want)} expected"), key=what)
    except Wrong as e:
        rep.bad("quadrature", W, f"{what}: {e}", key=what)
    except (NoValue, Exc, AttributeError, TypeError, IndexError, ValueError) as e:
        rep.undecided("quadrature", W, f"{what}: {type(e).__name__} {str(e)[:90]}")


def run(rep):
    for f in ("__init__", "vdm", "invvdm", "interp_weights", "diff_weights"):
        rep.function(W + "." + f)
    for series in ("legendre", "polynomial"):
        for order in range(1, 9 if rep.thorough else 7):
            basis(rep, order, series)
    for order, series, before in ((4, "legendre", [(3, "legendre", "interp_weights")]), (4, "polynomial", [(4, "legendre", "diff_weights")]), (3, "legendre", [(5, "polynomial", "diff_weights")])):
        basis(rep, order, series, before)
    for series in ("legendre", "polynomial"):
        basis(rep, 4, series, again=True)
