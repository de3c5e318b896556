"""bottom-up rewriting of terms: array layout identities, concrete struct evaluation"""
import struct

from .terms import T, C, Term, NONE, TRUE, FALSE, add, sub, mul, is_const, is_int, is_num, rebuild, cmp, poly_of, gamma, \
    and_, or_, not_, walk
from .structfmt import segments


def rewrite(t, rule, memo=None):
    """apply rule(term) -> term or None everywhere, innermost first, until nothing changes at a node"""
    memo = {} if memo is None else memo

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, Term):
            return x
        if x in memo:
            return memo[x]
        memo[x] = x
        if x.op in ("const", "ext", "func", "class", "module", "nan"):
            r = x
        elif x.op == "poly":
            r = C(0)
            for m, c in x.args:
                p = C(c)
                for a in m:
                    p = mul(p, go(a))
                r = add(r, p)
        else:
            args = tuple(go(a) for a in x.args)
            r = x if all(a is b or a == b for a, b in zip(args, x.args)) else rebuild(x.op, args)
        for _ in range(8):
            n = rule(r)
            if n is None or n is r:
                break
            r = n
        memo[x] = r
        return r
    return go(t)


def mcall(t):
    """(receiver, method name, args, kwargs dict) of a method-call term, else None"""
    if t.op == "call" and isinstance(t.args[0], Term) and t.args[0].op == "method":
        return t.args[0].args[0], t.args[0].args[1], t.args[1], dict(t.args[2])
    return None


def fcall(t):
    """(qualified external name, args, kwargs) of an external call term, else None"""
    if t.op == "call" and isinstance(t.args[0], Term) and t.args[0].op == "ext":
        return t.args[0].args[0], t.args[1], dict(t.args[2])
    return None


def order_of(args, kw, pos):
    o = kw.get("order")
    if o is None and len(args) > pos:
        o = args[pos]
    if o is None:
        return "C"
    return o.args[0] if is_const(o) else "?"


IDENT_FN = {"numpy.asarray", "numpy.array", "numpy.ascontiguousarray", "numpy.asanyarray", "numpy.copy", "builtins.list",
            "builtins.tuple", "copy.deepcopy", "copy.copy", "numpy.asfarray"}


def int_args(args):
    if len(args) == 1 and isinstance(args[0], Term) and args[0].op == "tuple":
        args = args[0].args
    return tuple(args)


def slice_all(t):
    return t.op == "slice" and all(a is NONE for a in t.args)


def array_rule(t):
    """values of arrays up to container kind; dtype casts are kept as cast<>"""
    m = mcall(t)
    if m:
        a, name, args, kw = m
        if name in ("tolist", "copy") and not args:
            return a
        if name == "astype" and (args or "dtype" in kw):
            return T("cast", a, args[0] if args else kw["dtype"])
        if name in ("ravel", "flatten"):
            o = order_of(args, kw, 0)
            return flat(a, o)
        if name == "reshape" and args:
            o = order_of((), kw, 9)
            dims = int_args(args)
            if len(dims) == 1 and is_int(dims[0]) and dims[0].args[0] == -1:
                return flat(a, o)
            return shaped(a, dims, o)
        if name == "transpose" and not args:
            return T("transposed", a)
    f = fcall(t)
    if f:
        name, args, kw = f
        if name in IDENT_FN and args:
            d = kw.get("dtype") or (args[1] if len(args) > 1 and name in ("numpy.asarray", "numpy.array") else None)
            return T("cast", args[0], d) if d is not None and d is not NONE else args[0]
        if name == "numpy.ravel" and args:
            return flat(args[0], order_of(args, kw, 1))
        if name == "numpy.reshape" and len(args) >= 2:
            return shaped(args[0], int_args(args[1:2]), order_of(args, kw, 2))
        if name in ("numpy.stack", "numpy.column_stack", "numpy.vstack", "numpy.row_stack") and args:
            els = elements(args[0])
            ax = kw.get("axis") or (args[1] if len(args) > 1 else C(0))
            if name == "numpy.column_stack":
                ax = C(1)
            if els is not None and is_int(ax):
                return T("stacked", C(ax.args[0]), *els)
        if name in ("numpy.concatenate", "numpy.hstack", "numpy.append"):
            els = elements(args[0]) if name != "numpy.append" else list(args[:2])
            if els is not None and len(els) == 2:
                d = diff_of_cumsum(els)
                if d is not None:
                    return d
        if name == "numpy.insert" and len(args) == 3 and args[1] is C(0) and args[2] is C(0):
            d = diff_of_cumsum([T("seq", T("e", C(0))), args[0]])
            if d is not None:
                return d
        if name == "numpy.diff" and len(args) == 1 and not kw:
            return sub(T("item", args[0], T("slice", C(1), NONE, NONE)), T("item", args[0], T("slice", NONE, C(-1), NONE)))
    if t.op == "seq" and len(t.args) == 1 and isinstance(t.args[0], Term) and t.args[0].op == "spread":
        return t.args[0].args[0]
    if t.op == "attr" and t.args[1] == "T":
        return T("transposed", t.args[0])
    if t.op == "transposed":
        a = t.args[0]
        if a.op == "transposed":
            return a.args[0]
        if a.op == "cast":
            return T("cast", T("transposed", a.args[0]), a.args[1])
        if a.op == "stacked" and a.args[0] in (C(0), C(1), C(-1)):
            return T("stacked", C(1) if a.args[0] is C(0) else C(0), *a.args[1:])
    if t.op == "stacked" and t.args[0] is C(-1):
        return T("stacked", C(1), *t.args[1:])
    if t.op == "item":
        a, k = t.args
        if a.op == "stacked" and k.op == "tuple" and len(k.args) == 2:
            if a.args[0] is C(1) and slice_all(k.args[0]) and is_int(k.args[1]) and -len(a.args) + 1 <= k.args[1].args[0] < len(a.args) - 1:
                return a.args[1:][k.args[1].args[0]]
            if a.args[0] is C(0) and slice_all(k.args[1]) and is_int(k.args[0]) and -len(a.args) + 1 <= k.args[0].args[0] < len(a.args) - 1:
                return a.args[1:][k.args[0].args[0]]
        if a.op == "transposed" and k.op == "tuple" and len(k.args) == 2:
            return T("item", a.args[0], T("tuple", k.args[1], k.args[0]))
        if a.op == "tuple" and is_int(k) and -len(a.args) <= k.args[0] < len(a.args):
            return a.args[k.args[0]]
    if t.op == "len" and t.args[0].op == "tuple":
        return C(len(t.args[0].args))
    if t.op == "gamma" and t.args[1] is t.args[2]:
        return t.args[1]
    if t.op == "cmp" and t.args[0] in ("is", "is not") and NONE in t.args[1:] and any(
            isinstance(x, Term) and x.op in ("shaped", "flat", "stacked", "cast", "transposed") for x in t.args[1:]):
        return C(t.args[0] == "is not")
    return None


def elements(x):
    if x.op == "tuple":
        return list(x.args)
    if x.op == "seq" and all(c.op == "e" for c in x.args):
        return [c.args[0] for c in x.args]
    return None


def diff_of_cumsum(els):
    """concat([0], cumsum(A[1:]-A[:-1])) is A when A[0] = 0"""
    z, cs = els
    ze = elements(z) if z.op in ("tuple", "seq") else None
    if not (z is C(0) or (ze is not None and len(ze) == 1 and ze[0] is C(0))):
        return None
    f = fcall(cs)
    m = mcall(cs)
    inner = f[1][0] if f and f[0] == "numpy.cumsum" and len(f[1]) == 1 else (m[0] if m and m[1] == "cumsum" and not m[2] else None)
    if inner is None:
        return None
    p = poly_of(inner)
    if len(p) == 2 and all(len(mo) == 1 and mo[0].op == "item" and mo[0].args[1].op == "slice" for mo in p):
        (m1, c1), (m2, c2) = p.items()
        if c1 == -1:
            m1, c1, m2, c2 = m2, c2, m1, c1
        a, b = m1[0], m2[0]
        if c1 == 1 and c2 == -1 and a.args[0] is b.args[0] and a.args[1].args == (C(1), NONE, NONE) and \
                b.args[1].args == (NONE, C(-1), NONE):
            return a.args[0]
    return None


def flat(a, o):
    if a.op == "shaped" and a.args[-1] == o and o != "?":
        return flat(a.args[0], o)
    if a.op == "flat" and o in ("C", "F", "A", "K"):
        return a
    if a.op == "cast":
        return T("cast", flat(a.args[0], o), a.args[1])
    return T("flat", a, o)


def shaped(a, dims, o):
    """array with C/F order `o` reshape of a"""
    if a.op == "cast":
        return T("cast", shaped(a.args[0], dims, o), a.args[1])
    if a.op == "shaped" and a.args[2] == o and o != "?":
        a = a.args[0]
    return T("shaped", a, tuple(dims), o)


def struct_rule(t):
    """evaluate pack/unpack of constants"""
    if t.op == "item" and t.args[0].op == "unpack" and is_int(t.args[1]):
        form, data = t.args[0].args
        if is_const(form) and is_const(data) and isinstance(data.args[0], bytes):
            try:
                v = struct.unpack(form.args[0], data.args[0])[t.args[1].args[0]]
            except (struct.error, IndexError):
                return None
            return C(v)
    if t.op == "packed" and is_const(t.args[0]) and t.args[1].op == "seq":
        vals = t.args[1].args
        if all(v.op == "e" and is_const(v.args[0]) for v in vals):
            try:
                return C(struct.pack(t.args[0].args[0], *[v.args[0].args[0] for v in vals]))
            except struct.error:
                return None
    m = mcall(t)
    if m and m[1] == "byteswap" and is_int(m[0]) and not m[2]:
        return C(struct.unpack("<i", struct.pack(">i", m[0].args[0]))[0])
    return None


def oneof_rule(t):
    if t.op == "cmp" and t.args[0] in ("in", "not in") and t.args[2].op == "oneof" and is_const(t.args[1]):
        els = t.args[2].args
        if all(isinstance(e, Term) and is_const(e) for e in els):
            r = any(e.args[0] == t.args[1].args[0] for e in els)
            return C(r if t.args[0] == "in" else not r)
    if t.op == "truth" and is_const(t.args[0]):
        return C(bool(t.args[0].args[0]))
    if t.op == "truth" and t.args[0].op == "cmp":
        return t.args[0]
    return None


def chain(*rules):
    def r(t):
        for f in rules:
            n = f(t)
            if n is not None and n is not t:
                return n
        return None
    return r
