"""Hash-consed symbolic terms (the value graph) with normalising constructors.

A term is an immutable node (op, args).  Equal normal forms mean equal values (value numbering);
integers and arrays are kept as polynomials over atoms, so two polynomials over the same atoms
that differ denote different functions.  Nothing here runs any code of the analysed program.
"""
from fractions import Fraction

_table = {}


class Term:
    __slots__ = ("op", "args", "_h", "n")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._h

    def __eq__(self, other):
        return self is other

    def __lt__(self, other):
        return self.n < other.n


def T(op, *args):
    key = (op, tuple((type(a).__name__, a) if not isinstance(a, Term) else a for a in args))
    t = _table.get(key)
    if t is None:
        t = Term()
        t.op, t.args = op, args
        t.n = len(_table)
        t._h = hash(t.n)
        _table[key] = t
    return t


def C(v):
    if isinstance(v, Term):
        return v
    if isinstance(v, float) and v != v:
        return T("nan")
    return T("const", v)


NONE, TRUE, FALSE = C(None), C(True), C(False)


def is_const(t):
    return t.op == "const"


def cval(t, default=None):
    return t.args[0] if t.op == "const" else default


def is_num(t):
    return t.op == "const" and isinstance(t.args[0], (int, float)) and not isinstance(t.args[0], bool)


def is_int(t):
    return t.op == "const" and isinstance(t.args[0], int) and not isinstance(t.args[0], bool)


def is_str(t):
    return t.op == "const" and isinstance(t.args[0], str) or t.op in ("strcat", "repeat", "fmt")


# ------------------------------------------------------------------ polynomials
def poly_of(t):
    """dict monomial -> coefficient, monomial = tuple of atoms sorted by creation number"""
    if is_num(t):
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == "const" and isinstance(t.args[0], bool):
        return {(): int(t.args[0])} if t.args[0] else {}
    if t.op == "poly":
        return dict(t.args)
    return {(t,): 1}


def poly_make(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return C(0)
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return C(c)
        if len(m) == 1 and c == 1:
            return m[0]
    return T("poly", *sorted(d.items(), key=lambda kv: ([a.n for a in kv[0]], str(kv[1]))))


def add(a, b):
    d = poly_of(a)
    for m, c in poly_of(b).items():
        d[m] = d.get(m, 0) + c
    return poly_make(d)


def neg(a):
    return poly_make({m: -c for m, c in poly_of(a).items()})


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    pa, pb = poly_of(a), poly_of(b)
    if len(pa) * len(pb) > 400:
        return T("bin", "*", a, b)
    d = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = tuple(sorted(m1 + m2, key=lambda t: t.n))
            d[m] = d.get(m, 0) + c1 * c2
    return poly_make(d)


def atoms(t):
    """atoms of the polynomial view of t"""
    return {a for m in poly_of(t) for a in m}


def subst(t, mapping, memo=None):
    """rebuild t with sub-terms replaced (normalising constructors are applied again)"""
    if memo is None:
        memo = {}
    if t in mapping:
        return mapping[t]
    if t in memo:
        return memo[t]
    if t.op in ("const", "sym", "ext", "func", "class", "module", "nan"):
        r = t
    elif t.op == "poly":
        r = C(0)
        for m, c in t.args:
            p = C(c)
            for a in m:
                p = mul(p, subst(a, mapping, memo))
            r = add(r, p)
    else:
        args = tuple(_subst_arg(a, mapping, memo) for a in t.args)
        r = t if args == t.args else rebuild(t.op, args)
    memo[t] = r
    return r


def _subst_arg(a, mapping, memo):
    if isinstance(a, Term):
        return subst(a, mapping, memo)
    if isinstance(a, tuple):
        return tuple(_subst_arg(x, mapping, memo) for x in a)
    return a


REBUILD = {}


def rebuild(op, args):
    f = REBUILD.get(op)
    return f(*args) if f else T(op, *args)


def walk(t, seen=None):
    """all sub-terms of t (t included), each once"""
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
        elif isinstance(x, Term):
            if x in seen:
                continue
            seen.add(x)
            yield x
            if x.op == "poly":
                for m, _ in x.args:
                    stack.extend(m)
            else:
                stack.extend(x.args)


def contains(t, pred):
    return any(pred(x) for x in walk(t))


# ------------------------------------------------------------------ strings
def strcat(*parts):
    out = []
    for p in parts:
        items = p.args if p.op == "strcat" else (p,)
        for q in items:
            if q.op == "const" and q.args[0] == "":
                continue
            if out and q.op == "const" and out[-1].op == "const" and type(q.args[0]) is type(out[-1].args[0]):
                out[-1] = C(out[-1].args[0] + q.args[0])
            else:
                out.append(q)
    if not out:
        return C("")
    return out[0] if len(out) == 1 else T("strcat", *out)


def repeat(s, n):
    if is_const(s) and is_int(n) and n.args[0] * len(s.args[0]) <= 512:
        return C(s.args[0] * n.args[0])
    if s.op == "repeat":
        return repeat(s.args[0], mul(s.args[1], n))
    return T("repeat", s, n)


# ------------------------------------------------------------------ booleans
def not_(a):
    if is_const(a):
        return C(not a.args[0])
    if a.op == "not":
        return a.args[0]
    if a.op == "cmp":
        flip = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">",
                "is": "is not", "is not": "is", "in": "not in", "not in": "in"}
        return T("cmp", flip[a.args[0]], a.args[1], a.args[2])
    if a.op == "and":
        return or_(*[not_(x) for x in a.args])
    if a.op == "or":
        return and_(*[not_(x) for x in a.args])
    return T("not", a)


def and_(*args):
    out = []
    for a in args:
        for x in (a.args if a.op == "and" else (a,)):
            if is_const(x):
                if not x.args[0]:
                    return x
                continue
            if x not in out:
                out.append(x)
    if not out:
        return args[-1] if args and is_const(args[-1]) else TRUE
    return out[0] if len(out) == 1 else T("and", *out)


def or_(*args):
    out = []
    for a in args:
        for x in (a.args if a.op == "or" else (a,)):
            if is_const(x):
                if x.args[0]:
                    return x
                continue
            if x not in out:
                out.append(x)
    if not out:
        return args[-1] if args and is_const(args[-1]) else FALSE
    return out[0] if len(out) == 1 else T("or", *out)


def cmp(op, a, b):
    if is_const(a) and is_const(b):
        x, y = a.args[0], b.args[0]
        try:
            if op == "==":
                return C(x == y)
            if op == "!=":
                return C(x != y)
            if op == "<":
                return C(x < y)
            if op == "<=":
                return C(x <= y)
            if op == ">":
                return C(x > y)
            if op == ">=":
                return C(x >= y)
            if op == "is":
                return C(x is y or (x == y and type(x) is type(y)))
            if op == "is not":
                return C(not (x is y or (x == y and type(x) is type(y))))
            if op == "in":
                return C(x in y)
            if op == "not in":
                return C(x not in y)
        except TypeError:
            pass
    if op in ("is", "is not"):
        for x, y in ((a, b), (b, a)):
            if y is NONE and x.op in ("tuple", "ref", "func", "class", "module", "list", "dict", "obj",
                                      "strcat", "repeat", "poly", "bound", "lambda", "clock"):
                return C(op == "is not")
            if y is NONE and x.op == "ext" and x.args[0].startswith("builtins."):
                return C(op == "is not")
        if a is b:
            return C(op == "is")
    if op in ("==", "!=") and a is b and a.op not in ("call",):
        return C(op == "==")
    if op in ("==", "!=", "<", "<=", ">", ">="):
        da, db = poly_of(a), poly_of(b)
        d = sub(a, b) if (is_num(a) or is_num(b) or a.op == "poly" or b.op == "poly") else None
        if d is not None and is_num(d) and not (is_str(a) or is_str(b)):
            return cmp(op, d, C(0))
        if op in ("==", "!=") and (is_const(a) or b.n < a.n) and not is_const(b):
            a, b = b, a
        if op in (">", ">="):  # canonical direction
            return T("cmp", {">": "<", ">=": "<="}[op], b, a)
    return T("cmp", op, a, b)


def gamma(c, a, b):
    """value a when c else b"""
    if a is b:
        return a
    if is_const(c):
        return a if c.args[0] else b
    if c.op == "not":
        return gamma(c.args[0], b, a)
    if c.op == "cmp" and c.args[0] in ("!=", "is not", "not in"):
        return gamma(not_(c), b, a)
    if a.op == "gamma" and a.args[0] is c:
        return gamma(c, a.args[1], b)
    if b.op == "gamma" and b.args[0] is c:
        return gamma(c, a, b.args[2])
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    # factor common structure of strings
    if is_str(a) and is_str(b):
        pa = a.args if a.op == "strcat" else (a,)
        pb = b.args if b.op == "strcat" else (b,)
        k = 0
        while k < min(len(pa), len(pb)) and pa[-1 - k] is pb[-1 - k]:
            k += 1
        if k and (k < len(pa) or k < len(pb)):
            return strcat(gamma(c, strcat(*pa[:len(pa) - k]), strcat(*pb[:len(pb) - k])), *pa[len(pa) - k:])
        ca = pa[0].args[0] if is_const(pa[0]) else None
        cb = pb[0].args[0] if is_const(pb[0]) else None
        if isinstance(ca, str) and isinstance(cb, str) and len(ca) > 1 and len(cb) > 1 and ca[1:] == cb[1:] \
                and pa[1:] == pb[1:]:
            return strcat(T("gamma", c, C(ca[0]), C(cb[0])), C(ca[1:]), *pa[1:])
        if isinstance(ca, str) and isinstance(cb, str) and len(pa) == len(pb) and pa[1:] == pb[1:] and len(pa) > 1:
            return strcat(gamma(c, pa[0], pb[0]), *pa[1:])
    if a.op == "tuple" and b.op == "tuple" and len(a.args) == len(b.args):
        return T("tuple", *[gamma(c, x, y) for x, y in zip(a.args, b.args)])
    return T("gamma", c, a, b)


# ------------------------------------------------------------------ lookups in constant tables
def lookup(entries, key, default=None):
    """entries: tuple of (const term, term); value associated to key (default: KeyError when None)"""
    if is_const(key):
        for k, v in entries:
            if k is key or (is_const(k) and k.args[0] == key.args[0] and type(k.args[0]) is type(key.args[0])):
                return v
        for k, v in entries:
            if is_const(k) and isinstance(k.args[0], (int, float)) and k.args[0] == key.args[0]:
                return v
        if default is not None:
            return default
        return T("missing", key)
    if key.op == "gamma":
        return gamma(key.args[0], lookup(entries, key.args[1], default), lookup(entries, key.args[2], default))
    if key.op == "lookup" and all(is_const(v) for _, v in key.args[0]) and (
            key.args[2] is None or is_const(key.args[2])):
        comp = tuple((k, lookup(entries, v, default)) for k, v in key.args[0])
        d2 = None if key.args[2] is None else lookup(entries, key.args[2], default)
        return lookup(comp, key.args[1], d2)
    vals = {v for _, v in entries}
    if default is None and entries and all(k is v for k, v in entries):
        return key
    if default is None and len(vals) == 1 and entries:
        return next(iter(vals))
    return T("lookup", tuple(entries), key, default)


REBUILD.update({
    "strcat": strcat, "repeat": repeat, "not": not_, "and": and_, "or": or_, "cmp": cmp, "gamma": gamma,
    "lookup": lookup,
})


# ------------------------------------------------------------------ printing
def show(t, depth=6):
    if isinstance(t, tuple):
        return "(" + ", ".join(show(x, depth) for x in t) + ")"
    if not isinstance(t, Term):
        return str(t)
    if t.op == "const":
        return repr(t.args[0])
    if depth <= 0:
        return "…"
    if t.op == "sym":
        return str(t.args[0])
    if t.op == "ext":
        return str(t.args[0])
    if t.op == "attr":
        return f"{show(t.args[0], depth - 1)}.{t.args[1]}"
    if t.op == "item":
        return f"{show(t.args[0], depth - 1)}[{show(t.args[1], depth - 1)}]"
    if t.op == "poly":
        out = []
        for m, c in t.args:
            f = [show(a, depth - 1) for a in m]
            if c != 1 or not f:
                f.insert(0, str(c))
            out.append("*".join(f))
        return "(" + " + ".join(out) + ")"
    if t.op == "call":
        a = [show(x, depth - 1) for x in t.args[1]] + [f"{k}={show(v, depth - 1)}" for k, v in t.args[2]]
        return f"{show(t.args[0], depth - 1)}({', '.join(a)})"
    if t.op == "bin":
        return f"({show(t.args[1], depth - 1)} {t.args[0]} {show(t.args[2], depth - 1)})"
    if t.op == "cmp":
        return f"({show(t.args[1], depth - 1)} {t.args[0]} {show(t.args[2], depth - 1)})"
    if t.op == "lookup":
        return "{" + ", ".join(f"{show(k, depth-1)}: {show(v, depth - 2)}" for k, v in t.args[0][:12]) + "}[" + show(t.args[1], depth - 1) + "]"
    if t.op == "gamma":
        return f"({show(t.args[1], depth - 1)} if {show(t.args[0], depth - 1)} else {show(t.args[2], depth - 1)})"
    if t.op == "idx":
        return f"i{t.args[0]}"
    return f"{t.op}<{', '.join(show(a, depth - 1) for a in t.args)}>"
