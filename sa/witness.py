"""Value of a term when the arrays given have known contents.

Decides what the normal forms of sa/arrays cannot express (membership, sets, filters): a term that differs from what is wanted on a
witness is wrong; one that agrees on every witness holds on those.  Any operation that is not modelled makes the value unknown.
Only terms are evaluated: nothing of the program runs."""
import itertools

from sa.terms import Term, NONE, TRUE, FALSE, show

SAME = {"list", "tuple", "array", "asarray", "iter", "tolist", "ravel", "flatten", "copy", "astype", "ascontiguousarray", "int", "int64", "fromiter", "deepcopy"}
FLAT = {"ravel", "flatten"}


class Unknown(Exception):
    pass


def shape(v):
    s = []
    while isinstance(v, (list, tuple)):
        s.append(len(v))
        if not v:
            break
        v = v[0]
    return tuple(s)


def flatten(v):
    return [x for y in v for x in flatten(y)] if isinstance(v, (list, tuple)) else [v]


class Witness:
    def __init__(self, en, contents):
        self.en, self.contents, self.idx, self.memo = en, dict(contents), {}, {}

    def value(self, t):
        """value, or Unknown raised"""
        try:
            return self.ev(t)
        except (TypeError, IndexError, KeyError, ValueError, ZeroDivisionError, RecursionError) as e:
            raise Unknown(f"{type(e).__name__} {e}")

    def ev(self, t):
        if t in self.contents:
            return self.contents[t]
        if t in self.idx:
            return self.idx[t]
        if t.op == "const":
            return t.args[0]
        if t.op == "ref":
            f = self.en.freeze(t)
            if f is not t:
                return self.ev(f)
            raise Unknown("object")
        m = getattr(self, "op_" + t.op, None)
        if m is None:
            raise Unknown(t.op + " " + show(t, 2)[:60])
        return m(*t.args)

    # ------------------------------------------------------------ sequences
    def op_seq(self, *cs):
        return [x for c in cs for x in self.chunk(c)]
    op_chunks = op_seq

    def chunk(self, c):
        if not isinstance(c, Term):
            raise Unknown("part of a sequence")
        if c.op == "e":
            return [self.ev(c.args[0])]
        if c.op == "spread":
            return self.items(self.ev(c.args[0]))
        if c.op == "each":
            return [x for _ in self.turns(c.args[0], c.args[1]) for b in c.args[2:] for x in self.chunk(b)]
        if c.op == "g":
            return self.chunk(c.args[1]) if self.ev(c.args[0]) else self.chunk(c.args[2]) if len(c.args) > 2 else []
        if c.op in ("chunks", "seq"):
            return self.op_seq(*c.args)
        raise Unknown("part of a sequence: " + c.op)

    def items(self, v):
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, frozenset):
            return sorted(v)
        if isinstance(v, range):
            return list(v)
        raise Unknown("not a sequence")

    def turns(self, i, space):
        op = space.op
        if op == "rangespace":
            n = self.ev(space.args[0])
        elif op in ("elems", "enumof"):
            n = len(self.items(self.ev(space.args[0])))
        elif op == "zipof":
            n = min(len(self.items(self.ev(a))) for a in space.args)
        else:
            raise Unknown("loop over " + op)
        if not isinstance(n, int) or n > 1000:
            raise Unknown("number of turns")
        had = self.idx.get(i)
        for k in range(n):
            self.idx[i] = k
            yield k
        if had is None:
            self.idx.pop(i, None)
        else:
            self.idx[i] = had

    def op_tuple(self, *a):
        return tuple(self.ev(x) for x in a)

    def op_vec(self, *a):
        return [self.ev(x) for x in a]
    op_list = op_vec

    def op_setof(self, *a):
        return frozenset(self.hashable(x) for c in a for x in self.chunk(c))
    op_set = op_setof

    def hashable(self, x):
        return tuple(self.hashable(y) for y in x) if isinstance(x, (list, tuple)) else x

    def op_rangespace(self, n):
        return list(range(self.ev(n)))

    def op_rangeof(self, a, b, s):
        return list(range(self.ev(a), self.ev(b), self.ev(s)))

    def op_zipof(self, *a):
        return list(zip(*(self.items(self.ev(x)) for x in a)))

    def op_productof(self, *a):
        return list(itertools.product(*(self.items(self.ev(x)) for x in a)))

    # ------------------------------------------------------------ conditions
    def op_truth(self, x):
        v = self.ev(x)
        return bool(v) if not isinstance(v, range) else len(v) > 0

    def op_not(self, x):
        return not self.ev(x)

    def op_and(self, *a):
        return all(self.ev(x) for x in a)

    def op_or(self, *a):
        return any(self.ev(x) for x in a)

    def op_gamma(self, c, a, b):
        return self.ev(a) if self.ev(c) else self.ev(b)

    def op_forall(self, i, space, c):
        return all([bool(self.ev(c)) for _ in self.turns(i, space)])

    def op_exists(self, i, space, c):
        return any([bool(self.ev(c)) for _ in self.turns(i, space)])

    def op_cmp(self, op, a, b):
        a, b = self.ev(a), self.ev(b)
        if op in ("is", "is not"):
            if a is not None and b is not None:
                raise Unknown("identity")
            return (a is b) == (op == "is")
        if op in ("in", "not in"):
            return ((self.hashable(a) if isinstance(b, frozenset) else a) in (self.items(b) if not isinstance(b, (frozenset, dict, str)) else b)) == (op == "in")
        if isinstance(a, list) or isinstance(b, list):
            raise Unknown("arrays compared")
        return {"==": lambda: a == b, "!=": lambda: a != b, "<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b}[op]()

    # ------------------------------------------------------------ numbers
    def op_poly(self, *monos):
        vals = [([self.ev(x) for x in m], c) for m, c in monos]
        if any(isinstance(x, (list, tuple)) for m, c in vals for x in m):
            raise Unknown("arithmetic of arrays")
        if any(isinstance(x, frozenset) for m, c in vals for x in m):
            plus = [m[0] for m, c in vals if c == 1 and len(m) == 1]
            minus = [m[0] for m, c in vals if c == -1 and len(m) == 1]
            if len(plus) == 1 and len(plus) + len(minus) == len(vals) and all(isinstance(x, frozenset) for x in plus + minus):
                return plus[0].difference(*minus)
            raise Unknown("arithmetic of sets")
        r = 0
        for m, c in vals:
            for x in m:
                c = c * x
            r += c
        return r

    def op_bin(self, op, a, b):
        a, b = self.ev(a), self.ev(b)
        if isinstance(a, frozenset) and isinstance(b, frozenset):
            return {"|": a | b, "&": a & b, "-": a - b, "^": a ^ b}[op]
        if isinstance(a, (list, tuple, frozenset)) or isinstance(b, (list, tuple, frozenset)):
            raise Unknown("arithmetic of arrays")
        return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "//": lambda: a // b, "%": lambda: a % b, "/": lambda: a / b}[op]()

    def op_len(self, x):
        return len(self.items(self.ev(x)))

    def op_lookup(self, entries, key, default=None):
        k = self.ev(key)
        for ek, v in entries:
            if self.ev(ek) == k:
                return self.ev(v)
        if default is None:
            raise Unknown("key")
        return self.ev(default)

    def op_xres(self, f, args=(), kw=(), *more):
        return self.op_call(f, args, kw)

    def op_sum(self, *a):
        if len(a) == 3 and a[0].op == "idx":
            return sum([self.ev(a[2]) for _ in self.turns(a[0], a[1])])
        raise Unknown("sum")

    # ------------------------------------------------------------ access
    def op_attr(self, base, name):
        v = self.ev(base)
        if isinstance(v, (list, tuple)):
            if name == "shape":
                return shape(v)
            if name == "size":
                return len(flatten(v))
            if name == "ndim":
                return len(shape(v))
            if name == "T" and len(shape(v)) == 2:
                return [list(r) for r in zip(*v)]
        raise Unknown("attribute " + str(name))

    def op_slice(self, a, b, s):
        return slice(*(self.ev(x) for x in (a, b, s)))

    def op_item(self, base, k):
        return self.get(self.ev(base), self.ev(k))

    def get(self, v, k):
        if isinstance(k, (int, slice)) and not isinstance(k, bool):
            return self.items(v)[k] if not isinstance(v, tuple) else v[k]
        if isinstance(k, tuple) and k:
            head, rest = k[0], k[1:]
            r = self.get(v, head)
            if not rest:
                return r
            if isinstance(head, int):
                return self.get(r, rest if len(rest) > 1 else rest[0])
            return [self.get(x, rest if len(rest) > 1 else rest[0]) for x in r]
        if isinstance(k, list) and not any(isinstance(x, bool) for x in k):
            return [self.get(v, x) for x in k]
        raise Unknown("index")

    def op_call(self, f, args, kw):
        kw = dict(kw) if kw else {}
        if f.op in ("method", "attr"):
            name, vals = f.args[1], [f.args[0], *args]
        elif f.op == "ext":
            name, vals = f.args[0].split(".")[-1], list(args)
        else:
            raise Unknown("call")
        if kw and set(kw) - {"dtype", "copy"}:
            raise Unknown("options of a call")
        vals = [self.ev(x) for x in vals]
        return self.apply(name, vals)

    def apply(self, name, vals):
        if name in FLAT and len(vals) == 1:
            return flatten(vals[0])
        if name in SAME and vals and (len(vals) == 1 or name in ("astype", "fromiter", "array", "asarray")):
            return self.items(vals[0]) if isinstance(vals[0], (frozenset, range)) else vals[0]
        if name in ("set", "frozenset"):
            return frozenset(self.hashable(x) for v in vals for x in self.items(v))
        if name in ("difference", "union", "intersection", "issubset", "issuperset", "isdisjoint") and isinstance(vals[0], frozenset):
            return getattr(vals[0], name)(*(frozenset(self.hashable(y) for y in self.items(x)) for x in vals[1:]))
        if name in ("setdiff1d", "union1d", "intersect1d") and len(vals) == 2:
            a, b = (set(flatten(x)) for x in vals)
            return sorted({"setdiff1d": a - b, "union1d": a | b, "intersect1d": a & b}[name])
        if name in ("isin", "in1d") and len(vals) == 2:
            s = set(flatten(vals[1]))
            return self.mapped(lambda x: x in s, vals[0])
        if name == "unique" and len(vals) == 1:
            return sorted(set(flatten(vals[0])))
        if name in ("all", "any") and len(vals) == 1:
            return (all if name == "all" else any)(flatten(self.items(vals[0])))
        if name in ("len", "max", "min", "sum", "sorted", "abs") and len(vals) == 1:
            v = vals[0] if name == "abs" else self.items(vals[0]) if name in ("len", "sorted") else flatten(self.items(vals[0]))
            return {"len": len, "max": max, "min": min, "sum": sum, "sorted": sorted, "abs": abs}[name](v)
        if name == "reversed":
            return self.items(vals[0])[::-1]
        if name in ("range", "arange"):
            return list(range(*vals))
        if name in ("column_stack", "stack") and len(vals) == 1 and all(len(shape(x)) == 1 for x in vals[0]):
            return [list(r) for r in zip(*vals[0])] if name == "column_stack" else [list(r) for r in vals[0]]
        if name in ("vstack",) and len(vals) == 1 and all(len(shape(x)) == 1 for x in vals[0]):
            return [list(r) for r in vals[0]]
        if name in ("transpose", "T") and len(shape(vals[0])) == 2:
            return [list(r) for r in zip(*vals[0])]
        if name in ("zip",):
            return list(zip(*(self.items(v) for v in vals)))
        if name == "enumerate" and len(vals) == 1:
            return list(enumerate(self.items(vals[0])))
        if name in ("concatenate", "hstack") and len(vals) == 1:
            return [x for y in vals[0] for x in self.items(y)]
        if name == "chain":
            return [x for y in vals for x in self.items(y)]
        if name == "bool":
            return bool(vals[0])
        if name in ("index", "count") and isinstance(vals[0], list):
            return getattr(vals[0], name)(vals[1])
        raise Unknown("call " + name)

    def mapped(self, f, v):
        return [self.mapped(f, x) for x in v] if isinstance(v, (list, tuple)) else f(v)


class Text(Witness):
    """texts as well: strings built from known pieces"""

    def op_str(self, x, *spec):
        if spec and any(s is not None and s not in (NONE,) for s in spec):
            raise Unknown("format")
        return self.text(self.ev(x))

    def text(self, v):
        if v is None or isinstance(v, (str, int, tuple)):
            return str(v)
        raise Unknown("text of " + type(v).__name__)

    def op_strcat(self, *a):
        return "".join(self.text(self.ev(x)) if isinstance(x, Term) else str(x) for x in a)

    def op_join(self, sep, seq):
        return self.text(self.ev(sep) if isinstance(sep, Term) else sep).join(self.text(x) for x in self.items(self.ev(seq)))

    def apply(self, name, vals):
        if name in ("Path", "str", "PurePath", "fspath", "abspath"):
            return self.text(vals[0])
        if name in ("prod", "product") and len(vals) == 1:
            r = 1
            for x in self.items(vals[0]):
                r *= x
            return r
        if name == "join" and isinstance(vals[0], str):
            return vals[0].join(self.text(x) for x in self.items(vals[1]))
        if name in ("basename", "dirname") and isinstance(vals[0], str):
            return vals[0].rpartition("/")[2 if name == "basename" else 0]
        if name == "splitext" and isinstance(vals[0], str):
            i = vals[0].rfind(".")
            return (vals[0][:i], vals[0][i:]) if i > 0 else (vals[0], "")
        return super().apply(name, vals)
