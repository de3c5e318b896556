"""token view of the terms the GMSH reader builds: which token of which line of which section"""
from . import registry
from .terms import T, C, Term, walk, subst, is_const, is_int, is_str, add, sub, show, not_, contains, rebuild, cmp, TRUE, FALSE

INT = "builtins.int"
FLOAT = "builtins.float"


def section_name(t):
    """name of the section a slice of the lines of the file stands for"""
    if t.op != "item" or not isinstance(t.args[1], Term) or t.args[1].op != "slice":
        return None
    s = t.args[1].args
    lo, hi = s[0], s[1]
    if not isinstance(lo, Term) or not isinstance(hi, Term):
        return None
    base = t.args[0]

    def mark(x):
        if x.op == "call" and x.args[0].op == "method" and x.args[0].args[1] == "index" and x.args[0].args[0] == base:
            for y in walk(x.args[1]):
                if y.op == "const" and isinstance(y.args[0], str) and y.args[0].startswith("$"):
                    return y.args[0]
        return None

    a, b = mark(sub(lo, C(1))), mark(hi)
    if a is None or b is None:
        a2 = [y.args[0] for x in (lo, hi) for y in walk(x) if is_str(y) and y.args[0].startswith("$")]
        return None if not a2 else ("?", tuple(a2))
    return a[1:] if b == "$End" + a[1:] else ("?", (a, b))


class Norm:
    def __init__(self, en=None):
        self.en = en
        self.memo = {}
        self.odd = set()
        self.table = None

    def __call__(self, t):
        if t in self.memo:
            return self.memo[t]
        if t.op in ("const", "sym", "ext", "func", "class", "module", "nan"):
            return t
        n = section_name(t)
        if isinstance(n, str):
            r = T("sec", n)
        else:
            if n is not None:
                self.odd.add(n[1])
            if t.op == "poly":
                r = C(0)
                from .terms import mul
                for m, c in t.args:
                    p = C(c)
                    for a in m:
                        p = mul(p, self(a))
                    r = add(r, p)
            else:
                args = tuple(self._arg(a) for a in t.args)
                r = t if args == t.args else rebuild(t.op, args)
            r = self.local(r)
        self.memo[t] = r
        return r

    def _arg(self, a):
        if isinstance(a, Term):
            return self(a)
        if isinstance(a, tuple):
            return tuple(self._arg(x) for x in a)
        return a

    def local(self, t):
        if t.op == "item":
            b, k = t.args
            sl = isinstance(k, Term) and k.op == "slice"
            if not sl and b.op == "item" and b.args[0].op == "sec" and is_slice(b.args[1]) and b.args[1].args[2] in (C(None), C(1)):
                lo = b.args[1].args[0]              # a line of a run of lines
                return rebuild("item", (b.args[0], k if lo == C(None) else add(lo, k)))
            if not sl and b.op == "item" and b.args[0].op == "sec" and not is_slice(b.args[1]):
                return T("tok", b.args[0].args[0], b.args[1], k)
            if sl and b.op == "row" and k.args[0] in (C(None), C(0)) and k.args[2] == C(None) and is_int(k.args[1]) and 0 <= k.args[1].args[0] < 64:
                return T("seq", *[T("e", row_item(b, i)) for i in range(k.args[1].args[0])])
            r = as_row(b)
            if r is not None:
                if isinstance(k, Term) and k.op == "slice" and k.args[1] == C(None) and k.args[2] == C(None):
                    x = row_tail(r, k.args[0])
                    return x if x is not None else t
                if is_int(k) and k.args[0] >= 0:
                    return row_item(r, k.args[0])
                if isinstance(k, Term) and k.op != "slice" and not r.args[0]:
                    return T("itok", *line_of(r.args[1]), add(k, r.args[2]))
            e = self.element(b)
            if e is not None and not (isinstance(k, Term) and k.op == "slice"):
                return T("row", e.args[0], e.args[1], e.args[2])
        if t.op == "call" and len(t.args[1]) == 1 and t.args[0].op == "ext":
            x = t.args[1][0]
            if t.args[0].args[0] == "builtins.sum" and x.op == "seq" and all(c.op == "e" for c in x.args):
                r = C(0)
                for c in x.args:
                    r = add(r, c.args[0])
                return r
            if is_const(x) and t.args[0].args[0] in (INT, FLOAT):
                try:
                    return C(int(x.args[0]) if t.args[0].args[0] == INT else float(x.args[0]))
                except (TypeError, ValueError):
                    return t
            if x.op == "tok":
                if t.args[0].args[0] == INT:
                    return T("itok", *x.args)
                if t.args[0].args[0] == FLOAT:
                    return T("ftok", *x.args)
            if x.op == "itok" and t.args[0].args[0] == INT:
                return x
        r = as_row(t)
        return r if r is not None else t

    def element(self, t):
        """the row of any element, when t is a sequence of element rows"""
        for _ in range(4):
            if t.op == "seq" and len(t.args) == 1:
                t = t.args[0]
            elif t.op == "each":
                t = t.args[2]
            elif t.op == "e":
                t = t.args[0]
            elif t.op == "chunks" and len(t.args) == 1:
                t = t.args[0]
            else:
                break
        while t.op in ("seq", "each", "e") and t.op != "row":
            t = t.args[-1]
        return t if t.op == "row" else None


def is_slice(k):
    return isinstance(k, Term) and k.op == "slice"


def line_of(x):
    """(section, line) of a line term"""
    if x.op == "item" and x.args[0].op == "sec":
        return x.args[0].args[0], x.args[1]
    return "?", x


def row_item(r, k):
    h, x, f = r.args
    return h[k] if k < len(h) else T("itok", *line_of(x), add(f, C(k - len(h))))


def row_tail(r, a):
    h, x, f = r.args
    if is_int(a) and a.args[0] >= 0:
        k = a.args[0]
        return T("row", h[k:], x, f) if k <= len(h) else T("row", (), x, add(f, C(k - len(h))))
    d = sub(a, C(len(h)))
    return T("row", (), x, add(f, d)) if not h else None


def as_row(t):
    """(head items, line, first token): the integers of a line, with items put in front"""
    if t.op == "row":
        return t
    if t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] == "builtins.list" and len(t.args[1]) == 1:
        t = t.args[1][0]
    if t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] == "builtins.map" and len(t.args[1]) == 2:
        f, x = t.args[1]
        if f.op == "ext" and f.args[0] == INT and line_of(x)[0] != "?":
            return T("row", (), x, C(0))
    if t.op == "item" and isinstance(t.args[1], Term) and t.args[1].op == "slice":
        return None
    if t.op != "seq":
        return None
    head, tail = [], None
    for c in t.args:
        if tail is not None:
            return None
        if c.op == "e":
            head.append(c.args[0])
        elif c.op == "each" and c.args[1].op == "elems":
            x = c.args[1].args[0]
            body = c.args[2]
            if body.op == "e":
                body = body.args[0]
            elif body.op == "chunks" and len(body.args) == 1 and body.args[0].op == "e":
                body = body.args[0].args[0]
            s, l = line_of(x)
            if s == "?" or body != T("itok", s, l, c.args[0] if isinstance(c.args[0], Term) else T("idx", c.args[0])):
                return None
            tail = (x, C(0))
        elif c.op == "spread":
            y = c.args[0]
            if y.op == "inserted":
                r = as_row(y.args[0])
                k = y.args[1]
                if r is None or not is_int(k) or k.args[0] < 0:
                    return None
                h, x, f = r.args
                h = list(h)
                while len(h) < k.args[0]:
                    h.append(T("itok", *line_of(x), f))
                    f = add(f, C(1))
                h.insert(k.args[0], y.args[2])
                head += h
                tail = (x, f)
            else:
                r = as_row(y)
                if r is None:
                    return None
                head += r.args[0]
                tail = (r.args[1], r.args[2])
        else:
            return None
    return T("row", tuple(head), tail[0], tail[1]) if tail else None


# ------------------------------------------------------------------ where values come from
KEEP_CALL = {"array", "asarray", "unique", "concatenate", "sort", "vstack", "hstack", "ravel", "list", "set", "sorted", "tuple", "int", "ascontiguousarray", "atleast_1d", "atleast_2d", "copy", "int64", "int32", "intp", "reshape", "flip", "transpose", "iter", "reversed"}
KEEP_METHOD = {"list", "range", "ravel", "flatten", "tolist", "copy", "astype", "reshape", "view", "squeeze", "transpose"}


class Origins:
    """(leaf, shift) pairs a value may be made of: leaf = a token or a row of tokens, shift = what was added to it.
    A leaf whose way is not followed is reported as ('?', term)."""

    def __init__(self, leaf, en=None, norm=lambda t: t):
        self.leaf = leaf            # term -> label or None
        self.en, self.norm = en, norm
        self.env = {}
        self.frees = {}
        self.keys = set()           # names of the records gone through
        self.memo = {}

    def __call__(self, t):
        if not isinstance(t, Term):
            return frozenset()
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = frozenset()
        r = self.memo[t] = frozenset(settle(self.of(t)))
        return r

    def union(self, ts):
        out = set()
        for t in ts:
            if isinstance(t, tuple):
                out |= self.union(t)
            elif isinstance(t, Term):
                out |= self(t)
        return out

    def of(self, t):
        lab = self.leaf(t)
        if lab is not None:
            return {(lab, 0)}
        op = t.op
        if op == "mu":
            return self.env.get(t.args[2], set())
        if op in ("const", "unbound", "missing", "idx", "nan"):
            return set()
        if op == "poly":
            const = 0
            parts = []
            for m, c in t.args:
                if not m:
                    const += c
                elif len(m) == 1 and c == 1:
                    if m[0].op != "idx":            # the running index of a range starting there
                        parts.append(m[0])
                else:
                    return {("?", t)}
            if len(parts) != 1:
                return {("?", t)} if any(self(p) for p in parts) else set()
            return {(l, s + const) if l != "?" else (l, s) for l, s in self(parts[0])}
        if op == "gamma":
            return self.union(t.args[1:])
        if op == "g":
            return self.union(t.args[1:])
        if op in ("seq", "chunks", "e", "spread", "tuple", "vec", "set", "setof"):
            return self.union(t.args)
        if op == "each":
            return self.union(t.args[2:])
        if op == "fold":
            return self.union(t.args[2:])
        if op == "last":
            return self.union(t.args[2:])
        if op == "inserted":
            return self.union((t.args[0], t.args[2]))
        if op == "store":
            out = set(self(t.args[2]))
            if t.args[1].op != "dkey":          # one entry of many; a store under every key of a table replaces it all
                o = self(t.args[0])
                out |= maybe(o)
            return settle(out)
        if op == "dictof":
            return self.table(t, self)
        if op == "item":
            b, k = t.args
            if is_str(k):
                return self.field(b, k, set())
            return self(b)
        if op == "obj" and self.en is not None:
            o = self.en.obj(T("ref", t.args[1]))
            return self.union(self.norm(self.en.freeze(v)) for k, v in o.f.items() if k != "__fresh__" and isinstance(v, Term)) if o is not None else {("?", t)}
        if op in ("keys", "elems", "rangespace", "dkey", "entries", "keysof"):
            return set()
        if op == "ref" and self.en is not None:
            x = self.en.freeze(t)
            return self(self.norm(x)) if x != t else {("?", t)}
        if op == "mapof" and t.args[0].op in ("method", "attr") and t.args[0].args[1] in ("get", "__getitem__"):
            return self(t.args[0].args[0])
        if op == "call":
            f, a = t.args[0], t.args[1]
            if f.op == "ext" and f.args[0] == "itertools.chain.from_iterable" and a:
                return self(a[0])
            if f.op == "ext" and f.args[0].split(".")[-1] in KEEP_CALL and a:
                return self(a[0])
            if f.op == "method" and f.args[1] in KEEP_METHOD:
                return self(f.args[0])
            if f.op == "ext" and f.args[0].split(".")[-1] in ("zeros", "ones", "empty", "arange", "full"):
                return set()
        return {("?", t)}

    def free(self, t):
        """tables (by mu) the value reads the state of while a loop over them goes on"""
        if t in self.frees:
            return self.frees[t]
        self.frees[t] = frozenset()
        if t.op == "dictof":
            r = frozenset().union(*[self.free(e[1]) for e in t.args[1] if isinstance(e[1], Term)]) - self.bound(t)
        else:
            r = set()
            if t.op == "mu" and t.args[3] == "entries":
                r.add(t.args[2])
            stack = [x for m, _ in t.args for x in m] if t.op == "poly" else list(t.args)
            while stack:
                x = stack.pop()
                if isinstance(x, tuple):
                    stack += x
                elif isinstance(x, Term) and x.op not in ("const", "keys", "elems"):
                    r |= self.free(x)
            r = frozenset(r)
        self.frees[t] = r
        return r

    def bound(self, t):
        fs = [self.free(e[1]) for e in t.args[1] if isinstance(e[1], Term)]
        return frozenset().union(*fs[1:]) - fs[0] if len(fs) > 1 else frozenset()

    def table(self, t, origins):
        """origins of the values of a table; what a loop over a table reads from it (mu) is what the table held before"""
        out, before = set(), set()
        bound = self.bound(t)
        for e, sure in surviving(t.args[1]):
            if not isinstance(e[1], Term):
                continue
            mus = self.free(e[1]) & bound
            if mus:
                memo, env = self.memo, self.env
                self.memo, self.env = {}, {**env, **{m: frozenset(before) for m in mus}}
                o = origins(e[1])
                self.memo, self.env = memo, env
            else:
                o = origins(e[1])
            before |= o
            if sure is not None:
                out |= o if sure else maybe(o)
        return settle(out)

    def field(self, t, key, seen):
        """origins of t[key] where t is a record or a table of records"""
        self.keys.add(key)
        if t in seen:
            return set()
        seen.add(t)
        op = t.op
        if op == "dictof":
            out, named = set(), False
            for e in t.args[1]:
                if e[0] == key:
                    named = True
                    out |= self(e[1])
            if named:
                return out
            return self.table(t, lambda x: self.field(x, key, set(seen)))
        if op == "gamma":
            return self.field(t.args[1], key, seen) | self.field(t.args[2], key, seen)
        if op == "item":
            return self.field(t.args[0], key, seen)
        if op in ("fold", "last"):
            out = set()
            for a in t.args[2:]:
                if isinstance(a, Term):
                    out |= self.field(a, key, seen)
            return out
        if op == "store":
            return self.field(t.args[0], key, seen) | (self(t.args[2]) if t.args[1] == key else set() if is_str(t.args[1]) else self.field(t.args[2], key, seen))
        if op == "mu":
            return self.env.get(t.args[2], set())
        if op in ("const", "unbound", "missing"):
            return set()
        return {("?", t)}


def maybe(o):
    return {(l, s) if isinstance(l, (str, tuple)) else (("maybe", l), s) for l, s in o}


def settle(o):
    return {(l, s) for l, s in o if not (isinstance(l, tuple) and (l[1], s) in o)}


def ran(g):
    """the condition that a loop has turns at all: where it has none there is no value to speak of"""
    return isinstance(g, Term) and g.op == "cmp" and any(x.op == "len" for x in g.args[1:] if isinstance(x, Term)) and C(0) in g.args


def surviving(entries):
    """(entry, certain) of a table: None when a later one replaces it, False when a later one may"""
    out = []
    for i, e in enumerate(entries):
        sure = True
        for f in entries[i + 1:]:
            if f[0] == e[0] and (f[2] is True or f[2] == TRUE or f[2] == e[2] or ran(f[2])):
                sure = None
                break
            if not (isinstance(f[0], (str, int)) or isinstance(f[0], Term) and is_const(f[0])) and not (isinstance(e[1], Term) and e[1].op == "item" and e[0] == f[0]):
                sure = False
        out.append((e, sure))
    return out


def leaf(t):
    return t if t.op in ("row", "itok", "ftok", "tok") else None


# ------------------------------------------------------------------ the two layouts of the reader
def header(col):
    return T("tok", "MeshFormat", C(0), C(col))


def version_conditions(r):
    """conditions the generic run of the reader takes on the header of the file"""
    en = r.en
    norm = Norm(en)
    out = {}

    def see(c):
        if not isinstance(c, Term) or c.op in ("const",):
            return
        n = norm(c)
        toks = {x for x in walk(n) if x.op in ("tok", "itok", "ftok")}
        if toks and all(x.args[0] == "MeshFormat" for x in toks) and all(x.args[1] == C(0) for x in toks) and not contains(n, lambda x: x.op in ("sec", "idx", "mu")):
            if n.op in ("cmp", "not", "truth"):
                out[c] = n
    seen = set()

    def terms(t):
        for x in walk(t, seen):
            if x.op == "gamma" or x.op == "g":
                for y in walk(x.args[0]):
                    see(y)

    def go(evs):
        for e in evs:
            for f in getattr(e, "facts", ()):
                if f not in seen:
                    for y in walk(f):
                        see(y)
                    seen.add(f)
            for a in e[1:]:
                if isinstance(a, Term):
                    if e[0] in ("if", "assert"):
                        for y in walk(a):
                            see(y)
                    terms(a)
                elif isinstance(a, list):
                    go(a)
    go(r.events)
    if r.obj is not None:
        for v in en.obj(r.obj).f.values():
            if isinstance(v, Term):
                terms(en.freeze(v))
    return out


def unhead(n, values):
    """the normalised condition with the header tokens given"""
    m = {}
    for x in walk(n):
        if x.op in ("tok", "itok", "ftok") and x.args[0] == "MeshFormat" and is_int(x.args[2]) and x.args[2].args[0] < len(values):
            s = values[x.args[2].args[0]]
            try:
                m[x] = C(s if x.op == "tok" else int(s) if x.op == "itok" else float(s))
            except ValueError:
                m[x] = T("raises")
    return boolean(Norm()(subst(n, m)))


def boolean(x):
    """truth values of constants"""
    if x.op == "not":
        return not_(boolean(x.args[0]))
    if x.op == "truth" and isinstance(x.args[0], Term):
        y = boolean(x.args[0])
        return (TRUE if y.args[0] else FALSE) if is_const(y) else x
    return x


_runs = {}


def run_header(values):
    """(run of the reader for files whose header line is `values`, undecided conditions)"""
    r = registry.run_reader("GMSH")
    if "conds" not in _runs:
        _runs["conds"] = version_conditions(r)
    assume, open_ = [], []
    for c, n in sorted(_runs["conds"].items(), key=lambda k: k[0].n):
        x = unhead(n, values)
        if x == TRUE:
            assume.append(c)
        elif x == FALSE:
            assume.append(not_(c))
        else:
            open_.append(n)
    return registry.run_reader("GMSH", tuple(assume)), open_, assume


def layouts():
    """[(version, run)] of the two layouts"""
    return [(v, run_header((v, "0", "8"))[0]) for v in ("2.2", "4.1")]
