"""Arrays as loop nests: the rows of an array term, in order, with sizes that stay symbolic.

A tree is   one<x>            a single row: x is a scalar term, or cols<a, b, ...> for a row of a table
            loop<v, n, body>  body for v = 0 .. n-1
            cat<t, ...>       one after the other
Array terms of the engine (tile, concatenate, stores of slices in loops, comprehensions, products of ranges, ...) are rewritten
into trees; two arrays are equal when their trees are, up to the names of loop variables.  Nothing is evaluated."""
from . import terms
from .terms import T, C, Term, TRUE, FALSE, NONE, add, sub, mul, subst, walk, contains, is_int, is_num, is_const, poly_of, poly_make, show, not_, cmp


class Unknown(Exception):
    pass


_n = [0]


def var():
    _n[0] += 1
    return T("sym", f"%{_n[0]}")


def is_tree(t):
    return isinstance(t, Term) and t.op in ("loop", "one", "cat")


def refresh(t):
    """the tree with new loop variables"""
    if t.op == "loop":
        v = var()
        return T("loop", v, t.args[1], refresh(put(t.args[2], t.args[0], v)))
    if t.op == "cat":
        return T("cat", *(refresh(x) for x in t.args))
    return t


def put(t, v, x):
    return subst(t, {v: x})


def loop(n, f):
    """tree of f(v) for v < n"""
    if n == C(0):
        return T("cat")
    if n == C(1):
        return f(C(0))
    v = var()
    return T("loop", v, n, f(v))


def cat(ts):
    out = []
    for t in ts:
        out += list(t.args) if t.op == "cat" else [t]
    return out[0] if len(out) == 1 else T("cat", *out)


def size(t):
    if t.op == "one":
        return C(1)
    if t.op == "loop":
        s = size(t.args[2])
        if contains(s, lambda x: x is t.args[0]):
            raise Unknown("rows of a loop depend on its variable")
        return mul(t.args[1], s)
    s = C(0)
    for x in t.args:
        s = add(s, size(x))
    return s


def width(t):
    """number of columns, None for a vector"""
    if t.op == "one":
        return len(t.args[0].args) if t.args[0].op == "cols" else None
    if t.op == "loop":
        return width(t.args[2])
    ws = {width(x) for x in t.args}
    if len(ws) > 1:
        raise Unknown("rows of different widths")
    return ws.pop() if ws else None


def leaves(t, loops=()):
    """(loops, row) in order; loops = ((v, n), ...)"""
    if t.op == "one":
        yield loops, t.args[0]
    elif t.op == "loop":
        yield from leaves(t.args[2], loops + ((t.args[0], t.args[1]),))
    else:
        for x in t.args:
            yield from leaves(x, loops)


def flat(t, limit=4):
    """normal form of the structure: loops over a constant small number of turns are unrolled, single turns removed"""
    if t.op == "loop":
        b = flat(t.args[2], limit)
        n = t.args[1]
        if is_int(n) and n.args[0] <= limit:
            return cat([put(b, t.args[0], C(k)) for k in range(n.args[0])])
        return T("loop", t.args[0], n, b)
    if t.op == "cat":
        return cat([flat(x, limit) for x in t.args])
    return t


def canon(t, depth=0):
    """names of loop variables by depth"""
    if t.op == "loop":
        v = T("sym", f"%d{depth}")
        return T("loop", v, t.args[1], canon(put(t.args[2], t.args[0], v), depth + 1))
    if t.op == "cat":
        return T("cat", *(canon(x, depth) for x in t.args))
    return t


def normal(t):
    return canon(refresh(flat(t)))


def zipw(f, *ts):
    """rows of arrays of one structure put together"""
    if all(t.op == "one" for t in ts):
        return T("one", f(*(t.args[0] for t in ts)))
    if all(t.op == "loop" for t in ts) and len({t.args[1] for t in ts}) == 1:
        v = var()
        return T("loop", v, ts[0].args[1], zipw(f, *(put(t.args[2], t.args[0], v) for t in ts)))
    if all(t.op == "cat" for t in ts) and len({len(t.args) for t in ts}) == 1:
        return cat([zipw(f, *p) for p in zip(*(t.args for t in ts))])
    # one of them may be split as the other is
    for i, t in enumerate(ts):
        if t.op == "cat":
            cuts, p = [], C(0)
            for x in t.args:
                q = add(p, size(x))
                cuts.append((p, q))
                p = q
            parts = []
            for (a, b), k in zip(cuts, range(len(cuts))):
                parts.append(zipw(f, *(u.args[k] if u.op == "cat" and len(u.args) == len(cuts) and size(u.args[k]) == sub(b, a) else rows(u, a, b) for u in ts)))
            return cat(parts)
    lo = [t for t in ts if t.op == "loop"]
    if len(lo) == len(ts):
        # regroup the flat ones like the nested ones
        deep = max(lo, key=depth)
        n, b = deep.args[1], size(deep.args[2])
        out = []
        for t in ts:
            out.append(t if t.args[1] == n and size(t.args[2]) == b else regroup(t, b))
        if all(t.op == "loop" and t.args[1] == n for t in out) and tuple(out) != tuple(ts):
            return zipw(f, *out)
    raise Unknown("arrays of different structures: " + " / ".join(show(size(t), 3) for t in ts))


def depth(t):
    return 1 + depth(t.args[2]) if t.op == "loop" else max((depth(x) for x in t.args), default=0) if t.op == "cat" else 0


def leading(d):
    return max(d, key=lambda m: (len(m), [a.n for a in m]))


def divide(p, m):
    """p / m when exact, None otherwise"""
    if m == C(1):
        return p
    a, b = poly_of(p), poly_of(m)
    if not b:
        return None
    lb = leading(b)
    q = {}
    for _ in range(50):
        if not a:
            return poly_make(q)
        la = leading(a)
        rest = list(la)
        for x in lb:
            if x not in rest:
                return None
            rest.remove(x)
        if a[la] % b[lb] if isinstance(a[la], int) and isinstance(b[lb], int) else True:
            return None
        c = a[la] // b[lb]
        mono = tuple(sorted(rest, key=lambda t: t.n))
        q[mono] = q.get(mono, 0) + c
        d = dict(a)
        for k, x in b.items():
            w = tuple(sorted(k + mono, key=lambda t: t.n))
            d[w] = d.get(w, 0) - c * x
            if d[w] == 0:
                del d[w]
        a = d
    return None


def regroup(t, m):
    """the array as a loop over blocks of m rows"""
    s = size(t)
    if t.op == "loop":
        if size(t.args[2]) == m:
            return t
        k = divide(m, size(t.args[2]))
        if k is not None:
            n = divide(t.args[1], k)
            if n is not None:
                return loop(n, lambda a: loop(k, lambda b: put(t.args[2], t.args[0], add(mul(k, a), b))))
        k = divide(size(t.args[2]), m)
        if k is not None:
            inner = regroup(t.args[2], m)
            if inner.op == "loop":
                return None_nested(t, inner)
    if t.op == "cat" and all(size(x) == m for x in t.args) and len(t.args) > 1:
        raise Unknown("blocks of a sequence")
    if s == m:
        return T("loop", var(), C(1), t)
    raise Unknown(f"blocks of {show(m, 3)} rows in {show(s, 3)}")


def None_nested(t, inner):
    raise Unknown("blocks inside blocks")


def rows(t, lo, hi):
    """rows lo .. hi-1"""
    t0 = t
    if lo == hi:
        return T("cat")
    if lo == C(0) and hi == size(t):
        return t
    if t.op == "loop":
        m = size(t.args[2])
        a, b = divide(lo, m), divide(hi, m)
        if a is not None and b is not None:
            return loop(sub(b, a), lambda v: refresh(put(t.args[2], t.args[0], add(v, a))))
    if t.op == "cat":
        p, out, on = C(0), [], False
        for x in t.args:
            q = add(p, size(x))
            if p == lo and not on:
                on = True
            if on:
                if is_num(sub(hi, p)) and is_num(size(x)) or q == hi or True:
                    d = sub(q, hi)
                    if is_num(d) and d.args[0] > 0:
                        out.append(rows(x, C(0), sub(hi, p)))
                        return cat(out)
                    out.append(x)
                    if q == hi:
                        return cat(out)
            else:
                d, e = sub(lo, p), sub(q, lo)
                if is_num(d) and is_num(e) and d.args[0] > 0 and e.args[0] > 0:
                    h = sub(hi, q)
                    if is_num(h) and h.args[0] <= 0:
                        return rows(x, d, sub(hi, p))
                    out.append(rows(x, d, sub(q, p)))
                    on = True
            p = q
    raise Unknown(f"rows {show(lo, 3)} to {show(hi, 3)} of {show(size(t0), 3)}")


def at(t, pos):
    """row at a position"""
    if is_int(pos) and pos.args[0] < 0:
        pos = add(size(t), pos)
    if t.op == "loop":
        m = size(t.args[2])
        if m == C(1):
            return at(put(t.args[2], t.args[0], pos), C(0))
        a = divide(pos, m)
        if a is not None:
            return at(put(t.args[2], t.args[0], a), C(0))
    if t.op == "one" and pos == C(0):
        return t.args[0]
    if t.op == "cat":
        p = C(0)
        for x in t.args:
            q = add(p, size(x))
            d, e = sub(pos, p), sub(q, pos)
            if is_num(d) and d.args[0] == 0 and x.op == "one":
                return x.args[0]
            if is_num(d) and is_num(e) and d.args[0] >= 0 and e.args[0] > 0:
                return at(x, d)
            p = q
    raise Unknown("row " + show(pos, 3))


def columns(t, a, b=None):
    """column a, or columns a .. b-1"""
    if t.op == "one":
        if t.args[0].op != "cols":
            raise Unknown("column of a vector")
        c = t.args[0].args
        if b is None:
            if not -len(c) <= a < len(c):
                raise Unknown(f"column {a} of {len(c)}")
            return T("one", c[a])
        return T("one", T("cols", *c[a:b]))
    if t.op == "loop":
        return T("loop", t.args[0], t.args[1], columns(t.args[2], a, b))
    return T("cat", *(columns(x, a, b) for x in t.args))


def mapw(f, t):
    return zipw(f, t)


def pos_tree(t, start=None):
    """the positions of the rows, in the structure of the array"""
    start = C(0) if start is None else start
    if t.op == "one":
        return T("one", start)
    if t.op == "loop":
        v = var()
        return T("loop", v, t.args[1], pos_tree(put(t.args[2], t.args[0], v), add(start, mul(v, size(t.args[2])))))
    out = []
    for x in t.args:
        out.append(pos_tree(x, start))
        start = add(start, size(x))
    return T("cat", *out)


def is_slice(t):
    return t.op == "slice" or t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0].endswith("slice")


SAME = {"array", "asarray", "list", "tuple", "ascontiguousarray", "copy", "atleast_1d", "deepcopy", "asanyarray"}
SAME_METHODS = {"tolist", "copy", "astype", "__iter__"}


class Arrays:
    """`shapes`: {term: (rows, width or None)} of the arrays given; `sizes`: {term: size} of scalar terms; `given`: conditions that hold"""

    def __init__(self, en, shapes=None, given=(), scalars=(), env=None, contents=None):
        """`contents`: {term: values} of arrays given, used with known sizes only"""
        self.contents = contents if env and contents else {}
        self.en, self.given, self.scalars, self.env = en, set(given), set(scalars), env or {}
        self.shapes = {a: (subst(n, self.env), w) for a, (n, w) in (shapes or {}).items()}
        self.memo = {}
        self.bound = {}

    # ------------------------------------------------------------ entry points
    def tree(self, t):
        r = self.ev(t)
        if not is_tree(r):
            raise Unknown("not an array: " + show(t, 3))
        return r

    def scalar(self, t):
        r = self.ev(t)
        if is_tree(r):
            raise Unknown("not a number: " + show(t, 3))
        return r

    def ev(self, t):
        if not isinstance(t, Term):
            raise Unknown(repr(t)[:40])
        if t in self.memo:
            r = self.memo[t]
        else:
            r = self._ev(t)
            if self.env and is_tree(r):
                r = flat(r, 500)
            self.memo[t] = r
        return refresh(r) if is_tree(r) else r

    # ------------------------------------------------------------ conditions
    def truth(self, c):
        """True / False / None"""
        if c == TRUE or c in self.given:
            return True
        if c == FALSE or not_(c) in self.given:
            return False
        if c.op == "not":
            v = self.truth(c.args[0])
            return None if v is None else not v
        if c.op in ("and", "or"):
            vs = [self.truth(a) for a in c.args]
            if c.op == "and":
                return False if False in vs else None if None in vs else True
            return True if True in vs else None if None in vs else False
        if c.op == "truth":
            return self.truth(c.args[0]) if c.args[0].op in ("truth", "cmp", "and", "or", "not") else self.truth_of(c.args[0])
        if c.op == "gamma":
            v = self.truth(c.args[0])
            if v is not None:
                return self.truth(c.args[1] if v else c.args[2])
            a, b = self.truth(c.args[1]), self.truth(c.args[2])
            return a if a == b else None
        if c.op == "cmp" and c.args[0] in ("is", "is not") and NONE in c.args[1:]:
            x = c.args[1] if c.args[2] == NONE else c.args[2]
            try:
                r = self.ev(x)
            except Unknown:
                return None
            if r == NONE:
                return c.args[0] == "is"
            if is_tree(r) or r in self.scalars or is_num(r) or r.op == "poly":
                return c.args[0] == "is not"
            return None
        if c.op == "cmp":
            try:
                a, b = self.ev(c.args[1]), self.ev(c.args[2])
            except Unknown:
                return None
            if is_tree(a) or is_tree(b):
                return None
            r = cmp(c.args[0], a, b)
            if r in (TRUE, FALSE):
                return r == TRUE
            return True if r in self.given else False if not_(r) in self.given else None
        return None

    def truth_of(self, x):
        """True of a sequence that is not empty (numbers of rows given are at least one), and of a comparison that holds everywhere"""
        if x.op == "call" and x.args[0].op == "ext" and x.args[0].args[0] in ("numpy.all", "builtins.all") and len(x.args[1]) == 1:
            x = x.args[1][0]
            if x.op == "cmp" and x.args[0] == "==":
                try:
                    a, b = self.tree(x.args[1]), self.tree(x.args[2])
                    if normal(a) == normal(b):
                        return True
                    if self.env:
                        ra, rb = expand(a, {}), expand(b, {})
                        if all(is_num(z) for z in ra + rb):
                            return ra == rb
                except Unknown:
                    pass
            return None
        try:
            r = self.ev(x)
        except Unknown:
            return None
        if is_tree(r):
            n = size(r)
            if is_num(n):
                return n.args[0] > 0
            return True if all(k > 0 for k in poly_of(n).values()) else None
        if is_num(r):
            return r.args[0] != 0
        return None

    # ------------------------------------------------------------ terms
    def _ev(self, t):
        op = t.op
        if op in ("loop", "one", "cat"):
            return t
        if op == "tree":
            return t.args[0]
        if t in self.contents:
            return cat([T("one", C(x)) for x in self.contents[t]])
        if t in self.shapes:
            n, w = self.shapes[t]
            return loop(n, lambda v: T("one", T("at", t, v) if w is None else T("cols", *(T("at", t, v, C(c)) for c in range(w)))))
        if op == "sym":
            return self.env.get(t, t)
        if op in ("const", "idx", "at", "str"):
            return t
        if op == "ref":
            return self.ev(self.en.freeze(t)) if self.en.freeze(t) is not t else self._unknown(t)
        m = getattr(self, "op_" + op, None)
        if m is None:
            return self.other(t)
        return m(t)

    def _unknown(self, t):
        raise Unknown(show(t, 3)[:80])

    def other(self, t):
        """a term the engine leaves as it is: a scalar of its arguments"""
        parts = []
        for a in t.args:
            if isinstance(a, Term):
                if a.op in ("ext", "method", "attr", "func"):
                    parts.append(a)
                    continue
                r = self.ev(a)
                if is_tree(r):
                    raise Unknown(t.op + " of an array")
                parts.append(r)
            else:
                parts.append(a)
        return T(t.op, *parts)

    def op_poly(self, t):
        vals = {a: self.ev(a) for a in {x for m in poly_of(t) for x in m}}
        return self.combine(vals, lambda v: subst_poly(t, v))

    def op_bin(self, t):
        a, b = self.ev(t.args[1]), self.ev(t.args[2])
        x, y = T("sym", "%a"), T("sym", "%b")
        return self.combine({x: a, y: b}, lambda v: T("bin", t.args[0], v[x], v[y]))

    def combine(self, vals, f):
        """element by element, with numbers and rows repeated"""
        trees = {k: v for k, v in vals.items() if is_tree(v)}
        flat_ = {k: v for k, v in vals.items() if not is_tree(v)}
        if not trees:
            return f(flat_)
        ws = {k: width(v) for k, v in trees.items()}
        tables = [k for k in trees if ws[k] is not None]
        if tables:
            w = {ws[k] for k in tables}
            if len(w) > 1:
                raise Unknown("tables of different widths")
            w = w.pop()
            vecs = {}
            for k in trees:
                if ws[k] is None:
                    if size(trees[k]) != C(w):
                        raise Unknown("a vector that is not a row")
                    vecs[k] = [at(trees[k], C(c)) for c in range(w)]

            def row(*xs):
                return T("cols", *(f({**flat_, **{k: vecs[k][c] for k in vecs}, **{k: x.args[c] for k, x in zip(tables, xs)}}) for c in range(w)))
            return zipw(row, *(trees[k] for k in tables))
        ks = list(trees)
        return zipw(lambda *xs: f({**flat_, **dict(zip(ks, xs))}), *(trees[k] for k in ks))

    # ---- sequences
    def op_seq(self, t):
        return cat([self.chunk(c) for c in t.args])
    op_chunks = op_seq

    def op_vec(self, t):
        return cat([T("one", self.row(a)) for a in t.args])

    def op_tuple(self, t):
        return cat([T("one", self.row(a)) for a in t.args])

    def row(self, a):
        """an element of a sequence: a number, or a row of numbers"""
        r = self.ev(a)
        if is_tree(r):
            r = flat(r)
            if r.op == "one" and r.args[0].op != "cols":
                return T("cols", r.args[0])
            if r.op == "cat" and all(x.op == "one" and x.args[0].op != "cols" for x in r.args):
                return T("cols", *(x.args[0] for x in r.args))
            raise Unknown("a row that is an array")
        return r

    def chunk(self, c):
        if c.op == "e":
            return T("one", self.row(c.args[0]))
        if c.op == "spread":
            return self.tree(c.args[0])
        if c.op == "each":
            return self.each(c)
        if c.op == "g":
            v = self.truth(c.args[0])
            if v is None:
                raise Unknown("rows kept under a condition: " + show(c.args[0], 6))
            return self.chunk(c.args[1]) if v else (self.chunk(c.args[2]) if len(c.args) > 2 and isinstance(c.args[2], Term) else T("cat"))
        if c.op in ("chunks", "seq"):
            return cat([self.chunk(x) for x in c.args])
        raise Unknown("part of a sequence: " + c.op)

    def each(self, c):
        i, space, body = c.args[0], c.args[1], T("chunks", *c.args[2:])
        return self.over(i, space, lambda: self.chunk(body), body)

    def over(self, i, space, make, body):
        """tree of the body for each turn of a loop"""
        if space.op in ("rangespace",):
            n = self.scalar(space.args[0])
            v = var()
            return T("loop", v, n, self.within(i, v, body))
        if space.op == "elems":
            base = self.tree(space.args[0])
            items = {x for x in walk(body) if x.op == "item" and x.args[1] is i}
            arrays = {}
            for x in items:
                arrays[x] = base if x.args[0] is space.args[0] else self.tree(x.args[0])
            ks = list(arrays)
            posn = pos_tree(base)
            return self.graft(i, ks, [posn, base] + [arrays[k] for k in ks], body)
        raise Unknown("loop over " + space.op)

    def graft(self, i, ks, ts, body):
        if all(t.op == "one" for t in ts):
            m = {k: (uncols(t.args[0])) for k, t in zip(ks, ts[2:])}
            b = subst(body, m)
            b = subst(b, {i: ts[0].args[0]})
            return self.fresh_eval(b)
        if all(t.op == "loop" for t in ts) and len({t.args[1] for t in ts}) == 1:
            v = var()
            return T("loop", v, ts[0].args[1], self.graft(i, ks, [put(t.args[2], t.args[0], v) for t in ts], body))
        if all(t.op == "cat" for t in ts) and len({len(t.args) for t in ts}) == 1:
            return cat([self.graft(i, ks, list(p), body) for p in zip(*(t.args for t in ts))])
        raise Unknown("a loop over arrays of different structures")

    def within(self, i, v, body):
        return self.fresh_eval(subst(body, {i: v}))

    def fresh_eval(self, b):
        return cat([self.chunk(x) for x in b.args]) if b.op == "chunks" else self.tree(b)

    def op_rangeof(self, t):
        a, b, s = (self.scalar(x) for x in t.args)
        if s != C(1):
            raise Unknown("range with a step")
        return loop(sub(b, a), lambda v: T("one", add(a, v)))

    def op_rangespace(self, t):
        return loop(self.scalar(t.args[0]), lambda v: T("one", v))

    def op_productof(self, t):
        ts = [self.tree(a) for a in t.args]

        def nest(k, row):
            if k == len(ts):
                return T("one", T("cols", *row))
            return self.bindrow(ts[k], lambda x: nest(k + 1, row + (x,)))
        return nest(0, ())

    def bindrow(self, t, f):
        """f(row) in place of each row"""
        if t.op == "one":
            return f(t.args[0])
        if t.op == "loop":
            v = var()
            return T("loop", v, t.args[1], self.bindrow(put(t.args[2], t.args[0], v), f))
        return cat([self.bindrow(x, f) for x in t.args])

    def op_zipof(self, t):
        return zipw(lambda *xs: T("cols", *xs), *(self.tree(a) for a in t.args))

    def op_mapof(self, t):
        if t.args[0].op == "ext" and t.args[0].args[0].split(".")[-1] in SAME:
            return self.ev(t.args[1])
        raise Unknown("map")

    def op_transpose(self, t):
        raise Unknown("transpose")

    def op_setof(self, t):
        """distinct values in an order that is not known: one array per set"""
        parts = []
        for c in t.args:
            parts += list(pieces(flat(self.chunk(c) if c.op in ("e", "spread", "each", "g", "chunks") else self.tree(c))))
        x = T("set", *sorted(set(parts), key=lambda p: p.n))
        return loop(T("card", x), lambda v: T("one", T("at", x, v)))

    def fn_unique(self, a, **k):
        if k:
            raise Unknown("unique")
        return self.op_setof(T("setof", T("spread", a)))

    def fn_set(self, a):
        return self.op_setof(T("setof", T("spread", a)))

    def fn_sorted(self, a, **k):
        t = self.tree(a)
        ls = list(leaves(t))
        if not k and len(ls) == 1 and ls[0][1].op == "at" and ls[0][1].args[0].op == "set":
            return t
        if self.env and not k:
            rs = expand(t, {})
            if all(is_num(r) for r in rs):
                return cat([T("one", r) for r in sorted(rs, key=lambda r: r.args[0])])
        raise Unknown("sorted")

    fn_sort = fn_sorted

    def extreme(self, f, a, more, k):
        if self.env and not k:
            rs = [self.scalar(x) for x in (a,) + more] if more else expand(self.tree(a), {})
            if rs and all(is_num(r) for r in rs):
                return C(f(r.args[0] for r in rs))
        raise Unknown("extreme")

    def fn_max(self, a, *r, **k):
        return self.extreme(max, a, r, k)

    def fn_min(self, a, *r, **k):
        return self.extreme(min, a, r, k)

    def fn_argsort(self, a, *r, **k):
        rs = expand(self.tree(a), {}) if self.env else []
        if rs and all(is_num(r) for r in rs):
            return cat([T("one", C(i)) for i in sorted(range(len(rs)), key=lambda i: rs[i].args[0])])
        raise Unknown("argsort")

    def fn_reversed(self, a):
        return self.get(self.tree(a), T("slice", NONE, NONE, C(-1)))

    # ---- calls
    def op_call(self, t):
        f, args, kw = t.args
        kw = dict(kw) if kw else {}
        if f.op == "ext":
            name = f.args[0].split(".")[-1]
            m = getattr(self, "fn_" + name, None)
            if f.args[0].split(".")[0] in ("numpy", "builtins", "itertools") and m is not None:
                return m(*args, **kw)
            if name in SAME:
                return self.ev(args[0])
            if name in ("float", "int", "float64", "int64"):
                r = self.ev(args[0])
                if is_tree(r):
                    return r
                return T("call", f, (r,), ())
        if f.op in ("method", "attr"):
            base, name = f.args[0], f.args[1]
            if name in SAME_METHODS:
                return self.ev(base)
            m = getattr(self, "fn_" + name, None)
            if m is not None and name in ("ravel", "flatten", "reshape", "repeat", "sum", "cumsum", "transpose", "max", "min", "argsort"):
                return m(base, *args, **kw)
        if all(not is_tree(self.ev(a)) for a in args if isinstance(a, Term)):
            return T("call", f, tuple(self.ev(a) for a in args), t.args[2])
        raise Unknown("call " + show(f, 2))

    def fn_len(self, a):
        return size(self.tree(a))

    def fn_range(self, a, b=None, c=None):
        return self.op_rangeof(T("rangeof", *((C(0), a) if b is None else (a, b)), c or C(1)))

    fn_arange = fn_range

    def fn_arange(self, a, b=None, c=None, dtype=None):
        return self.fn_range(a, b, c)

    def fn_product(self, *a):
        return self.op_productof(T("productof", *a))

    def fn_zip(self, *a):
        return self.op_zipof(T("zipof", *a))

    def fn_concatenate(self, a, axis=None, dtype=None):
        if axis is not None and axis != C(0):
            if axis in (C(1), C(-1)):
                return self.fn_hstack(a)
            raise Unknown("concatenation along " + show(axis, 2))
        return cat([self.tree(x) for x in self.items(a)])

    fn_vstack = fn_concatenate

    def fn_hstack(self, a):
        ts = [self.tree(x) for x in self.items(a)]
        if all(width(x) is None for x in ts):
            return cat(ts)
        return zipw(lambda *xs: T("cols", *(c for x in xs for c in (x.args if x.op == "cols" else (x,)))), *ts)

    def fn_column_stack(self, a):
        return zipw(lambda *xs: T("cols", *(c for x in xs for c in (x.args if x.op == "cols" else (x,)))), *(self.tree(x) for x in self.items(a)))

    def items(self, a):
        """terms of a sequence of known length"""
        if a.op in ("tuple", "vec"):
            return a.args
        if a.op == "seq" and all(x.op == "e" for x in a.args):
            return [x.args[0] for x in a.args]
        if a.op == "ref":
            return self.items(self.en.freeze(a))
        if a.op == "const" and isinstance(a.args[0], tuple):
            return [C(x) for x in a.args[0]]
        raise Unknown("sequence of unknown length")

    def fn_tile(self, a, reps):
        t = self.tree(a)
        try:
            r = [self.scalar(x) for x in self.items(reps)]
        except Unknown:
            r = [self.scalar(reps)]
        if len(r) == 1:
            if width(t) is not None:
                raise Unknown("tile along the columns")
            return loop(r[0], lambda v: refresh(t))
        if len(r) == 2 and is_int(r[1]):
            if width(t) is None:
                raise Unknown("tile of a vector to a table")
            k = r[1].args[0]
            return loop(r[0], lambda v: mapw(lambda x: T("cols", *(x.args * k)), t))
        raise Unknown("tile")

    def fn_repeat(self, a, n, axis=None):
        t, k = self.tree(a), self.scalar(n)
        if width(t) is not None and axis != C(0):
            raise Unknown("repeat")
        return self.bindrow(t, lambda x: loop(k, lambda v: T("one", x)))

    def fn_ravel(self, a, order=None):
        t = self.tree(a)
        if order is not None:
            raise Unknown("order")
        return self.bindrow(t, lambda x: cat([T("one", c) for c in x.args]) if x.op == "cols" else T("one", x))

    fn_flatten = fn_ravel

    def fn_sum(self, a, *r, **k):
        if r or k:
            raise Unknown("sum")
        t = flat(self.tree(a))
        s = C(0)
        for x in t.args if t.op == "cat" else [t]:
            n = C(1)
            while x.op == "loop" and not contains(x.args[2], lambda y: y is x.args[0]):
                n, x = mul(n, x.args[1]), x.args[2]
            if x.op != "one":
                raise Unknown("sum over a loop")
            s = add(s, mul(n, x.args[0]))
        return s

    def fn_cumsum(self, a, *r, **k):
        t = flat(self.tree(a))
        out, s = [], C(0)
        for x in (t.args if t.op == "cat" else [t]):
            if x.op != "one":
                raise Unknown("running sum over a loop")
            s = add(s, x.args[0])
            out.append(T("one", s))
        return cat(out)

    def fn_zeros(self, n, *a, **k):
        return loop(self.scalar(n), lambda v: T("one", C(0)))

    def fn_full_like(self, a, x, *r, **k):
        s = self.scalar(x)
        return self.bindrow(self.tree(a), lambda _: T("one", s))

    # ---- items, slices, attributes
    def op_len(self, t):
        a = t.args[0]
        return size(self.chunk(a) if a.op in ("e", "spread", "each", "g", "chunks") else self.tree(a))

    def op_attr(self, t):
        name = t.args[1]
        if name == "size":
            x = self.tree(t.args[0])
            w = width(x)
            return size(x) if w is None else mul(size(x), C(w))
        raise Unknown("attribute " + str(name))
    op_field = op_attr

    def op_item(self, t):
        a, k = t.args
        if a.op in ("attr", "method") and a.args[1] == "shape":
            x = self.tree(a.args[0])
            if k == C(0):
                return size(x)
            if k == C(1) and width(x) is not None:
                return C(width(x))
            raise Unknown("shape")
        if a.op in ("attr", "method") and a.args[1] == "T":
            x = self.tree(a.args[0])
            if is_int(k):
                return columns(x, k.args[0])
            raise Unknown("row of a transposed table")
        if a.op == "mapof" and a.args[1].op == "unzip" and is_int(k):
            return columns(self.tree(a.args[1].args[0]), k.args[0])
        if a.op == "unzip" and is_int(k):
            return columns(self.tree(a.args[0]), k.args[0])
        return self.get(self.tree(a), k)

    def get(self, x, k):
        if k.op == "tuple" or k.op == "vec" and width(x) is not None and len(k.args) == 2 and any(is_slice(y) for y in k.args):
            if len(k.args) == 1:
                return self.get(x, k.args[0])
            r, c = k.args[:2]
            if is_slice(r) or is_tree(self.ev(r)):
                y = self.get(x, r)
                if is_slice(c):
                    a, b = self.bounds(c, C(width(y) or 0))
                    if not is_int(a) or not is_int(b):
                        raise Unknown("columns")
                    return columns(y, a.args[0], b.args[0])
                cc = self.ev(c)
                if is_int(cc):
                    return columns(y, cc.args[0])
                if is_tree(cc):
                    cs = flat(cc)
                    cs = cs.args if cs.op == "cat" else [cs]
                    if all(z.op == "one" and is_int(z.args[0]) for z in cs):
                        idx = [z.args[0].args[0] for z in cs]
                        return mapw(lambda z: T("cols", *(z.args[j] for j in idx)), y)
                raise Unknown("columns")
            y = at(x, self.scalar(r))
            if is_slice(c):
                return cat([T("one", z) for z in y.args])
            cc = self.scalar(c)
            if is_int(cc):
                return y.args[cc.args[0]]
            raise Unknown("column")
        if is_slice(k):
            if self.env and len(k.args) == 3 and is_int(k.args[2]) and k.args[2] != C(1):
                rs = expand(flat(x, 500), {})
                ends = [None if z == NONE else self.scalar(z) for z in k.args[:2]]
                if all(z is None or is_int(z) for z in ends):
                    return cat([T("one", r) for r in rs[slice(*(z if z is None else z.args[0] for z in ends), k.args[2].args[0])]])
            a, b = self.bounds(k, size(x))
            return rows(x, a, b)
        kk = self.ev(k)
        if is_tree(kk):
            return self.bindrow(kk, lambda p: T("one", found(at(x, p))))
        r = at(x, kk)
        return cat([T("one", z) for z in r.args]) if r.op == "cols" else r

    def bounds(self, s, n):
        a, b, c = (list(s.args) + [NONE] * 3)[:3]
        if c not in (NONE, C(1)):
            raise Unknown("slice with a step")
        lo = C(0) if a == NONE else self.scalar(a)
        hi = n if b == NONE else self.scalar(b)
        if is_int(lo) and lo.args[0] < 0:
            lo = add(n, lo)
        if is_int(hi) and hi.args[0] < 0:
            hi = add(n, hi)
        if is_int(hi) and is_int(n) and hi.args[0] > n.args[0]:
            hi = n
        if is_int(lo) and is_int(hi) and lo.args[0] > hi.args[0]:
            lo = hi
        return lo, hi

    # ---- stores
    def op_store(self, t):
        base, k, val = t.args
        if base.op == "mu":
            raise Unknown("store in a loop")
        x = self.tree(base)
        if self.env:
            r = self.put_rows(x, k, val)
            if r is not None:
                return r
        if k.op in ("tuple", "vec") and len(k.args) == 2 and is_slice(k.args[0]) and self.bounds(k.args[0], size(x)) == (C(0), size(x)):
            c = k.args[1]
            if is_slice(c):
                a, b = self.bounds(c, C(width(x)))
                cols = list(range(a.args[0], b.args[0])) if is_int(a) and is_int(b) else None
            else:
                cc = self.ev(c)
                cols = [cc.args[0] % width(x)] if is_int(cc) else None
            if cols is None:
                raise Unknown("columns stored")
            v = self.ev(val)
            if not is_tree(v):
                return mapw(lambda r: T("cols", *(v if j in cols else y for j, y in enumerate(r.args))), x)

            def new(r, y):
                ys = y.args if y.op == "cols" else (y,) * len(cols)
                return T("cols", *(ys[cols.index(j)] if j in cols else z for j, z in enumerate(r.args)))
            return zipw(new, x, v)
        rs = k.args[0] if k.op in ("tuple", "vec") and len(k.args) == 2 and is_slice(k.args[0]) and is_slice(k.args[1]) and all(z == NONE for z in k.args[1].args) else k
        if is_slice(rs):
            a, b = self.bounds(rs, size(x))
            v = self.ev(val)
            if a == C(0) and b == size(x):
                return v if is_tree(v) else mapw(lambda r: v, x)
            mid = rows(x, a, b)
            v = v if is_tree(v) else mapw(lambda r: v if r.op != "cols" else T("cols", *(v,) * len(r.args)), mid)
            return cat([rows(x, C(0), a), v, rows(x, b, size(x))])
        pos, v = self.ev(rs), self.ev(val)
        if is_tree(pos) and is_tree(v) and width(pos) is None and width(v) is None and width(x) is None:
            pair = normal(zipw(lambda p, y: T("cols", p, y), pos, v))
            was = {r for _, r in leaves(x)}
            was = was.pop() if len(was) == 1 else None
            return loop(size(x), lambda j: T("one", T("scattered", pair, was if was is not None and is_num(was) else at(x, j), j)))
        raise Unknown("store")

    def put_rows(self, x, k, val):
        """store with known sizes"""
        xs = list(x.args) if x.op == "cat" else [x]
        if any(y.op != "one" for y in xs):
            return None
        n = len(xs)
        rk, ck = (k.args[0], k.args[1]) if k.op in ("tuple", "vec") and len(k.args) == 2 else (k, None)
        if is_slice(rk):
            a, b = self.bounds(rk, C(n))
            if not is_int(a) or not is_int(b):
                return None
            idx = list(range(a.args[0], b.args[0]))
        else:
            r = self.ev(rk)
            rs = [r] if not is_tree(r) else [y.args[0] for y in (r.args if r.op == "cat" else [r])]
            if not all(is_int(y) for y in rs):
                return None
            idx = [y.args[0] if y.args[0] >= 0 else y.args[0] + n for y in rs]
        if any(not 0 <= j < n for j in idx):
            raise Unknown("store out of the array")
        v = self.ev(val)
        w = width(x)
        cols = None
        if w is not None:
            cols = list(range(w))
            if ck is not None:
                if is_slice(ck):
                    a, b = self.bounds(ck, C(w))
                    cols = cols[a.args[0]:b.args[0]]
                else:
                    c = self.ev(ck)
                    if not is_int(c):
                        return None
                    cols = [c.args[0] % w]
        if is_tree(v):
            vs = [y.args[0] for y in (v.args if v.op == "cat" else [v])]
            if w is not None and width(v) is None and len(vs) == len(cols) and len(cols) > 1:
                vs = [T("cols", *vs)] * len(idx)
            if len(vs) == 1:
                vs = vs * len(idx)
            if len(vs) != len(idx):
                raise Unknown("store of another size")
        else:
            vs = [v] * len(idx)
        out = list(xs)
        for j, y in zip(idx, vs):
            if w is None:
                out[j] = T("one", y)
            else:
                ys = y.args if y.op == "cols" else (y,) * len(cols)
                if len(ys) != len(cols):
                    raise Unknown("store of other columns")
                out[j] = T("one", T("cols", *(ys[cols.index(c)] if c in cols else z for c, z in enumerate(out[j].args[0].args))))
        return cat(out)

    def op_fold(self, t):
        i, space, init, step = t.args
        x = self.tree(init)
        if space.op == "rangespace":
            n = self.scalar(space.args[0])
            turn = None
        elif space.op == "elems":
            n = size(self.tree(space.args[0]))
        else:
            raise Unknown("loop over " + space.op)
        if self.env:
            if not is_int(n):
                raise Unknown("number of turns")
            mus = {y for y in walk(step) if y.op == "mu" and y.args[1] is space and (not is_tree(y))}
            for k in range(n.args[0]):
                b = subst(step, {y: T("tree", x) for y in mus})
                x = self.tree(subst(b, {i: C(k)}))
            return x
        chain = []
        s = step
        while s.op == "store":
            chain.insert(0, s)
            s = s.args[0]
        if s.op != "mu" or not chain:
            raise Unknown("a loop that does more than storing")
        mu = s
        for st in chain:
            x = self.blocks(x, i, n, mu, st)
        return x

    def blocks(self, x, i, n, mu, st):
        """rows m*i .. m*i+m-1 rewritten on turn i"""
        _, k, val = st.args
        rs = k.args[0] if k.op in ("tuple", "vec") and len(k.args) == 2 and is_slice(k.args[0]) else k
        if not is_slice(rs):
            raise Unknown("store of a row in a loop")
        lo, hi = self.bounds(rs, size(x))
        m = sub(hi, lo)
        if contains(m, lambda y: y is i):
            raise Unknown("blocks of growing size")
        first = sub(lo, mul(m, i))
        off = divide(first, m)
        if off is None or contains(off, lambda y: y is i):
            raise Unknown("blocks that overlap")
        g = regroup(x, m)
        if g.op != "loop" or size(g.args[2]) != m:
            raise Unknown("blocks")
        N = g.args[1]

        def block(v):
            old = refresh(put(g.args[2], g.args[0], add(v, off)))
            names = {y for y in walk(val) if y.op == "item" and y.args[0] is mu}
            if any(y.args[1] is not k for y in names):
                raise Unknown("other rows read in a loop")
            rest = T("tree", old)
            if k is not rs:
                cs = k.args[1]
                part = T("tree", self.get(old, T("tuple", T("slice", NONE, NONE, NONE), cs)))
            else:
                part = rest
            b = subst(val, {y: part for y in names})
            if contains(b, lambda y: y is mu):
                raise Unknown("the whole array read in a loop")
            b = subst(b, {i: v})
            new = self.ev(b)
            if k is not rs:
                return self.op_store(T("store", rest, T("tuple", T("slice", NONE, NONE, NONE), k.args[1]), T("tree", new) if is_tree(new) else new))
            if not is_tree(new):
                return mapw(lambda r: new if r.op != "cols" else T("cols", *(new,) * len(r.args)), old)
            if size(new) != size(old):
                return zipw(lambda a, b_: b_, old, new)
            return new
        after = sub(N, add(off, n))
        parts = []
        if off != C(0):
            parts.append(loop(off, lambda v: refresh(put(g.args[2], g.args[0], v))))
        if after == C(0):
            turns = n
        elif is_num(after) and after.args[0] < 0 and is_num(off):
            turns = sub(N, off)  # rows past the end do not exist
            after = C(0)
        elif is_num(after) and after.args[0] > 0:
            turns = n
        else:
            raise Unknown("number of turns")
        parts.append(loop(turns, block))
        if after != C(0):
            parts.append(loop(after, lambda v: refresh(put(g.args[2], g.args[0], add(v, add(off, n))))))
        return cat(parts)

    def op_gamma(self, t):
        v = self.truth(t.args[0])
        if v is None:
            a, b = self.ev(t.args[1]), self.ev(t.args[2])
            if a == b or is_tree(a) and is_tree(b) and normal(a) == normal(b):
                return a
            raise Unknown("a value under a condition: " + show(t.args[0], 3))
        return self.ev(t.args[1] if v else t.args[2])


def pieces(t):
    """families of values of an array: what a set of them does not depend on the order of"""
    for loops, row in leaves(t):
        for x in (row.args if row.op == "cols" else (row,)):
            y = T("one", x)
            for v, n in reversed(loops):
                y = T("loop", v, n, y)
            yield normal(y)


def found(r):
    """the element of a scattered array at a position it was given by: distinct positions are assumed"""
    if r.op == "scattered":
        pair, _, p = r.args
        if p.op == "at":
            for loops, row in leaves(pair):
                if row.op == "cols" and len(loops) == 1 and row.args[0] == T("at", p.args[0], loops[0][0]) and len(p.args) == 2:
                    return put(row.args[1], loops[0][0], p.args[1])
    return r


def uncols(x):
    return T("tuple", *x.args) if x.op == "cols" else x


def subst_poly(t, v):
    out = C(0)
    for m, c in poly_of(t).items():
        p = C(c)
        for a in m:
            p = mul(p, v[a])
        out = add(out, p)
    return out


# ---------------------------------------------------------------- sets and comparisons
def same(a, b):
    """the arrays have the same rows in the same order"""
    return normal(a) == normal(b)


def expand(t, env):
    """rows for given sizes (witness of a difference between two normal forms)"""
    if t.op == "one":
        return [subst(t.args[0], env) if env else t.args[0]]
    if t.op == "loop":
        n = subst(t.args[1], env)
        if not is_int(n) or n.args[0] > 4000:
            raise Unknown("number of turns " + show(n, 3))
        out = []
        for k in range(n.args[0]):
            out += expand(put(t.args[2], t.args[0], C(k)), env)
        return out
    return [r for x in t.args for r in expand(x, env)]


def known(t):
    """the array is made of sizes, loop variables and elements of the given arrays only"""
    return all(x.op in ("loop", "one", "cat", "cols", "at", "sym", "const", "poly", "set", "card", "setval") for x in walk(t))


def values(x, env):
    """the row with the elements of sets named by what is in the set at the given sizes"""
    sets = {y for y in walk(x) if y.op == "set"}
    if not sets:
        return x
    return subst(x, {y: value_of_set(y, env) for y in sets})


def value_of_set(y, env):
    out = set()
    for p in y.args:
        out |= set(expand(p, env))
    return T("setval", *sorted(out, key=lambda t: t.n))


def spread_sets(t, env):
    """the array with cardinals and sets at the given sizes (a witness: the values of a set are taken to be distinct)"""
    t = values(t, env)
    return subst(t, {y: C(len(y.args[0].args)) for y in walk(t) if y.op == "card"})


def fill(t, contents):
    """elements of the arrays whose content is given"""
    while contents:
        m = {x: C(contents[x.args[0]][x.args[1].args[0]]) for x in walk(t) if x.op == "at" and x.args[0] in contents and is_int(x.args[1]) and len(x.args) == 2}
        if not m:
            break
        t = subst(t, m)
    return t


def decide(en, term, want, shapes, scalars, env, contents=None):
    """(True / False / None, what was found): the array is `want` for all sizes; it is not at the sizes `env`; not decided"""
    why = ""
    try:
        got = Arrays(en, shapes, scalars=scalars).tree(en.freeze(term))
        if same(got, want):
            return True, ""
        why = show(normal(got), 7)
    except Unknown as e:
        why = str(e)
    try:
        got = Arrays(en, shapes, scalars=scalars, env=env, contents=contents).tree(en.freeze(term))
        got, ref = spread_sets(got, env), spread_sets(want, env)
        if not known(got):
            return None, why
        a, b = expand(got, env), [fill(x, contents) for x in expand(ref, env)]
    except Unknown as e:
        return None, why or str(e)
    if a != b:
        k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), None)
        if k is None:
            return False, f"{len(a)} rows instead of {len(b)} when {sizes_text(env)}"
        return False, f"row {k} is {show(a[k], 5)} instead of {show(b[k], 5)} when {sizes_text(env)}"
    return None, why


def sizes_text(env):
    return ", ".join(f"{show(k, 1)}={show(v, 1)}" for k, v in env.items())
