"""Models of builtins, numpy and the few library calls whose meaning the analysis needs.

Everything not modelled is an uninterpreted pure term (plus an 'xcall' event when it may have an effect).
"""
from .terms import *
from .terms import T, C, NONE, TRUE, FALSE, add, sub, mul, neg, is_const, cval, is_int, strcat, repeat, and_, or_, not_, cmp, gamma, lookup
from . import engine as E
from .structfmt import dtype_form, SIZES
import struct as _struct

MATERIAL = {"numpy.zeros", "numpy.ones", "numpy.empty", "numpy.full", "numpy.full_like", "numpy.zeros_like", "numpy.ones_like",
            "numpy.empty_like", "numpy.tile", "numpy.array", "numpy.arange", "numpy.copy", "numpy.repeat", "numpy.concatenate"}


def _kw(kw):
    return tuple((k, v) for k, v in sorted(kw.items()))


def pure(en, f, args, kw):
    return T("call", f, tuple(en.freeze(a) for a in args), tuple((k, en.freeze(v)) for k, v in sorted(kw.items())))


def length(en, v):
    v = en.simp(v)
    if v.op == "gamma":
        return en.branch_value(v.args[0], lambda: length(en, v.args[1]), lambda: length(en, v.args[2]))
    if is_const(v) and isinstance(v.args[0], (str, bytes, tuple, range)):
        return C(len(v.args[0]))
    els = en.known_elems(v, limit=10000)
    if els is not None:
        return C(len(els))
    o = en.obj(v)
    if o is not None:
        if o.kind in ("list",):
            return chunks_len(o.f["chunks"], en)
        if o.kind == "inst":
            cls = en.classes[o.cls]
            m = en.class_lookup(cls, "__len__")
            if m is not None:
                return en.call(en.bind(m, v, cls), [], {})
        if o.kind == "dict" and o.base is not None and not o.f["entries"]:
            return T("len", o.base)
    if v.op == "strcat":
        r = C(0)
        for p in v.args:
            r = add(r, C(len(p.args[0])) if is_const(p) else T("len", p))
        return r
    if v.op == "repeat":
        return mul(length(en, v.args[0]), v.args[1])
    if v.op == "rangeof" and v.args[2] is C(1):
        return sub(v.args[1], v.args[0])
    return T("len", en.freeze(v))


def chunks_len(ch, en=None):
    r = C(0)
    for c in ch:
        r = add(r, chunk_len(c))
    return r


def chunk_len(c):
    if c.op == "e":
        return C(1)
    if c.op == "each":
        inner = C(0)
        for x in c.args[2:]:
            inner = add(inner, chunk_len(x))
        if contains(inner, lambda t: t is c.args[0]):
            return T("sum", c.args[0], c.args[1], inner)
        return mul(E.space_count(c.args[1]), inner)
    if c.op == "g":
        return gamma(c.args[0], chunks_len(c.args[1].args), chunks_len(c.args[2].args))
    return T("len", c)


def mkarr(en, val, dtype=None):
    return en.ref("arr", {"val": val, **({"dtype": dtype} if dtype is not None else {})})


def small(en, n):
    return is_int(n) and 0 <= n.args[0] <= 64


def call_ext(en, f, args, kw):
    n = f.args[0]
    args = [en.simp(a) for a in args]
    if any(a.op == "star" for a in args):
        en_args = [a.args[0] if a.op == "star" else a for a in args]
        if not n.startswith(("struct.", "builtins.print", "builtins.min", "builtins.max", "builtins.zip")):
            return pure_star(en, f, args, kw)
    h = HANDLERS.get(n)
    if h is not None:
        r = h(en, f, args, kw)
        if r is not None:
            return r
    if n.startswith("logging.") or n.startswith("warnings."):
        if en.logs is not None:
            en.logs.append((n, [en.freeze(a) for a in args]))
        return T("ext", "logging.result")
    if n in CLOCKS and not args and not kw:
        en.rdcount += 1
        return T("clock", n, en.rdcount)
    if n.startswith("numpy."):
        out = kw.get("out")
        if out is not None:
            en.event("mutate", out, "out", NONE, NONE)
        if n in ("numpy.random.rand", "numpy.random.random"):
            return en.unk("random")
        if n.split(".")[-1] in ("save", "savetxt", "savez", "tofile"):
            en.event("xcall", f, tuple(en.freeze(a) for a in args), _kw({k: en.freeze(v) for k, v in kw.items()}))
        if n in MATERIAL:
            return mkarr(en, pure(en, f, args, kw))
        return pure(en, f, args, kw)
    if n.startswith(("itertools.", "math.", "functools.", "operator.", "collections.", "re.", "copy.")):
        return pure(en, f, args, kw)
    if n.startswith("builtins.") and n.split(".")[1][:1].isupper():
        return pure(en, f, args, kw)   # exception classes
    if n.startswith("builtins."):
        return pure(en, f, args, kw)
    if n.startswith("pathlib."):
        return pure(en, f, args, kw)
    # external effect
    fa = tuple(en.freeze(a) for a in args)
    fk = tuple((k, en.freeze(v)) for k, v in sorted(kw.items()))
    en.rdcount += 1
    r = T("xres", f, fa, fk)
    en.event("xcall", f, fa, fk, r)
    return r


def pure_star(en, f, args, kw):
    a2 = tuple(T("star", en.freeze(a.args[0])) if a.op == "star" else en.freeze(a) for a in args)
    return T("call", f, a2, tuple((k, en.freeze(v)) for k, v in sorted(kw.items())))


HANDLERS = {}
CLOCKS = {"time." + c + s for c in ("time", "perf_counter", "monotonic", "process_time", "thread_time") for s in ("", "_ns")}


def H(*names):
    def deco(fn):
        for n in names:
            HANDLERS[n] = fn
        return fn
    return deco


@H("builtins.len")
def _len(en, f, a, kw):
    return length(en, a[0])


@H("builtins.range")
def _range(en, f, a, kw):
    a = [en.num(x) for x in a]
    if len(a) == 1:
        return T("rangeof", C(0), a[0], C(1))
    if len(a) == 2:
        return T("rangeof", a[0], a[1], C(1))
    return T("rangeof", *a)


@H("builtins.enumerate")
def _enum(en, f, a, kw):
    return T("enumof", a[0], a[1] if len(a) > 1 else kw.get("start", C(0)))


@H("builtins.zip")
def _zip(en, f, a, kw):
    if any(x.op == "star" for x in a):
        if len(a) == 1:
            return T("unzip", a[0].args[0])
        return None
    return T("zipof", *a)


@H("builtins.map")
def _map(en, f, a, kw):
    v = T("mapof", *a)
    if len(a) == 2 and a[1].op == "unzip":
        return T("mapof", *a)
    els = en.known_elems(v)
    if els is not None:
        return en.mklist(els)
    return en.ref("list", {"chunks": each_chunks(en, v)}) if a[0].op in ("func", "bound", "class") and a[1].op != "unzip" else v


def each_chunks(en, v):
    en.loopdepth += 1
    try:
        seq, n, fn = en.iteration(v, en.loopdepth)
        idx = T("idx", en.loopdepth, seq)
        base = en.st
        en.st = base.clone()
        el = fn(idx)
        ev = en.st.events
        en.st.events = base.events + ([("loop", en.where[-1] if en.where else ("?", 0), idx, seq, ev)] if ev else [])
    finally:
        en.loopdepth -= 1
    return (T("each", idx, seq, T("e", el)),)


@H("builtins.filter")
def _filter(en, f, a, kw):
    v = T("filterof", *a)
    els = en.known_elems(v)
    if els is not None:
        return en.mklist(els)
    # filter as a guarded each
    en.loopdepth += 1
    try:
        seq, n, fn = en.iteration(a[1], en.loopdepth)
        idx = T("idx", en.loopdepth, seq)
        el = fn(idx)
        c = en.truth(en.call(a[0], [el], {}) if a[0] is not NONE else el)
    finally:
        en.loopdepth -= 1
    return en.ref("list", {"chunks": (T("each", idx, seq, T("g", c, T("chunks", T("e", el)), T("chunks"))),)})


@H("builtins.reversed")
def _rev(en, f, a, kw):
    els = en.known_elems(a[0])
    return en.mklist(els[::-1]) if els is not None else T("reversedof", a[0])


@H("builtins.sorted")
def _sorted(en, f, a, kw):
    if not kw:
        els = en.known_elems(T("sortedof", a[0]))
        if els is not None:
            return en.mklist(els)
    return pure(en, f, a, kw)


@H("builtins.list", "builtins.tuple")
def _list(en, f, a, kw):
    if not a:
        return en.mklist([]) if f.args[0].endswith("list") else T("tuple")
    if f.args[0].endswith("tuple"):
        els = en.known_elems(a[0])
        if els is not None:
            return T("tuple", *els)
        return en.ref("list", {"chunks": en.chunks_of(a[0])})
    return en.ref("list", {"chunks": en.chunks_of(a[0])})


@H("builtins.set", "builtins.frozenset")
def _set(en, f, a, kw):
    if not a:
        return en.ref("set", {"chunks": ()})
    return en.ref("set", {"chunks": en.chunks_of(a[0])})


@H("builtins.dict", "collections.OrderedDict")
def _dict(en, f, a, kw):
    d = en.ref("dict", {"entries": ()})
    if a:
        o = en.obj(a[0])
        if o is not None and o.kind == "inst":
            cls = en.classes[o.cls]
            km = en.class_lookup(cls, "keys")
            gm = en.class_lookup(cls, "__getitem__")
            if km is not None and gm is not None:
                ks = en.call(en.bind(km, a[0], cls), [], {})
                els = en.known_elems(ks)
                if els is not None:
                    for k in els:
                        en.setitem(d, k, en.getitem(a[0], k))
                    return d
                en.loopdepth += 1
                seq, n, fn = en.iteration(ks, en.loopdepth)
                idx = T("idx", en.loopdepth, seq)
                k = fn(idx)
                v = en.getitem(a[0], k)
                en.loopdepth -= 1
                en.st.w(d.args[0]).f["entries"] = ((T("eachkey", idx, seq, k), v, TRUE),)
                return d
        en.dict_update(d, a[0])
    for k, v in kw.items():
        if k != "**":
            en.setitem(d, C(k), v)
    return d


@H("collections.defaultdict")
def _defaultdict(en, f, a, kw):
    return en.ref("dict", {"entries": (), "factory": a[0] if a else None})


@H("builtins.dict.fromkeys")
def _fromkeys(en, f, a, kw):
    d = en.ref("dict", {"entries": ()})
    els = en.known_elems(a[0])
    v = a[1] if len(a) > 1 else NONE
    if els is not None:
        for e in els:
            en.setitem(d, e, v)
        return d
    return pure(en, f, a, kw)


ARRAYS = {"argwhere", "array", "zeros", "ones", "full", "arange", "cumsum", "hstack", "vstack", "concatenate", "unique", "argsort", "sort", "repeat", "tile"}


def array_made(v):
    """a call that always gives an array"""
    if v.op != "call":
        return False
    f = v.args[0]
    if f.op == "ext":
        return f.args[0].startswith("numpy.") and f.args[0][6:] in ARRAYS and (f.args[0] != "numpy.unique" or not v.args[2])
    return f.op == "method" and f.args[1] in ("ravel", "flatten", "reshape", "astype")


@H("builtins.isinstance")
def _isinstance(en, f, a, kw):
    v, t = a
    ts = en.known_elems(t) if t.op == "tuple" else [t]
    o = en.obj(v)
    res = []
    for c in ts or []:
        r = None
        if o is not None and o.kind == "inst":
            cls = en.classes[o.cls]
            if c.op == "class":
                r = C(en.classes[c.args[0]] in cls.mro)
            elif c.op == "ext":
                r = C(any(b is c for b in en.ext_bases(cls))) if c.args[0].startswith(("builtins.", "numpy.")) else None
        elif o is not None:
            kinds = {"list": "builtins.list", "dict": "builtins.dict", "set": "builtins.set", "arr": "numpy.ndarray"}
            if c.op == "ext" and c.args[0] in kinds.values():
                r = C(kinds.get(o.kind) == c.args[0])
            elif c.op == "class":
                r = FALSE
        elif is_const(v) and c.op == "ext" and c.args[0].startswith("builtins."):
            ty = getattr(E._b, c.args[0].split(".")[1], None)
            if isinstance(ty, type):
                r = C(isinstance(v.args[0], ty))
        elif E.strlike(v) and c.op == "ext":
            r = C(c.args[0] == "builtins.str")
        elif v.op == "tuple" and c.op == "ext":
            r = C(c.args[0] == "builtins.tuple")
        elif is_const(v):
            r = FALSE
        elif v.op == "call" and v.args[0].op == "method" and v.args[0].args[1] == "tolist" and c.op == "ext" and c.args[0] == "builtins.list":
            r = TRUE
        elif array_made(v) and c.op == "ext" and c.args[0] in ("builtins.list", "builtins.tuple", "builtins.dict", "builtins.str", "numpy.ndarray"):
            r = C(c.args[0] == "numpy.ndarray")
        if r is None:
            r = T("truth", T("call", f, (en.freeze(v), c), ()))
        res.append(r)
    return or_(*res) if res else T("truth", pure(en, f, a, kw))


@H("builtins.hasattr")
def _hasattr(en, f, a, kw):
    o = en.obj(a[0])
    if o is not None and o.kind == "inst" and is_const(a[1]):
        nm = a[1].args[0]
        if nm in o.f or en.class_lookup(en.classes[o.cls], nm) is not None:
            return TRUE
        if o.base is None and not en.ext_bases(en.classes[o.cls]):
            return FALSE
    return T("truth", pure(en, f, a, kw))


@H("builtins.getattr")
def _getattr(en, f, a, kw):
    if is_const(a[1]):
        o = en.obj(a[0])
        if len(a) > 2 and o is not None and o.kind == "inst" and o.base is None:
            nm = a[1].args[0]
            if nm not in o.f and en.class_lookup(en.classes[o.cls], nm) is None:
                return a[2]
        return en.getattr(a[0], a[1].args[0])
    return None


@H("builtins.setattr")
def _setattr(en, f, a, kw):
    if is_const(a[1]):
        en.setattr(a[0], a[1].args[0], a[2])
        return NONE
    return None


@H("builtins.vars")
def _vars(en, f, a, kw):
    return T("varsof", en.freeze(a[0]) if a else NONE)


@H("builtins.globals")
def _globals(en, f, a, kw):
    return T("globals", "?")


@H("builtins.str")
def _str(en, f, a, kw):
    if not a:
        return C("")
    v = en.simp(a[0])
    if is_const(v):
        return C(str(v.args[0]))
    if E.strlike(v):
        return v
    return T("str", en.freeze(v))


@H("builtins.repr")
def _repr(en, f, a, kw):
    if is_const(a[0]):
        return C(repr(a[0].args[0]))
    return None


@H("builtins.bool")
def _bool(en, f, a, kw):
    return en.truth(a[0]) if a else FALSE


@H("builtins.int")
def _int(en, f, a, kw):
    if a and is_const(a[0]) and len(a) == 1:
        try:
            return C(int(a[0].args[0]))
        except (ValueError, TypeError):
            en.event("raise", T("ext", "ValueError"))
            raise E.Exc(en.st)
    if a and a[0].op in ("item",) and False:
        return a[0]
    if a and len(a) == 1 and a[0].op in ("poly", "len", "count"):
        return a[0]
    return None


@H("builtins.float")
def _float(en, f, a, kw):
    if a and is_const(a[0]) and isinstance(a[0].args[0], (int, float)):
        return C(float(a[0].args[0]))
    return None


@H("builtins.bytes")
def _bytes(en, f, a, kw):
    if len(a) == 2 and is_const(a[0]) and isinstance(a[0].args[0], str):
        return C(a[0].args[0].encode(a[1].args[0]))
    return None


@H("builtins.abs")
def _abs(en, f, a, kw):
    if is_num(a[0]):
        return C(abs(a[0].args[0]))


@H("builtins.max", "builtins.min")
def _max(en, f, a, kw):
    xs = a if len(a) > 1 else (en.known_elems(a[0]) if a else None)
    if xs and not kw and all(is_num(x) for x in xs):
        fn = max if f.args[0].endswith("max") else min
        return C(fn(x.args[0] for x in xs))
    if len(a) > 1 and not kw and not any(x.op == "star" for x in a):
        els = sorted({en.freeze(x) for x in a}, key=lambda t: t.n)
        return els[0] if len(els) == 1 else T("call", f, tuple(els), ())
    return None


@H("builtins.sum")
def _sum(en, f, a, kw):
    els = en.known_elems(a[0])
    if els is not None:
        r = a[1] if len(a) > 1 else kw.get("start", C(0))
        for e in els:
            r = en.binop("+", r, e)
        return r
    o = en.obj(a[0])
    start = a[1] if len(a) > 1 else C(0)
    if o is not None and o.kind == "list":
        so = en.obj(start)
        ch = o.f["chunks"]
        if so is not None and so.kind == "list":
            # concatenation of lists
            out = so.f["chunks"]
            for c in ch:
                out += flat_chunk(en, c)
            return en.ref("list", {"chunks": out})
        r = en.num(start)
        for c in ch:
            r = add(r, chunk_sum(en, c))
        return r
    return None


def chunk_sum(en, c):
    if c.op == "e":
        return en.num(c.args[0])
    if c.op == "each":
        inner = C(0)
        for x in c.args[2:]:
            inner = add(inner, chunk_sum(en, x))
        if not contains(inner, lambda t: t is c.args[0]):
            return mul(E.space_count(c.args[1]), inner)
        return T("sum", c.args[0], c.args[1], inner)
    if c.op == "g":
        a = b = C(0)
        for x in c.args[1].args:
            a = add(a, chunk_sum(en, x))
        for x in c.args[2].args:
            b = add(b, chunk_sum(en, x))
        return gamma(c.args[0], a, b)
    return T("call", T("ext", "builtins.sum"), (c,), ())


def flat_chunk(en, c):
    """chunks of the concatenation of the lists held by chunk c"""
    if c.op == "e":
        return tuple(en.chunks_of(c.args[0]))
    if c.op == "each":
        inner = ()
        for x in c.args[2:]:
            inner += flat_chunk(en, x)
        return (T("each", c.args[0], c.args[1], *inner),)
    if c.op == "g":
        return (T("g", c.args[0], T("chunks", *sum([flat_chunk(en, x) for x in c.args[1].args], ())), T("chunks", *sum([flat_chunk(en, x) for x in c.args[2].args], ()))),)
    return (T("spread", T("flat", c)),)


@H("builtins.any", "builtins.all")
def _any(en, f, a, kw):
    isany = f.args[0].endswith("any")
    els = en.known_elems(a[0])
    if els is not None:
        ts = [en.truth(e) for e in els]
        return (or_(*ts) if ts else FALSE) if isany else (and_(*ts) if ts else TRUE)
    o = en.obj(a[0])
    if o is not None and o.kind == "list" and len(o.f["chunks"]) == 1 and o.f["chunks"][0].op == "each":
        c = o.f["chunks"][0]
        inner = [x for x in c.args[2:]]
        if len(inner) == 1 and inner[0].op == "e":
            t = en.truth(inner[0].args[0])
            if is_const(t) and t.args[0] != isany:
                return C(not isany)
            return T("truth", T("exists" if isany else "forall", c.args[0], c.args[1], t))
    return T("truth", pure(en, f, a, kw))


@H("numpy.any", "numpy.all")
def _npany(en, f, a, kw):
    els = en.known_elems(a[0]) if len(a) == 1 and not kw else None
    if els is None or any(x.op in ("seq", "vec", "tuple", "ref") for x in els):
        return None
    ts = [en.truth(e) for e in els]
    t = or_(FALSE, *ts) if f.args[0].endswith("any") else and_(TRUE, *ts)
    return t if is_const(t) else None


@H("builtins.print", "pprint.pprint")
def _print(en, f, a, kw):
    return NONE


@H("builtins.next")
def _next(en, f, a, kw):
    els = en.known_elems(a[0])
    if els:
        return els[0]
    return None


@H("builtins.iter")
def _iter(en, f, a, kw):
    return a[0] if len(a) == 1 else None


@H("builtins.callable")
def _callable(en, f, a, kw):
    if a[0].op in ("func", "bound", "class"):
        return TRUE


@H("builtins.type")
def _type(en, f, a, kw):
    o = en.obj(a[0])
    if o is not None and o.kind == "inst":
        return T("class", o.cls)


@H("builtins.slice")
def _slice(en, f, a, kw):
    if len(a) == 1:
        return T("slice", NONE, a[0], NONE)
    return T("slice", *(list(a) + [NONE] * (3 - len(a))))


@H("builtins.divmod")
def _divmod(en, f, a, kw):
    return T("tuple", en.binop("//", a[0], a[1]), en.binop("%", a[0], a[1]))


@H("builtins.object", "builtins.super")
def _obj(en, f, a, kw):
    if f.args[0].endswith("super") and len(a) == 2 and a[0].op == "class":
        return T("super", a[0].args[0], a[1])
    return None


@H("builtins.open", "io.open", "pathlib.Path.open")
def _open(en, f, a, kw):
    mode = a[1] if len(a) > 1 else kw.get("mode", C("r"))
    fo = en.ref("file", {"path": en.freeze(a[0]), "mode": mode})
    en.event("open", fo, en.freeze(a[0]), mode, "open")
    return fo


@H("h5py.File")
def _h5(en, f, a, kw):
    mode = a[1] if len(a) > 1 else kw.get("mode", C("r"))
    fo = en.ref("file", {"path": en.freeze(a[0]), "mode": mode, "h5": TRUE})
    en.event("open", fo, en.freeze(a[0]), mode, "h5py")
    return fo


@H("struct.Struct")
def _Struct(en, f, a, kw):
    return T("structof", en.freeze(a[0]))


@H("struct.calcsize")
def _calcsize(en, f, a, kw):
    if is_const(a[0]):
        try:
            return C(_struct.calcsize(a[0].args[0]))
        except _struct.error:
            return None
    from .structfmt import fmt_size
    r = fmt_size(a[0])
    return r


def packed(en, form, args):
    items = []
    for x in args:
        if x.op == "star":
            items.extend(en.chunks_of(x.args[0]))
        else:
            items.append(T("e", x))
    return T("packed", en.freeze(form), T("seq", *[en.freeze_chunk(c, 0, ()) for c in items]))


def unpacked(en, form, data):
    r = T("unpack", form, data)
    en.event("unpack", form, data, r)
    return r


def quotient(a, k):
    """a / k when the division of polynomials is exact"""
    if is_int(a) or a.op == "poly":
        d = poly_of(a)
        if all(isinstance(c, int) and c % k == 0 for c in d.values()):
            return poly_make({m: c // k for m, c in d.items()})
    return None


def decoded(en, data, d, count):
    """items of a numpy type taken from bytes, or None when the type or the number is not known"""
    f = dtype_form(d)
    if f is None:
        return None
    n = count
    if n is None and data.op == "rd":
        n = quotient(data.args[1], SIZES[f[1]])
    if n is None:
        return None
    return unpacked(en, T("strcat", *f[0], repeat(C(f[1]), n)), data)


@H("numpy.frombuffer")
def _frombuffer(en, f, a, kw):
    p = dict(zip(("buffer", "dtype", "count", "offset"), a))
    p.update(kw)
    c = p.get("count")
    if "dtype" in p and "offset" not in p:
        r = decoded(en, en.freeze(p["buffer"]), en.freeze(p["dtype"]), None if c is None or c is C(-1) else en.freeze(c))
        if r is not None:
            return r
    return None


@H("numpy.fromfile")
def _fromfile(en, f, a, kw):
    p = dict(zip(("file", "dtype", "count", "sep"), a))
    p.update(kw)
    o = en.obj(p["file"]) if "file" in p else None
    if o is not None and o.kind == "file" and "dtype" in p and "count" in p and p["count"] is not C(-1):
        d = dtype_form(en.freeze(p["dtype"]))
        if d is not None:
            n = en.freeze(p["count"])
            en.rdcount += 1
            size = mul(n, C(SIZES[d[1]]))
            v = T("rd", en.rdcount, size, "read")
            en.event("read", p["file"], size, v)
            return unpacked(en, T("strcat", *d[0], repeat(C(d[1]), n)), v)
    return None


@H("struct.pack")
def _pack(en, f, a, kw):
    return packed(en, a[0], a[1:])


@H("struct.unpack")
def _unpack(en, f, a, kw):
    return unpacked(en, en.freeze(a[0]), en.freeze(a[1]))


@H("struct.unpack_from")
def _unpack_from(en, f, a, kw):
    return unpacked(en, en.freeze(a[0]), en.freeze(a[1]))


@H("functools.partial")
def _partial(en, f, a, kw):
    return T("partial", a[0], T("tuple", *a[1:]), _kw(kw))


@H("functools.wraps", "functools.lru_cache")
def _wraps(en, f, a, kw):
    if f.args[0].endswith("lru_cache") and a and a[0].op == "func":
        return a[0]
    return T("ext", "functools.wraps")


@H("functools.reduce")
def _reduce(en, f, a, kw):
    els = en.known_elems(a[1])
    if els is not None and (els or len(a) > 2):
        r = a[2] if len(a) > 2 else els[0]
        for e in (els if len(a) > 2 else els[1:]):
            r = en.call(a[0], [r, e], {})
        return r


@H("collections.namedtuple")
def _namedtuple(en, f, a, kw):
    return pure(en, f, a, kw)


@H("itertools.chain")
def _chain(en, f, a, kw):
    if any(x.op == "star" for x in a):
        if len(a) == 1:
            v = a[0].args[0]
            o = en.obj(v)
            if o is not None and o.kind == "list":
                out = ()
                for c in o.f["chunks"]:
                    out += flat_chunk(en, c)
                return en.ref("list", {"chunks": out})
        return None
    return T("chainof", *a)


@H("itertools.chain.from_iterable")
def _chainfrom(en, f, a, kw):
    o = en.obj(a[0])
    els = en.known_elems(a[0])
    if els is not None:
        return T("chainof", *els)
    if o is not None and o.kind == "list":
        out = ()
        for c in o.f["chunks"]:
            out += flat_chunk(en, c)
        return en.ref("list", {"chunks": out})
    return None


@H("itertools.product")
def _product(en, f, a, kw):
    return T("productof", *a)


@H("copy.copy", "copy.deepcopy")
def _copy(en, f, a, kw):
    return shallow(en, a[0])


def shallow(en, v):
    o = en.obj(v)
    if o is None:
        return T("call", T("method", v, "copy"), (), ()) if v.op not in ("const", "tuple") else v
    if o.kind in ("list", "dict", "set", "arr"):
        n = en.ref(o.kind, dict(o.f), o.cls, o.base)
        return n
    if o.kind == "inst" and o.base is None:
        return en.ref("inst", dict(o.f), o.cls, None)
    return v


# ------------------------------------------------------------------ numpy
@H("numpy.zeros", "numpy.ones", "numpy.empty")
def _zeros(en, f, a, kw):
    shp = a[0] if a else kw.get("shape")
    v = {"numpy.zeros": C(0), "numpy.ones": C(1)}.get(f.args[0])
    dt = a[1] if len(a) > 1 else kw.get("dtype")
    n = None
    if is_int(shp):
        n = shp.args[0]
    elif shp.op == "tuple" and len(shp.args) == 1 and is_int(shp.args[0]):
        n = shp.args[0].args[0]
    if n is not None and 0 <= n <= 64 and v is not None:
        return en.ref("arr", {"elts": tuple([v] * n)})
    return mkarr(en, pure(en, f, a, kw))


@H("numpy.array", "numpy.asarray", "numpy.ascontiguousarray", "numpy.asanyarray")
def _array(en, f, a, kw):
    v = a[0]
    o = en.obj(v)
    if f.args[0] != "numpy.array" and o is not None and o.kind == "arr" and not kw and len(a) == 1:
        return v
    els = en.known_elems(v) if (o is not None and o.kind == "list") or v.op == "tuple" else None
    if els is not None and len(els) <= 64 and all(not (en.obj(e) is not None) and e.op != "tuple" for e in els):
        return en.ref("arr", {"elts": tuple(els)})
    if f.args[0] != "numpy.array" and o is None:
        return pure(en, f, a, kw)
    return mkarr(en, pure(en, f, a, kw))


@H("numpy.cumsum")
def _cumsum(en, f, a, kw):
    els = en.known_elems(a[0]) if len(a) == 1 and not kw else None
    o = en.obj(a[0]) if a else None
    if els is None and o is not None and o.kind == "arr" and "elts" in o.f and not kw:
        els = list(o.f["elts"])
    if els is None or len(els) > 64 or not els or any(en.obj(e) is not None or e.op in ("tuple", "slice") for e in els):
        return pure(en, f, a, kw)
    out, acc = [], None
    for e in els:
        acc = e if acc is None else add(acc, e)
        out.append(acc)
    return en.ref("arr", {"elts": tuple(out)})


@H("numpy.arange")
def _arange(en, f, a, kw):
    return mkarr(en, pure(en, f, a, kw))


# ------------------------------------------------------------------ methods of symbolic and heap values
def call_method(en, recv, name, args, kw):
    recv = en.simp(recv)
    args = [en.simp(a) for a in args]
    o = en.obj(recv)
    if recv.op == "gamma":
        return en.branch_value(recv.args[0], lambda: en.call(en.getattr(recv.args[1], name), args, kw),
                               lambda: en.call(en.getattr(recv.args[2], name), args, kw))
    if o is not None:
        if o.kind == "dict":
            r = dict_method(en, recv, o, name, args, kw)
            if r is not None:
                return r
        elif o.kind == "list":
            r = list_method(en, recv, o, name, args, kw)
            if r is not None:
                return r
        elif o.kind == "set":
            r = set_method(en, recv, o, name, args, kw)
            if r is not None:
                return r
        elif o.kind == "file":
            return file_method(en, recv, o, name, args, kw)
        elif o.kind == "arr":
            r = arr_method(en, recv, o, name, args, kw)
            if r is not None:
                return r
    if name == "tofile" and len(args) == 1 and not kw:
        fo = en.obj(args[0])
        if fo is not None and fo.kind == "file":            # the memory of an array, written to an open file
            en.event("write", args[0], T("call", T("method", en.freeze(recv), "tobytes"), (), ()))
            return NONE
    if is_const(recv) and isinstance(recv.args[0], (str, bytes)) or E.strlike(recv):
        r = str_method(en, recv, name, args, kw)
        if r is not None:
            return r
    if recv.op == "structof":
        if name == "pack":
            return packed(en, recv.args[0], args)
        if name in ("unpack", "unpack_from"):
            return unpacked(en, recv.args[0], en.freeze(args[0]))
    if name in ("items", "keys", "values") and not args:
        return T({"items": "ditems", "keys": "dkeys", "values": "dvalues"}[name], recv)
    if name == "get" and args and recv.op not in ("xres",):
        k = en.freeze(args[0])
        d = args[1] if len(args) > 1 else NONE
        return en.branch_value(T("cmp", "in", k, recv), lambda: T("item", recv, k), lambda: d)
    if name == "__getitem__":
        return en.getitem(recv, args[0])
    if name == "__init__" and recv.op == "extbase":
        return NONE
    if name in ("sort", "append", "extend", "update", "pop", "insert", "remove", "clear", "add", "fill", "setdefault", "popitem", "reverse",
                "put", "itemset", "resize", "discard", "partition"):
        en.event("mutate", recv, name, tuple(en.freeze(x) for x in args), NONE)
        if name == "sort" or name == "fill":
            return NONE
        return T("call", T("method", en.freeze(recv), name), tuple(en.freeze(x) for x in args), _kw({k: en.freeze(v) for k, v in kw.items()}))
    fa = tuple(en.freeze(a) for a in args)
    fk = tuple((k, en.freeze(v)) for k, v in sorted(kw.items()))
    if name in PURE_METHODS:
        return T("call", T("method", en.freeze(recv), name), fa, fk)
    r = T("call", T("method", en.freeze(recv), name), fa, fk)
    en.event("xcall", T("method", en.freeze(recv), name), fa, fk, r)
    if name in ("read", "readline", "readlines", "next"):
        en.rdcount += 1
        return T("rd", en.rdcount, en.freeze(recv), fa)
    return r


PURE_METHODS = {"tolist", "ravel", "reshape", "astype", "copy", "max", "min", "sum", "mean", "any", "all", "flatten", "transpose",
                "lower", "upper", "strip", "split", "startswith", "endswith", "decode", "encode", "format", "join", "exists", "with_suffix",
                "is_file", "replace", "index", "count", "lstrip", "rstrip", "squeeze", "dot", "argsort", "cumsum", "item", "get", "name", "isdigit",
                "is_dir", "resolve", "with_name", "with_stem", "view", "nonzero", "take", "std", "argmin", "argmax", "prod", "clip", "round", "splitlines"}


def dict_method(en, recv, o, name, args, kw):
    if name == "items":
        return T("ditems", recv)
    if name == "keys":
        return T("dkeys", recv)
    if name == "values":
        return T("dvalues", recv)
    if name == "get":
        return en.dict_get(recv, o, args[0], args[1] if len(args) > 1 else NONE)
    if name == "update":
        en.event("setitem", recv, T("update"), en.freeze(args[0]) if args else NONE)
        if args:
            en.dict_update(recv, args[0])
        for k, v in kw.items():
            if k != "**":
                en.setitem(recv, C(k), v)
        return NONE
    if name == "copy":
        return shallow(en, recv)
    if name == "setdefault":
        c = en.contains(args[0], recv)
        k = en.known(c)
        if k is True:
            return en.getitem(recv, args[0])
        if k is False:
            en.setitem(recv, args[0], args[1] if len(args) > 1 else NONE)
            return args[1] if len(args) > 1 else NONE

        d = en.obj(args[1]) if len(args) > 1 else None
        if en.grouping and d is not None and d.kind == "list" and not d.f.get("chunks"):
            fk = en.freeze(args[0])
            nv = en.ref("list", {"chunks": (T("spread", T("dget", en.freeze(recv), fk)),)})
            en.setitem(recv, fk, nv)
            return nv

        def other():
            en.setitem(recv, args[0], args[1])
            return args[1]
        return en.branch_value(c, lambda: en.getitem(recv, args[0]), other)
    if name == "pop":
        fk = en.freeze(args[0])
        en.event("delitem", recv, fk)
        try:
            v = en.dict_get(recv, o, args[0], args[1] if len(args) > 1 else None)
        except E.Exc:
            raise
        w = en.st.w(recv.args[0])
        ents = w.f["entries"]
        if o.base is not None:
            w.f["entries"] = tuple(e for e in ents if e[0] is not fk)
            w.base = T("without", o.base, fk)
        elif is_const(fk) or any(e[0] is fk for e in ents):
            w.f["entries"] = tuple(e for e in ents if e[0] is not fk)
        else:
            w.base = T("without", en.freeze(recv), fk)
            w.f["entries"] = ()
        return v
    if name == "clear":
        en.event("delitem", recv, T("all"))
        w = en.st.w(recv.args[0])
        w.f["entries"] = ()
        w.base = None
        return NONE
    return None


def list_method(en, recv, o, name, args, kw):
    w = en.st.w(recv.args[0])
    if name == "append":
        w.f["chunks"] = w.f["chunks"] + (T("e", args[0]),)
        en.event("listadd", recv, (T("e", args[0]),))
        return NONE
    if name == "extend":
        en.list_extend(recv, args[0])
        return NONE
    if name == "copy":
        return shallow(en, recv)
    if name == "insert":
        en.event("listadd", recv, (T("e", args[1]),))
        if is_int(args[0]) and args[0].args[0] == 0:
            w.f["chunks"] = (T("e", args[1]),) + w.f["chunks"]
        else:
            w.f["chunks"] = (T("spread", T("inserted", en.freeze(recv), en.freeze(args[0]), en.freeze(args[1]))),)
        return NONE
    if name == "pop":
        en.event("delitem", recv, args[0] if args else C(-1))
        ch = w.f["chunks"]
        i = cval(args[0]) if args else -1
        if isinstance(i, int) and all(c.op == "e" for c in ch) and -len(ch) <= i < len(ch):
            v = ch[i].args[0]
            l = list(ch)
            del l[i]
            w.f["chunks"] = tuple(l)
            return v
        if i == -1 and ch and ch[-1].op == "e":
            w.f["chunks"] = ch[:-1]
            return ch[-1].args[0]
        f = en.freeze(recv)
        w.f["chunks"] = (T("spread", T("popped", f)),)
        return T("item", f, en.freeze(args[0]) if args else C(-1))
    if name in ("remove",):
        en.event("delitem", recv, args[0])
        ch = w.f["chunks"]
        fk = en.freeze(args[0])
        for i, c in enumerate(ch):
            if c.op == "e" and en.freeze(c.args[0]) is fk:
                w.f["chunks"] = ch[:i] + ch[i + 1:]
                return NONE
        w.f["chunks"] = (T("spread", T("removed", en.freeze(recv), fk)),)
        return NONE
    if name == "sort":
        f = en.freeze(recv)
        en.event("delitem", recv, T("sort"))
        w.f["chunks"] = (T("spread", T("call", T("ext", "builtins.sorted"), (f,), _kw({k: en.freeze(v) for k, v in kw.items()}))),)
        return NONE
    if name == "reverse":
        w.f["chunks"] = tuple(reversed(w.f["chunks"])) if all(c.op == "e" for c in w.f["chunks"]) else (T("spread", T("reversedof", en.freeze(recv))),)
        return NONE
    if name == "index":
        els = en.known_elems(recv)
        if els is not None and is_const(args[0]):
            for i, e in enumerate(els):
                if e is args[0]:
                    return C(i)
    if name == "clear":
        w.f["chunks"] = ()
        return NONE
    return None


def set_method(en, recv, o, name, args, kw):
    w = en.st.w(recv.args[0])
    if name in ("add",):
        w.f["chunks"] = w.f["chunks"] + (T("e", args[0]),)
        return NONE
    if name == "update":
        for a in args:
            w.f["chunks"] = w.f["chunks"] + tuple(en.chunks_of(a))
        return NONE
    return None


def file_method(en, recv, o, name, args, kw):
    fa = tuple(en.freeze(a) for a in args)
    if name == "write":
        en.event("write", recv, fa[0])
        return T("len", fa[0])
    if name in ("read", "readline", "readlines"):
        en.rdcount += 1
        v = T("rd", en.rdcount, fa[0] if fa else NONE, name)
        en.event("read", recv, fa[0] if fa else NONE, v)
        return v
    if name == "seek":
        en.event("seek", recv, fa[0], fa[1] if len(fa) > 1 else kw.get("whence", C(0)))
        return NONE
    if name == "close":
        en.event("close", recv)
        return NONE
    r = T("call", T("method", recv, name), fa, tuple((k, en.freeze(v)) for k, v in sorted(kw.items())))
    en.event("xcall", T("method", recv, name), fa, tuple((k, en.freeze(v)) for k, v in sorted(kw.items())), r)
    return r


def arr_method(en, recv, o, name, args, kw):
    if name in ("tolist",) and "elts" in o.f:
        return en.mklist(o.f["elts"])
    if name == "copy":
        return shallow(en, recv)
    if name in ("sort", "fill", "resize", "put", "partition", "itemset"):
        en.event("setitem", recv, T(name), tuple(en.freeze(a) for a in args))
        v = en.freeze(recv)
        w = en.st.w(recv.args[0])
        w.f.pop("elts", None)
        w.f["val"] = T("call", T("method", v, name), tuple(en.freeze(a) for a in args), ())
        return NONE
    if name in PURE_METHODS:
        r = T("call", T("method", en.freeze(recv), name), tuple(en.freeze(a) for a in args), tuple((k, en.freeze(v)) for k, v in sorted(kw.items())))
        return r
    return None


def str_method(en, recv, name, args, kw):
    if is_const(recv) and all(is_const(a) for a in args) and not kw and name not in ("format", "join"):
        try:
            r = getattr(recv.args[0], name)(*[a.args[0] for a in args])
        except Exception:
            return None
        if isinstance(r, (str, int, bool, bytes, type(None))):
            return C(r)
        if isinstance(r, list):
            return en.mklist([C(x) for x in r])
        if isinstance(r, tuple):
            return T("tuple", *[C(x) for x in r])
    if name == "join":
        els = en.known_elems(args[0])
        if els is not None:
            out = []
            for i, e in enumerate(els):
                if i:
                    out.append(recv)
                out.append(e if E.strlike(e) else T("str", en.freeze(e)))
            return strcat(*out)
        return T("join", recv, en.freeze(args[0]))
    if name == "format" and is_const(recv):
        import string
        out, auto = [], 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(recv.args[0]):
                out.append(C(lit))
                if field is None:
                    continue
                if field == "":
                    if auto >= len(args) or args[auto].op == "star":
                        return None
                    v = args[auto]
                    auto += 1
                elif field.isdigit():
                    v = args[int(field)]
                elif field in kw:
                    v = kw[field]
                else:
                    return None
                out.append(en.fmt_value(v, C(spec or "")))
        except (ValueError, IndexError):
            return None
        return strcat(*out)
    if name in ("lower", "upper", "strip", "lstrip", "rstrip", "replace"):
        if recv.op == "gamma":
            return gamma(recv.args[0], str_method(en, recv.args[1], name, args, kw) or en.unk("str"), str_method(en, recv.args[2], name, args, kw) or en.unk("str"))
        if recv.op == "strcat" and name in ("lower", "upper"):
            parts = []
            for p in recv.args:
                parts.append(C(getattr(p.args[0], name)()) if is_const(p) else T("strmeth", p, name))
            return strcat(*parts)
        return T("strmeth", en.freeze(recv), name, *[en.freeze(a) for a in args])
    if name in ("startswith", "endswith") and recv.op == "strcat" and args and is_const(args[0]):
        p = recv.args[0] if name == "startswith" else recv.args[-1]
        if is_const(p) and isinstance(args[0].args[0], str) and len(p.args[0]) >= len(args[0].args[0]):
            return C(getattr(p.args[0], name)(args[0].args[0]))
    return None
