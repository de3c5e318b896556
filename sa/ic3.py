"""IC3 restart files: section traces of the writers and of the reader"""
import os

from .engine import Engine, Budget, Exc
from .terms import T, C, NONE, TRUE, FALSE, add, sub, mul, is_const, is_int, show, walk, contains, subst
from .structfmt import segments, char_size, SIZES, dtype_form
from .terms import Term, gamma, rebuild
from .util import site, cases, resolve, differ, show_case, atoms, primitive
from .rewrite import rewrite, array_rule, struct_rule, oneof_rule, chain

HEADER = 256
OFF_ID, OFF_SKIP, OFF_I, OFF_R = 52, 56, 64, 128


class Section:
    def __init__(self, head, st, ctx):
        self.hsize = head.pop("size", HEADER)
        self.head = head            # byte offset -> (char, term); offset 0 -> name
        self.site = st
        self.ctx = ctx              # enclosing loops and conditions
        self.payload = []           # (char term, count term, values term, site, prefix)
        self.opaque = []            # payload of unknown size
        self.prefix = None

    def clone(self):
        s = Section(self.head, self.site, self.ctx)
        s.hsize = self.hsize
        s.payload, s.opaque, s.prefix = list(self.payload), list(self.opaque), self.prefix
        return s

    @property
    def id(self):
        return self.head.get(OFF_ID, ("i", None))[1]

    @property
    def skip(self):
        return self.head.get(OFF_SKIP, ("q", None))[1]

    def idata(self, k):
        return self.head.get(OFF_I + 8 * k, ("q", None))[1]

    def rdata(self, k):
        return self.head.get(OFF_R + 8 * k, ("d", None))[1]

    @property
    def name(self):
        return header_name(self.head)

    def size(self):
        r = C(0)
        for ch, n, *_ in self.payload:
            r = add(r, mul(char_size(ch), n))
        return r

    def label(self):
        n = self.name
        return (show(n, 4) if n is not None else "?") + f" id={show(self.id, 3)}"


def header_name(head):
    """name term of a header: the 52 first characters"""
    cs = [head[o][1] for o in range(OFF_ID) if o in head]
    if not cs:
        return None
    if head[0][0] == "s":
        return cs[0]
    if all(is_const(c) and isinstance(c.args[0], bytes) for c in cs):
        return C(b"".join(c.args[0] for c in cs).split(b"\0")[0].decode("latin1"))
    # generic character: gamma(k < len(name), bytes(name[k]), '\0')
    names = set()
    for k, c in enumerate(cs):
        for x in walk(c):
            if x.op == "item" and is_int(x.args[1]) and x.args[1].args[0] == k and x.args[0].op not in ("unpack",):
                names.add(x.args[0])
    if len(names) == 1:
        return next(iter(names))
    # outermost candidate: one that contains the others
    if names:
        best = [n for n in names if not any(m is not n and contains(m, lambda x: x is n) for m in names)]
        if len(best) == 1:
            return best[0]
    return None


def header_layout(form, values):
    """offset -> (char, value term) when (form, values) is a 256-byte section header, else None"""
    sg = segments(form)
    if sg is None:
        return None
    vals = values.args
    if not all(v.op == "e" for v in vals):
        return None
    off, out, k = 0, {}, 0
    for ch, n in sg[1]:
        if not is_const(ch) or not is_int(n):
            return None
        c, cnt = ch.args[0], n.args[0]
        if c == "x":
            off += cnt
            continue
        if c == "s":
            if k >= len(vals):
                return None
            out[off] = (c, vals[k].args[0])
            off += cnt
            k += 1
            continue
        for _ in range(cnt):
            if k >= len(vals):
                return None
            out[off] = (c, vals[k].args[0])
            off += SIZES[c]
            k += 1
    if off != HEADER and not (len(out) > OFF_ID // 2 and off > HEADER // 2):
        return None
    out["size"] = off
    return out


def field_offset(form, slot):
    """byte offset of the slot-th item of a constant-layout format"""
    sg = segments(form)
    if sg is None:
        return None
    off, k = 0, 0
    for ch, n in sg[1]:
        if not is_const(ch) or not is_int(n):
            return (off, ch) if k == slot else None
        c, cnt = ch.args[0], n.args[0]
        if c == "x":
            off += cnt
            continue
        if c == "s":
            if k == slot:
                return off, ch
            off += cnt
            k += 1
            continue
        if k + cnt > slot:
            return off + (slot - k) * SIZES[c], ch
        off += cnt * SIZES[c]
        k += cnt
    return None


def raw_bytes(v):
    """(array term, order) when v is the memory of an array"""
    if v.op == "call" and isinstance(v.args[0], Term) and v.args[0].op == "method" and v.args[0].args[1] in ("tobytes", "tostring"):
        kw = dict(v.args[2]) if len(v.args) > 2 else {}
        o = kw.get("order") or (v.args[1][0] if v.args[1] else C("C"))
        return v.args[0].args[0], o.args[0] if is_const(o) else "?"
    return None


def as_packed(v):
    """memory of an array of known type as a packed term, or None"""
    r = raw_bytes(v)
    if r is None:
        return None
    a = rewrite(r[0], RULES)
    if a.op != "cast":
        return None
    d = dtype_form(a.args[1])
    if d is None:
        return None
    x = a.args[0]
    while x.op == "cast":
        x = x.args[0]
    n = x
    while n.op in ("flat", "cast", "transposed"):
        n = n.args[0]
    raw = r[0]
    while raw.op == "call" and isinstance(raw.args[0], Term) and raw.args[0].op == "method" and raw.args[0].args[1] in ("astype", "ravel", "flatten", "copy"):
        raw = raw.args[0].args[0]
    if n.op == "shaped" and not any(is_int(y) and y.args[0] < 0 for y in n.args[1]):
        cnt = C(1)
        for y in n.args[1]:
            cnt = mul(cnt, y)
    else:
        cnt = T("attr", raw, "size")
    return T("packed", T("strcat", *d[0], T("repeat", C(d[1]), cnt)), T("seq", T("spread", T("call", T("method", x, "ravel"), (), (("order", C(r[1])),)))))


class WriterTrace:
    def __init__(self, name):
        self.name = name
        self.sections = []
        self.preamble = []       # (form, values, site) written before the first header
        self.problems = []
        self.writes = []         # every write event: (form, values, site)
        self.opens = []
        self.final = None        # alternatives at the end of the file
        self.closed = None
        self.en = None
        self.events = []


def is_dead_arm(evs):
    return bool(evs) and evs[-1][0] == "raise"


def file_events(evs, fo):
    """does the event tree touch file fo"""
    for e in evs:
        if e[0] == "write" and (fo is None or e[2] is fo):
            return True
        if e[0] == "loop" and file_events(e[4], fo):
            return True
        if e[0] == "if" and (file_events(e[3], fo) or file_events(e[4], fo)):
            return True
    return False


def parse_writer(tr, events, fo):
    """split the writes to fo into sections"""
    done = {}

    def close(sec):
        if sec is not None and id(sec) not in done:
            done[id(sec)] = sec
            tr.sections.append(sec)

    def go(evs, curs, ctx):
        for e in evs:
            if e[0] == "write" and e[2] is fo:
                v = e[3]
                if v.op != "packed":
                    v = as_packed(v) or v
                if v.op == "packed":
                    form, vals = v.args
                    tr.writes.append((form, vals, e[1]))
                    h = header_layout(form, vals)
                    if h is not None:
                        for c in curs:
                            close(c)
                        s = Section(h, e[1], ctx)
                        s.prefix = (segments(form) or (None,))[0]
                        curs = [s]
                        continue
                    sg = segments(form)
                    if curs == [None]:
                        tr.preamble.append((form, vals, e[1]))
                        continue
                    n2 = []
                    for c in curs:
                        if c is None:
                            tr.problems.append(("payload before any header", e[1]))
                            n2.append(c)
                            continue
                        c = c.clone()
                        if sg is None:
                            c.opaque.append((show(form, 4), e[1]))
                        else:
                            for ch, n in sg[1]:
                                c.payload.append((ch, n, vals, e[1], sg[0], ctx))
                        n2.append(c)
                    curs = n2
                else:
                    tr.writes.append((None, v, e[1]))
                    n2 = []
                    for c in curs:
                        if c is not None:
                            c = c.clone()
                            c.opaque.append((show(v, 4), e[1]))
                        n2.append(c)
                    curs = n2
            elif e[0] == "if" and (file_events(e[3], fo) or file_events(e[4], fo)):
                arms = []
                for c, evs2 in ((e[2], e[3]), (T("not", e[2]), e[4])):
                    if is_dead_arm(evs2):
                        continue
                    arms += go(evs2, curs, ctx + (("if", c),))
                curs = uniq(arms)
            elif e[0] == "loop" and file_events(e[4], fo):
                first_is_header = starts_with_header(e[4], fo)
                c2 = ctx + (("loop", e[2], e[3]),)
                if first_is_header:
                    body = go(e[4], [None] if curs == [None] else curs, c2)
                    curs = uniq(curs + body)
                else:
                    n2 = []
                    for c in curs:
                        if c is None:
                            n2.append(c)
                            continue
                        c = c.clone()
                        c.opaque.append(("payload written in a loop", e[1]))
                        n2.append(c)
                    curs = n2
        return curs
    end = go(events, [None], ())
    tr.final = end
    for c in end:
        close(c)
    return tr


def uniq(xs):
    out = []
    for x in xs:
        if not any(x is y for y in out):
            out.append(x)
    return out[:64]


def starts_with_header(evs, fo):
    for e in evs:
        if e[0] == "write" and e[2] is fo:
            return e[3].op == "packed" and header_layout(e[3].args[0], e[3].args[1]) is not None
        if e[0] == "if" and (file_events(e[3], fo) or file_events(e[4], fo)):
            return all(starts_with_header(x, fo) for x in (e[3], e[4]) if file_events(x, fo))
        if e[0] == "loop" and file_events(e[4], fo):
            return starts_with_header(e[4], fo)
    return False


WRITERS = (("v2", "cfdtools.ic3.writerV2"), ("v3", "cfdtools.ic3.writerV3"))


def flat(events):
    for e in events:
        yield e
        if e[0] == "loop":
            yield from flat(e[4])
        elif e[0] == "if":
            yield from flat(e[3])
            yield from flat(e[4])


_cache = {}


def trace_writer(ver, module, assume=()):
    key = (ver, module, tuple(assume))
    if key in _cache:
        return _cache[key]
    en = Engine()
    en.load("cfdtools.api")
    en.load(module)
    mesh_cls = en.find_class("cfdtools.meshbase._mesh", "Mesh")
    W = en.module_attr(module, "writer")
    mesh = en.instance_of(T("sym", "mesh"), mesh_cls)
    for c in assume:
        en.assume(c(en) if callable(c) else c)
    n00 = len(en.st.events)
    w = en.call(W, [mesh, T("sym", "endian")], {})
    n0 = len(en.st.events)
    try:
        en.call(en.getattr(w, "write_data"), [T("sym", "filename")], {})
    except Exc as x:               # refused on every path
        en.st = x.st
    tr = WriterTrace(ver)
    tr.en, tr.writer, tr.mesh = en, w, mesh
    tr.ctor_events = en.st.events[n00:n0]
    tr.events = en.st.events[n0:]
    tr.opens = [e for e in flat(tr.events) if e[0] == "open"]
    outs = [e for e in tr.opens if "w" in str(e[4].args[0] if is_const(e[4]) else "")]
    if len(outs) == 1:
        parse_writer(tr, tr.events, outs[0][2])
        tr.fo = outs[0][2]
    else:
        tr.problems.append((f"{len(outs)} files opened for writing", ("?", 0)))
    _cache[key] = tr
    return tr


def restart_code(en, name):
    t = en.module_attr("cfdtools.ic3._ic3", "ic3_restart_codes")
    o = en.obj(t) if t is not None else None
    if o is None:
        return None
    for k, v, _ in o.f["entries"]:
        if is_const(k) and k.args[0] == name:
            return v
    return None


# ------------------------------------------------------------------ reader side
class HeaderRead:
    """one unpack of a 256-byte section header by the reader"""

    def __init__(self, term, form, ev):
        self.term, self.form, self.site, self.ev = term, form, ev[1], ev
        self.layout = {}                  # byte offset -> (slot, char)
        k, off = 0, 0
        sg = segments(form)
        self.prefix = sg[0]
        for ch, n in sg[1]:
            c, cnt = ch.args[0], n.args[0]
            if c == "x":
                off += cnt
            elif c == "s":
                self.layout[off] = (k, "s")
                off += cnt
                k += 1
            else:
                for _ in range(cnt):
                    self.layout[off] = (k, c)
                    off += SIZES[c]
                    k += 1

    def slot(self, off):
        return T("item", self.term, C(self.layout[off][0])) if off in self.layout else None


class PayloadRead:
    def __init__(self, ev, form, data, term, hdr):
        self.ev, self.form, self.data, self.term, self.hdr = ev, form, data, term, hdr
        self.site = ev[1]
        self.facts = list(ev.facts or ())


class ReaderTrace:
    pass


def const_layout_size(form):
    sg = segments(form)
    if sg is None:
        return None
    n = 0
    for ch, c in sg[1]:
        if not (is_const(ch) and is_int(c)):
            return None
        n += SIZES.get(ch.args[0], 1) * c.args[0]
    return n


def header_of(facts, heads):
    """last section header whose identifier was recognised on the path"""
    by = {h.slot(OFF_ID): h for h in heads if OFF_ID in h.layout}
    for f in reversed(list(facts)):
        if f.op == "cmp" and f.args[0] in ("in", "=="):
            for a in f.args[1:3]:
                if a in by:
                    return by[a]
    return None


def trace_reader():
    if "reader" in _cache:
        return _cache["reader"]
    en = Engine()
    en.load("cfdtools.api")
    en.load("cfdtools.ic3.reader_legacy")
    R = en.module_attr("cfdtools.ic3.reader_legacy", "reader")
    r = en.call(R, [T("sym", "filename"), T("sym", "cIntegrity")], {})
    n0 = len(en.st.events)
    en.call(en.getattr(r, "read_data"), [], {})
    n1 = len(en.st.events)
    m = en.call(en.getattr(r, "export_mesh"), [], {})
    rt = ReaderTrace()
    rt.en, rt.reader, rt.mesh = en, r, m
    rt.events, rt.export_events = en.st.events[n0:n1], en.st.events[n1:]
    rt.opens = [e for e in flat(rt.events) if e[0] == "open"]
    rt.heads, rt.payloads, rt.first, rt.unpacks = [], [], None, []
    seen = set()
    evs = list(flat(rt.events))
    for e in evs:
        if e[0] != "unpack":
            continue
        form, data, term = e[2], e[3], e[4]
        if term in seen:
            continue
        seen.add(term)
        rt.unpacks.append((form, data, term, e[1]))
        if data.op != "rd":
            continue
        if rt.first is None:
            rt.first = (form, data, term, e[1])
            continue
        if (const_layout_size(form) or 0) > HEADER // 2 and len(segments(form)[1]) > 2:
            rt.heads.append(HeaderRead(term, form, e))
    heads = {h.term for h in rt.heads}
    seen = set()
    for e in evs:
        if e[0] != "unpack" or e[4] in heads or e[3].op != "rd" or e[4] is rt.first[2]:
            continue
        h = header_of(e.facts or (), rt.heads)
        if (e[4], h) in seen:
            continue
        seen.add((e[4], h))
        rt.payloads.append(PayloadRead(e, e[2], e[3], e[4], h))
    _cache["reader"] = rt
    return rt


def ids_of(fact, slot):
    """constant identifiers a fact lets through, None when the fact is not about the identifier"""
    if fact.op == "cmp" and fact.args[0] in ("in", "not in", "==", "!="):
        op, a, b = fact.args
        if a is slot and b.op == "oneof" and all(is_const(x) for x in b.args):
            return ("in" if op == "in" else "out"), {x.args[0] for x in b.args}
        o = b if a is slot else a if b is slot else None
        if o is not None and is_int(o) and op in ("==", "!="):
            return ("in" if op == "==" else "out"), {o.args[0]}
    return None


def accepted(h, facts, idv):
    """can a header with identifier idv satisfy these facts (on the identifier alone)"""
    s = h.slot(OFF_ID)
    for f in facts:
        r = ids_of(f, s)
        if r and ((r[0] == "in") != (idv in r[1])):
            return False
    return True


def ids_taken(rt, h):
    """identifiers this header read looks for"""
    if not hasattr(rt, "_ids"):
        rt._ids = {}
        slots = {x.slot(OFF_ID): x for x in rt.heads}
        seen = set()

        def facts(evs):
            for e in evs:
                yield from getattr(e, "facts", None) or ()
                if e[0] == "if":
                    yield e[2]
                    yield from facts(e[3])
                    yield from facts(e[4])
                elif e[0] == "loop":
                    yield from facts(e[4])
        for f in facts(rt.events):
            if f in seen:
                continue
            seen.add(f)
            for x in walk(f):
                if x.op == "cmp":
                    for a in x.args[1:3]:
                        if a in slots:
                            r = ids_of(x, a)
                            if r and (r[0] == "in" or x is not f):
                                rt._ids.setdefault(slots[a].term, set()).update(r[1])
    return rt._ids.get(h.term, set())


class Variant:
    """a section of the writer with every table lookup of its header and payload resolved"""

    def __init__(self, sec, asg):
        self.sec, self.asg = sec, asg
        self.id = resolve(sec.id, asg)
        self.head = {o: (c, resolve(v, asg)) for o, (c, v) in sec.head.items()}
        self.payload = [(resolve(p[0], asg), resolve(p[1], asg), resolve(p[2], asg), p[3]) for p in sec.payload]
        self.name = header_name(sec.head)

    @property
    def idn(self):
        return self.id.args[0] if is_int(self.id) else None

    def label(self):
        c = show_case(self.asg)
        return self.sec.label() + (f" [{c}]" if c else "")


def variants(sec):
    ts = [sec.id] + [p[0] for p in sec.payload] + [p[1] for p in sec.payload if not prim_count(p[1])]
    out = []
    for asg, _ in cases([t for t in ts if t is not None]):
        out.append(Variant(sec, asg))
    return out


def prim_count(t):
    return True      # counts are compared symbolically


def generic_rule(t):
    """arbitrary non-empty mesh: sizes are at least one"""
    if t.op == "cmp" and t.args[0] in ("==", "!="):
        for a, b in ((t.args[1], t.args[2]), (t.args[2], t.args[1])):
            if b is C(0) and a.op == "attr" and a.args[1] in ("ndof", "_nnode", "_ncell", "nface", "size", "nelem"):
                return FALSE if t.args[0] == "==" else TRUE
    return None


def seq_rule(t):
    if t.op == "seq" and any(isinstance(c, Term) and c.op == "g" and is_const(c.args[0]) for c in t.args):
        out = []
        for c in t.args:
            if c.op == "g" and is_const(c.args[0]):
                out += list((c.args[1] if c.args[0].args[0] else c.args[2]).args)
            else:
                out.append(c)
        return T("seq", *out)
    if t.op == "item" and t.args[0].op == "seq" and len(t.args[0].args) == 1 and t.args[0].args[0].op == "spread":
        return rebuild("item", (t.args[0].args[0].args[0], t.args[1]))
    if t.op == "item" and t.args[0].op == "store" and is_const(t.args[1]) and is_const(t.args[0].args[1]):
        if t.args[0].args[1] is t.args[1]:
            return t.args[0].args[2]
        return rebuild("item", (t.args[0].args[0], t.args[1]))
    return None


def slice_rule(t):
    """one slice of either of two arrays"""
    if t.op == "gamma" and t.args[1].op == "item" and t.args[2].op == "item" and t.args[1].args[1] is t.args[2].args[1] and t.args[1].args[1].op == "slice":
        return T("item", gamma(t.args[0], t.args[1].args[0], t.args[2].args[0]), t.args[1].args[1])
    return None


RULES = chain(slice_rule, seq_rule, array_rule, struct_rule, oneof_rule, generic_rule)


def preamble_map(rt, tr, endian):
    """what the first read of the reader yields on a file written with this byte order"""
    pfx = {"little": "<", "big": ">"}[endian]
    sg = segments(rt.first[0])
    vals = []
    for form, values, _ in tr.preamble:
        vals += [v.args[0] for v in values.args]
    if not all(is_int(v) for v in vals):
        return None
    import struct
    raw = struct.pack(pfx + "i" * len(vals), *[v.args[0] for v in vals])
    n = const_layout_size(rt.first[0])
    if n is None or n > len(raw):
        return None
    return {rt.first[1]: C(raw[:n])}


def head_map(h, head):
    m = {}
    for off, (slot, ch) in h.layout.items():
        if off >= OFF_ID and off in head:
            m[T("item", h.term, C(slot))] = head[off][1]
    return m


class Composition:
    """reader terms evaluated on the sections of a writer"""

    def __init__(self, rt, tr, endian="big"):
        self.rt, self.tr = rt, tr
        self.base = preamble_map(rt, tr, endian) or {}
        self.sizes = set()
        code = restart_code(tr.en, "UGP_IO_NO_FA_CV_NOOFA_COUNTS")
        cs = [s for s in tr.sections if s.id is code]
        self.counts_section = cs[0] if len(cs) == 1 else None
        if self.counts_section is not None:
            for k in range(4):      # numbers of nodes, faces, cells, face nodes: independent quantities
                t = self.counts_section.idata(k)
                terms = (t, rewrite(t, RULES))
                for x in [y for t in terms for y in (t,) + tuple(
                        z for g in walk(t) if g.op == "gamma" for z in g.args[1:])]:
                    if x.op not in ("const", "gamma", "poly"):
                        self.sizes.add(x)
            for h in rt.heads:
                if self.is_head_of(h, code.args[0]):
                    self.base.update(head_map(h, self.counts_section.head))
        self._memo0 = None

    def is_head_of(self, h, idv):
        """header reads that only accept this identifier"""
        return ids_taken(self.rt, h) == {idv}

    def ev(self, t, extra=None):
        m = dict(self.base)
        if extra:
            m.update(extra)
        t = subst(t, m)
        t = rewrite(t, RULES)
        # a second pass resolves what the first one uncovered
        return rewrite(subst(t, m), RULES)

    def var_map(self, h, v, reads=()):
        m = head_map(h, v.head)
        for r, val in reads:
            m[r.term] = val
        return m

    def consumers(self, v):
        """[(header read, payload reads)] of the reader that take sections with the identifier of v"""
        out = {}
        if v.idn is None:
            return []
        for p in self.rt.payloads:
            if p.hdr is None or not accepted(p.hdr, p.facts, v.idn):
                continue
            out.setdefault(p.hdr.term, (p.hdr, []))[1].append(p)
        return list(out.values())

    def refusals(self, facts, m):
        """facts of a path that contradict what the writer stores: [(fact, definite)]"""
        bad = []
        for f in facts:
            if not contains(f, lambda x: x.op == "unpack"):
                continue
            g = self.ev(f, m)
            if g is FALSE:
                bad.append(f)
            elif g.op == "cmp" and g.args[0] == "==":
                r, why = differ(g.args[1], g.args[2], lambda a: primitive(a) or a in self.sizes)
                if r is False:
                    bad.append(f)
        return bad


def check_hops(rep):
    """relative seeks of the reader: from the end of a 256-byte header by (length field - 256)"""
    rt = trace_reader()
    en = rt.en
    seen = set()
    slot = {h.slot(OFF_SKIP) for h in rt.heads if OFF_SKIP in h.layout}
    for h in rt.heads:
        n = h.ev[3].args[1]
        rep.check(True if n is C(HEADER) else False if is_int(n) else None, "hop",
                  f"header read [{site(h.site)}]", f"{show(n)} bytes are read for a header of {HEADER} bytes")
    for e in flat(rt.events):
        if e[0] != "seek" or (e[1], e[3]) in seen:
            continue
        seen.add((e[1], e[3]))
        where = f"seek in reader [{site(e[1])}]"
        if e[4] is C(0):
            if is_int(e[3]):
                rep.check(e[3].args[0] == 8, "hop", where, f"absolute position {show(e[3])}, sections start at byte 8")
            else:
                rep.undecided("hop", where, show(e[3], 5))
            continue
        if e[4] is not C(1):
            rep.undecided("hop", where, "unknown origin")
            continue
        d = add(e[3], C(HEADER))
        nexts = next_values(en, d)
        if nexts is None:
            rep.undecided("hop", where, f"distance {show(e[3], 5)}")
            continue
        for nv in nexts:
            if is_int(nv) and nv.args[0] in (0,):
                continue
            if nv in slot:
                rep.ok("hop", where, f"distance = length field - {HEADER}")
                continue
            r, why = None, None
            for s in slot:
                r, why = differ(nv, s)
                if r is not None:
                    break
            others = {h.slot(o) for h in rt.heads for o in h.layout if o != OFF_SKIP}
            if nv in others:
                r = False
            rep.check(r, "hop", where, f"distance + {HEADER} is {show(nv, 6)}, not the length field of the header just read")


def next_values(en, d):
    """values a loop variable (or its element) takes, following one loop iteration"""
    out = []
    ats = list(atoms(d))
    if len(ats) != 1 or sub(d, ats[0]) is not C(0):
        # maybe an offset from a single atom
        if len(ats) != 1:
            return None
        off = sub(d, ats[0])
        if not is_int(off):
            return None
        inner = next_values(en, ats[0])
        return None if inner is None else [add(x, off) for x in inner]
    a = ats[0]
    if a in en.loopnext:
        vals = en.loopnext[a]
        k = None
    elif a.op == "item" and a.args[0] in en.loopnext:
        vals = en.loopnext[a.args[0]]
        k = a.args[1]
    else:
        return [a]
    for v in vals:
        if not isinstance(v, Term):
            continue
        if k is not None:
            v = rewrite(en.freeze(v), vec_rule)
            v = rewrite(rebuild("item", (v, k)), vec_rule)
        out.append(v)
    return out


def vec_rule(t):
    if t.op == "item" and t.args[0].op == "vec" and is_int(t.args[1]) and t.args[1].args[0] < len(t.args[0].args):
        return t.args[0].args[t.args[1].args[0]]
    return seq_rule(t)
