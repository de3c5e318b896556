"""Boundary marks, partition and simulation state through IC3 restart files.

The marks the reader builds are evaluated, through the public accessors of a mark, on the zone sections the writers emit:
kind, face range, name and periodic transform must be those of the written mark.  The final zone must be the internal one,
starting after the last boundary face and ending at the last face.  State values must come from, and return to, the
parameter of the same name."""
TECHNIQUE = "abstract interpretation; composition of the reader's marks and state with the written sections"
LEVEL_NOTE = ("All kinds of marks, all ranges and counts symbolic. Marks or state held in structures the analysis does not "
              "follow are undecided and quiet.")
from sa import ic3
from sa.rewrite import rewrite
from sa.terms import C, FALSE, T, TRUE, Term, contains, is_const, is_int, not_, show, sub, subst, walk
from sa.util import cases, differ, resolve, site
from checks.C02 import partition, payload_map, strip
from checks.C03 import possible

RULES = {"kind": "each kind of mark is written as a number that the reader maps back to the same kind",
         "range": "first and last face of a mark come back in this order",
         "name": "the zone is named after its mark",
         "periodic": "the 16 values of the periodic transform are stored in order and read back",
         "internal": "the last zone is of kind internal, from the face after the last marked one to the last face",
         "table": "partition is written and read back",
         "state": "step, time, dt and weights are written from and read to the parameter of that name"}
ASSUMPTIONS = ["marks are numbered before writing (checked by C26)"]


def run(rep):
    rt = ic3.trace_reader()
    rep.function(*rt.en.analysed)
    for ver, mod in ic3.WRITERS:
        tr = ic3.trace_writer(ver, mod)
        rep.function(*tr.en.analysed)
        comp = ic3.Composition(rt, tr)
        zones(rep, ver, rt, tr, comp)
        internal(rep, ver, rt, tr, comp)
        state(rep, ver, rt, tr, comp)
        cp = ic3.restart_code(tr.en, "UGP_IO_CV_PART")
        if cp is not None and comp.counts_section is not None:
            pm = payload_map(rep, ver, comp, {cp.args[0]: "UGP_IO_CV_PART"})
            en = rt.en
            partition(rep, ver, rt, lambda t: strip(comp.ev(en.freeze(t), pm)))


def zone_sections(tr):
    c = ic3.restart_code(tr.en, "UGP_IO_FA_ZONE")
    return [s for s in tr.sections if c is not None and s.id is c], c


def marks(rt, code):
    """marks built by the reader from a zone header: (reference, header, facts)"""
    en = rt.en
    cls = en.find_class("cfdtools.meshbase._mesh", "submeshmark")
    out = []
    heads = [h for h in rt.heads if code in ic3.ids_taken(rt, h)]
    seen = set()
    for e in ic3.flat(rt.events):
        if e[0] != "new" or e[2] in seen:
            continue
        o = en.obj(e[2])
        if o is None or o.kind != "inst" or cls is None or en.obj(e[2]).cls != getattr(cls, "cid", cls) and not is_mark(en, o, cls):
            continue
        seen.add(e[2])
        name = en.getattr(e[2], "name")
        for h in heads:
            if isinstance(name, Term) and contains(en.freeze(name), lambda x: x is h.term):
                out.append((e[2], h, e))
    return out


def is_mark(en, o, cls):
    return "_properties" in o.f and "_geodim" in o.f


def rng(en, ref):
    """frozen (first, last) of the index of a mark"""
    try:
        ix = en.getattr(ref, "index")
        v = en.freeze(en.call(en.getattr(ix, "range"), [], {}))
    except Exception:
        return None
    if v.op in ("seq", "tuple", "list"):
        if v.op == "tuple" and len(v.args) == 1 and v.args[0].op == "seq":
            v = v.args[0]
        xs = [a.args[0] if a.op == "e" else a for a in v.args]
        if len(xs) == 2:
            return xs
    return [rewrite(T("item", v, C(0)), ic3.RULES), rewrite(T("item", v, C(1)), ic3.RULES)]


def mark_term(s):
    """term of the mark written in a zone section: owner of .type / .index"""
    ms = set()
    for t in [s.idata(k) for k in range(3)]:
        if t is None:
            continue
        for x in walk_now(t):
            if x.op == "attr" and x.args[1] in ("type", "_type"):
                ms.add(x.args[0])
            if x.op == "attr" and x.args[1] in ("index", "_index"):
                ms.add(x.args[0])
    outer = [m for m in ms if not any(o is not m and contains(o, lambda x: x is m) for o in ms)]
    return outer[0] if len(outer) == 1 else None


def walk_now(t):
    """subterms of t outside accumulated values"""
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x in seen or not isinstance(x, Term):
            continue
        seen.add(x)
        yield x
        if x.op in ("fold", "sum", "mu", "each"):
            continue
        if x.op == "poly":
            todo += [a for mon, _ in x.args for a in mon]
        elif x.op == "lookup":
            todo.append(x.args[1])
        else:
            todo += [a for a in x.args if isinstance(a, Term)]


def zones(rep, ver, rt, tr, comp):
    en = rt.en
    secs, code = zone_sections(tr)
    if not secs:
        rep.undecided("kind", ver, "no zone section found")
        return
    ms = marks(rt, code.args[0])
    if not ms:
        rep.undecided("kind", "reader", "no mark built from a zone header was found")
        return
    for s in secs:
        k0 = s.idata(0)
        M = mark_term(s)
        if M is None and not is_const(k0):
            rep.undecided("kind", f"{ver} zone {s.label()}", show(k0, 4))
            continue
        where0 = f"{ver} {'mark' if M is not None else 'final'} zone"
        for ref, h, ev in ms:
            typ = en.freeze(en.getattr(ref, "type"))
            for asg, ts in cases([k0]):
                m = ic3.head_map(h, {o: (c, resolve(v, asg)) for o, (c, v) in s.head.items()})
                got = comp.ev(typ, m)
                keys = [v for k, v in asg.items() if k.op == "attr" and k.args[0] is M] if M is not None else []
                if M is not None:
                    if not keys:
                        bad = is_const(k0)
                        (rep.bad if bad else rep.undecided)("kind", where0, f"kind is written as {show(k0, 4)}")
                        continue
                    rep.check(True if got is keys[0] else False if is_const(got) or got.op in ("lookup", "keyerror", "undefined") else None, "kind",
                              where0 + f" {show(keys[0])}", f"written as {show(ts[0])}, read back as {show(got, 4)}")
                else:
                    rep.check(True if got is C("internal") else False if is_const(got) else None, "internal", where0,
                              f"kind written as {show(ts[0])}, read back as {show(got)}")
            # kinds the reader yields must be known to the writer
            if M is not None:
                lk = [x for x in walk(typ) if x.op == "lookup"]
                wl = [x for x in walk(k0) if x.op == "lookup"]
                if len(lk) == 1 and len(wl) == 1 and all(is_const(v) for _, v in lk[0].args[0]):
                    known = {k for k, _ in wl[0].args[0]}
                    for k, v in lk[0].args[0]:
                        rep.check(v in known, "kind", f"{ver} kind {show(v)} given by the reader", f"number {show(k)} can be written again")
            # range
            r = rng(en, ref)
            m = ic3.head_map(h, s.head)
            if r is None:
                rep.undecided("range", where0, "range of the mark not resolved")
            else:
                want = [comp.ev(s.idata(1)), comp.ev(s.idata(2))]
                for i in range(2):
                    g = comp.ev(r[i], m)
                    q, _ = differ(g, want[i]) if g is not want[i] else (True, None)
                    if q is None and g is want[1 - i]:
                        q = False
                    if q is None and (is_const(g) and not is_const(want[i])):
                        q = False
                    rep.check(q, "range", f"{where0} {'last' if i else 'first'} face", f"written {show(want[i], 4)}, read back {show(g, 4)}")
            # stored range is the one of the mark
            if M is not None:
                for i in range(2):
                    t = s.idata(1 + i)
                    ok = (t.op == "item" and t.args[1] is C(i) and t.args[0].op == "call" and contains(t, lambda x: x is M)
                          and contains(t, lambda x: x.op == "method" and x.args[1] == "range"))
                    swapped = t.op == "item" and t.args[1] is C(1 - i) and contains(t, lambda x: x.op == "method" and x.args[1] == "range")
                    rep.check(True if ok else False if swapped or is_const(t) else None, "range",
                              f"{where0} stored {'last' if i else 'first'} face", f"{show(t, 5)}")
                nm = s.name
                if nm is not None:
                    own = contains(nm, lambda x: x is M) or (nm.op == "item" and M.op == "item" and nm.args[0] is M.args[0])
                    rep.check(True if own else False if is_const(nm) else None, "name", where0, f"name {show(nm, 4)}")
                    n = en.freeze(en.getattr(ref, "name"))
                    rep.check(contains(n, lambda x: x is h.term) or None, "name", where0 + " read back", show(n, 4))
            # periodic transform
            if M is not None:
                periodic(rep, where0, en, ref, h, s, comp, m)


def periodic(rep, where, en, ref, h, s, comp, m):
    for k in range(16):
        t = s.rdata(k)
        w = f"{where} value {k}"
        if t is None:
            rep.undecided("periodic", w, "no such header field")
            continue
        P = {x for x in walk(t) if x.op == "item" and x.args[1] is C("periodic_transform")}
        if not P:
            # all paths constant: never written
            rep.check(False if all_const(t) else None, "periodic", w, f"written value is {show(t, 4)}")
            continue
        P = P.pop()
        verdict = None
        got = None
        for x in walk(t):
            if x.op == "item" and x.args[0] is P:
                ix = x.args[1]
                if is_int(ix):
                    got = ix.args[0]
                    verdict = got == k if verdict is None else verdict and got == k
                else:
                    for g in walk(t):
                        if g.op == "gamma" and contains(g.args[1], lambda y: y is x) and g.args[0].op == "cmp" and g.args[0].args[0] == "==":
                            a, b = g.args[0].args[1:]
                            var, c = (a, b) if is_const(b) else (b, a)
                            if is_int(c):
                                ix2 = solve(var, c, ix)
                                if ix2 is not None:
                                    got = ix2
                                    verdict = got == k if verdict is None else verdict and got == k
        rep.check(verdict, "periodic", w, f"written from value {got} of the transform" if got is not None else show(t, 5))
    p = en.freeze(en.getattr(ref, "properties"))
    ent = None
    for x in walk(p):
        if x.op == "dictof":
            for e in x.args[1]:
                if is_const(e[0]) and e[0].args[0] == "periodic_transform":
                    ent = e[1]
            break
    w = where + " read back"
    if ent is None:
        rep.check(False if p.op == "dictof" and all(is_const(e[0]) for e in p.args[1]) else None, "periodic", w, "mark has no periodic transform")
        return
    lo = h.layout[ic3.OFF_R][0] if ic3.OFF_R in h.layout else None
    if ent.op == "sliced" and ent.args[0] is h.term and is_int(ent.args[1]) and is_int(ent.args[2]):
        rep.check((ent.args[1].args[0], ent.args[2].args[0]) == (lo, lo + 16), "periodic", w,
                  f"header items {show(ent.args[1])} to {show(ent.args[2])}, real values are {lo} to {lo + 16}")
    else:
        src = contains(ent, lambda x: x is h.term)
        rep.check(None if src else False if is_const(ent) else None, "periodic", w, show(ent, 4))


def all_const(t):
    if is_const(t):
        return True
    if t.op == "gamma":
        return all_const(t.args[1]) and all_const(t.args[2])
    return False


def solve(var, c, ix):
    """value of ix when var == c, var and ix differing by a constant"""
    d = sub(ix, var)
    return c.args[0] + d.args[0] if is_int(d) else None


def internal(rep, ver, rt, tr, comp):
    secs, code = zone_sections(tr)
    if not secs:
        return
    inner = [s for s in secs if is_const(s.idata(0)) and mark_term(s) is None]
    where = f"{ver} final zone"
    if not inner:
        unk = [s for s in secs if mark_term(s) is None]
        (rep.undecided if unk else rep.bad)("internal", where, "no zone of constant kind is written after the marks")
        return
    last = secs[-1]
    order = [tr.sections.index(s) for s in secs]
    rep.check(True if last in inner else False if all(mark_term(s) is not None or s in inner for s in secs) else None, "internal", where + " position",
              "written after the zones of the marks")
    for s in inner:
        conds = [c for c in s.ctx if c[0] == "if"]
        loops = [c for c in s.ctx if c[0] == "loop"]
        rep.check(True if not conds and not loops else None, "internal", where + " presence", "written on every path" if not conds else
                  "written under a condition: " + show(conds[0][1], 4))
        if comp.counts_section is not None:
            nf = comp.counts_section.idata(1)
            r, why = differ(sub(s.idata(2), C(-1)), nf)
            if r is None and sub(sub(s.idata(2), C(-1)), nf) is C(0):
                r = True
            d = sub(s.idata(2), nf)
            if is_int(d) and d is not C(-1):
                r = False
            rep.check(r, "internal", where + " last face", f"{show(s.idata(2), 4)} for {show(nf, 4)} faces")
        t = s.idata(1)
        folds = [x for x in walk(t) if x.op == "fold"]
        top = [f for f in folds if is_int(sub(t, f))]
        if not top:
            rep.check(False if is_const(t) else None, "internal", where + " first face", show(t, 5))
            continue
        f = top[0]
        off = sub(t, f)
        nxt = f.args[-1]
        mx = nxt.op == "call" and contains(nxt, lambda x: x.op == "ext" and x.args[0] in ("builtins.max", "max", "numpy.maximum"))
        lasts = contains(nxt, lambda x: x.op == "item" and x.args[1] is C(1) and x.args[0].op == "call" and
                         contains(x.args[0].args[0], lambda y: y.op == "method" and y.args[1] == "range"))
        firsts = contains(nxt, lambda x: x.op == "item" and x.args[1] is C(0) and x.args[0].op == "call" and
                          contains(x.args[0].args[0], lambda y: y.op == "method" and y.args[1] == "range"))
        if lasts and not firsts and (mx or nxt.op in ("gamma",)):
            rep.check(off is C(1), "internal", where + " first face", f"last marked face + {show(off)}")
        elif firsts and not lasts:
            rep.bad("internal", where + " first face", f"computed from the first faces of the marks: {show(t, 5)}")
        else:
            rep.undecided("internal", where + " first face", show(t, 5))


# ------------------------------------------------------------------ state
def state(rep, ver, rt, tr, comp):
    en = rt.en
    ci, cd = ic3.restart_code(tr.en, "UGP_IO_I0"), ic3.restart_code(tr.en, "UGP_IO_D0")
    if ci is None or cd is None:
        rep.undecided("state", ver, "codes of scalar values not found")
        return
    secs = [s for s in tr.sections if s.id in (ci, cd)]
    unknown = [s for s in tr.sections if s.id is None or not is_const(s.id) and s.id.op not in ("lookup", "gamma")]
    P = T("attr", T("sym", "mesh"), "_params")
    names = {}
    for s in secs:
        if is_const(s.name):
            names[str(s.name.args[0]).lower()] = s
    for k in ("step", "time", "dt"):
        if k not in names:
            (rep.undecided if unknown or not secs or any(not is_const(s.name) and not weight(s) for s in secs) else rep.bad)("state", f"{ver} {k}", "no section is written for it")
    reads = [e for e in ic3.flat(rt.events) if e[0] == "setitem"]
    for k, s in names.items():
        val = s.idata(0) if s.id is ci else s.rdata(0)
        where = f"{ver} {k}"
        own = contains(val, lambda x: x.op == "item" and x.args == (P, C(k)))
        other = contains(val, lambda x: x.op == "item" and x.args[0] is P and x.args[1] is not C(k))
        rep.check(True if own else False if other or all_const(val) else None, "state", where + " written", show(val, 5))
        if own:
            # not dropped when it is zero: the value may only be replaced where the parameter is missing
            pass
        back(rep, where, rt, comp, s, val, reads)
    ws = [s for s in secs if not is_const(s.name)]
    if not ws:
        (rep.undecided if unknown or not secs else rep.bad)("state", f"{ver} weights", "no section is written for averaging weights")
    for s in ws:
        val = s.rdata(0) if s.id is cd else s.idata(0)
        where = f"{ver} weights"
        nm = s.name
        ks = [x for x in walk(nm) if x.op == "dkey"] if nm is not None else []
        vs = [x for x in walk(val) if x.op == "item" and x.args[1].op == "dkey"] if val is not None else []
        if val is None or all_const(val):
            rep.bad("state", where, f"written value is {show(val)}")
            continue
        if not ks or not vs:
            rep.undecided("state", where, f"{show(nm, 4)} = {show(val, 4)}")
            continue
        v = val if val.op == "item" else vs[0]
        rep.check(True if v.args[1] is ks[0] and v.args[0] is ks[0].args[0] else None, "state", where + " key", "section name and value use the same weight")
        cont = ks[0].args[0]
        rep.check(contains(cont, lambda x: x is P) or (None if not closed(cont) else False), "state", where + " source", f"taken from {show(cont, 3)}")
        # name on file, in lower case, is the parameter the weight comes from
        if nm.op == "strcat" and is_const(nm.args[-1]):
            suf = str(nm.args[-1].args[0]).lower()
            sel = [x for x in walk(cont) if x.op == "call" and x.args[0].op == "method" and x.args[0].args[1] == "endswith"]
            sfx = {str(c.args[0]) for x in sel for c in walk(x) if is_const(c) and isinstance(c.args[0], str)} - {"endswith"}
            if sel and sfx:
                gathered(rep, where, rt, comp, s, sfx, reads)
                rep.check(sfx == {suf}, "state", where + " name", f"written with suffix {suf!r}, gathered from parameters ending with {sorted(sfx)}")
            cuts = [x for x in walk(cont) if x.op == "slice" and is_int(x.args[1]) and x.args[1].args[0] < 0]
            for c in cuts:
                rep.check(-c.args[1].args[0] == len(suf), "state", where + " name without suffix", f"{-c.args[1].args[0]} characters removed, suffix has {len(suf)}")
        back(rep, where, rt, comp, s, val, reads)
    # the state is part of the exported parameters
    mo = en.obj(rt.mesh)
    p = mo.f.get("_params") if mo else None
    if p is not None:
        f = en.freeze(p)
        if f.op == "dictof":
            ks = {e[0].args[0] for e in f.args[1] if is_const(e[0])}
            each = any(not is_const(e[0]) for e in f.args[1])
            for k in ("step", "time", "dt"):
                rep.check(True if k in ks else None if each or f.args[0] is not None else False, "state", f"exported {k}", "parameter of the exported mesh")
            src = {h.term for h in rt.heads if ci.args[0] in ic3.ids_taken(rt, h) or cd.args[0] in ic3.ids_taken(rt, h)}
            rep.check(True if each or any(contains(f, lambda x: x in src) for _ in (0,)) else None, "state", "exported weights",
                      "every value read is merged into the parameters")


def weight(s):
    return s.name is not None and contains(s.name, lambda x: x.op == "dkey")


def closed(t):
    return not contains(t, lambda x: x.op in ("unk", "mu", "call"))


METHODS = ("lower", "upper", "casefold", "strip", "rstrip", "endswith", "startswith", "removesuffix", "replace", "title")


def text(t):
    """Python value of a term made of string methods, conditions and constants; None when it is not"""
    if is_const(t):
        return t.args[0]
    a = [text(x) if isinstance(x, Term) else None for x in t.args]
    if t.op == "gamma" and isinstance(a[0], bool):
        return a[1] if a[0] else a[2]
    if t.op == "not" and isinstance(a[0], bool):
        return not a[0]
    if t.op == "truth" and a[0] is not None:
        return bool(a[0])
    if t.op in ("and", "or") and all(isinstance(x, bool) for x in a):
        return all(a) if t.op == "and" else any(a)
    if t.op == "in" and all(isinstance(x, str) for x in a):
        return a[0] in a[1]
    if t.op == "call" and t.args[0].op == "method" and not t.args[2] and t.args[0].args[1] in METHODS:
        b, args = text(t.args[0].args[0]), [text(x) for x in t.args[1]]
        if isinstance(b, str) and all(isinstance(x, str) for x in args):
            return getattr(b, t.args[0].args[1])(*args)
    return None


def gathered(rep, where, rt, comp, s, suffixes, reads):
    """a weight named in upper case, as the solver names it, gets a parameter that the writer takes for a weight"""
    en = rt.en
    v = ic3.Variant(s, {})
    for e in reads:
        h = ic3.header_of(e.facts or (), rt.heads)
        if h is None or v.idn not in ic3.ids_taken(rt, h) or possible(comp, e, h, comp.var_map(h, v)) is False:
            continue
        key = en.freeze(e[3])
        ns = {x.args[0] for x in walk(key) if x.op == "method" and x.args[1] in METHODS and isinstance(x.args[0], Term)
              and contains(x.args[0], lambda y: y is h.term) and not contains(x.args[0], lambda y: y.op == "method" and y.args[1] in METHODS)}
        if len(ns) != 1 or not contains(en.freeze(e[4]), lambda y: y is h.term):
            continue
        got = text(subst(key, {ns.pop(): C("P_AVG_WGT")}))
        rep.check(None if not isinstance(got, str) else any(got.endswith(x) for x in suffixes), "state", where + " of the solver",
                  f"a section named P_AVG_WGT is kept under {got!r}, weights are the parameters ending with {sorted(suffixes)}")


def back(rep, where, rt, comp, s, val, reads):
    """value read back from this section"""
    en = rt.en
    v = ic3.Variant(s, {})
    found = False
    for e in reads:
        h = ic3.header_of(e.facts or (), rt.heads)
        if h is None or v.idn not in ic3.ids_taken(rt, h):
            continue
        value, key = en.freeze(e[4]), en.freeze(e[3])
        if not contains(value, lambda x: x is h.term) or not contains(key, lambda x: x is h.term):
            continue
        m = comp.var_map(h, v)
        st = possible(comp, e, h, m)
        if st is False:
            continue
        found = True
        got = comp.ev(value, m)
        r = True if got is val or got is comp.ev(val) else False if is_const(got) else None
        rep.check(r, "state", where + " read back", f"written {show(val, 4)}, read {show(got, 4)}")
        low = contains(key, lambda x: x.op == "method" and x.args[1] == "lower")
        rep.check(True if low else None, "state", where + " read under", show(key, 4))
    if not found:
        rep.undecided("state", where + " read back", "no store of this value found in the reader")
