"""Location, kind and name of the fields of IC3 restart files.

Writer side: the field container (node / cell data set) of each packed payload is compared with the location named by the
section identifier, for each shape of field (scalar, vector, tensor) and each type the guards let through.  Reader side:
for each field identifier the stores into the node, face and cell data sets are evaluated on a section with this
identifier, counts being independent quantities; the stored array is compared with the array packed by the writer."""
TECHNIQUE = "abstract interpretation of IC3 writers and reader; case analysis on section identifier, field shape and type"
LEVEL_NOTE = ("Complete over identifiers, locations, shapes and types, all counts symbolic and independent. Trusts the model "
              "of numpy shapes; stores whose guards are not understood are undecided and quiet.")
from sa import ic3
from sa.rewrite import rewrite
from sa.terms import C, FALSE, T, TRUE, add, contains, is_const, is_int, is_num, mul, rebuild, show, sub, walk, not_
from sa.util import site, differ, primitive
from checks.C02 import same, strip

RULES = {"write": "a field of a location and shape is written in exactly the section of that location and kind, under its own name",
         "store": "a section of a location is stored only in the data set of that location",
         "name": "a stored field is named after the section it was read from",
         "array": "the stored array has the items, order and trailing shape of the packed array",
         "codes": "field sections have distinct identifiers"}
ASSUMPTIONS = ["numbers of nodes, faces and cells are independent positive integers"]

LOCS = {"NO": "_nodedata", "FA": "_facedata", "CV": "_celldata"}
KINDS = {"D1": (), "II1": (), "D3": (3,), "D33": (3, 3)}


def codes(en):
    out = {}
    for loc in LOCS:
        for k in KINDS:
            c = ic3.restart_code(en, f"UGP_IO_{loc}_{k}")
            if c is not None and is_int(c):
                out[(loc, k)] = c.args[0]
    return out


def run(rep):
    rt = ic3.trace_reader()
    rep.function(*rt.en.analysed)
    cs = codes(rt.en)
    by = {}
    for lk, c in cs.items():
        by.setdefault(c, []).append(lk)
    for c, l in by.items():
        rep.check(len(l) == 1, "codes", f"identifier {c}", "is " + ", ".join("UGP_IO_%s_%s" % x for x in l))
    trs = [ic3.trace_writer(v, m) for v, m in ic3.WRITERS]
    for tr in trs:
        rep.function(*tr.en.analysed)
        writer(rep, tr, cs)
    stores(rep, rt, trs, cs)


# ------------------------------------------------------------------ writer
def field_of(t):
    """(container attribute, field term, key) of the mesh field an array term comes from"""
    fs = set()
    for x in walk(t):
        if x.op == "item" and x.args[0].op == "attr" and x.args[0].args[0] is T("sym", "mesh") and x.args[0].args[1] in LOCS.values():
            fs.add(x)
    if len(fs) != 1:
        return None
    f = fs.pop()
    return f.args[0].args[1], f, f.args[1]


def shape_rule(f, dims):
    n = T("sym", "#n")
    size = n
    for d in dims:
        size = mul(size, C(d))
    shape = (n,) + tuple(C(d) for d in dims)

    def rule(t):
        if t.op == "attr" and t.args[0] is f:
            if t.args[1] == "size":
                return size
            if t.args[1] == "ndim":
                return C(len(shape))
        if t.op == "len" and t.args[0] is f:
            return n
        if t.op == "len" and t.args[0].op == "attr" and t.args[0].args == (f, "shape"):
            return C(len(shape))
        if t.op == "item" and t.args[0].op == "attr" and t.args[0].args == (f, "shape") and is_int(t.args[1]):
            k = t.args[1].args[0]
            return shape[k] if -len(shape) <= k < len(shape) else None
        if t.op == "cmp" and t.args[0] in ("==", "!=", "<", "<=", ">", ">="):
            d = sub(t.args[1], t.args[2])
            if is_num(d):
                v = d.args[0]
                return C({"==": v == 0, "!=": v != 0, "<": v < 0, "<=": v <= 0, ">": v > 0, ">=": v >= 0}[t.args[0]])
            if all(a is n for m, _ in d.args for a in m) if d.op == "poly" else d is n:
                if t.args[0] in ("==", "!="):
                    return C(t.args[0] == "!=")
        if t.op == "not" and is_const(t.args[0]):
            return C(not t.args[0].args[0])
        if t.op in ("and", "or") and all(is_const(a) for a in t.args):
            v = [bool(a.args[0]) for a in t.args]
            return C(all(v) if t.op == "and" else any(v))
        return None
    return rule


def dtype_name(t):
    return t.op == "attr" and t.args[1] == "name" or t.op == "attr" and t.args[1] == "dtype"


def writer(rep, tr, cs):
    inv = {v: k for k, v in cs.items()}
    found = []
    for s in tr.sections:
        for v in ic3.variants(s):
            if v.idn not in inv or not v.payload:
                continue
            f = field_of(v.payload[0][2])
            where = f"{tr.name} section {v.label()}"
            if f is None:
                rep.undecided("write", where, f"origin of payload {show(v.payload[0][2], 4)}")
                found.append((v, None, None))
                continue
            loc = inv[v.idn][0]
            rep.check(LOCS[loc] == f[0], "write", where, f"values of {f[0][1:]} are written in a section of location {loc}")
            nm = v.name
            if nm is not None:
                own = nm is f[2] or (contains(nm, lambda x: x is f[2]) and nm.op != "strcat")
                wrong = is_const(nm) or (nm.op == "dkey" and nm is not f[2]) or (nm.op == "strcat" and any(is_const(a) for a in nm.args))
                rep.check(True if own else False if wrong else None, "write", where + " name", f"name is {show(nm, 4)} for field {show(f[1], 4)}")
            found.append((v, f, inv[v.idn]))
    for loc, kinds in (("NO", ((), (3,))), ("CV", ((), (3,), (3, 3)))):
        for dims in kinds:
            where = f"{tr.name} {loc} field of shape (n{''.join(', %d' % d for d in dims)})"
            hit, unk, empty = [], [], True
            for v, f, lk in found:
                if f is None:
                    unk.append(v)
                    continue
                if f[0] != LOCS[loc]:
                    continue
                r = shape_rule(f[1], dims)
                ok = True
                for c in v.sec.ctx:
                    if c[0] != "if":
                        continue
                    if not contains(c[1], lambda x: x is f[1]):
                        unk_guard = not (contains(c[1], lambda x: x.op == "attr" and x.args[1] == LOCS[loc]))
                        if unk_guard:
                            ok = None if ok else ok
                        continue
                    g = rewrite(c[1], r)
                    if g is FALSE:
                        ok = False
                        break
                    if g is not TRUE:
                        ok = None
                if ok:
                    hit.append((v, lk))
                elif ok is None:
                    unk.append(v)
            want = {k for k, d in KINDS.items() if d == dims}
            bad = [(v, lk) for v, lk in hit if lk[1] not in want]
            if bad:
                rep.bad("write", where, f"written in a section of kind {bad[0][1][1]} [{site(bad[0][0].sec.site)}]")
            elif not hit:
                (rep.undecided if unk or not found else rep.bad)("write", where, "not written in any section" if not unk else "guards not understood")
            else:
                sites = {v.sec.site + (v.idn,) for v, _ in hit}
                # several variants only for different item types
                types = [tuple(show(x, 3) for x in v.asg.values()) for v, _ in hit]
                rep.check(len(set(types)) == len(types) or len(hit) == 1, "write", where,
                          "written in " + ", ".join(sorted({f"UGP_IO_{a}_{b}" for _, (a, b) in hit})))
                for v, (a, b) in hit:
                    for k, val in v.asg.items():
                        if isinstance(val, T("x").__class__) and is_const(val) and isinstance(val.args[0], str):
                            isint = "int" in val.args[0]
                            if "float" in val.args[0] or isint:
                                rep.check((b == "II1") == isint, "write", where + f" of type {val.args[0]}", f"written as UGP_IO_{a}_{b}")


# ------------------------------------------------------------------ reader
def stores(rep, rt, trs, cs):
    en = rt.en
    mo = en.obj(rt.mesh)
    ds = {}
    for loc, a in LOCS.items():
        o = en.obj(mo.f[a]) if mo is not None and a in mo.f else None
        d = o.f.get("_data") if o is not None else None
        if d is None:
            rep.undecided("store", f"reader {a}", "data set of the exported mesh not resolved")
            return
        ds[d] = loc
    evs = [e for e in ic3.flat(rt.events) if e[0] == "setitem" and e[2] in ds]
    comps = [ic3.Composition(rt, tr) for tr in trs]
    for (loc, kind), code in cs.items():
        heads = [h for h in rt.heads if code in ic3.ids_taken(rt, h)]
        where = f"reader section UGP_IO_{loc}_{kind}"
        if not heads:
            rep.undecided("store", where, "no header read looks for it")
            continue
        right, unk = [], False
        for tr, comp in zip(trs, comps):
            if comp.counts_section is None:
                rep.undecided("store", where, "counts not identified")
                continue
            cnt = comp.counts_section.idata({"NO": 0, "FA": 1, "CV": 2}[loc])
            for h in heads:
                m = {h.slot(ic3.OFF_ID): C(code)}
                if 8 * 0 + ic3.OFF_I in h.layout:
                    m[h.slot(ic3.OFF_I)] = comp.ev(cnt)
                for e in evs:
                    if ic3.header_of(e.facts or (), rt.heads) is not h:
                        continue
                    st = possible(comp, e, h, m)
                    if st is False:
                        continue
                    if ds[e[2]] != loc:
                        if st:
                            rep.bad("store", where, f"is stored in {LOCS[ds[e[2]]][1:]}", key=f"store:{loc}:{kind}")
                        else:
                            unk = True
                        continue
                    right.append(e)
                    key = en.freeze(e[3])
                    own = contains(key, lambda x: x is h.term)
                    other = contains(key, lambda x: x in {k.term for k in rt.heads})
                    rep.check(True if own else False if other or is_const(key) else None, "name", where, f"name {show(key, 4)}")
        if right:
            rep.ok("store", where, f"{len(right)} stores, all in {LOCS[loc][1:]}")
        else:
            # every store of this identifier contradicted?
            (rep.undecided if unk or not evs else rep.bad)("store", where, f"never stored in {LOCS[loc][1:]}")
    # arrays
    inv = {v: k for k, v in cs.items()}
    for tr, comp in zip(trs, comps):
        if comp.counts_section is None:
            continue
        for s in tr.sections:
            for v in ic3.variants(s):
                if v.idn not in inv or len(v.payload) != 1 or v.sec.opaque:
                    continue
                src = strip(rewrite(v.payload[0][2], ic3.RULES))
                for h, reads in comp.consumers(v):
                    m = comp.var_map(h, v)
                    for e in evs:
                        if ds[e[2]] != inv[v.idn][0] or ic3.header_of(e.facts or (), rt.heads) is not h:
                            continue
                        if possible(comp, e, h, m) is False:
                            continue
                        val = en.freeze(e[4])
                        ps = [p for p in reads if contains(val, lambda x: x is p.term)]
                        if not ps:
                            rep.undecided("array", f"{tr.name} {v.label()}", f"stored value {show(val, 4)}")
                            continue
                        m2 = dict(m)
                        m2.update({p.term: rewrite(v.payload[0][2], ic3.RULES) for p in ps})
                        got = strip(comp.ev(val, m2))
                        trail = KINDS[inv[v.idn][1]]
                        base = src.args[0] if src.op == "flat" else src
                        if not trail:
                            r = True if got is src or got is base else None
                        elif got is base:
                            r = True
                        else:
                            r = same(got, base, trail)
                            if r is not True and got.op == "shaped" and got.args[0] is src:
                                r = same(got, src, trail)
                        rep.check(r, "array", f"{tr.name} {v.label()}", f"packed {show(src, 4)}, stored {show(got, 4)}")


def possible(comp, e, h, m):
    """can this store happen for the section?  True / False / None (not understood)"""
    res = True
    for f in e.facts or ():
        if not contains(f, lambda x: x is h.term):
            continue
        g = comp.ev(f, m)
        g = simp(g)
        if g is TRUE:
            continue
        if g is FALSE:
            return False
        # sizes of nodes, faces and cells are independent: an (in)equality between them can hold
        if all(a in comp.sizes or is_num(a) or ok_atom(a, comp) for a in leaves(g)):
            continue
        if contains(g, lambda x: x.op in ("rd",)) or contains(g, lambda x: x.op == "method" or x.op == "sum"):
            continue
        res = None
    return res


def ok_atom(a, comp):
    return a in comp.sizes


def leaves(g):
    out = []

    def go(t):
        if t in out:
            return
        if t.op in ("cmp",):
            for a in t.args[1:]:
                go(a)
        elif t.op in ("not", "and", "or"):
            for a in t.args:
                go(a)
        elif t.op == "poly":
            for mm, _ in t.args:
                for a in mm:
                    go(a)
        else:
            out.append(t)
    go(g)
    return out


def simp(g):
    def rule(t):
        if t.op == "not" and is_const(t.args[0]):
            return C(not t.args[0].args[0])
        return None
    return rewrite(g, rule)
