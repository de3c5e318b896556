"""Layout agreement of the IC3 restart writers and the legacy reader.

Writer (v2, v3) and reader are interpreted abstractly on a symbolic mesh and a symbolic file.  The reader's terms are then
evaluated on each section the writer emits: header fields by byte position, payload reads by item type, item count and
order, refusals (assert / error) against the stored header values, and the exported mesh tables against the tables that
were packed (array order and shape included)."""
from sa import ic3
from sa.terms import C, T, TRUE, FALSE, contains, is_const, is_int, show, sub, subst, walk, add, mul
from sa.structfmt import segments
from sa.rewrite import slice_all
from sa.util import differ, show_case, site

TECHNIQUE = "abstract interpretation of writers and reader; composition of the reader's terms with the written sections"
LEVEL_NOTE = "Layout agreement for every section variant and all counts >= 1. Trusts the model of struct/numpy array order; unmodelled terms are undecided and quiet."
RULES = {"header": "reader and writer place each header field at the same byte with the same type",
         "taken": "each section carrying mesh, state or field data is read by some reader path that does not refuse it",
         "payload": "the reads that follow a header have the item types and counts of the writes that follow it",
         "table": "exported coordinates, connectivities and partition are the arrays that were packed"}
ASSUMPTIONS = ["non-empty mesh: counts are at least one", "numpy reshape/ravel/cumsum semantics are modelled",
               "arrays of unmodelled origin are undecided"]

OPTIONAL = ("UGP_IO_NO_CHECK", "UGP_IO_FA_CHECK", "UGP_IO_CV_CHECK", "UGP_IO_DATA", "UGP_IO_EOF")


def run(rep):
    rt = ic3.trace_reader()
    rep.function(*rt.en.analysed)
    for ver, mod in ic3.WRITERS:
        tr = ic3.trace_writer(ver, mod)
        rep.function(*tr.en.analysed)
        headers(rep, ver, rt, tr)
        comp = ic3.Composition(rt, tr)
        if comp.counts_section is None:
            rep.undecided("payload", ver, "section of counts not identified")
            continue
        opt = {c.args[0] for c in (ic3.restart_code(tr.en, n) for n in OPTIONAL) if c is not None and is_const(c)}
        for s in tr.sections:
            for v in ic3.variants(s):
                section(rep, ver, rt, tr, comp, v, opt)
        tables(rep, ver, rt, tr, comp)


def headers(rep, ver, rt, tr):
    done = set()
    for s in tr.sections:
        if s.site in done:
            continue
        done.add(s.site)
        wl = {o: c for o, (c, _) in s.head.items() if o >= ic3.OFF_ID}
        for h in rt.heads:
            rl = {o: c for o, (_, c) in h.layout.items() if o >= ic3.OFF_ID}
            bad = [o for o in sorted(set(wl) | set(rl)) if norm(wl.get(o)) != norm(rl.get(o))]
            rep.check(not bad, "header", f"{ver} header write [{site(s.site)}] / read [{site(h.site)}]",
                      "same fields" if not bad else
                      f"byte {bad[0]}: written as {wl.get(bad[0])}, read as {rl.get(bad[0])}")


def norm(c):
    return {"l": "q", "L": "Q", None: None}.get(c, c)


def section(rep, ver, rt, tr, comp, v, opt):
    where = f"{ver} section {v.label()}"
    if v.idn is None:
        rep.undecided("taken", where, f"identifier {show(v.id, 4)}")
        return
    if v.sec.opaque:
        rep.undecided("payload", where, "payload of unknown layout")
        return
    takers = [h for h in rt.heads if v.idn in ic3.ids_taken(rt, h)]
    if not takers:
        known = all(ic3.ids_taken(rt, h) for h in rt.heads) and rt.heads
        (rep.ok if v.idn in opt else rep.bad if known else rep.undecided)("taken", where,
                                              "not needed by the reader" if v.idn in opt else "no header read of the reader looks for this section")
        return
    cons = comp.consumers(v)
    if not v.payload:
        rep.check(not any(rs for _, rs in cons), "payload", where, "no payload" if not any(rs for _, rs in cons) else
                  "the reader reads data after a section without payload")
        rep.ok("taken", where, f"{len(takers)} header reads")
        return
    if not cons:
        rep.bad("taken", where, "the payload of this section is never read") if v.idn not in opt else rep.ok("taken", where)
        return
    anyok, firstbad = False, None
    for h, reads in cons:
        m = comp.var_map(h, v)
        live, refused = [], []
        for p in reads:
            bad = comp.refusals([f for f in p.facts if on_header(f, h, comp)], m)
            (refused.append((p, bad)) if bad else live.append(p))
        if not live:
            firstbad = firstbad or (refused[0][1][0], refused[0][0].site)
            continue
        anyok = True
        compare(rep, where, comp, v, h, live, m)
    if anyok:
        rep.ok("taken", where, f"{len(cons)} reader paths")
    else:
        rep.bad("taken", where, f"every reader path refuses it: requires {show(firstbad[0], 6)} [{site(firstbad[1])}]")


def on_header(f, h, comp):
    return contains(f, lambda x: x is h.term)


def compare(rep, where, comp, v, h, live, m):
    """reads after the header against the writes after the header, item by item"""
    w = [(ch, n) for ch, n, _, _ in v.payload]
    r = []
    for p in live:
        sg = segments(comp.ev(p.form, m))
        if sg is None:
            rep.undecided("payload", where, f"format {show(p.form, 4)}")
            return
        for ch, n in sg[1]:
            r.append((ch, n, p))
    for i in range(max(len(w), len(r))):
        wi = f"{where} item group {i}"
        if i >= len(r):
            rep.bad("payload", wi, f"written ({show(w[i][0])} x {show(w[i][1], 4)}) but not read")
            continue
        if i >= len(w):
            rep.bad("payload", wi, f"read [{site(r[i][2].site)}] but not written")
            continue
        (wc, wn), (rc, rn, p) = w[i], r[i]
        if is_const(wc) and is_const(rc):
            a, b = norm(wc.args[0]), norm(rc.args[0])
            if a != b:
                rep.bad("payload", wi, f"written as '{a}', read as '{b}' [{site(p.site)}]")
                continue
        else:
            rep.undecided("payload", wi, f"types {show(wc, 4)} / {show(rc, 4)}")
            continue
        wn2, rn2 = comp.ev(wn), comp.ev(rn, m)
        q, why = differ(wn2, rn2)
        rep.check(q, "payload", wi, f"{a} x {show(wn2, 4)} written, {show(rn2, 4)} read [{site(p.site)}]")
        # bytes requested from the file
        size = p.data.args[1] if p.data.op == "rd" and len(p.data.args) > 1 else None
        if size is not None and len(segments(p.form)[1]) == 1:
            from sa.structfmt import char_size
            want = mul(char_size(rc), rn2)
            q, why = differ(comp.ev(size, m), want)
            rep.check(q, "payload", wi + " bytes", f"{show(comp.ev(size, m), 4)} bytes requested for {show(want, 4)} decoded")


# ------------------------------------------------------------------ mesh tables
def payload_map(rep, ver, comp, codes):
    """reader term of each payload group -> array written"""
    out = {}
    for s in comp.tr.sections:
        for v in ic3.variants(s):
            if v.idn not in codes or not v.payload or v.sec.opaque:
                continue
            for h, reads in comp.consumers(v):
                m = comp.var_map(h, v)
                live = [p for p in reads if not comp.refusals([f for f in p.facts if on_header(f, h, comp)], m)]
                if len(live) != len(v.payload):
                    continue
                for p, g in zip(live, v.payload):
                    out[p.term] = ic3.rewrite(g[2], ic3.RULES)
                out.update(m)
    return out


def tables(rep, ver, rt, tr, comp):
    en = rt.en
    names = ("UGP_IO_NOOFA_I_AND_V", "UGP_IO_CVOFA", "UGP_IO_CV_PART", "UGP_IO_X_NO")
    codes = {}
    for n in names:
        c = ic3.restart_code(tr.en, n)
        if c is not None:
            codes[c.args[0]] = n
    pm = payload_map(rep, ver, comp, codes)
    mo = en.obj(rt.mesh)
    wm = T("sym", "mesh")

    def value(t):
        return strip(comp.ev(en.freeze(t), pm))
    # coordinates
    nodes = mo.f.get("_nodes")
    for k in "xyz":
        t = en.dict_get(nodes, en.obj(nodes), C(k), None) if nodes is not None and en.obj(nodes) is not None and en.obj(nodes).kind == "dict" else None
        if t is None:
            rep.undecided("table", f"{ver} coordinate {k}", "node table not found")
            continue
        got = coordinate(value(t))
        want = T("item", T("attr", wm, "_nodes"), C(k))
        others = {T("item", T("attr", wm, "_nodes"), C(o)) for o in "xyz" if o != k}
        rep.check(True if got is want else False if got in others or (got is not None and got.op == "scrambled") else None, "table", f"{ver} coordinate {k}",
                  f"comes back as {show(got, 5)}")
    partition(rep, ver, rt, value)
    # faces
    faces = mo.f.get("_faces")
    mixed = find_entry(en, faces, "mixed")
    f2c = find_entry(en, mixed, "face2cell")
    if f2c is not None:
        t = value(en.getattr(f2c, "conn"))
        sent = [g for s in tr.sections if s.id is ic3.restart_code(tr.en, "UGP_IO_CVOFA") for g in s.payload]
        if sent:
            src = strip(ic3.rewrite(sent[0][2], ic3.RULES))
            rep.check(same(t, src, (2,)), "table", f"{ver} face to cell table", f"packed {show(src, 4)}, comes back as {show(t, 4)}")
    f2n_events(rep, ver, rt, comp, pm, value)


def partition(rep, ver, rt, value):
    en = rt.en
    mo, wm = en.obj(rt.mesh), T("sym", "mesh")
    prop = mo.f.get("_cellprop")
    pt = find_entry(en, prop, "partition")
    for k, off in (("npart", None), ("icvpart", None)):
        t = find_entry(en, pt, k)
        if t is None:
            rep.undecided("table", f"{ver} partition {k}", "not found")
            continue
        got = value(t)
        want = T("item", T("item", T("attr", wm, "_cellprop"), C("partition")), C(k))
        ok = contains(got, lambda x: x is want)
        other = contains(got, lambda x: x.op == "item" and x.args[0] is want.args[0] and x is not want)
        prim = not contains(got, lambda x: x.op in ("mu", "fold", "unpack", "rd", "unk"))
        rep.check(True if ok else False if (other or prim) else None, "table", f"{ver} partition {k}", f"comes back as {show(got, 6)}")


def find_entry(en, d, k):
    if d is None or en.obj(d) is None or en.obj(d).kind != "dict":
        return None
    for key, v, *_ in en.obj(d).f["entries"]:
        if is_const(key) and key.args[0] == k:
            return v
    return None


def strip(t):
    """array up to the type it is held in"""
    return ic3.rewrite(t, lambda x: x.args[0] if x.op == "cast" else ic3.RULES(x))


def coordinate(t):
    """column of the node table, through a flattening and a reshape of the same order"""
    if t is None:
        return None
    if t.op == "item" and t.args[0].op == "shaped" and t.args[1].op == "tuple" and len(t.args[1].args) == 2:
        src, dims, o = t.args[0].args
        row, col = t.args[1].args
        if src.op == "flat" and len(dims) == 2 and src.args[0].op == "stacked":
            if src.args[1] != o or not slice_all(row) or not (is_const(dims[1]) and dims[1].args[0] == 3):
                return T("scrambled", t)
            if src.args[0].args[0] is not C(1):
                return T("scrambled", t)
            return strip(ic3.rewrite(T("item", src.args[0], t.args[1]), ic3.RULES))
    return t


def same(t, src, trail):
    """is t the array src, packed flat and given back the trailing shape?"""
    if t is src:
        return True
    if t.op == "shaped":
        inner, dims, o = t.args
        d = tuple(x.args[0] if is_const(x) else None for x in dims[1:])
        if inner is src:
            orders = {x.args[1] for x in walk(src) if x.op == "flat"}
            if orders and orders != {o}:
                return False
            return True if d == trail else (False if None not in d else None)
    if t.op == "transposed" and t.args[0].op == "shaped" and t.args[0].args[0] is src:
        return False
    return None


def f2n_events(rep, ver, rt, comp, pm, value):
    """index and value tables of the face to node connectivity"""
    en = rt.en
    found = False
    sent = [g for s in comp.tr.sections if s.id is ic3.restart_code(comp.tr.en, "UGP_IO_NOOFA_I_AND_V") for g in s.payload]
    if len(sent) != 2:
        rep.undecided("table", f"{ver} face to node table", "payload groups not identified")
        return
    cnt, val = (strip(ic3.rewrite(g[2], ic3.RULES)) for g in sent)
    from sa.terms import poly_of
    base = None
    p = poly_of(cnt)
    for mo in p:
        if len(mo) == 1 and mo[0].op == "item" and mo[0].args[1].op == "slice":
            base = mo[0].args[0]
    for e in ic3.flat(rt.events):
        if e[0] == "new":
            o = en.obj(e[2]) if len(e) > 2 else None
            if o is None or "_index" not in o.f or "_value" not in o.f:
                continue
            i, v = value(o.f["_index"]), value(o.f["_value"])
            if not contains(en.freeze(o.f["_value"]), lambda x: x.op == "unpack"):
                continue
            found = True
            rep.check(True if v is val or v is strip(val) else (False if v is cnt else None), "table", f"{ver} face to node values", f"packed {show(val, 4)}, rebuilt {show(v, 4)}")
            if base is None:
                rep.undecided("table", f"{ver} face to node index", f"packed counts {show(cnt, 4)}")
            else:
                wrong = not contains(i, lambda x: x is base) or (i.op == "call" and not contains(i, lambda x: x is C(0)))
                rep.check(True if i is base else (None if not definite_index(i, base) else False), "table",
                          f"{ver} face to node index", f"rebuilt {show(i, 5)}")
    if not found:
        rep.undecided("table", f"{ver} face to node table", "table object not found in the reader")


def definite_index(i, base):
    """index rebuilt without the cumulated sum or without its leading zero"""
    i = subst(i, {base: T("sym", "packed index")})
    cum = contains(i, lambda x: x.op == "call" and isinstance(x.args[0].args[0] if x.args[0].args else None, str) and "cumsum" in x.args[0].args[0]
                   or x.op == "call" and x.args[0].op == "method" and x.args[0].args[1] == "cumsum")
    conc = contains(i, lambda x: x.op == "call" and x.args[0].op == "ext" and x.args[0].args[0] in ("numpy.concatenate", "numpy.insert", "numpy.hstack", "numpy.append", "numpy.r_"))
    return not cum and not contains(i, lambda x: x.op in ("fold", "mu", "sum"))
