"""Requests are validated before an output file is truncated.

Every writing entry point is interpreted abstractly (IC3 v2/v3/v4 writers on an arbitrary mesh, h5File.open with arbitrary
arguments, HDF5 dumps of VTK meshes, data lists and VTK lists).  In the ordered event trace, no refusal (raise, assertion that
is not proved, look-up of an input-dependent key in a closed table) may follow the opening of a file for writing on a same
path, and the refusals that the property lists have to be there before the opening."""
from sa import cli, outputs
from sa.terms import T, C, Term, is_const, walk, show, contains, not_
from sa.util import site

TECHNIQUE = "abstract interpretation of the writing entry points; ordering (typestate) of refusals and file opening on every path"
LEVEL_NOTE = "All paths of the traced entry points. Input/output failures while writing are not refusals. Exceptions raised inside numpy, h5py, pyvista or struct are outside."
RULES = {"order": "no refusal on a path on which a file was already opened for writing",
         "table": "a closed table is not looked up with an unchecked input-dependent key after the opening",
         "refused": "the inconsistent request is refused before the file is opened"}
ASSUMPTIONS = ["h5py, numpy, pyvista and struct calls do not raise on accepted data"]


def incompatible(fa, fb):
    sb = set(fb)
    return any(not_(f) in sb for f in fa)


def cond_terms(e):
    """terms deciding a raise or assert event"""
    return ([x for x in e[2:] if isinstance(x, Term)] if e[0] == "assert" else []) + list(e.facts)


def own_terms(e):
    """what an assertion asserts, the last decisions before a raise"""
    return [e[2]] if e[0] == "assert" else list(e.facts[-12:])


def tail_attr(t):
    """what names the key: last attribute of an access path, or the symbol itself"""
    while isinstance(t, Term):
        if t.op == "attr":
            return t.args[1]
        if t.op == "sym":
            return t.args[0]
        if t.op in ("item", "dkey", "lookup", "str", "table"):
            t = t.args[0]
            continue
        return None
    return None


def key_attr(t):
    a = tail_attr(t)
    if a is None:
        for x in walk(t):
            if x.op == "attr":
                a = x.args[1]
                break
    return a


def mentions(t, name):
    return contains(t, lambda x: (x.op == "attr" and str(x.args[1]).lstrip("_") == name.lstrip("_")) or (x.op == "sym" and x.args[0] == name))


def has_value(t, v):
    def deep(x):
        if isinstance(x, (tuple, list, set, frozenset)):
            return any(deep(y) for y in x)
        if isinstance(x, Term):
            return any(deep(y) for y in x.args)
        return type(x) is type(v) and x == v
    return deep(t)


def run(rep):
    for label, en, before, events in outputs.targets():
        rep.function(*en.analysed)
        opened = []
        refusals = [e for e in cli.flat(before) if e[0] in ("raise", "assert")]
        nafter = 0
        for e, handled in outputs.flat_handled(events):
            if e[0] == "open":
                m = outputs.truncates(e[4]) if len(e) > 4 else None
                if m is None or m:
                    opened.append(e)
            elif e[0] in ("raise", "assert"):
                if e[0] == "assert" and is_const(e[2]) and e[2].args[0]:
                    continue
                prev = [o for o in opened if not incompatible(o.facts, e.facts)]
                if not prev:
                    refusals.append(e)
                    continue
                nafter += 1
                where = f"{label}: {site(e[1])}"
                if any(h in ("IOError", "OSError", "EnvironmentError") for h in handled):
                    rep.ok("order", where, "failure of the write itself")
                else:
                    rep.bad("order", where, f"{e[0]} {[show(x, 3) for x in e[2:3] if isinstance(x, Term)]} after the file was opened at {site(prev[-1][1])}",
                            key=f"{label} {site(e[1])}")
            elif e[0] == "tablekey":
                prev = [o for o in opened if not incompatible(o.facts, e.facts)]
                if not prev:
                    refusals.append(e)
                    continue
                keys, k = e[2], e[3]
                where = f"{label}: {site(e[1])} key {show(k, 3)}"
                a = key_attr(k)
                if a is None:
                    rep.undecided("table", where, "key not named by an attribute")
                    continue
                hits = [x for r in refusals for x in (cond_terms(r) if r[0] != "tablekey" else [r[3]]) if mentions(x, a)]
                if hits:
                    rep.ok("table", where, f"'{a}' is checked before the opening")
                else:
                    rep.bad("table", where, f"unsupported {a} fails after the file was opened at {site(prev[-1][1])}; no check of it before",
                            key=f"{label} {site(e[1])} table")
        if opened and not nafter:
            rep.ok("order", label, f"no refusal after {site(opened[0][1])}; {len(refusals)} before")
        if not opened:
            rep.undecided("order", label, "no file opened for writing was found")
        need = []
        if label.startswith("IC3"):
            need = [("geodim", "bdface", "marks that do not designate faces"), ("type", "perio_cart", "marks of unsupported type"),
                    ("endian", "little", "unknown byte order")]
            if "v2" in label:
                need.append(("ndof", 1, "cell data with several degrees of freedom"))
            if "v3" in label:
                need.append(("dtype", "float64", "scalar data of unsupported type"))
        if "DataSetList" in label:
            need = [("_geoprop", "mesh", "data without a cfdtools mesh")]
        for attr, value, what in need:
            hit = [r for r in refusals if r[0] != "tablekey" and any(mentions(x, attr) for x in own_terms(r))
                   and any(has_value(x, value) for x in own_terms(r)) and "/meshbase/" not in r[1][0]]
            if hit:
                rep.ok("refused", f"{label}: {what}", site(hit[0][1]))
            elif any(x.op == "unk" for r in refusals if r[0] != "tablekey" for c in cond_terms(r) for x in walk(c)):
                rep.undecided("refused", f"{label}: {what}", "refusals not fully modelled")
            else:
                rep.bad("refused", f"{label}: {what}", "no refusal depends on it before the file is opened", key=f"{label} {attr}")
    # opening of an HDF5 file with definite wrong arguments
    S = outputs.sym
    for mode, dt, ver, what in (("a", "dataset", 1, "unknown mode 'a'"), ("zz", "dataset", 1, "unknown mode 'zz'"),
                                ("w", "nothing", 1, "unknown data type"), ("x", "nothing", 1, "unknown data type (mode x)"),
                                ("w", None, 1, "no data type"),
                                ("w", "dataset", None, "missing version"), ("w-", "dataset", None, "missing version (mode w-)"),
                                ("x", "dataset", None, "missing version (mode x)")):
        en, ev = outputs.trace_method("cfdtools.hdf5._hdf5", "h5File", "open", [C(mode), C(dt), C(ver)])
        op = [e for e in cli.flat(ev) if e[0] == "open"]
        ref = [e for e in cli.flat(ev) if e[0] == "raise" or (e[0] == "assert" and not (is_const(e[2]) and e[2].args[0]))]
        rep.check(not op, "refused", f"h5File.open: {what}", "opened" if op else f"refused at {site(ref[0][1]) if ref else '?'}", key=f"h5 {what}")
    # cell data with several degrees of freedom, one field
    def several(en):
        md = T("attr", S("mesh"), "_celldata")
        en.assume(T("truth", md))
        en.assume(T("cmp", "!=", T("attr", md, "ndof"), C(1)))
        return T("cmp", "==", T("len", md), C(1))
    from sa import ic3
    tr = ic3.trace_writer(2, "cfdtools.ic3.writerV2", assume=(several,))
    op = [e for e in cli.flat(tr.events) if e[0] == "open"]
    if op:
        own = [f for f in op[0].facts if mentions(f, "_celldata")]
        if any(f.op not in ("truth", "cmp") or contains(f, lambda x: x.op in ("fold", "unk")) for f in own):
            rep.undecided("refused", "IC3 v2: one cell field with several degrees of freedom", show(own[-1], 5))
        else:
            rep.bad("refused", "IC3 v2: one cell field with several degrees of freedom", "the file is opened", key="v2 ndof")
    else:
        rep.ok("refused", "IC3 v2: one cell field with several degrees of freedom", "not opened")
