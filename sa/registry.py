"""registered file formats of the package and abstract runs of their readers"""
from .engine import Engine, Exc, AnalysisError
from .imports import all_modules
from .terms import T, C, Term, is_const

_c = {}


def engine():
    en = Engine()
    for m in all_modules():
        en.load(m)
    return en


def entries(en):
    """{(format, 'reader'|'writer'): class term}, {format: extension}"""
    reg = en.obj(en.module_attr("cfdtools.api", "_fileformat_map"))
    out, ext = {}, {}
    for k, v, g in reg.f["entries"]:
        d = en.obj(v)
        if not is_const(k) or d is None:
            continue
        for a, b, _ in d.f["entries"]:
            if is_const(a) and a.args[0] in ("reader", "writer"):
                out[k.args[0], a.args[0]] = b
            elif is_const(a) and a.args[0] == "ext":
                ext[k.args[0]] = b.args[0] if is_const(b) else None
    return out, ext


class ReaderRun:
    pass


def run_reader(fmt, assume=()):
    """reader(filename, cIntegrity=check); read_data(); export_mesh()"""
    if (fmt, assume) in _c:
        return _c[fmt, assume]
    r = ReaderRun()
    en = r.en = engine()
    for c in assume:
        en.assume(c)
    cls = r.cls = entries(en)[0][fmt, "reader"]
    r.stage, r.failed = "constructor", None
    n0 = len(en.st.events)
    r.cuts = {}
    try:
        r.obj = en.call(cls, [T("sym", "filename")], {"cIntegrity": T("sym", "check")})
        r.cuts["constructor"] = (n0, len(en.st.events))
        n0 = len(en.st.events)
        r.stage = "read_data"
        en.call(en.getattr(r.obj, "read_data"), [], {})
        r.cuts["read_data"] = (n0, len(en.st.events))
        n0 = len(en.st.events)
        r.stage = "ncell"
        r.ncell = en.freeze(en.getattr(r.obj, "ncell"))
        r.cuts["ncell"] = (n0, len(en.st.events))
        n0 = len(en.st.events)
        r.stage = "export_mesh"
        r.mesh = en.call(en.getattr(r.obj, "export_mesh"), [], {})
        r.cuts["export_mesh"] = (n0, len(en.st.events))
        r.stage = "done"
    except Exc as x:
        en.st = x.st
        r.failed = r.stage
        r.cuts[r.stage] = (n0, len(en.st.events))
    r.events = en.st.events
    _c[fmt, assume] = r
    return r
