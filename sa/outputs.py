"""writing entry points of the package, traced abstractly: order of opening, refusals and closing"""
from .engine import Engine, Exc
from .terms import T, C, Term, is_const, walk
from . import cli, ic3

IC3 = [(2, "cfdtools.ic3.writerV2"), (3, "cfdtools.ic3.writerV3"), (4, "cfdtools.ic3.writerV4")]
METHODS = [("cfdtools.hdf5._hdf5", "h5File", "open", ["mode", "datatype", "version"]),
           ("cfdtools.vtk._vtk", "vtkMesh", "dumphdf", ["filename", "overwrite"]),
           ("cfdtools.data", "DataSetList", "dumphdf", ["filename", "overwrite"]),
           ("cfdtools.vtk._vtkList", "vtkList", "dumphdf", ["filename", "overwrite", "xdmf"])]


def sym(n):
    return T("sym", n)


def trace_method(mod, cls, meth, args, assume=(), kw=None):
    """(engine, events of the call)"""
    en = Engine()
    en.load("cfdtools.api")
    en.load(mod)
    c = en.find_class(mod, cls)
    o = en.instance_of(sym(cls.lower()), c)
    for a in assume:
        en.assume(a(en, o) if callable(a) else a)
    n = len(en.st.events)
    try:
        en.call(en.getattr(o, meth), list(args), kw or {})
    except Exc as x:               # refused on every path
        en.st = x.st
    return en, en.st.events[n:]


def flat_handled(events, inside=()):
    """(event, names of the exceptions being handled where it happens)"""
    for e in events:
        yield e, inside
        if e[0] == "loop":
            yield from flat_handled(e[4], inside)
        elif e[0] == "if":
            for arm in (e[3], e[4]):
                h = [x for x in arm if x[0] == "handler"]
                names = tuple(str(n) for x in h for n in flat_names(x[2])) if h and isinstance(e[2], Term) and e[2].op == "excond" else ()
                yield from flat_handled(arm, inside + names)


def flat_names(x):
    if isinstance(x, (tuple, list)):
        for y in x:
            yield from flat_names(y)
    elif isinstance(x, Term):
        yield x.args[0] if x.args else x.op
    else:
        yield x


_c = {}


def targets():
    """[(label, engine, events before the call, events of the call)]"""
    if "t" in _c:
        return _c["t"]
    out = []
    for v, m in IC3:
        tr = ic3.trace_writer(v, m)
        out.append((f"IC3 v{v} write_data", tr.en, tr.ctor_events, tr.events))
    tr = v4_solution()
    out.append(("IC3 v4 write_data (mesh and solution)", tr[0], tr[1], tr[2]))
    for mod, cls, meth, args in METHODS:
        en, ev = trace_method(mod, cls, meth, [sym(a) for a in args])
        out.append((f"{cls}.{meth}", en, [], ev))
    _c["t"] = out
    return out


def v4_solution():
    en = Engine()
    en.load("cfdtools.api")
    m = "cfdtools.ic3.writerV4"
    en.load(m)
    mesh = en.instance_of(sym("mesh"), en.find_class("cfdtools.meshbase._mesh", "Mesh"))
    n00 = len(en.st.events)
    w = en.call(en.module_attr(m, "writer"), [mesh, sym("endian")], {})
    n0 = len(en.st.events)
    en.assume(T("not", T("cmp", "is", sym("solution"), C(None))))
    en.call(en.getattr(w, "write_data"), [sym("filename"), sym("solution")], {})
    return en, en.st.events[n00:n0], en.st.events[n0:]


def write_mode(mode):
    """True/False/None: the mode creates or truncates the file"""
    if is_const(mode) and isinstance(mode.args[0], str):
        return any(c in mode.args[0] for c in "wax+")
    return None


def truncates(mode):
    if is_const(mode) and isinstance(mode.args[0], str):
        return "w" in mode.args[0] and mode.args[0] != "w-"
    return None
