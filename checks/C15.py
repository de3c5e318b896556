"""All registered readers and writers share one interface.

The registry is obtained by abstract execution of the whole package.  Each registered reader is constructed from a symbolic
file name and integrity flag, reads, gives its number of cells and exports its mesh on the abstract heap; each registered
writer is constructed from an arbitrary mesh and writes to a symbolic name.  A call that cannot bind its arguments, an attribute
that does not exist after reading, an export that is not a mesh is reported.  The commands are searched for what they use of
the readers and writers of the registry."""
import ast
import os

from sa import cli, registry
from sa.engine import AnalysisError, Engine, REPO, Exc
from sa.terms import T, C, Term, is_const, show, contains, walk
from sa.util import site

TECHNIQUE = "abstract interpretation of every registered reader and writer class; interface query on the syntax tree of the commands"
LEVEL_NOTE = "All formats of the registry after importing the whole package; arbitrary file contents."
RULES = {"construct": "constructed from a file name with an optional integrity flag (reader) or from a mesh (writer)",
         "read": "read_data() can be called without argument",
         "ncell": "the number of cells is available after reading and comes from what was read",
         "export": "export_mesh() can be called without argument and returns a Mesh",
         "arrays": "the node coordinates of the exported mesh are arrays, as scaling and writing need",
         "write": "write_data(filename) can be called",
         "registry": "the registry holds the class itself with its extension",
         "commands": "commands only use what all registered readers or writers offer"}
ASSUMPTIONS = []


def required(en, cls, meth, drop=1):
    f = en.class_lookup(cls, meth)
    if f is None:
        return None
    if f.op in ("static", "classm"):
        f = f.args[0]
    if f.op != "func":
        return None
    return en.funcs[f.args[0]].node.args


def accepts(a, npos, kws, drop=1):
    """can a function with these parameters be called with npos positional arguments and these keywords"""
    pos = [x.arg for x in a.posonlyargs + a.args][drop:]
    if npos > len(pos) and a.vararg is None:
        return f"takes {len(pos)} positional arguments"
    rest = pos[npos:]
    names = set(rest) | {x.arg for x in a.kwonlyargs}
    for k in kws:
        if k not in names and a.kwarg is None:
            return f"no parameter '{k}'"
    ndef = len(a.defaults)
    nodef = pos[:len(pos) - ndef] if ndef else pos
    miss = [x for x in rest if x in nodef and x not in kws]
    miss += [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None and x.arg not in kws]
    return f"parameters {miss} have no default" if miss else None


def offered(en, cls, inst=None):
    """names of the attributes of a class (and of an instance)"""
    out = set()
    for c in [cls] + [k for k in cls.mro if k is not cls]:
        out |= set(en.st.get(c.ns).f)
    if inst is not None and en.obj(inst) is not None:
        out |= set(en.obj(inst).f)
    return out


def uses(path):
    """[(kind, line, npos, keywords, attributes used on the result)] of the calls of registry classes in a module"""
    tree = ast.parse(open(path).read())
    out = []
    for fn in [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)]:
        for n in ast.walk(fn):
            kind = call_kind(n)
            if not kind:
                continue
            names = set()
            for s in ast.walk(fn):
                if isinstance(s, ast.Assign) and s.value is n:
                    names |= {t.id for t in s.targets if isinstance(t, ast.Name)}
            attrs = {}
            for s in ast.walk(fn):
                if isinstance(s, ast.Attribute) and isinstance(s.ctx, ast.Load) and isinstance(s.value, ast.Name) and s.value.id in names:
                    attrs.setdefault(s.attr, s.lineno)
            # a name assigned several times is not followed
            for nm in list(names):
                if sum(1 for s in ast.walk(fn) if isinstance(s, ast.Name) and isinstance(s.ctx, ast.Store) and s.id == nm) > 1:
                    attrs = {}
            out.append((kind, n.lineno, len(n.args), [k.arg for k in n.keywords if k.arg], attrs, fn.name,
                        any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords)))
    return out


def call_kind(n):
    if not isinstance(n, ast.Call):
        return None
    f = n.func
    if isinstance(f, ast.Attribute) and f.attr in ("_reader", "_writer"):
        return f.attr[1:]
    if isinstance(f, ast.Subscript) and isinstance(f.slice, ast.Constant) and f.slice.value in ("reader", "writer"):
        return f.slice.value
    return None


def run(rep):
    en = registry.engine()
    reg, ext = registry.entries(en)
    readers = {f: c for (f, k), c in reg.items() if k == "reader"}
    writers = {f: c for (f, k), c in reg.items() if k == "writer"}
    if not readers or not writers:
        rep.undecided("registry", "cfdtools.api._fileformat_map", "not found")
        return
    for (f, k), c in sorted(reg.items()):
        if c.op == "class":
            rep.ok("registry", f"{k} of {f}", en.classes[c.args[0]].name)
        elif is_const(c) or c.op in ("module", "ext"):
            rep.bad("registry", f"{k} of {f}", f"registered object is {show(c, 2)}", key=f"registry {f} {k}")
        else:
            rep.undecided("registry", f"{k} of {f}", show(c, 2))
    for f, e in sorted(ext.items()):
        if isinstance(e, str):
            rep.check(e.startswith(".") and len(e) > 1, "registry", f"extension of {f}", repr(e), key=f"registry ext {f}")
    for f, c in sorted(readers.items()):
        if c.op != "class":
            continue
        cls = en.classes[c.args[0]]
        a = required(en, cls, "__init__")
        if a is not None:
            for npos, kws, what in ((1, [], "(filename)"), (1, ["cIntegrity"], "(filename, cIntegrity=...)")):
                e = accepts(a, npos, kws)
                rep.check(e is None, "construct", f"reader {f} {what}", e or "accepted", key=f"construct {f} {what}")
        for m, rule in (("read_data", "read"), ("export_mesh", "export")):
            a = required(en, cls, m)
            if a is None:
                if en.class_lookup(cls, m) is None and not en.ext_bases(cls):
                    rep.bad(rule, f"reader {f}.{m}", "no such method", key=f"{rule} {f}")
                else:
                    rep.undecided(rule, f"reader {f}.{m}", "not a plain method")
                continue
            e = accepts(a, 0, [])
            rep.check(e is None, rule, f"reader {f}.{m}()", e or "accepted", key=f"{rule} {f} args")
        judge_reader(rep, f)
    for f, c in sorted(writers.items()):
        if c.op != "class":
            continue
        cls = en.classes[c.args[0]]
        a = required(en, cls, "__init__")
        if a is not None:
            e = accepts(a, 1, [])
            rep.check(e is None, "construct", f"writer {f}(mesh)", e or "accepted", key=f"construct w {f}")
        a = required(en, cls, "write_data")
        if a is None:
            if en.class_lookup(cls, "write_data") is None and not en.ext_bases(cls):
                rep.bad("write", f"writer {f}.write_data", "no such method", key=f"write {f}")
            else:
                rep.undecided("write", f"writer {f}.write_data", "not a plain method")
            continue
        e = accepts(a, 1, [])
        rep.check(e is None, "write", f"writer {f}.write_data(filename)", e or "accepted", key=f"write {f} args")
        judge_writer(rep, f)
    # commands
    path = os.path.join(REPO, "cfdtools", "_cli.py")
    n = 0
    for kind, line, npos, kws, attrs, fn, star in (uses(path) if os.path.exists(path) else []):
        n += 1
        for f, c in sorted((readers if kind == "reader" else writers).items()):
            if c.op != "class":
                continue
            cls = en.classes[c.args[0]]
            where = f"{fn}: {kind} {f}"
            a = required(en, cls, "__init__")
            if a is not None and not star:
                e = accepts(a, npos, kws)
                rep.check(e is None, "commands", f"{where} constructed at _cli.py:{line}", e or "accepted", key=f"commands {fn} {kind} {f}")
            inst = registry.run_reader(f).obj if kind == "reader" and hasattr(registry.run_reader(f), "obj") else None
            off = offered(registry.run_reader(f).en, registry.run_reader(f).en.classes[c.args[0]], inst) if kind == "reader" else offered(en, cls)
            for at, ln in sorted(attrs.items()):
                if at in off or en.ext_bases(cls) or en.class_lookup(cls, "__getattr__") is not None:
                    rep.ok("commands", f"{where}.{at} at _cli.py:{ln}", "offered")
                elif kind == "writer":
                    rep.bad("commands", f"{where}.{at} at _cli.py:{ln}", "this writer has no such attribute", key=f"commands {fn} {kind} {f} {at}")
                else:
                    rep.bad("commands", f"{where}.{at} at _cli.py:{ln}", "this reader has no such attribute after reading", key=f"commands {fn} {kind} {f} {at}")
    if not n:
        rep.undecided("commands", "cfdtools/_cli.py", "no construction of a registered reader or writer recognised")


def judge_reader(rep, f):
    r = registry.run_reader(f)
    rep.function(*r.en.analysed)
    inst = getattr(r, "obj", None)
    for stage, (n0, n1) in r.cuts.items():
        for e in cli.flat(r.events[n0:n1]):
            if e[0] == "badcall":
                rep.bad({"constructor": "construct", "read_data": "read", "export_mesh": "export"}.get(stage, "ncell"),
                        f"reader {f} {stage}: {site(e[1])}", f"arguments do not fit {show(e[2], 2)}", key=f"badcall {f} {site(e[1])}")
            elif e[0] == "missing_attr" and e[2] is inst:
                rep.bad("ncell" if stage == "ncell" else "export" if stage == "export_mesh" else "read",
                        f"reader {f} {stage}: {site(e[1])}", f"the reader has no attribute {e[3]} at this point", key=f"attr {f} {e[3]}")
    if r.failed:
        rep.bad("read" if r.failed == "read_data" else "export" if r.failed == "export_mesh" else "construct",
                f"reader {f}", f"{r.failed} raises on every path", key=f"raises {f}")
        return
    if is_const(r.ncell):
        rep.bad("ncell", f"reader {f}", f"the number of cells after reading is {show(r.ncell)} whatever the file", key=f"ncell {f}")
    elif r.ncell.op == "unk":
        rep.undecided("ncell", f"reader {f}", show(r.ncell, 3))
    else:
        rep.ok("ncell", f"reader {f}", show(r.ncell, 3))
    o = r.en.obj(r.mesh)
    if o is not None and o.kind == "inst" and o.cls is not None:
        cls = r.en.classes[o.cls]
        rep.check(cls.name == "Mesh" or any(k.name == "Mesh" for k in cls.mro), "export", f"reader {f}", f"returns {cls.name}", key=f"export {f}")
        rn, mn = r.ncell, r.en.freeze(r.en.getattr(r.mesh, "ncell"))
        if rn is mn:
            rep.ok("ncell", f"reader {f} and its mesh", "same count")
        nn = r.en.freeze(r.en.getattr(r.mesh, "nnode"))
        if rn is nn and rn.op not in ("unk", "fold"):
            rep.bad("ncell", f"reader {f}", f"the number of cells is the number of nodes: {show(rn, 3)}", key=f"ncell {f} nodes")
    elif is_const(r.mesh):
        rep.bad("export", f"reader {f}", f"export_mesh returns {show(r.mesh)}", key=f"export {f}")
    else:
        rep.undecided("export", f"reader {f}", show(r.mesh, 3))
    for k, v in enumerate(coordinates(r.en, r.mesh)):
        bad = plain_list(r.en, v)
        (rep.bad if bad else rep.ok)("arrays", f"reader {f}", f"coordinate {k} is " + (f"the list {show(v, 3)[:80]}" if bad else show(v, 3)[:80]), **({"key": f"arrays {f}"} if bad else {}))



def coordinates(en, mesh):
    try:
        v = en.freeze(en.call(en.getattr(mesh, "nodescoord"), [], {}))
    except (Exc, AnalysisError):
        return ()
    return v.args if v.op == "tuple" else ()


def plain_list(en, v):
    """a Python list (on every path that is resolved)"""
    if v.op == "gamma":
        return plain_list(en, v.args[1]) or plain_list(en, v.args[2])
    return v.op in ("seq", "repeat") or v.op == "call" and v.args[0].op == "ext" and v.args[0].args[0] in ("builtins.list", "builtins.sorted")


def judge_writer(rep, f):
    en = registry.engine()
    cls = registry.entries(en)[0][f, "writer"]
    mesh = en.instance_of(T("sym", "mesh"), en.find_class("cfdtools.meshbase._mesh", "Mesh"))
    n0 = len(en.st.events)
    try:
        w = en.call(cls, [mesh], {})
        en.call(en.getattr(w, "write_data"), [T("sym", "filename")], {})
        dead = False
    except Exc as x:
        en.st = x.st
        dead = True
    rep.function(*en.analysed)
    for e in cli.flat(en.st.events[n0:]):
        if e[0] == "badcall":
            rep.bad("write", f"writer {f}: {site(e[1])}", f"arguments do not fit {show(e[2], 2)}", key=f"badcall {f} {site(e[1])}")
    if dead:
        rep.bad("write", f"writer {f}", "construction and writing raise on every path", key=f"raises w {f}")
    else:
        rep.ok("write", f"writer {f}", "constructed from a mesh, writes to a name")
