"""Reading or converting one file does not change the next.

The package is loaded abstractly; every object reachable from a module, a class body or a default value is common to the whole
process.  The readers, the writers, the commands and every public function and method are then executed abstractly and the
common objects are compared before and after: none may have changed.  Cached functions and settings of the process are
enumerated over the syntax trees."""
import ast

from sa import cli, registry, surface
from sa.engine import Exc, AnalysisError, PKG
from sa.imports import all_modules, locate, tree_of
from sa.terms import T, C, Term, NONE, TRUE, show, walk
from sa.util import site

TECHNIQUE = "effect analysis by abstract execution: heap objects reachable from modules, classes and defaults compared before and after each public operation"
LEVEL_NOTE = "Readers and writers in their full sequence, commands on a symbolic command line, every public function and method once (twice in a row when an operation keeps a common object)."
RULES = {"reader": "reading a file leaves the state of the process unchanged",
         "writer": "writing a file leaves the state of the process unchanged",
         "command": "a command leaves the state of the process unchanged",
         "function": "a public function leaves the state of the process unchanged",
         "method": "a public method changes its own object only",
         "second": "an operation does not change a common object kept by the previous one",
         "cache": "a cached result depends on nothing but the arguments and is not a container shared by the callers",
         "process": "the package does not change the working directory, the environment or the floating point settings of the process"}
ASSUMPTIONS = ["state inside the external libraries is not modelled"]
MUTABLE = ("list", "dict", "set", "arr", "inst", "env")


def reach(en, st, roots, stop=()):
    """{oid: path} of the heap objects reachable from roots [(path, value)]"""
    out = {}
    todo = list(roots)
    while todo:
        path, v = todo.pop()
        if not isinstance(v, Term):
            if isinstance(v, tuple):
                todo += [(path, x) for x in v]
            continue
        if v.op == "ref":
            oid = v.args[0]
            o = st.heap.get(oid)
            if o is None or oid in out or oid in stop:
                continue
            out[oid] = path
            for k, x in o.f.items():
                if k == "entries":
                    for a, b, _ in x:
                        todo.append((f"{path}[{show(a, 2)}]", b))
                elif k in ("chunks", "elts"):
                    todo += [(path + "[]", y) for y in x]
                else:
                    todo.append((f"{path}.{k}", x))
        elif v.op in ("tuple", "vec", "e", "spread", "gamma", "bound", "g", "chunks", "each"):
            todo += [(path, x) for x in v.args]
    return out


def common(en, st):
    """{oid: name} of the objects common to the process after loading: module and class namespaces, what they hold, defaults"""
    roots, out = [], {}
    for m, env in en.modules.items():
        out[env] = m
        for n, v in st.heap[env].f.items():
            roots.append((f"{m}.{n}", v))
    for c in en.classes.values():
        if c.ns in st.heap:
            out[c.ns] = c.qual
            for n, v in st.heap[c.ns].f.items():
                roots.append((f"{c.qual}.{n}", v))
    for f in en.funcs.values():
        for n, v in list(enumerate(f.defaults or ())) + list((f.kwdefaults or {}).items() if isinstance(f.kwdefaults, dict) else enumerate(f.kwdefaults or ())):
            roots.append((f"a default value of {f.qual}", v))
        if isinstance(f.env, int) and f.env in st.heap and f.env not in out:
            out[f.env] = f"the scope of {f.qual}"
            for n, v in st.heap[f.env].f.items():
                roots.append((f"{f.qual}::{n}", v))
    found = reach(en, st, roots)
    for k, p in found.items():
        out.setdefault(k, p)
    return out


NOISE = ("__name__", "__file__", "__path__", "__doc__")


def changed(en, st0, st1, com):
    """[(name, what)] of the common objects that differ"""
    out = []
    for oid, name in com.items():
        a, b = st0.heap.get(oid), st1.heap.get(oid)
        if a is b or b is None or a is None:
            continue
        for k in set(a.f) | set(b.f):
            x, y = a.f.get(k), b.f.get(k)
            if x is y or x == y or k in NOISE:
                continue
            if a.kind == "env" and (x is None and isinstance(y, Term) and y.op == "module"):
                continue                   # a submodule imported on demand
            if k.startswith("__") and k.endswith("__"):
                continue
            what = f".{k}" if a.kind in ("env", "inst") else ""
            out.append((name + what, y))
    return out


def where_of(events, com, name):
    for e in cli.flat(events):
        if e[0] in ("setitem", "listadd", "delitem", "mutate", "inplace", "setattr") and isinstance(e[2], Term):
            t = e[2]
            if t.op == "ref" and t.args[0] in com and name.startswith(com[t.args[0]]):
                return site(e[1])
            if t.op == "class" or t.op == "func":
                return site(e[1])
        if e[0] == "setglobal" and name.startswith(str(e[2])):
            return site(e[1])
    return None


def attempt(en, f):
    """runs f; 'done', 'refused' or an error text"""
    try:
        f()
        return "done"
    except Exc as x:
        en.st = x.st
        return "refused"
    except RecursionError:
        return "recursion"
    except Exception as x:
        return f"{type(x).__name__}: {x}"[:80]


def importers(en):
    """names of the functions executed while the modules are loaded (registration of formats)"""
    return {e[2] for e in cli.flat(surface.base()[1].events) if e[0] == "enterfn"}


def verdict(rep, rule, label, en, st0, com, res, where=""):
    st1 = en.st
    ch = changed(en, st0, st1, com)
    where = where or label
    if ch:
        seen = set()
        for name, val in ch:
            if name in seen:
                continue
            seen.add(name)
            rep.bad(rule, where_of(st1.events, com, name) or where, f"{label} changes {name}, common to the whole process: {show(val, 3)[:80] if isinstance(val, Term) else ''}", key=f"{rule}:{label}:{name}")
        return False
    if res in ("done", "refused"):
        rep.ok(rule, where, f"{label}: {len(com)} common objects unchanged" + ("" if res == "done" else " (arguments refused)"))
    else:
        rep.undecided(rule, where, f"{label}: {res}")
    return True


def run(rep):
    en, st0 = surface.base()[:2]
    com = common(en, st0)
    reg_time = importers(en)
    rep.extra("common_objects", len(com)) if hasattr(rep, "extra") and callable(rep.extra) else None
    mod_file = lambda m: locate(m)[0].split("/repo/")[-1] if locate(m) else m

    # readers and writers, full sequence
    ents, _ = registry.entries(surface.fresh())
    for (fmt, kind), c in sorted(ents.items(), key=str):
        en = surface.fresh()
        w = en.classes[c.args[0]].qual

        def go():
            if kind == "reader":
                r = en.call(c, [T("sym", "filename")], {"cIntegrity": T("sym", "check")})
                en.call(en.getattr(r, "read_data"), [], {})
                en.getattr(r, "ncell")
                en.call(en.getattr(r, "export_mesh"), [], {})
            else:
                m = en.instance_of(T("sym", "mesh"), en.find_class("cfdtools.meshbase._mesh", "Mesh"))
                r = en.call(c, [m], {})
                en.call(en.getattr(r, "write_data"), [T("sym", "filename")], {})
        verdict(rep, kind, f"{fmt} {kind}", en, st0, com, attempt(en, go), w)
        rep.function(w)
    en = surface.fresh()
    c = en.module_attr("cfdtools.ic3.writerV2", "writer")

    def go2():
        m = en.instance_of(T("sym", "mesh"), en.find_class("cfdtools.meshbase._mesh", "Mesh"))
        r = en.call(c, [m], {})
        en.call(en.getattr(r, "write_data"), [T("sym", "filename")], {})
    verdict(rep, "writer", "IC3 version 2 writer", en, st0, com, attempt(en, go2), "cfdtools.ic3.writerV2.writer")

    # commands
    for mod, fn in sorted(set(cli.scripts().values())) if isinstance(cli.scripts(), dict) else sorted({(x[-2], x[-1]) for x in cli.scripts()}):
        en = surface.fresh()
        en.intercept["cfdtools.probes.data.phydata"] = lambda e, a, k: T("sym", "probes")
        f = en.module_attr(mod, fn)
        res = attempt(en, lambda: en.call(f, [T("sym", "argv")], {}))
        en.intercept.pop("cfdtools.probes.data.phydata", None)
        verdict(rep, "command", f"{mod}.{fn}", en, st0, com, res)
        rep.function(f"{mod}.{fn}")

    # functions
    for m, n, f in surface.functions():
        en = surface.fresh()
        q = en.funcs[f.args[0]].qual
        if q in reg_time or m == "cfdtools._cli":
            continue
        for full in (False, True):
            en = surface.fresh()
            req, opt = surface.parameters(en, f)
            if full and not opt:
                continue
            res = attempt(en, lambda: en.call(f, [], {p: surface.typed(en, p) for p in req + (opt if full else [])}))
            if not verdict(rep, "function", q, en, st0, com, res):
                break
        rep.function(q)

    # methods
    for m, n, c in surface.classes():
        en = surface.fresh()
        obj = surface.build(en, c)
        cls = en.classes[c.args[0]]
        if not verdict(rep, "method", f"{m}.{n}()", en, st0, com, "done"):
            continue
        made = obj is not None
        if obj is None:
            en = surface.fresh()
            obj = en.instance_of(T("sym", "self"), cls)
        starts = [(obj, en.st)]
        if made:
            en.st = en.st.clone()
            starts.append((en.instance_of(T("sym", "self"), cls), en.st))
        starts += filled(cls.name)
        for obj, start in starts:
            one(rep, en, cls, m, n, obj, start, made, st0, com)
    caches(rep)
    process(rep)


def filled(name):
    """objects of the mesh with some content"""
    out = []
    M, K = "cfdtools.meshbase._mesh", "cfdtools.meshbase._connectivity"
    if name not in ("Mesh", "elem_connectivity"):
        return out
    en = surface.fresh()
    try:
        conn = en.call(en.module_attr(K, "elem_connectivity"), [], {})
        for t in ("hexa8", "prism6"):
            en.call(en.getattr(conn, "add_elems"), [C(t), T("sym", "nodes_" + t)], {})
        if name == "Mesh":
            mesh = en.call(en.module_attr(M, "Mesh"), [T("sym", "ncell"), T("sym", "nnode")], {})
            en.setattr(mesh, "_cell2node", conn)
            mark = en.call(en.module_attr(M, "submeshmark"), [C("wall")], {})
            en.call(en.getattr(mesh, "add_boco"), [mark], {})
            conn = mesh
        out.append((conn, en.st))
    except Exc:
        pass
    return out


def one(rep, en, cls, m, n, obj, start, made, st0, com):
    kept = keeps(en, obj, com, start)
    for name, kind, f in surface.members(en, cls):
        if f.op != "func" or kind in ("static", "class"):
            continue
        decl = en.funcs[f.args[0]].qual
        if decl.rsplit(".", 1)[0] != cls.qual and made is False:
            continue                   # inherited: seen with its own class
        req, opt = surface.parameters(en, f, 1)
        for full in (False, True):
            if full and not opt:
                continue
            en.st = start.clone()
            en.st.events = []
            res = attempt(en, lambda: use(en, obj, name, kind, req + (opt if full else [])))
            if not verdict(rep, "method", f"{m}.{n}.{name}", en, st0, com, res):
                break
            more = keeps(en, obj, com, en.st) - kept
            if more:
                follow(rep, en, obj, cls, f"{m}.{n}.{name}", st0, com, more)
        rep.function(f"{m}.{n}.{name}")


def use(en, obj, name, kind, params):
    if kind == "property":
        return en.getattr(obj, name)
    if kind == "setter":
        return en.setattr(obj, name, surface.typed(en, params[-1] if params else "value"))
    f = en.getattr(obj, name)
    return en.call(f, [], {p: surface.typed(en, p) for p in params})


def keeps(en, obj, com, st):
    """common objects held in the fields of obj"""
    o = en.obj(obj)
    if o is None or obj.op != "ref" or obj.args[0] not in st.heap:
        return set()
    f = st.heap[obj.args[0]].f
    r = reach(en, st, [(k, v) for k, v in f.items() if isinstance(k, str)])
    return {k for k in r if k in com and st.heap[k].kind in MUTABLE}


def follow(rep, en, obj, cls, label, st0, com, more):
    """every method after an operation that kept a common object"""
    start = en.st
    for name, kind, f in surface.members(en, cls):
        if f.op != "func" or kind in ("static", "class"):
            continue
        req, _ = surface.parameters(en, f, 1)
        en.st = start.clone()
        en.st.events = []
        res = attempt(en, lambda: use(en, obj, name, kind, req))
        if changed(en, st0, en.st, com):
            verdict(rep, "second", f"{name} after {label}", en, st0, com, res)
            return
    rep.ok("second", label, f"keeps {len(more)} common object(s) that nothing changes")


# ------------------------------------------------------------------ syntax: caches and settings of the process
CACHES = {"cache", "lru_cache", "memoize"}
READS = {"open", "fromfile", "loadtxt", "genfromtxt", "load", "read", "File", "h5File", "read_text", "read_bytes", "readlines", "stat", "exists", "getmtime"}


def deco_name(d):
    if isinstance(d, ast.Call):
        d = d.func
    return d.attr if isinstance(d, ast.Attribute) else d.id if isinstance(d, ast.Name) else ""


def caches(rep):
    found = 0
    for m in all_modules():
        path = locate(m)[0]
        tree = tree_of(path)
        for cls, fn in defs(tree):
            if not any(deco_name(d) in CACHES for d in fn.decorator_list):
                continue
            found += 1
            w = f"{path.split('/repo/')[-1]}:{fn.lineno}"
            label = f"{m}.{cls + '.' if cls else ''}{fn.name}"
            static = any(deco_name(d) in ("staticmethod", "classmethod") for d in fn.decorator_list)
            if cls and not static and fn.args.args and fn.args.args[0].arg == "self":
                cd = [c for c in ast.walk(tree) if isinstance(c, ast.ClassDef) and c.name == cls][0]
                ident = not any(isinstance(b, ast.FunctionDef) and b.name in ("__eq__", "__hash__") for b in cd.body) \
                    and not any(deco_name(d) == "dataclass" for d in cd.decorator_list)
                rep.check(ident, "cache", w, f"{label} is cached for each object" + ("" if ident else ", but objects compare by value"), key=f"cache:{label}")
                continue
            rd = [x for x in ast.walk(fn) if isinstance(x, ast.Call) and deco_name(x) in READS]
            if rd:
                rep.bad("cache", f"{path.split('/repo/')[-1]}:{rd[0].lineno}", f"{label} is cached although it reads a file: a second call returns what was read before", key=f"cache:{label}")
                continue
            shared = returned(fn)
            if shared:
                rep.bad("cache", w, f"{label} is cached and returns {shared}, shared by all its callers", key=f"cache:{label}")
            else:
                rep.undecided("cache", w, f"{label} is cached")
    rep.ok("cache", "package", f"{found} cached functions")


def defs(tree, cls=None):
    for n in ast.iter_child_nodes(tree):
        if isinstance(n, ast.ClassDef):
            yield from defs(n, n.name)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            yield cls, n
            yield from defs(n, None)
        elif not isinstance(n, ast.expr):
            yield from defs(n, cls)


FRESH = (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)


def returned(fn):
    """a new container, or a new object of the package, returned by fn"""
    made = {}
    for x in ast.walk(fn):
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
            made.setdefault(x.targets[0].id, []).append(x.value)

    def kind(v, depth=0):
        if isinstance(v, FRESH):
            return "a " + type(v).__name__.replace("Comp", "").lower()
        if isinstance(v, ast.Call) and deco_name(v) in ("list", "dict", "set", "defaultdict", "OrderedDict", "Mesh", "indexlist", "elem_connectivity", "indexindirection", "DataSet", "submeshmark"):
            return "a " + deco_name(v)
        if isinstance(v, ast.Name) and depth < 4:
            for y in made.get(v.id, ()):
                k = kind(y, depth + 1)
                if k:
                    return k
        return None
    for x in ast.walk(fn):
        if isinstance(x, ast.Return) and x.value is not None:
            k = kind(x.value)
            if k:
                return k
    return None


SETTINGS = {"os.chdir", "os.fchdir", "os.umask", "os.putenv", "os.unsetenv", "numpy.seterr", "numpy.seterrcall", "numpy.setbufsize", "locale.setlocale"}


def process(rep):
    n = 0
    for m in all_modules():
        path = locate(m)[0]
        tree = tree_of(path)
        names = {}
        for x in ast.walk(tree):
            if isinstance(x, ast.Import):
                for a in x.names:
                    names[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
            elif isinstance(x, ast.ImportFrom) and x.module and not x.level:
                for a in x.names:
                    names[a.asname or a.name] = f"{x.module}.{a.name}"
        bad = 0
        for x in ast.walk(tree):
            if isinstance(x, ast.Call):
                q = dotted(x.func, names)
                n += 1
                if q in SETTINGS:
                    bad += 1
                    rep.bad("process", f"{path.split('/repo/')[-1]}:{x.lineno}", f"{q} changes the whole process", key=f"process:{m}:{q}")
            t = x.targets if isinstance(x, ast.Assign) else [x.target] if isinstance(x, ast.AugAssign) else []
            for y in t:
                if isinstance(y, ast.Subscript) and dotted(y.value, names) == "os.environ":
                    bad += 1
                    rep.bad("process", f"{path.split('/repo/')[-1]}:{x.lineno}", "os.environ is changed", key=f"process:{m}:environ")
        if not bad:
            rep.ok("process", path.split("/repo/")[-1], "no setting of the process is changed")


def dotted(e, names):
    parts = []
    while isinstance(e, ast.Attribute):
        parts.append(e.attr)
        e = e.value
    if isinstance(e, ast.Name) and e.id in names:
        return ".".join([names[e.id]] + parts[::-1])
    return None
