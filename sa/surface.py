"""the public functions, classes and methods of the package, and abstract calls of them"""
from .engine import Engine, Exc, AnalysisError, REPO
from .imports import all_modules
from .terms import T, C, Term, NONE

_c = {}
SKIP = {"cfdtools.utils._dev"}


def base():
    """engine with every module loaded, and the state after loading"""
    if "b" not in _c:
        en = Engine(REPO)
        failed = []
        for m in all_modules():
            try:
                en.load(m)
            except (Exc, AnalysisError):
                failed.append(m)
        _c["b"] = en, en.st, en.counter, en.rdcount, failed
    return _c["b"]


def fresh():
    en, st, k, r, _ = base()
    en.st = st.clone()
    en.st.events = []
    en.rdcount = r
    return en


def public(n):
    return not n.startswith("_") or n.startswith("__") and n.endswith("__")


def functions():
    """(module, name, func term) of the public functions defined in the package"""
    en = base()[0]
    for m in all_modules():
        if m in SKIP:
            continue
        env = en.modules.get(m)
        if env is None:
            continue
        for n, v in sorted(base()[1].heap[env].f.items()):
            if isinstance(v, Term) and v.op == "func" and en.funcs[v.args[0]].module == m and not n.startswith("_"):
                yield m, n, v


def classes():
    """(module, name, class term)"""
    en = base()[0]
    for m in all_modules():
        if m in SKIP:
            continue
        env = en.modules.get(m)
        if env is None:
            continue
        for n, v in sorted(base()[1].heap[env].f.items()):
            if isinstance(v, Term) and v.op == "class" and en.classes[v.args[0]].module == m and en.classes[v.args[0]].name == n:
                yield m, n, v


def members(en, cls):
    """(name, kind 'method'|'property'|'setter'|'static'|'class', func) of the methods of a class, inherited ones included"""
    done = set()
    for k in cls.mro:
        ns = base()[1].heap[k.ns].f
        for n, v in sorted(ns.items()):
            if n in done or not isinstance(v, Term) or n == "__init__" or not public(n):
                continue
            done.add(n)
            if v.op == "func":
                yield n, "method", v
            elif v.op == "property":
                yield n, "property", v.args[0]
                if v.args[1] is not NONE:
                    yield n, "setter", v.args[1]
            elif v.op == "staticmethod":
                yield n, "static", v.args[0]
            elif v.op == "classmethod":
                yield n, "class", v.args[0]


def parameters(en, f, drop=0):
    """(required names, optional names) of a function"""
    if f.op == "bound":
        f, drop = f.args[0], drop + 1
    a = en.funcs[f.args[0]].node.args
    p = [x.arg for x in a.posonlyargs + a.args][drop:]
    n = len(p) - len(a.defaults)
    req, opt = (p[:n], p[n:]) if a.defaults else (p, [])
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        (opt if d is not None else req).append(x.arg)
    return req, opt


def typed(en, name, prefix="arg_"):
    """a symbolic argument; parameters named after a class of the package are instances of it"""
    return T("sym", prefix + name)


def build(en, cls, full=False):
    """an instance of cls made by its constructor on symbolic arguments (symbolic instance when refused)"""
    c = en.classes[cls.args[0]]
    init = en.class_lookup(c, "__init__")
    try:
        if init is None or init.op != "func":
            return en.call(cls, [], {})
        req, opt = parameters(en, init, 1)
        return en.call(cls, [], {n: typed(en, n, "ctor_") for n in req + (opt if full else [])})
    except Exc as x:
        en.st = x.st
        return None
