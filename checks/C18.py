"""Arguments given by the caller are not modified.

Every public function, constructor and method is executed abstractly on opaque arguments.  Each store, deletion, mutation or
in-place operation met on the way (through the calls it makes) is traced back to the object it modifies: none may be an
argument, a part of it or a view of it.  Then each operation that keeps an argument is followed by every method of the object."""
import ast

from sa import cli, surface
from sa.engine import Exc
from sa.terms import T, C, Term, walk, show, is_const
from sa.util import site
from checks.C24 import attempt, use, filled

TECHNIQUE = "alias and effect analysis by abstract execution: every modified object is traced back to its origin"
LEVEL_NOTE = "Every public function and method on opaque arguments; two-operation histories for the operations that keep an argument. Numbers modified in place are not counted (no object is modified)."
RULES = {"function": "a public function does not modify its arguments",
         "construct": "a constructor does not modify its arguments",
         "method": "a public method does not modify its arguments",
         "kept": "an argument that is kept is not modified by the later operations on the object",
         "writer": "a writer changes nothing in the mesh but its faces and its marks"}
ASSUMPTIONS = ["slicing an HDF5 data set gives a new array", "reshape, ravel and asarray may give a view of their operand"]
KINDS = ("setitem", "listadd", "delitem", "mutate", "inplace", "setattr")
VIEW = ("asarray", "asanyarray", "atleast_1d", "atleast_2d", "ravel", "reshape", "transpose", "squeeze", "view", "swapaxes", "ascontiguousarray")
READING = {"read", "readline", "readlines", "seek", "close", "next", "flush", "write", "tell"}
KEYS = {"name", "etype", "facetype", "key", "elemtype"}
CONTAINER = {"shape", "size", "ndim", "T", "dtype"}
# the completion of the mesh by the IC3 writers is the matter of C26
WRITER_MAY = {"_faces", "nface", "_bocos", "nboco"}
# the data sets of a mesh are handed over to it
HANDED = {"set_celldata", "set_facedata", "set_nodedata"}
CLASSES = {"mesh": ("cfdtools.meshbase._mesh", "Mesh"), "boco": ("cfdtools.meshbase._mesh", "submeshmark"), "face2node": ("cfdtools.meshbase._connectivity", "elem_connectivity"),
           "cell2node": ("cfdtools.meshbase._connectivity", "elem_connectivity"), "face2cell": ("cfdtools.meshbase._connectivity", "indexindirection"),
           "celldata": ("cfdtools.data", "DataSet")}


def argument(en, cls, f, p, prefix="arg_"):
    """a symbolic argument, instance of the class that its annotation or its name tells"""
    s = T("sym", prefix + p)
    a = [x for x in en.funcs[f.args[0]].node.args.args if x.arg == p]
    if p == "other" and cls is not None:
        return en.instance_of(s, cls)
    ann = ast.unparse(a[0].annotation) if a and a[0].annotation is not None else ""
    ann = ann.strip("'\"").split(".")[-1]
    if ann:
        for m, n, c in surface.classes():
            if n == ann:
                return en.instance_of(s, en.classes[c.args[0]])
    if p in CLASSES:
        c = en.find_class(*CLASSES[p])
        if c is not None:
            return en.instance_of(s, c)
    return s


def path(en, t, evidence):
    """(argument, fields) that t is, or is a view or a part of; None when it is a new object or is unknown"""
    if not isinstance(t, Term):
        return None
    if t.op == "sym":
        n = str(t.args[0])
        return (n[4:], ()) if n.startswith("arg_") else None
    if t.op == "attr":
        if t.args[1] in ("shape", "size", "ndim", "dtype"):
            return None                                           # cannot be modified
        r = path(en, t.args[0], evidence)
        return r and (r[0], r[1] + (t.args[1],))
    if t.op == "item":
        k = t.args[1]
        r = path(en, t.args[0], evidence)
        if r is None:
            return None
        if k.op == "slice" or k.op == "tuple":
            return r if array(t.args[0], evidence) else None      # a slice of a list or of a stored data set is a copy
        if k.op in ("call", "seq", "ref", "vec"):
            return None                                           # fancy indexing copies
        return r[0], r[1] + ("[]",)
    if t.op == "gamma":
        return path(en, t.args[1], evidence) or path(en, t.args[2], evidence)
    if t.op == "ref":
        o = en.obj(t)
        if o is not None and o.kind == "inst" and o.base is not None and not o.f.get("__fresh__"):
            return path(en, o.base, evidence)
        return None
    if t.op == "call" and isinstance(t.args[0], Term):
        c = t.args[0]
        if c.op == "ext" and c.args[0].split(".")[-1] in VIEW and t.args[1]:
            return path(en, t.args[1][0], evidence)
        if c.op == "method" and c.args[1] in VIEW:
            return path(en, c.args[0], evidence)
    return None


def view(t):
    """call of a function that returns an array"""
    return t.op == "call" and isinstance(t.args[0], Term) and t.args[0].op == "ext" and t.args[0].args[0].split(".")[-1] in VIEW


def array(t, evidence):
    """t is used as an array"""
    return t in evidence


def usage(events):
    """terms used as arrays (evidence: an array attribute or an array slice is taken)"""
    arr, cont, seen = set(), set(), set()
    todo = []
    for e in cli.flat(events):
        todo += [x for x in e[2:]]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo += list(x)
            continue
        if not isinstance(x, Term):
            continue
        for y in walk(x):
            if y in seen:
                continue
            seen.add(y)
            if y.op == "attr" and y.args[1] in CONTAINER or y.op == "item" and y.args[1].op == "tuple":
                arr.add(y.args[0])
            if y.op in ("len", "elems") or y.op == "item":
                cont.add(y.args[0])
    return arr, cont


def annotated(en, f):
    """parameters declared as arrays / containers or used as such in the body of the function"""
    n = en.funcs[f.args[0]].node
    arr, cont = set(), set()
    for a in n.args.args + n.args.kwonlyargs:
        s = ast.unparse(a.annotation) if a.annotation is not None else ""
        if "array" in s:
            arr.add(a.arg)
        if any(w in s for w in ("array", "list", "dict", "List", "Dict", "Sequence", "set")):
            cont.add(a.arg)
    for x in ast.walk(n):
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.attr in CONTAINER:
            arr.add(x.value.id)
        if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name):
            cont.add(x.value.id)
            if isinstance(x.slice, ast.Tuple):
                arr.add(x.value.id)
        if isinstance(x, (ast.For, ast.comprehension)) and isinstance(x.iter, ast.Name):
            cont.add(x.iter.id)
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("len", "list", "sorted", "enumerate", "zip", "sum"):
            cont |= {a.id for a in x.args if isinstance(a, ast.Name)}
    return arr, cont | arr


_MUTATORS = None
BUILTIN = {n for t in (list, dict, set, str, tuple, bytes, int, float) for n in dir(t)} | set(
    "all any argmax argmin argsort astype byteswap choose clip compress copy cumprod cumsum diagonal dot dump fill flatten item max mean min "
    "nonzero partition prod ptp put ravel repeat reshape resize round searchsorted setfield setflags sort squeeze std sum swapaxes take "
    "tobytes tofile tolist trace transpose var view read write close open create_group create_dataset require_group visit "
    "__enter__ __exit__ read_data start stop pause".split())       # the purpose of these is to act on their object


def mutators():
    """names of methods that only classes of the package have, and that modify the object they are called on"""
    global _MUTATORS
    if _MUTATORS is None:
        _MUTATORS, seen = {}, {}
        for m, n, c in surface.classes():
            en = surface.fresh()
            cls = en.classes[c.args[0]]
            for name, kind, f in surface.members(en, cls):
                if f.op != "func" or kind in ("property", "setter", "static", "class") or name in BUILTIN:
                    continue
                en = surface.fresh()
                cls = en.classes[c.args[0]]
                obj = en.instance_of(T("sym", "arg_self"), cls)
                req, _ = surface.parameters(en, f, 1)
                attempt(en, lambda: en.call(en.getattr(obj, name), [], {p: T("sym", "other_" + p) for p in req}))
                hits = [x for x in modified(en, en.st.events, f, False) if x[1] == "self" and x[3] != "inplace"]
                seen.setdefault(name, []).append(hits)
        _MUTATORS = {k: v[0][0] for k, v in seen.items() if all(v)}
    return _MUTATORS


def modified(en, events, f, inside=True):
    """[(site, argument, fields, how)]"""
    out = []
    evidence = cont = None
    for e in cli.flat(events):
        if inside and e[0] == "xcall" and isinstance(e[2], Term) and e[2].op == "method" and e[2].args[1] not in BUILTIN:
            r = path(en, e[2].args[0], set())
            if r is not None and e[2].args[1] in mutators():
                out.append((e[1], r[0], r[1], f"its method {e[2].args[1]} modifies it at {site(mutators()[e[2].args[1]][0])}"))
            continue
        if e[0] not in KINDS or not isinstance(e[2], Term):
            continue
        t = e[2]
        if e[0] == "mutate" and len(e) > 3 and e[3] in READING:
            continue
        if evidence is None:
            evidence, cont = usage(events)
            a, c = annotated(en, f) if f is not None else ((), ())
            evidence |= {T("sym", "arg_" + x) for x in a}
            cont |= {T("sym", "arg_" + x) for x in c} | evidence
        r = path(en, t, evidence)
        if r is None:
            continue
        if e[0] == "inplace" and t.op != "ref" and not (t in cont or t.op in ("call", "item") and t.args[0] in cont or view(t)):
            continue                       # a number: the name is bound again
        if e[0] == "setattr":
            r = r[0], r[1] + (e[3],)
        elif e[0] == "mutate" and e[3] == "attr" and len(e) > 4 and is_const(e[4]):
            r = r[0], r[1] + (e[4].args[0],)
        out.append((e[1], r[0], r[1], e[0] if e[0] != "mutate" else str(e[3])))
    return out


def judge(rep, rule, label, en, f, res, allowed=(), first=None):
    bad = [x for x in modified(en, en.st.events, f) if not (x[2] and x[2][0] in allowed)]
    for s, a, p, how in bad[:3]:
        rep.bad(rule, site(s), f"{label} modifies its argument {a}{''.join('.' + str(x) for x in p)} ({how})" if first is None else
                f"{label} modifies {a}{''.join('.' + str(x) for x in p)} given to {first} ({how})", key=f"{rule}:{label}:{first}:{a}")
    if bad:
        return False
    if res in ("done", "refused"):
        rep.ok(rule, label, (f"after {first}: " if first else "") + "arguments unchanged" + ("" if res == "done" else " (refused)"))
    else:
        rep.undecided(rule, label, res)
    return True


def keeps(en, obj):
    """the object holds an argument"""
    o = en.obj(obj)
    return o is not None and any(any(x.op == "sym" and str(x.args[0]).startswith("arg_") for x in walk(en.freeze(v))) for v in o.f.values() if isinstance(v, Term))


def run(rep):
    for m, n, f in surface.functions():
        if m == "cfdtools._cli":
            continue
        en = surface.fresh()
        req, opt = surface.parameters(en, f)
        q = f"{m}.{n}"
        res = attempt(en, lambda: en.call(f, [], {p: argument(en, None, f, p) for p in req + opt}))
        judge(rep, "function", q, en, f, res)
        rep.function(q)
    for m, n, c in surface.classes():
        en = surface.fresh()
        cls = en.classes[c.args[0]]
        label = f"{m}.{n}"
        writer = m.startswith("cfdtools.ic3.writer")
        allowed = WRITER_MAY if writer else ()
        starts = []
        init = en.class_lookup(cls, "__init__")
        if init is not None and init.op == "func":
            req, opt = surface.parameters(en, init, 1)
            box = {}

            def make():
                box["o"] = en.call(c, [], {p: argument(en, cls, init, p) for p in req + opt})
            res = attempt(en, make)
            judge(rep, "writer" if writer else "construct", label, en, init, res, allowed)
            if "o" in box and res == "done":
                starts.append(("the constructor", box["o"], en.st))
        objs = []
        en = surface.fresh()
        o = surface.build(en, c)
        if o is not None:
            objs.append((o, en.st))
        en = surface.fresh()
        objs.append((en.instance_of(T("sym", "self"), cls), en.st))
        objs += filled(n)
        for obj, st in objs:
            for name, kind, f in surface.members(en, cls):
                if f.op != "func":
                    continue
                req, opt = surface.parameters(en, f, 0 if kind == "static" else 1)
                if not req + opt:
                    continue
                en.st = st.clone()
                en.st.events = []
                res = attempt(en, lambda: call(en, cls, obj, name, kind, f, req + opt))
                judge(rep, "writer" if writer else "method", f"{label}.{name}", en, f, res, allowed)
                if keeps(en, obj) and name not in HANDED and not writer:
                    starts.append((name, obj, en.st))
        rep.function(label)
        for first, obj, st in starts:
            for name, kind, f in surface.members(en, cls):
                if f.op != "func" or kind in ("static", "class") or name in HANDED:
                    continue
                req, _ = surface.parameters(en, f, 1)
                keys = [p for p in req if p in KEYS or p in named(en, f)]
                for same in ((), keys) if keys else ((),):
                    en.st = st.clone()
                    en.st.events = []
                    res = attempt(en, lambda: call(en, cls, obj, name, kind, f, req, "second_", same))
                    quiet = judge(rep, "writer" if writer else "kept", f"{label}.{name}", en, None, res, allowed, f"{n}.{first}" if first != "the constructor" else first)
                    if not quiet:
                        break


def named(en, f):
    """parameters declared as character strings"""
    n = en.funcs[f.args[0]].node
    return {a.arg for a in n.args.args if a.annotation is not None and ast.unparse(a.annotation) == "str"}


def call(en, cls, obj, name, kind, f, params, prefix="arg_", same=()):
    if kind == "property":
        return en.getattr(obj, name)
    if kind == "setter":
        return en.setattr(obj, name, argument(en, cls, f, params[-1], prefix) if params else T("sym", prefix + "value"))
    return en.call(en.getattr(obj, name), [], {p: argument(en, cls, f, p, "arg_" if p in same else prefix) for p in params})
