"""Interprocedural gated value-graph dataflow over the Python source of /repo.

The analysed program is never imported nor run: its syntax trees are interpreted over symbolic
terms (sa.terms).  Branches are joined with gamma nodes, loops are summarised (one body for all
iterations, induction variables as polynomials in the loop index), calls are inlined through the
resolved program (modules, classes, properties, registries, decorators).  Effects (writes, reads,
opens, external calls, raises) are recorded in a structured trace.
"""
import ast
import os
import struct as _struct

from .terms import (T, C, Term, NONE, TRUE, FALSE, add, sub, mul, neg, is_const, cval, is_num, is_int, is_str,
                    strcat, repeat, not_, and_, or_, cmp, gamma, lookup, poly_of, subst, walk, REBUILD, show,
                    contains)

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "cfdtools"
MAXDEPTH = 45
UNROLL = 80


class Budget(Exception):
    pass


class AnalysisError(Exception):
    pass


# --------------------------------------------------------------------------- heap
class Obj:
    __slots__ = ("kind", "f", "cls", "base")

    def __init__(self, kind, f=None, cls=None, base=None):
        self.kind, self.f, self.cls, self.base = kind, f if f is not None else {}, cls, base

    def copy(self):
        return Obj(self.kind, dict(self.f), self.cls, self.base)


class State:
    __slots__ = ("heap", "owned", "facts", "events", "mat")

    def __init__(self):
        self.heap, self.owned, self.facts, self.events, self.mat = {}, set(), (), [], {}

    def clone(self):
        s = State()
        s.heap = dict(self.heap)
        s.facts = self.facts
        s.events = []
        s.mat = dict(self.mat)
        self.owned = set()
        return s

    def get(self, oid):
        return self.heap[oid]

    def w(self, oid):
        o = self.heap[oid]
        if oid not in self.owned:
            o = o.copy()
            self.heap[oid] = o
            self.owned.add(oid)
        return o


class Func:
    __slots__ = ("fid", "node", "module", "env", "cls", "defaults", "kwdefaults", "qual", "is_gen")

    def __init__(self, fid, node, module, env, cls, defaults, kwdefaults, qual):
        self.fid, self.node, self.module, self.env, self.cls = fid, node, module, env, cls
        self.defaults, self.kwdefaults, self.qual = defaults, kwdefaults, qual
        self.is_gen = False


class Cls:
    __slots__ = ("cid", "name", "module", "node", "bases", "ns", "mro", "qual")


class Frame:
    __slots__ = ("env", "func", "self_", "depth", "module", "cls")

    def __init__(self, env, func, self_, depth, module, cls):
        self.env, self.func, self.self_, self.depth, self.module, self.cls = env, func, self_, depth, module, cls


# outcome of a statement list: (kind, state, value) leaves joined by ('if', cond, A, B)
class Out:
    __slots__ = ("kind", "st", "val", "c", "a", "b")

    def __init__(self, kind, st=None, val=None, c=None, a=None, b=None):
        self.kind, self.st, self.val, self.c, self.a, self.b = kind, st, val, c, a, b


def dead():
    return Out("dead")


def out_map(o, f):
    """apply f to each live leaf"""
    if o.kind == "if":
        return mk_if(o.c, out_map(o.a, f), out_map(o.b, f))
    if o.kind == "dead":
        return o
    return f(o)


def mk_if(c, a, b):
    if a.kind == "dead" and b.kind == "dead":
        return a
    return Out("if", c=c, a=a, b=b)


def leaves(o):
    if o.kind == "if":
        return leaves(o.a) + leaves(o.b)
    return [] if o.kind == "dead" else [o]


BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%",
          ast.Pow: "**", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>",
          ast.MatMult: "@"}
CMPOPS = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is",
          ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}


class Exc(Exception):
    """definite raise while evaluating an expression (the state is dead)"""

    def __init__(self, st):
        self.st = st


def module_file(name, repo=None):
    base = os.path.join(repo or REPO, *name.split("."))
    if os.path.isfile(base + ".py"):
        return base + ".py", False
    if os.path.isfile(os.path.join(base, "__init__.py")):
        return os.path.join(base, "__init__.py"), True
    return None, False


class Ev(tuple):
    """trace event; .facts are the conditions known where it happens"""
    facts = ()


class Engine:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.st = State()          # current state (switched on branches)
        self.funcs, self.classes = {}, {}
        self.modules = {}          # name -> env oid
        self.modstate = {}
        self.trees = {}
        self.counter = 0
        self.rdcount = 0
        self.logs = None     # list to record logging calls
        self.steps = 0
        self.max_steps = 3000000
        self.stack = []
        self.where = []            # (file, line) of the current statement
        self.method_index = None
        self.type_hints = {}
        self.notes = {}
        self.loopdepth = 0
        self.trace_sites = True
        self.intercept = {}        # qualname -> python callable(engine, args, kwargs) -> term
        self.analysed = set()
        self.grouping = False     # dictionaries of lists filled in a loop are followed as groups
        self.mulists = set()
        self.loopnext = {}         # loop-head value -> (value at the end of the body, value before the loop)
        self.quiet_ext = ("logging.", "warnings.")
        self.unroll = UNROLL

    # ------------------------------------------------------------------ basic helpers
    def new(self, kind, f=None, cls=None, base=None):
        self.counter += 1
        oid = self.counter
        self.st.heap[oid] = Obj(kind, f, cls, base)
        self.st.owned.add(oid)
        return oid

    def ref(self, kind, f=None, cls=None, base=None):
        return T("ref", self.new(kind, f, cls, base))

    def obj(self, t):
        return self.st.heap.get(t.args[0]) if t.op == "ref" else None

    def note(self, what):
        self.notes[what] = self.notes.get(what, 0) + 1

    def event(self, kind, *args):
        site = self.where[-1] if self.where else ("?", 0)
        e = Ev((kind, site) + args)
        e.facts = self.st.facts
        self.st.events.append(e)

    def unk(self, why="?"):
        self.rdcount += 1
        self.note("unknown:" + why)
        return T("unk", self.rdcount, why)

    # ------------------------------------------------------------------ modules
    def tree(self, name):
        if name not in self.trees:
            path, pkg = module_file(name, self.repo)
            ns = os.path.join(self.repo, *name.split("."))
            if path is None:
                # a directory without __init__.py is a namespace package
                self.trees[name] = (ast.parse(""), ns, True) if os.path.isdir(ns) else None
            else:
                with open(path, encoding="utf8") as fh:
                    self.trees[name] = (ast.parse(fh.read(), path), path, pkg)
        return self.trees[name]

    def is_repo_module(self, name):
        return (name == PKG or name.startswith(PKG + ".")) and self.tree(name) is not None

    def load(self, name):
        """abstractly execute module `name` once; returns its env oid"""
        if name in self.modules:
            return self.modules[name]
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
            if name in self.modules:
                return self.modules[name]
        t = self.tree(name)
        if t is None:
            raise AnalysisError("no module " + name)
        tree, path, pkg = t
        env = self.new("env", {"__name__": C(name), "__file__": C(path)}, base=None)
        self.modules[name] = env
        self.modstate[name] = "loading"
        fr = Frame(env, None, None, 0, name, None)
        sw, self.where = self.where, self.where + [(path, 0)]
        o = self.exec_block(tree.body, fr)
        self.where = sw
        lv = self.join_out(o)
        if lv is not None:
            self.st = lv.st
        self.modstate[name] = "done"
        if "." in name:
            par, last = name.rsplit(".", 1)
            self.st.w(self.modules[par]).f.setdefault(last, T("module", name))
        return env

    def module_attr(self, mod, attr):
        env = self.load(mod)
        o = self.st.get(env)
        if attr in o.f:
            return o.f[attr]
        if self.is_repo_module(mod + "." + attr):
            # submodule must have been imported by someone
            if mod + "." + attr in self.modules:
                return T("module", mod + "." + attr)
        return None

    def resolve_from(self, frame_mod, node_module, level):
        if level:
            _, path, pkg = self.tree(frame_mod)
            base = frame_mod.split(".")
            if not pkg:
                base = base[:-1]
            base = base[:len(base) - (level - 1)]
            return ".".join(base + ([node_module] if node_module else []))
        return node_module

    # ------------------------------------------------------------------ environments
    def env_lookup(self, env, name):
        e = env
        while e is not None:
            o = self.st.heap[e]
            if name in o.f:
                v = o.f[name]
                if v.op == "nonlocal":
                    e = v.args[0]
                    continue
                return v
            e = o.base
        return None

    def env_set(self, env, name, v):
        o = self.st.heap[env]
        cur = o.f.get(name)
        if cur is not None and cur.op == "nonlocal":
            self.st.w(cur.args[0]).f[name] = v
        else:
            self.st.w(env).f[name] = v

    # ------------------------------------------------------------------ facts
    def known(self, c):
        """TRUE/FALSE/None knowledge of condition under the current facts"""
        if is_const(c):
            return bool(c.args[0])
        if c in self.st.facts:
            return True
        n = not_(c)
        if n in self.st.facts:
            return False
        if c.op == "and":
            ks = [self.known(x) for x in c.args]
            if any(k is False for k in ks):
                return False
            if all(k is True for k in ks):
                return True
        if c.op == "or":
            ks = [self.known(x) for x in c.args]
            if any(k is True for k in ks):
                return True
            if all(k is False for k in ks):
                return False
        if c.op == "not":
            k = self.known(c.args[0])
            return None if k is None else not k
        if c.op == "gamma":
            k = self.known(c.args[0])
            if k is not None:
                return self.known(self.truth(c.args[1] if k else c.args[2]))
        if c.op == "cmp" and c.args[0] in ("==", "!=") and is_const(c.args[2]):
            # x == k1 known => x == k2 false
            for f in self.st.facts:
                if f.op == "cmp" and f.args[0] == "==" and f.args[1] is c.args[1] and is_const(f.args[2]):
                    r = f.args[2].args[0] == c.args[2].args[0]
                    return r if c.args[0] == "==" else not r
        if c.op == "cmp" and c.args[0] in ("<", "<=", ">", ">="):
            # x == k known: order of x and a number
            l, r = c.args[1], c.args[2]
            x, n = (r, l) if is_const(l) else (l, r)
            if is_const(n) and isinstance(n.args[0], (int, float)) and not is_const(x):
                for f in self.st.facts:
                    if f.op == "cmp" and f.args[0] == "==" and f.args[1] is x and is_const(f.args[2]) and isinstance(f.args[2].args[0], (int, float)):
                        a, b = (n.args[0], f.args[2].args[0]) if x is r else (f.args[2].args[0], n.args[0])
                        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[c.args[0]]
        return None

    def assume(self, c):
        """add fact c (False when contradictory)"""
        if is_const(c):
            return bool(c.args[0])
        k = self.known(c)
        if k is False:
            return False
        if c.op == "and":
            return all([self.assume(x) for x in c.args])
        if c.op == "gamma":
            a, b = self.truth(c.args[1]), self.truth(c.args[2])
            if a is FALSE:
                return self.assume(not_(c.args[0])) and self.assume(b)
            if b is FALSE:
                return self.assume(c.args[0]) and self.assume(a)
        if c.op == "not" and c.args[0].op == "gamma":
            g = c.args[0]
            a, b = self.truth(g.args[1]), self.truth(g.args[2])
            if a is TRUE:
                return self.assume(not_(g.args[0])) and self.assume(not_(b))
            if b is TRUE:
                return self.assume(g.args[0]) and self.assume(not_(a))
        if k is None:
            self.st.facts = self.st.facts + (c,)
        return True

    def simp(self, v):
        while v.op == "gamma":
            k = self.known(v.args[0])
            if k is None:
                return v
            v = v.args[1] if k else v.args[2]
        return v

    def truth(self, v):
        v = self.simp(v)
        if is_const(v):
            return C(bool(v.args[0]))
        if v.op in ("cmp", "and", "or", "not"):
            return v
        if v.op == "gamma":
            return gamma(v.args[0], self.truth(v.args[1]), self.truth(v.args[2]))
        if v.op in ("func", "class", "module", "bound", "lambda", "ext", "property"):
            return TRUE
        if v.op == "tuple":
            return C(len(v.args) > 0)
        if v.op == "strcat" and any(is_const(p) and p.args[0] for p in v.args):
            return TRUE
        o = self.obj(v)
        if o is not None:
            if o.kind == "list" or o.kind == "set":
                ch = o.f["chunks"]
                if not ch:
                    return FALSE
                if any(c.op == "e" for c in ch):
                    return TRUE
                return T("truth", self.freeze(v))
            if o.kind == "dict":
                if any(g is TRUE and ek.op != "eachkey" for ek, _, g in o.f["entries"]):
                    return TRUE
                if not o.f["entries"] and o.base is None and not o.f.get("rest"):
                    return FALSE
                return T("truth", o.base if not o.f["entries"] and o.base is not None else self.freeze(v))
            if o.kind == "inst":
                cls = self.classes.get(o.cls)
                if cls is not None and (self.class_lookup(cls, "__len__") or self.class_lookup(cls, "__bool__")):
                    return T("truth", self.freeze(v))
                if o.base is not None and not o.f.get("__fresh__"):
                    return T("truth", o.base)
                return TRUE
            if o.kind in ("file", "env"):
                return TRUE
            return T("truth", self.freeze(v))
        if v.op == "item" or v.op == "call" or True:
            return T("truth", v)

    # ------------------------------------------------------------------ freezing heap values into terms
    def freeze(self, v, depth=0, seen=()):
        """immutable snapshot of a value (list contents, array contents, ...)"""
        if not isinstance(v, Term):
            return v
        if v.op == "ref":
            o = self.obj(v)
            if o is None:
                return v
            if depth > 8 or v in seen:
                return T("deep", v.args[0])
            seen = seen + (v,)
            if o.kind in ("list", "set"):
                return T("seq" if o.kind == "list" else "setof", *[self.freeze_chunk(c, depth + 1, seen) for c in o.f["chunks"]])
            if o.kind == "dict":
                ents = tuple((self.freeze(k, depth + 1, seen), self.freeze(x, depth + 1, seen), g) for k, x, g in o.f["entries"])
                if not ents and o.base is not None:
                    return o.base
                return T("dictof", o.base if o.base is not None else NONE, ents)
            if o.kind == "arr":
                if "elts" in o.f:
                    return T("vec", *[self.freeze(x, depth + 1, seen) for x in o.f["elts"]])
                return self.freeze(o.f["val"], depth + 1, seen)
            if o.kind == "inst":
                if o.base is not None:
                    return o.base
                return T("obj", o.cls, v.args[0])
            return v
        if v.op in ("tuple", "gamma", "e", "each", "spread", "g"):
            return T(v.op, *[self.freeze(x, depth + 1, seen) if isinstance(x, Term) else x for x in v.args])
        return v

    def freeze_chunk(self, c, depth, seen):
        if c.op == "each":
            return T("each", c.args[0], c.args[1], *[self.freeze_chunk(x, depth, seen) for x in c.args[2:]])
        if c.op == "g":
            return T("g", c.args[0], self.freeze_chunk(c.args[1], depth, seen), self.freeze_chunk(c.args[2], depth, seen))
        if c.op == "chunks":
            return T("chunks", *[self.freeze_chunk(x, depth, seen) for x in c.args])
        return T(c.op, *[self.freeze(x, depth, seen) for x in c.args])

    def num(self, v):
        """value usable in arithmetic terms"""
        return self.freeze(self.simp(v)) if v.op in ("ref", "gamma", "tuple") else v

    # ------------------------------------------------------------------ classes
    def class_of(self, t):
        return self.classes.get(t.args[0]) if t.op == "class" else None

    def compute_mro(self, cls):
        out = [cls]
        for b in cls.bases:
            bc = self.class_of(b)
            if bc is not None:
                for m in self.compute_mro(bc):
                    if m in out:
                        out.remove(m)
                    out.append(m)
        return out

    def class_lookup(self, cls, name, after=None):
        mro = cls.mro
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else mro
        for c in mro:
            ns = self.st.heap[c.ns].f
            if name in ns:
                return ns[name]
        return None

    def find_class(self, module, name):
        v = self.module_attr(module, name)
        return self.class_of(v) if v is not None else None

    def is_subclass(self, cls, other):
        return other in cls.mro

    def ext_bases(self, cls):
        return [b for c in cls.mro for b in c.bases if b.op == "ext"]

    def build_method_index(self):
        idx = {}
        for dirpath, dirs, files in os.walk(os.path.join(self.repo, PKG)):
            for f in files:
                if f.endswith(".py"):
                    rel = os.path.relpath(os.path.join(dirpath, f), self.repo)[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[:-9]
                    try:
                        t = self.tree(rel)
                    except SyntaxError:
                        continue
                    if t is None:
                        continue
                    for n in t[0].body:
                        if isinstance(n, ast.ClassDef):
                            for m in n.body:
                                if isinstance(m, (ast.FunctionDef,)):
                                    idx.setdefault(m.name, set()).add((rel, n.name))
        self.method_index = idx

    def instance_of(self, base, cls):
        """symbolic instance of a repo class standing for term `base`"""
        if base in self.st.mat:
            return T("ref", self.st.mat[base])
        oid = self.new("inst", {}, cls.cid, base)
        self.st.mat[base] = oid
        return T("ref", oid)

    def typed(self, t, hint):
        """wrap symbolic term t according to a type hint: class term, ('dict', hint), ('list', hint)"""
        if hint is None or t.op in ("ref", "const", "tuple"):
            return t
        if isinstance(hint, Cls):
            return self.instance_of(t, hint)
        if hint[0] == "dict":
            if t in self.st.mat:
                return T("ref", self.st.mat[t])
            oid = self.new("dict", {"entries": (), "vhint": hint[1]}, None, t)
            self.st.mat[t] = oid
            return T("ref", oid)
        if hint[0] == "list":
            return t
        return t

    def hint_for(self, cls, attr):
        for c in cls.mro:
            h = self.type_hints.get((c.name, attr))
            if h is not None:
                return h() if callable(h) else h
        return None

    # ------------------------------------------------------------------ attribute access
    def getattr(self, v, name, fr=None):
        v = self.simp(v)
        if v.op == "gamma":
            return self.branch_value(v.args[0], lambda: self.getattr(v.args[1], name, fr), lambda: self.getattr(v.args[2], name, fr))
        if v.op == "module":
            r = self.module_attr(v.args[0], name)
            if r is None:
                if self.modstate.get(v.args[0]) == "loading":
                    self.event("missing_attr", v, name)
                    return T("ext", v.args[0] + "." + name)
                self.event("missing_attr", v, name)
                return self.unk("module attribute %s.%s" % (v.args[0], name))
            return r
        if v.op == "ext":
            full = v.args[0] + "." + name
            return EXTCONST.get(full, T("ext", full))
        if v.op == "super":
            cls, slf = v.args
            c = self.classes[cls]
            so = self.obj(slf)
            start = self.classes.get(so.cls, c) if so is not None else c
            m = self.class_lookup(start, name, after=c)
            if m is None:
                return T("attr", T("extbase", *self.ext_bases(c)), name)
            return self.bind(m, slf, start)
        o = self.obj(v)
        if o is not None:
            if o.kind == "inst":
                cls = self.classes[o.cls]
                m = self.class_lookup(cls, name)
                if m is not None and m.op == "property":
                    return self.call(m.args[0], [v], {})
                if name in o.f:
                    return self.simp(o.f[name])
                if m is not None:
                    return self.bind(m, v, cls)
                if name == "__class__":
                    return T("class", o.cls)
                if name == "__dict__":
                    return T("attr", self.freeze(v), name)
                if o.base is not None:
                    t = T("attr", o.base, name)
                    t2 = self.typed(t, self.hint_for(cls, name))
                    return t2
                if self.ext_bases(cls):
                    return T("attr", T("obj", o.cls, v.args[0]), name)
                g = self.class_lookup(cls, "__getattr__")
                if g is not None:
                    return self.call(self.bind(g, v, cls), [C(name)], {})
                self.event("missing_attr", v, name)
                return self.unk("attribute %s.%s" % (cls.name, name))
            if o.kind == "arr":
                return self.arr_attr(v, o, name)
            return T("attr", v, name)
        if v.op == "class":
            cls = self.classes[v.args[0]]
            m = self.class_lookup(cls, name)
            if m is not None:
                if m.op == "classmethod":
                    return T("bound", m.args[0], v)
                if m.op == "staticmethod":
                    return m.args[0]
                return m
            if name == "__name__":
                return C(cls.name)
            return T("attr", v, name)
        if v.op == "func" and name == "__name__":
            return C(self.funcs[v.args[0]].node.name)
        if v.op == "func" and name == "__globals__":
            return T("globals", self.funcs[v.args[0]].module)
        if v.op == "property" and name in ("setter", "getter", "deleter"):
            return T("propset", v, name)
        # symbolic value: unique method name resolution
        if fr is not None:
            c = self.unique_class(name, v)
            if c is not None:
                return self.getattr(self.instance_of(v, c), name)
        return sym_attr(v, name)

    GENERIC = {"items", "keys", "values", "append", "extend", "pop", "update", "get", "size", "shape", "dtype", "copy",
               "list", "range", "index", "name", "type", "close", "open", "read", "write", "print", "plot", "data",
               "check", "set", "sort", "add", "remove", "insert", "count", "clear", "format", "join", "split", "conn",
               "exists", "start", "stop", "scale", "shift", "reset", "parent", "elapsed", "ndof", "properties", "args", "filename"}

    def unique_class(self, name, v):
        if name in self.GENERIC or name.startswith("__") or v.op in ("const", "tuple", "strcat", "poly", "func", "bound", "vec"):
            return None
        if foreign(v):
            return None
        if self.method_index is None:
            self.build_method_index()
        s = self.method_index.get(name, ())
        if len(s) == 1:
            (mod, cn), = s
            if mod in self.modules:
                return self.find_class(mod, cn)
        return None

    def bind(self, m, slf, cls):
        if m.op == "func":
            return T("bound", m, slf)
        if m.op == "classmethod":
            return T("bound", m.args[0], T("class", cls.cid))
        if m.op == "staticmethod":
            return m.args[0]
        if m.op == "property":
            return self.call(m.args[0], [slf], {})
        return m

    def setattr(self, v, name, val):
        v = self.simp(v)
        if v.op == "gamma":
            def f(x):
                self.setattr(x, name, val)
                return NONE
            self.branch_value(v.args[0], lambda: f(v.args[1]), lambda: f(v.args[2]))
            return
        o = self.obj(v)
        if o is not None and o.kind == "inst":
            cls = self.classes[o.cls]
            m = self.class_lookup(cls, name)
            if m is not None and m.op == "property":
                if m.args[1] is NONE:
                    self.event("raise", T("ext", "AttributeError"))
                    raise Exc(self.st)
                self.call(m.args[1], [v, val], {})
                return
            self.event("setattr", v, name, val)
            self.st.w(v.args[0]).f[name] = val
            return
        if o is not None:
            self.event("setattr", v, name, val)
            self.st.w(v.args[0]).f["." + name] = val
            return
        if v.op == "class":
            self.event("setattr", v, name, val)
            self.st.w(self.classes[v.args[0]].ns).f[name] = val
            return
        if v.op == "module":
            self.event("setglobal", v.args[0], name, val)
            self.st.w(self.load(v.args[0])).f[name] = val
            return
        if v.op == "func":
            return
        c = self.unique_class(name, v)
        if c is not None:
            self.setattr(self.instance_of(v, c), name, val)
            return
        self.event("mutate", v, "attr", C(name), val)

    # ------------------------------------------------------------------ arrays
    def arr_attr(self, v, o, name):
        if "elts" in o.f:
            if name == "size":
                return C(len(o.f["elts"]))
            if name == "shape":
                return T("tuple", C(len(o.f["elts"])))
            if name == "dtype":
                return o.f.get("dtype", T("attr", self.freeze(v), name))
        if name in ("T", "shape", "size", "dtype", "flat", "ndim", "itemsize", "real", "imag"):
            return sym_attr(self.freeze(v), name)
        return T("attr", v, name)

    # ------------------------------------------------------------------ branch on a symbolic condition inside expressions
    def branch_value(self, c, fa, fb):
        k = self.known(c)
        if k is not None:
            return fa() if k else fb()
        base = self.st
        sa, sb = base.clone(), base.clone()
        ra = rb = None
        self.st = sa
        try:
            if self.assume(c):
                ra = fa()
        except Exc as e:
            ra = None
        sa = self.st
        self.st = sb
        try:
            if self.assume(not_(c)):
                rb = fb()
        except Exc as e:
            rb = None
        sb = self.st
        if ra is None and rb is None:
            base.events.append(("if", self.where[-1] if self.where else ("?", 0), c, sa.events, sb.events))
            self.st = base
            raise Exc(base)
        if ra is None or rb is None:
            live = sb if ra is None else sa
            ev = ("if", self.where[-1] if self.where else ("?", 0), c, sa.events, sb.events)
            if sa.events or sb.events:
                live.events = base.events + [ev]
            else:
                live.events = base.events
            self.st = live
            return rb if ra is None else ra
        st = self.join_states(c, base, sa, sb)
        self.st = st
        return self.join_val(c, ra, rb, sa, sb)

    def join_states(self, c, base, sa, sb):
        st = State()
        st.events = base.events
        if sa.events or sb.events:
            st.events = base.events + [("if", self.where[-1] if self.where else ("?", 0), c, sa.events, sb.events)]
        fb = set(sb.facts)
        st.facts = tuple(f for f in sa.facts if f in fb)
        st.heap = dict(sa.heap)
        last = self.counter
        for oid, ob in sb.heap.items():
            oa = sa.heap.get(oid)
            if oa is None:
                st.heap[oid] = ob
            elif oa is not ob:
                st.heap[oid] = self.join_obj(c, oa, ob, sa, sb)
                st.owned.add(oid)
        for oid in range(last + 1, self.counter + 1):       # containers merged meanwhile
            if oid in self.st.heap and oid not in st.heap:
                st.heap[oid] = self.st.heap[oid]
                st.owned.add(oid)
        st.mat = dict(sa.mat)
        for k, v in sb.mat.items():
            st.mat.setdefault(k, v)
        return st

    def join_obj(self, c, a, b, sa, sb):
        if a.kind != b.kind:
            return a
        o = Obj(a.kind, {}, a.cls, a.base)
        for k in list(a.f) + [k for k in b.f if k not in a.f]:
            va, vb = a.f.get(k), b.f.get(k)
            if va is vb:
                o.f[k] = va
            elif k == "chunks":
                o.f[k] = join_chunks(c, va, vb)
            elif k == "entries":
                o.f[k] = self.join_entries(c, va, vb, a.base, sa, sb)
            elif k == "elts":
                if va is not None and vb is not None and len(va) == len(vb):
                    o.f[k] = tuple(gamma(c, x, y) for x, y in zip(va, vb))
            elif va is None or vb is None:
                if a.kind == "env":
                    o.f[k] = va if vb is None else vb   # possibly unbound
                elif a.kind == "inst":
                    dflt = T("attr", a.base, k) if a.base is not None else T("unbound", k)
                    cls = self.classes.get(a.cls)
                    if cls is not None and a.base is None:
                        d = self.class_lookup(cls, k)
                        if d is not None and d.op != "property":
                            dflt = d
                    if a.base is not None and dflt in self.st.mat:
                        dflt = T("ref", self.st.mat[dflt])
                    elif a.base is not None and dflt in sa.mat:
                        dflt = T("ref", sa.mat[dflt])
                    elif a.base is not None and dflt in sb.mat:
                        dflt = T("ref", sb.mat[dflt])
                    o.f[k] = gamma(c, va if va is not None else dflt, vb if vb is not None else dflt)
                elif k == "val" or k == "elts":
                    o.f[k] = va if va is not None else vb
                else:
                    o.f[k] = va if va is not None else vb
            elif isinstance(va, Term) and isinstance(vb, Term):
                o.f[k] = self.join_val(c, va, vb, sa, sb)
            else:
                o.f[k] = va
        return o

    def join_entries(self, c, ea, eb, base, sa, sb):
        out = []
        db = {k: (k, v, g) for k, v, g in eb}
        da = {k: (k, v, g) for k, v, g in ea}
        for k, v, g in ea:
            if k in db:
                _, v2, g2 = db[k]
                gg = g if g is g2 else gamma(c, g, g2)
                out.append((k, self.join_val(c, v, v2, sa, sb) if v is not v2 else v, gg))
            elif base is not None:
                out.append((k, gamma(c, v, T("item", base, k)), g if g is not TRUE else TRUE))
            else:
                out.append((k, v, and_(c, g)))
        for k, v, g in eb:
            if k not in da:
                if base is not None:
                    out.append((k, gamma(c, T("item", base, k), v), g))
                else:
                    out.append((k, v, and_(not_(c), g)))
        return tuple(out)

    def join_val(self, c, a, b, sa, sb):
        if a is b:
            return a
        if a.op == "ref" and b.op == "ref":
            oa, ob = sa.heap.get(a.args[0]), sb.heap.get(b.args[0])
            # two fresh containers of the same kind created in the two branches: merge
            if oa is not None and ob is not None and oa.kind == ob.kind and a.args[0] not in sb.heap and b.args[0] not in sa.heap:
                if oa.kind in ("list", "set") or (oa.kind == "dict" and oa.base is None and ob.base is None) \
                        or (oa.kind == "inst" and oa.cls == ob.cls and oa.base is None and ob.base is None) or oa.kind == "arr":
                    if not (oa.kind == "arr" and (("elts" in oa.f) != ("elts" in ob.f) or
                                                  ("elts" in oa.f and len(oa.f["elts"]) != len(ob.f["elts"])))):
                        j = self.join_obj(c, oa, ob, sa, sb)
                        self.counter += 1
                        oid = self.counter
                        self.st.heap[oid] = j
                        self.st.owned.add(oid)
                        return T("ref", oid)
        if a.op == "ref" or b.op == "ref":
            return T("gamma", c, a, b)
        return gamma(c, a, b)

    # ------------------------------------------------------------------ statements
    def join_out(self, o):
        """join all leaves (same treatment whatever their kind); returns a leaf Out or None when dead"""
        if o.kind == "dead":
            return None
        if o.kind != "if":
            return o
        a, b = self.join_out(o.a), self.join_out(o.b)
        if a is None or b is None:
            return a or b
        base = State()
        base.events = []
        # events of each leaf are complete traces: find the common prefix
        ea, eb = a.st.events, b.st.events
        k = 0
        while k < len(ea) and k < len(eb) and ea[k] is eb[k]:
            k += 1
        base.events = ea[:k]
        sa, sb = a.st, b.st
        sa2, sb2 = sa, sb
        sa2.events, sb2.events = ea[k:], eb[k:]
        save = self.st
        self.st = sa
        st = self.join_states(o.c, base, sa2, sb2)
        self.st = st
        va = a.val if a.val is not None else NONE
        vb = b.val if b.val is not None else NONE
        val = self.join_val(o.c, va, vb, sa, sb)
        self.st = save
        return Out(a.kind if a.kind == b.kind else "normal", st, val)

    def exec_block(self, stmts, fr):
        """execute a statement list from self.st; returns an Out"""
        stmts = list(stmts)
        i = 0
        while i < len(stmts):
            s = stmts[i]
            self.steps += 1
            if self.steps > self.max_steps:
                raise Budget("step budget exhausted")
            if callable(s):
                s()
                i += 1
                continue
            if self.where:
                self.where[-1] = (self.where[-1][0], getattr(s, "lineno", self.where[-1][1]))
            try:
                o = self.exec_stmt(s, fr, stmts[i + 1:])
            except Exc as e:
                return Out("raise", self.st, NONE) if self.trystack else self._dead()
            if o is None:
                i += 1
                continue
            return o
        return Out("normal", self.st)

    trystack = ()

    def _dead(self):
        d = dead()
        d.st = self.st
        self.dead_events.append(self.st.events)
        return d

    dead_events = []

    def branch(self, c, fa, fb):
        """statement-level branch: fa and fb return Outs"""
        k = self.known(c)
        if k is not None:
            return fa() if k else fb()
        base = self.st
        sa, sb = base.clone(), base.clone()
        sa.events, sb.events = list(base.events), list(base.events)
        self.st = sa
        oa = fa() if self.assume(c) else dead()
        self.st = sb
        ob = fb() if self.assume(not_(c)) else dead()
        # a dead branch still leaves its trace: recorded as a guarded event in the live one
        if oa.kind == "dead" and ob.kind != "dead":
            ev = self.dead_tail(oa, base)
            if ev:
                self.add_prefix(ob, base, ("if", self.where[-1] if self.where else ("?", 0), c, ev, []))
        elif ob.kind == "dead" and oa.kind != "dead":
            ev = self.dead_tail(ob, base)
            if ev:
                self.add_prefix(oa, base, ("if", self.where[-1] if self.where else ("?", 0), c, [], ev))
        elif oa.kind == "dead" and ob.kind == "dead":
            d = dead()
            d.st = State()
            d.st.events = list(base.events) + [("if", self.where[-1] if self.where else ("?", 0), c, self.dead_tail(oa, base), self.dead_tail(ob, base))]
            return d
        return mk_if(c, oa, ob)

    def dead_tail(self, o, base):
        if o.st is None:
            return []
        return o.st.events[len(base.events):]

    def add_prefix(self, o, base, ev):
        n = len(base.events)
        for lf in leaves(o):
            lf.st.events = lf.st.events[:n] + [ev] + lf.st.events[n:]

    def exec_stmt(self, s, fr, rest):
        """returns None when execution falls through to the next statement, else the Out of s + rest"""
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.note("stmt:" + type(s).__name__)
            return None
        return m(s, fr, rest)

    def s_Expr(self, s, fr, rest):
        if not isinstance(s.value, ast.Constant):
            self.ev(s.value, fr)

    def s_Pass(self, s, fr, rest):
        return None

    def s_Import(self, s, fr, rest):
        for a in s.names:
            name = a.name
            if name.split(".")[0] == PKG and self.is_repo_module(name):
                self.event("import", C(name))
                self.load(name)
                if a.asname:
                    # import a.b.c as x : binds the attribute chain
                    self.env_set(fr.env, a.asname, T("module", name))
                else:
                    self.env_set(fr.env, name.split(".")[0], T("module", name.split(".")[0]))
            else:
                self.env_set(fr.env, a.asname or name.split(".")[0], T("ext", name if a.asname else name.split(".")[0]))

    def s_ImportFrom(self, s, fr, rest):
        mod = self.resolve_from(fr.module, s.module, s.level)
        for a in s.names:
            if mod and mod.split(".")[0] == PKG and self.is_repo_module(mod):
                self.load(mod)
                if a.name == "*":
                    for k, v in list(self.st.heap[self.modules[mod]].f.items()):
                        if not k.startswith("_"):
                            self.env_set(fr.env, k, v)
                    continue
                v = self.module_attr(mod, a.name)
                if v is None and self.is_repo_module(mod + "." + a.name):
                    self.load(mod + "." + a.name)
                    v = T("module", mod + "." + a.name)
                if v is None:
                    self.event("missing_import", C(mod), a.name)
                    v = self.unk("import %s.%s" % (mod, a.name))
                self.env_set(fr.env, a.asname or a.name, v)
            else:
                full = (mod or "") + "." + a.name
                self.env_set(fr.env, a.asname or a.name, EXTCONST.get(full, T("ext", full)))

    def s_FunctionDef(self, s, fr, rest):
        f = self.make_func(s, fr)
        v = f
        for d in reversed(s.decorator_list):
            dv = self.ev(d, fr)
            v = self.apply_decorator(dv, v)
        self.env_set(fr.env, self.mangle(s.name, fr), v)

    s_AsyncFunctionDef = s_FunctionDef

    def make_func(self, s, fr):
        self.counter += 1
        fid = self.counter
        defaults = [self.ev(d, fr) for d in s.args.defaults]
        kwd = [self.ev(d, fr) if d is not None else None for d in s.args.kw_defaults]
        name = getattr(s, "name", "<lambda>")
        q = (fr.func.qual + ".<locals>." if fr.func is not None else fr.module + ".") + \
            ((fr.cls.name + ".") if fr.cls is not None and fr.func is None else "") + name
        self.funcs[fid] = Func(fid, s, fr.module, self._closure_env(fr), fr.cls or (fr.func.cls if fr.func is not None else None), defaults, kwd, q)
        if not isinstance(s, ast.Lambda):
            self.funcs[fid].is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_noscope(s))
        return T("func", fid)

    def _closure_env(self, fr):
        # class bodies are not closures for their methods
        e = fr.env
        while self.st.heap[e].f.get("__classbody__") is not None:
            e = self.st.heap[e].base
        return e

    def apply_decorator(self, dv, v):
        if dv.op == "ext":
            n = dv.args[0]
            if n == "builtins.property":
                return T("property", v, NONE)
            if n == "builtins.staticmethod":
                return T("staticmethod", v)
            if n == "builtins.classmethod":
                return T("classmethod", v)
            if n.startswith("functools.") and n.split(".")[-1] in ("cache", "lru_cache", "wraps"):
                return v
            if n == "functools.cached_property":
                return T("property", v, NONE)
            return v
        if dv.op == "propset":
            p, which = dv.args
            return T("property", p.args[0], v) if which == "setter" else T("property", v, p.args[1])
        if dv.op == "call" and dv.args[0].op == "ext":
            return v
        if dv.op in ("func", "bound", "class", "lambda"):
            return self.call(dv, [v], {})
        return v

    def s_ClassDef(self, s, fr, rest):
        self.counter += 1
        cid = self.counter
        c = Cls()
        c.cid, c.name, c.module, c.node = cid, s.name, fr.module, s
        c.qual = fr.module + "." + s.name
        c.bases = [self.ev(b, fr) for b in s.bases]
        c.ns = self.new("env", {"__classbody__": TRUE}, base=fr.env)
        self.classes[cid] = c
        c.mro = self.compute_mro(c)
        cf = Frame(c.ns, None, None, fr.depth, fr.module, c)
        o = self.exec_block(s.body, cf)
        lv = self.join_out(o)
        if lv is not None:
            self.st = lv.st
        v = T("class", cid)
        for d in reversed(s.decorator_list):
            v = self.apply_decorator(self.ev(d, fr), v)
        self.env_set(fr.env, s.name, v)

    def s_Return(self, s, fr, rest):
        v = self.ev(s.value, fr) if s.value is not None else NONE
        return Out("return", self.st, v)

    def s_Break(self, s, fr, rest):
        return Out("break", self.st)

    def s_Continue(self, s, fr, rest):
        return Out("continue", self.st)

    def s_Raise(self, s, fr, rest):
        v = self.ev(s.exc, fr) if s.exc is not None else T("reraise")
        self.event("raise", v)
        raise Exc(self.st)

    def s_Assert(self, s, fr, rest):
        c = self.truth(self.ev(s.test, fr))
        self.event("assert", c)
        if not self.assume(c):
            self.event("raise", T("ext", "AssertionError"))
            raise Exc(self.st)

    def s_Global(self, s, fr, rest):
        menv = self.modules[fr.module]
        for n in s.names:
            self.st.w(fr.env).f[n] = T("nonlocal", menv)

    def s_Nonlocal(self, s, fr, rest):
        for n in s.names:
            e = self.st.heap[fr.env].base
            while e is not None and n not in self.st.heap[e].f:
                e = self.st.heap[e].base
            if e is not None:
                self.st.w(fr.env).f[n] = T("nonlocal", e)

    def s_Delete(self, s, fr, rest):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.st.w(fr.env).f.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                v = self.ev(t.value, fr)
                o = self.obj(v)
                if o is not None:
                    self.st.w(v.args[0]).f.pop(self.mangle(t.attr, fr), None)
            elif isinstance(t, ast.Subscript):
                v = self.ev(t.value, fr)
                k = self.ev(t.slice, fr)
                self.event("delitem", v, k)
                self.del_item(v, k)

    def del_item(self, v, k):
        o = self.obj(v)
        if o is not None and o.kind == "dict":
            w = self.st.w(v.args[0])
            k = self.freeze(k)
            ents = w.f["entries"]
            if o.base is not None:
                w.f["entries"] = tuple(e for e in ents if e[0] is not k)
                w.base = T("without", o.base, k)
            elif is_const(k) or any(e[0] is k for e in ents):
                w.f["entries"] = tuple(e for e in ents if e[0] is not k)
            else:
                w.base = T("without", self.freeze(v), k)
                w.f["entries"] = ()

    def s_Assign(self, s, fr, rest):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr, rest):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def s_AugAssign(self, s, fr, rest):
        t = s.target
        op = BINOPS[type(s.op)]
        if isinstance(t, ast.Name):
            cur = self.ev(ast.Name(t.id, ast.Load()), fr)
            x = self.ev(s.value, fr)
            o = self.obj(cur)
            if o is not None and o.kind == "list" and op == "+":
                self.list_extend(cur, x)
                return
            if o is not None and o.kind == "arr":
                self.arr_inplace(cur, op, x)
                return
            if o is None and cur.op not in ("const", "strcat", "repeat", "poly", "tuple"):
                self.event("inplace", cur, op, x)
            self.env_set(fr.env, self.mangle(t.id, fr), self.binop(op, cur, x))
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, fr)
            a = self.mangle(t.attr, fr)
            cur = self.getattr(b, a, fr)
            x = self.ev(s.value, fr)
            o = self.obj(cur)
            if o is not None and o.kind == "list" and op == "+":
                self.list_extend(cur, x)
                return
            self.in_place(cur, op, x)
            self.setattr(b, a, self.binop(op, cur, x))
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, fr)
            k = self.ev(t.slice, fr)
            cur = self.getitem(b, k)
            x = self.ev(s.value, fr)
            o = self.obj(cur)
            if o is not None and o.kind == "list" and op == "+":
                self.list_extend(cur, x)
                return
            self.in_place(cur, op, x)
            self.setitem_lv(t, b, k, self.binop(op, cur, x), fr)

    def in_place(self, cur, op, x):
        """the value stored in an attribute or an item is modified in place when it is an array"""
        if isinstance(cur, Term) and self.obj(cur) is None and cur.op not in ("const", "strcat", "repeat", "poly", "tuple"):
            self.event("inplace", cur, op, x)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.env_set(fr.env, self.mangle(t.id, fr), v)
            if fr.func is None and fr.cls is None and self.modstate.get(fr.module) == "done":
                pass
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                els = self.known_elems(v)
                if els is not None:
                    k = star[0]
                    tail = n - k - 1
                    for e, x in zip(t.elts[:k], els[:k]):
                        self.assign(e, x, fr)
                    self.assign(t.elts[k].value, self.mklist(els[k:len(els) - tail]), fr)
                    for e, x in zip(t.elts[k + 1:], els[len(els) - tail:]):
                        self.assign(e, x, fr)
                else:
                    for e in t.elts:
                        self.assign(e.value if isinstance(e, ast.Starred) else e, self.unk("star"), fr)
                return
            v = self.simp(v)
            for i, e in enumerate(t.elts):
                self.assign(e, self.getitem(v, C(i)), fr)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, fr)
            self.setattr(b, self.mangle(t.attr, fr), v)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, fr)
            k = self.ev(t.slice, fr)
            self.setitem_lv(t, b, k, v, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)

    def setitem_lv(self, t, b, k, v, fr):
        """t is the Subscript target: store v at b[k]; symbolic b is updated functionally through its l-value"""
        b = self.simp(b)
        if self.setitem(b, k, v):
            return
        nv = T("store", self.freeze(b), self.freeze(k), self.freeze(v))
        base = t.value
        self.event("mutate", b, "item", self.freeze(k), v)
        if isinstance(base, ast.Name):
            self.env_set(fr.env, self.mangle(base.id, fr), nv)
        elif isinstance(base, ast.Attribute):
            try:
                self.setattr(self.ev(base.value, fr), self.mangle(base.attr, fr), nv)
            except Exc:
                pass
        elif isinstance(base, ast.Subscript):
            bb = self.ev(base.value, fr)
            kk = self.ev(base.slice, fr)
            if self.obj(bb) is not None:
                self.setitem(bb, kk, nv)

    def setitem(self, b, k, v):
        """store into heap containers; False when b is a symbolic value"""
        if b.op == "gamma":
            if any(self.obj(x) is not None for x in b.args[1:]):
                def f(x):
                    self.setitem(self.simp(x), k, v)
                    return NONE
                self.branch_value(b.args[0], lambda: f(b.args[1]), lambda: f(b.args[2]))
                return True
            return False
        if b.op == "globals":
            self.event("setglobal", b.args[0], k, v)
            if is_const(k):
                self.st.w(self.load(b.args[0])).f[k.args[0]] = v
            return True
        o = self.obj(b)
        if o is None:
            if b.op == "attr" and b.args[1] == "attrs" or b.op in ("call", "unk", "sym") and "h5" in show(b, 2):
                self.event("setitem", b, self.freeze(k), self.freeze(v))
                return True
            return False
        if o.kind == "dict":
            self.event("setitem", b, k, v)
            w = self.st.w(b.args[0])
            ents = list(w.f["entries"])
            fk = self.freeze(k)
            for i, (ek, evl, g) in enumerate(ents):
                if ek is fk:
                    ents[i] = (ek, v, TRUE)
                    break
            else:
                ents.append((fk, v, TRUE))
            w.f["entries"] = tuple(ents)
            return True
        if o.kind == "list":
            w = self.st.w(b.args[0])
            ch = list(w.f["chunks"])
            if is_int(k) and all(c.op == "e" for c in ch) and -len(ch) <= k.args[0] < len(ch):
                ch[k.args[0]] = T("e", v)
                w.f["chunks"] = tuple(ch)
            else:
                w.f["chunks"] = (T("spread", T("store", self.freeze(b), self.freeze(k), self.freeze(v))),)
            return True
        if o.kind == "arr":
            self.event("setitem", b, self.freeze(k), self.freeze(v))
            w = self.st.w(b.args[0])
            v = self.simp(v)
            if "elts" in w.f:
                n = len(w.f["elts"])
                if is_int(k) and -n <= k.args[0] < n:
                    e = list(w.f["elts"])
                    e[k.args[0]] = v
                    w.f["elts"] = tuple(e)
                    return True
                if k.op == "slice" and all(x is NONE for x in k.args):
                    els = self.known_elems(v)
                    if els is not None and len(els) == n:
                        w.f["elts"] = tuple(els)
                    else:
                        w.f["elts"] = tuple([v] * n) if v.op == "const" else tuple(T("item", self.freeze(v), C(i)) for i in range(n))
                    return True
                if k.op == "idx" or k.op == "item" or k.op == "sym":
                    # unknown position: every element may change
                    w.f["elts"] = tuple(gamma(cmp("==", k, C(i)), self.freeze(v), e) for i, e in enumerate(w.f["elts"]))
                    return True
                w.f["val"] = T("store", self.freeze(b), self.freeze(k), self.freeze(v))
                del w.f["elts"]
                return True
            if k.op == "slice" and all(x is NONE for x in k.args) and is_const(v):
                w.f["val"] = T("call", T("ext", "numpy.full_like"), (w.f["val"], v), ())
                return True
            w.f["val"] = T("store", w.f["val"], self.freeze(k), self.freeze(v))
            return True
        if o.kind == "inst":
            cls = self.classes[o.cls]
            m = self.class_lookup(cls, "__setitem__")
            if m is not None:
                self.call(self.bind(m, b, cls), [k, v], {})
                return True
            self.event("setitem", b, k, v)
            return True
        self.event("setitem", b, k, v)
        return True

    def arr_inplace(self, a, op, x):
        self.event("setitem", a, T("slice", NONE, NONE, NONE), self.freeze(x))
        w = self.st.w(a.args[0])
        nv = self.binop(op, self.freeze(a), self.freeze(x))
        w.f.pop("elts", None)
        w.f["val"] = nv

    # ---- control flow
    def s_If(self, s, fr, rest):
        c = self.truth(self.ev(s.test, fr))
        k = self.known(c)
        if k is not None:
            body = s.body if k else s.orelse
            return self.exec_block(list(body) + list(rest), fr)
        if has_exit(s):
            return self.branch(c, lambda: self.exec_block(list(s.body) + list(rest), fr),
                               lambda: self.exec_block(list(s.orelse) + list(rest), fr))
        base_where = list(self.where)
        o = self.branch(c, lambda: self.exec_block(s.body, fr), lambda: self.exec_block(s.orelse, fr))
        self.where = base_where
        if o.kind == "dead":
            return o
        lv = self.join_out(o)
        self.st = lv.st
        if lv.kind == "raise":
            return lv
        return None

    def s_With(self, s, fr, rest):
        exits = []
        for item in s.items:
            cm = self.ev(item.context_expr, fr)
            o = self.obj(cm)
            if o is not None and o.kind == "inst" and self.class_lookup(self.classes[o.cls], "__enter__"):
                v = self.call(self.getattr(cm, "__enter__"), [], {})
                exits.append(lambda cm=cm: self.call(self.getattr(cm, "__exit__"), [NONE, NONE, NONE], {}))
            else:
                v = cm
                if cm.op == "bound":
                    v = cm
                self.event("enter", cm)
                exits.append(lambda cm=cm: self.event("exit", cm))
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, fr)
        exits.reverse()
        if has_exit(s):
            o = self.exec_block(s.body, fr)

            def leaf(l):
                self.st = l.st
                for e in exits:
                    e()
                if l.kind == "normal":
                    return self.exec_block(rest, fr)
                return Out(l.kind, self.st, l.val)
            return out_map(o, leaf)
        return self.exec_block(list(s.body) + exits + list(rest), fr)

    def s_Try(self, s, fr, rest):
        base = self.st
        if not s.handlers:
            o = self.exec_block(list(s.body) + list(s.orelse), fr)

            def leaf(l):
                self.st = l.st
                f = self.exec_block(s.finalbody, fr)
                lf = self.join_out(f)
                if lf is None:
                    return dead()
                self.st = lf.st
                if l.kind == "normal":
                    return self.exec_block(rest, fr)
                return Out(l.kind, self.st, l.val)
            return out_map(o, leaf)
        self.rdcount += 1
        exc = T("excond", s.lineno if False else self.rdcount)
        # ImportError guards: the package is assumed installed
        if all(self.handler_names(h) <= {"ImportError", "ModuleNotFoundError"} and self.handler_names(h) for h in s.handlers):
            return self.exec_block(list(s.body) + list(s.orelse) + list(s.finalbody) + list(rest), fr)
        sb = base.clone()
        sb.events = list(base.events)
        sh = base.clone()
        sh.events = list(base.events)
        self.st = sb
        save_try = self.trystack
        self.trystack = ()
        o = self.exec_block(list(s.body) + list(s.orelse), fr)
        self.trystack = save_try
        # handlers run from the state before the body
        oh = dead()
        for h in reversed(s.handlers):
            s2 = sh.clone()
            s2.events = list(base.events)
            s2.events.append(("handler", self.where[-1] if self.where else ("?", 0), tuple(sorted(self.handler_names(h)))))
            self.st = s2
            if h.name:
                self.env_set(fr.env, h.name, self.unk("exception"))
            o1 = self.exec_block(h.body, fr)
            oh = o1 if oh.kind == "dead" else mk_if(T("exctype", exc, h.lineno if False else len(oh.kind)), o1, oh)
        tot = mk_if(exc, oh, o)
        if oh.kind == "dead":
            ev = self.dead_tail(oh, base)
            if ev and o.kind != "dead":
                self.add_prefix(o, base, ("if", self.where[-1] if self.where else ("?", 0), exc, ev, []))
            tot = o
        elif o.kind == "dead":
            tot = oh

        def leaf(l):
            self.st = l.st
            if s.finalbody:
                lf = self.join_out(self.exec_block(s.finalbody, fr))
                if lf is None:
                    return dead()
                self.st = lf.st
            if l.kind == "normal":
                return self.exec_block(rest, fr)
            return Out(l.kind, self.st, l.val)
        if has_exit(s):
            return out_map(tot, leaf)
        lv = self.join_out(tot)
        if lv is None:
            d = dead()
            d.st = State()
            d.st.events = list(base.events)
            return d
        return leaf(lv)

    def handler_names(self, h):
        if h.type is None:
            return {"*"}
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        return {ast.unparse(t).split(".")[-1] for t in ts}

    # ---- loops
    def s_For(self, s, fr, rest):
        it = self.ev(s.iter, fr)
        els = self.known_elems(it, limit=self.unroll)
        if els is not None:
            return self.unrolled(s, els, fr, rest)
        return self.sym_loop(s, it, fr, rest)

    def unrolled(self, s, els, fr, rest):
        def run(i):
            if i == len(els):
                return self.exec_block(list(s.orelse) + list(rest), fr)
            self.assign(s.target, els[i], fr)
            o = self.exec_block(s.body, fr)
            if o.kind == "normal" or o.kind == "continue":
                self.st = o.st
                return run(i + 1)

            def leaf(l):
                self.st = l.st
                if l.kind in ("normal", "continue"):
                    return run(i + 1)
                if l.kind == "break":
                    return self.exec_block(rest, fr)
                return l
            # join leaves that continue, to avoid exponential growth
            kinds = {l.kind for l in leaves(o)}
            if kinds <= {"normal", "continue"}:
                lv = self.join_out(o)
                if lv is None:
                    return o
                self.st = lv.st
                return run(i + 1)
            return out_map(o, leaf)
        return run(0)

    def s_While(self, s, fr, rest):
        always = isinstance(s.test, ast.Constant) and bool(s.test.value)
        return self.sym_loop(s, None, fr, rest, always=always)

    def sym_loop(self, s, it, fr, rest, always=False):
        is_for = it is not None
        self.loopdepth += 1
        depth = self.loopdepth
        base = self.st
        if is_for:
            seq, count, bindf = self.iteration(it, depth)
            key = (depth, seq)
            idx = T("idx", depth, seq)
        else:
            self.rdcount += 1
            seq = T("while", self.rdcount)
            count = T("count", seq)
            idx = T("idx", depth, seq)
            bindf = None
        where0 = list(self.where)

        def run_body(cells):
            """cells: {(oid, field): value} at the loop head; returns the Out of the body"""
            st = base.clone()
            st.events = []
            self.st = st
            self.where = list(where0)
            for (oid, fld), v in cells.items():
                if oid in st.heap:
                    st.w(oid).f[fld] = v
            if is_for:
                self.assign(s.target, bindf(idx), fr)
                return self.exec_block(s.body, fr), None
            c = TRUE if always else self.truth(self.ev(s.test, fr))
            head = self.st
            if not self.assume(c):
                return dead(), c
            return self.exec_block(s.body, fr), c

        heads = {}
        cells = {}
        mus = {}
        final = None
        for rnd in range(6):
            o, c = run_body(cells)
            # leaves that iterate again
            again = out_map(o, lambda l: l if l.kind in ("normal", "continue") else dead())
            lv = self.join_out(again)
            final = (o, c, lv)
            if lv is None:
                break
            changed = self.changed_cells(base, lv.st, cells)
            self.bodyst = lv.st
            new = False
            for cell, newval in changed.items():
                if cell in mus:
                    continue
                oid, fld = cell
                init = base.heap[oid].f.get(fld)
                mu = self.mu_value(cell, init, depth, seq, base, newval)
                if mu is None:
                    continue
                cells[cell] = mu
                mus[cell] = mu
                new = True
            if new:
                continue
            # try to solve recurrences
            solved = False
            for cell, mu in list(cells.items()):
                if not isinstance(mu, Term) or mu.op != "mu":
                    continue
                oid, fld = cell
                nv = lv.st.heap[oid].f.get(fld)
                init = base.heap[oid].f.get(fld)
                if not isinstance(nv, Term) or not isinstance(init, Term):
                    continue
                if nv is mu:
                    cells[cell] = init
                    solved = True
                    continue
                if init.op in ("ref",):
                    continue
                inc = None
                if is_arith(nv) or is_num(nv):
                    d = sub(nv, mu)
                    if not contains(d, lambda x: x.op == "mu"):
                        inc = d
                if inc is not None and not contains(inc, lambda x: x is idx):
                    cells[cell] = add(init, mul(inc, idx))
                    solved = True
            if not solved:
                break
        # final pass with solved cells is the one in `final` only if nothing changed since
        if lv is not None and rnd < 5:
            o, c = run_body(cells)
            again = out_map(o, lambda l: l if l.kind in ("normal", "continue") else dead())
            leafs_again = self.join_out(again)
        else:
            o, c, leafs_again = final
        self.loopdepth -= 1
        if leafs_again is not None:
            sv, self.st = self.st, leafs_again.st
            for (oid, fld), mu in cells.items():
                nv = leafs_again.st.heap[oid].f.get(fld)
                if isinstance(mu, Term) and isinstance(nv, Term):
                    self.loopnext[mu] = (self.freeze(nv), base.heap[oid].f.get(fld))
                elif fld == "elts" and isinstance(mu, tuple) and isinstance(nv, tuple) and len(mu) == len(nv):
                    for i, (m, v) in enumerate(zip(mu, nv)):
                        self.loopnext[m] = (self.freeze(v), base.heap[oid].f[fld][i] if i < len(base.heap[oid].f.get(fld) or ()) else None)
                elif fld == "entries" and isinstance(mu, tuple) and isinstance(nv, tuple):
                    for k, m, g in mu:
                        for k2, v, _ in nv:
                            if k2 is k:
                                self.loopnext[m] = (self.freeze(v), None)
            self.st = sv
        self.where = list(where0)
        site = where0[-1] if where0 else ("?", 0)
        # ---- state after normal termination of the loop
        outs = []
        brk = out_map(o, lambda l: l if l.kind in ("break",) else dead())
        ret = out_map(o, lambda l: l if l.kind in ("return", "raise") else dead())
        body_events = []
        if leafs_again is not None:
            body_events = leafs_again.st.events
        has_brk, has_ret = bool(leaves(brk)), bool(leaves(ret))
        st = base.clone()
        st.events = list(base.events)
        if is_for or not always:
            if leafs_again is not None or o.kind == "dead":
                if leafs_again is not None:
                    self.apply_loop(st, base, leafs_again.st, cells, idx, count, seq, depth)
                if o.kind == "dead" and o.st is not None:
                    body_events = o.st.events
                st.events.append(("loop", site, idx, seq, body_events))
                if not is_for:
                    self.st = st
                    cend = self.truth(self.ev(s.test, fr))
                    self.assume(not_(cend))
                    st = self.st
                normal = Out("normal", st)
            else:
                normal = None
            self.st = st
            if not has_brk and not has_ret:
                self.st = st
                return self.exec_block(list(s.orelse) + list(rest), fr)
            # with break: value after the loop is either the normal one or the one at the break
            bc = T("broke", seq, depth)

            def after_break(l):
                l.st.events = list(base.events) + [("loop", site, idx, seq, l.st.events)]
                l.st.facts = tuple(l.st.facts)
                if l.kind == "break":
                    self.st = l.st
                    return self.exec_block(rest, fr)
                return l
            if not has_ret and normal is not None:
                lb = self.join_out(brk)
                lb.st.events = list(base.events) + [("loop", site, idx, seq, lb.st.events)]
                j = self.join_out(mk_if(bc, Out("normal", lb.st), normal))
                self.st = j.st
                return self.exec_block(rest, fr)
            ex = out_map(mk_keep(o, ("break", "return", "raise")), after_break)
            if normal is None:
                return ex
            self.st = normal.st
            on = self.exec_block(list(s.orelse) + list(rest), fr)
            return mk_if(bc, ex, on)
        # while True: only the exits matter; earlier iterations are summarised by the loop events
        kept = mk_keep(o, ("break", "return", "raise"))
        if not leaves(kept):
            d = dead()
            d.st = base
            return d
        for l in leaves(kept):
            ev = l.st.events
            pre = [("loop", site, idx, seq, body_events)] if leafs_again is not None else []
            l.st.events = list(base.events) + pre + ([("last", site, seq, ev)] if False else ev)
        if leaves(kept) and all(l.kind == "break" for l in leaves(kept)):
            lv = self.join_out(kept)
            self.st = lv.st
            return self.exec_block(rest, fr)

        def leaf(l):
            self.st = l.st
            if l.kind == "break":
                return self.exec_block(rest, fr)
            return l
        return out_map(kept, leaf)

    def changed_cells(self, base, st, cells):
        out = {}
        for oid, o in base.heap.items():
            o2 = st.heap.get(oid)
            if o2 is None or o2 is o:
                continue
            for fld in set(o.f) | set(o2.f):
                v0 = cells.get((oid, fld), o.f.get(fld))
                v1 = o2.f.get(fld)
                if v0 is v1 or (isinstance(v0, tuple) and v0 == v1):
                    continue
                out[(oid, fld)] = v1
        return out

    def mu_value(self, cell, init, depth, seq, base, changed=None):
        oid, fld = cell
        o = base.heap[oid]
        if fld in ("entries",):
            # a dict filled by the body: values set by earlier iterations are not known here
            v0, v1 = init or (), changed or ()
            old = {k: v for k, v, _ in v0}
            new = [(k, v) for k, v, _ in v1 if k not in old]
            mu = T("mu", depth, seq, oid, fld)
            ents = []
            dirty = bool(new)
            for k, v, g in v0:
                v2 = next((x for kk, x, _ in v1 if kk is k), None)
                if v2 is not v or any(may_alias(k, kk) for kk, _ in new):
                    dirty = True
                    v = T("item", mu, k)
                ents.append((k, v, g))
            if new:
                if any(v.op == "ref" and v.args[0] in self.bodyst.heap and self.bodyst.heap[v.args[0]].kind == "list" for _, v in new):
                    self.mulists.add(mu)
                i = T("idx", 0, mu)
                ents.append((T("eachkey", i, mu, T("dkey", mu, i)), T("item", mu, T("dkey", mu, i)), TRUE))
            return tuple(ents) if dirty else None
        if fld == "chunks":
            return (T("spread", T("mu", depth, seq, oid, fld)),)
        if fld == "elts":
            n = len(init) if isinstance(init, tuple) else 0
            return tuple(T("item", T("mu", depth, seq, oid, fld), C(i)) for i in range(n))
        if init is None:
            return None   # not defined before the loop
        if isinstance(init, Term) and init.op in ("func", "class", "module", "ext"):
            return T("mu", depth, seq, self.cell_name(oid, fld, base), fld)
        if isinstance(init, Term):
            return T("mu", depth, seq, self.cell_name(oid, fld, base), fld)
        return None

    def cell_name(self, oid, fld, base):
        return oid

    def apply_loop(self, st, base, body, cells, idx, count, seq, depth):
        """update st (a clone of the state before the loop) with the effect of the whole loop"""
        for oid in list(body.heap):
            if oid not in base.heap:
                st.heap[oid] = body.heap[oid]     # objects created in the body (one per iteration)
        for k, v in body.mat.items():
            st.mat.setdefault(k, v)
        n = count
        for oid, o in base.heap.items():
            ob = body.heap.get(oid)
            if ob is None or ob is o:
                continue
            if o.kind == "dict" and self.keyed_loop(st, oid, o, ob, body, idx, seq, depth):
                continue
            for fld in list(ob.f):
                v0, v1 = o.f.get(fld), ob.f.get(fld)
                cv = cells.get((oid, fld))
                if v1 is v0 or v1 is None:
                    continue
                w = st.w(oid)
                if fld == "chunks":
                    mu = cv[0] if cv else None
                    if mu is not None and v1 and v1[0] is mu and not any(contains(x, lambda y: y is mu.args[0]) for x in v1[1:]):
                        new = v1[1:]
                        w.f[fld] = (v0 or ()) + ((T("each", idx, seq, *new),) if new else ())
                    else:
                        w.f[fld] = (T("spread", T("fold", idx, seq, T("chunks", *(v0 or ())), T("chunks", *v1))),)
                elif fld == "entries":
                    ents = list(v0 or ())
                    known = {k: i for i, (k, _, _) in enumerate(ents)}
                    mut = T("mu", depth, seq, oid, fld)
                    for k, v, g in v1:
                        if k.op == "eachkey" and k.args[1] is mut or v.op == "item" and v.args[0] is mut and v.args[1] is k:
                            continue      # what earlier iterations left
                        if k in known:
                            if ents[known[k]][1] is not v:
                                ents[known[k]] = (k, T("fold", idx, seq, ents[known[k]][1], v) if v.op != "ref" else v, g)
                        elif contains(k, lambda x: x is idx):
                            ents.append((T("eachkey", idx, seq, k), v, g))
                        else:
                            ents.append((k, v, and_(T("cmp", "<", C(0), n), g)))
                    w.f[fld] = tuple(ents)
                elif fld == "elts":
                    w.f[fld] = tuple(T("fold", idx, seq, a, b) if a is not b else a for a, b in zip(v0, v1)) if isinstance(v0, tuple) and len(v0) == len(v1) else v1
                elif isinstance(v1, Term) and isinstance(v0, Term):
                    if cv is not None and cv.op != "mu" and contains(cv, lambda x: x is idx) or (cv is not None and is_arith(cv) and cv.op == "poly"):
                        w.f[fld] = subst(cv, {idx: n})        # induction variable
                    elif v1.op == "ref":
                        w.f[fld] = v1
                    else:
                        d = sub(v1, cv) if cv is not None and (v1.op == "poly") else None
                        if d is not None and cv.op == "mu" and not contains(d, lambda x: x is cv):
                            w.f[fld] = add(v0, T("sum", idx, seq, d))
                        elif cv is None or not contains(v1, lambda x: x is cv):
                            w.f[fld] = T("last", idx, seq, v1, v0) if contains(v1, lambda x: x is idx) else gamma(cmp("<", C(0), n), v1, v0)
                        else:
                            w.f[fld] = T("fold", idx, seq, v0, v1)
                elif isinstance(v1, Term):
                    if o.kind == "env":
                        w.f[fld] = v1 if not contains(v1, lambda x: x is idx) else T("last", idx, seq, v1, NONE)
                    else:
                        w.f[fld] = v1
                else:
                    w.f[fld] = v1
        return

    def keyed_loop(self, st, oid, o, ob, body, idx, seq, depth):
        """a loop that collects values in lists by key, or that removes keys, as a whole"""
        mut = T("mu", depth, seq, oid, "entries")
        sv, self.st = self.st, st
        try:
            before = self.freeze(T("ref", oid)) if o.f.get("entries") or o.base is not None else None
        finally:
            self.st = sv
        new = None
        if ob.base is not o.base:
            b = ob.base
            if b is not None and b.op == "without" and not ob.f.get("entries") and not contains(b.args[1], lambda x: x is mut) and before is not None:
                new = T("withoutall", before, idx, seq, b.args[1])
        else:
            if self.grouping and self.constant_keys(st, oid, o, ob, body, idx, seq, mut):
                return True
            for k, v, g in ob.f.get("entries") or ():
                if k.op == "eachkey" or not contains(k, lambda x: x is idx) or contains(k, lambda x: x is mut):
                    continue
                on = body.heap.get(v.args[0]) if v.op == "ref" else None
                ch = on.f.get("chunks") if on is not None and on.kind == "list" else None
                ch = ungated(ch, k, mut)
                if ch and ch[0].op == "spread" and ch[0].args[0].op == "dget" and contains(ch[0].args[0].args[0], lambda x: x is mut):
                    self.st = body
                    try:
                        rest = tuple(self.freeze_chunk(c, 0, ()) for c in ch[1:])
                    finally:
                        self.st = sv
                    others = [e for e in ob.f["entries"] if e[0] is not k and not (e[0].op == "eachkey" and e[0].args[1] is mut)]
                    if g is TRUE and before is None and not others and ch[0].args[0].args[1] is k and not any(contains(c, lambda x: x is mut) for c in rest):
                        new = T("groupby", idx, seq, k, T("chunks", *rest))
                    else:
                        new = self.unk("dict")
                elif contains(self.frozen_in(body, v), lambda x: x.op == "dget" and contains(x.args[0], lambda y: y is mut)):
                    new = self.unk("dict")
        if new is None and ob.base is o.base:
            return False
        w = st.w(oid)
        w.base = new if new is not None else self.unk("dict")
        w.f["entries"] = ()
        return True

    def constant_keys(self, st, oid, o, ob, body, idx, seq, mut):
        """lists under keys that do not depend on the turn, which every turn adds to"""
        had = {k: v for k, v, _ in o.f.get("entries") or ()}
        out, some = [], False
        for k, v, g in ob.f.get("entries") or ():
            if k.op == "eachkey" and k.args[1] is mut:
                continue
            if not is_const(k) or v.op != "ref" or v.args[0] not in body.heap or body.heap[v.args[0]].kind != "list":
                return False
            ch = ungated(body.heap[v.args[0]].f.get("chunks"), k, mut)
            if ch and ch[0].op == "spread" and ch[0].args[0].op == "dget" and contains(ch[0].args[0], lambda x: x is mut):
                rest = tuple(self.chunk_in(body, c) for c in ch[1:])
                if any(contains(c, lambda x: x is mut) for c in rest) or g is not TRUE:
                    return False
                first = ()
                if k in had:
                    old = st.heap.get(had[k].args[0]) if had[k].op == "ref" else None
                    if old is None or old.kind != "list":
                        return False
                    first = tuple(old.f.get("chunks") or ())
                sv, self.st = self.st, st
                nv = self.ref("list", {"chunks": first + ((T("each", idx, seq, *rest),) if rest else ())})
                self.st = sv
                out.append((k, nv, TRUE))
                some = True
            elif k in had and had[k] is v:
                out.append((k, v, g))
            else:
                return False
        if not some:
            return False
        for k, v in had.items():
            if not any(e[0] is k for e in out):
                out.append((k, v, TRUE))
        st.w(oid).f["entries"] = tuple(out)
        return True

    def chunk_in(self, st, c):
        sv, self.st = self.st, st
        try:
            return self.freeze_chunk(c, 0, ())
        finally:
            self.st = sv

    def frozen_in(self, st, v):
        sv, self.st = self.st, st
        try:
            return self.freeze(v)
        finally:
            self.st = sv

    # ------------------------------------------------------------------ iteration protocol
    def known_elems(self, v, limit=400):
        """list of element values when the sequence is completely known, else None"""
        v = self.simp(v)
        if v.op == "tuple":
            return list(v.args)
        if v.op == "vec":
            return list(v.args)
        if is_const(v):
            x = v.args[0]
            if isinstance(x, (str, bytes, tuple, range)) and len(x) <= limit:
                return [C(e) for e in x]
            return None
        if v.op == "rangeof" and all(is_int(a) for a in v.args):
            r = range(*[a.args[0] for a in v.args])
            return [C(i) for i in r] if len(r) <= limit else None
        if v.op == "seq" and all(c.op == "e" for c in v.args):
            return [c.args[0] for c in v.args]
        if v.op == "zipof":
            ls = [self.known_elems(a, limit) for a in v.args]
            if all(l is not None for l in ls) and ls:
                return [T("tuple", *t) for t in zip(*ls)]
            short = [len(l) for l in ls if l is not None]
            if short and min(short) <= 8 and all(l is not None or a.op in ("sym", "attr") for a, l in zip(v.args, ls)):
                # an opaque sequence zipped with a short constant one is taken as long as it
                ls = [[self.getitem(a, C(i)) for i in range(min(short))] if l is None else l for a, l in zip(v.args, ls)]
                return [T("tuple", *t) for t in zip(*ls)]
            return None
        if v.op == "enumof":
            l = self.known_elems(v.args[0], limit)
            return None if l is None else [T("tuple", add(v.args[1], C(i)), e) for i, e in enumerate(l)]
        if v.op in ("dkeys", "ditems", "dvalues"):
            o = self.obj(v.args[0])
            if o is not None and o.kind == "dict" and o.base is None and all(g is TRUE and k.op != "eachkey" for k, _, g in o.f["entries"]):
                es = o.f["entries"]
                if v.op == "dkeys":
                    return [k for k, _, _ in es]
                if v.op == "dvalues":
                    return [x for _, x, _ in es]
                return [T("tuple", k, x) for k, x, _ in es]
            return None
        if v.op == "reversedof":
            l = self.known_elems(v.args[0], limit)
            return None if l is None else l[::-1]
        if v.op == "sortedof":
            l = self.known_elems(v.args[0], limit)
            if l is not None and all(is_const(x) for x in l):
                try:
                    return [C(x) for x in sorted(c.args[0] for c in l)]
                except TypeError:
                    return None
            return None
        if v.op == "mapof":
            ls = [self.known_elems(a, limit) for a in v.args[1:]]
            if all(l is not None for l in ls):
                return [self.call(v.args[0], list(t), {}) for t in zip(*ls)]
            return None
        if v.op == "filterof":
            l = self.known_elems(v.args[1], limit)
            if l is None:
                return None
            out = []
            for e in l:
                c = self.truth(self.call(v.args[0], [e], {}) if v.args[0] is not NONE else e)
                k = self.known(c)
                if k is None:
                    return None
                if k:
                    out.append(e)
            return out
        if v.op == "productof":
            ls = [self.known_elems(a, limit) for a in v.args]
            if all(l is not None for l in ls):
                out = [()]
                for l in ls:
                    out = [p + (e,) for p in out for e in l]
                    if len(out) > limit:
                        return None
                return [T("tuple", *p) for p in out]
            return None
        if v.op == "chainof":
            ls = [self.known_elems(a, limit) for a in v.args]
            return sum(ls, []) if all(l is not None for l in ls) else None
        o = self.obj(v)
        if o is not None:
            if o.kind in ("list", "set") and all(c.op == "e" for c in o.f["chunks"]):
                return [c.args[0] for c in o.f["chunks"]]
            if o.kind == "dict" and o.base is None and all(g is TRUE and k.op != "eachkey" for k, _, g in o.f["entries"]):
                return [k for k, _, _ in o.f["entries"]]
            if o.kind == "arr" and "elts" in o.f:
                return list(o.f["elts"])
            if o.kind == "inst":
                cls = self.classes[o.cls]
                m = self.class_lookup(cls, "__iter__")
                if m is not None:
                    return self.known_elems(self.call(self.bind(m, v, cls), [], {}), limit)
        return None

    def iteration(self, it, depth):
        """(sequence term identifying the iteration space, count term, function idx -> element)"""
        it = self.simp(it)
        if it.op == "rangeof":
            a, b, c = it.args
            count = sub(b, a) if c is C(1) else T("count", it)
            sp = T("rangespace", count)
            return sp, count, lambda i: add(a, mul(c, i))
        if it.op == "enumof":
            seq, n, f = self.iteration(it.args[0], depth)
            return seq, n, lambda i: T("tuple", add(it.args[1], i), f(i))
        if it.op == "zipof":
            parts = [self.iteration(a, depth) for a in it.args]
            seq, n = parts[0][0], parts[0][1]
            return seq, n, lambda i: T("tuple", *[p[2](i) for p in parts])
        if it.op == "mapof":
            parts = [self.iteration(a, depth) for a in it.args[1:]]
            return parts[0][0], parts[0][1], lambda i: self.call(it.args[0], [p[2](i) for p in parts], {})
        if it.op == "reversedof":
            seq, n, f = self.iteration(it.args[0], depth)
            return T("rev", seq), n, lambda i: f(sub(sub(n, C(1)), i))
        if it.op == "filterof":
            seq, n, f = self.iteration(it.args[1], depth)
            fs = T("filterspace", seq, self.freeze(it.args[0]) if it.args[0].op != "func" else it.args[0])
            return fs, T("count", fs), lambda i: f(T("sel", fs, i))
        if it.op in ("dkeys", "ditems", "dvalues"):
            return self.dict_iteration(it.args[0], it.op)
        o = self.obj(it)
        if o is not None and o.kind == "dict":
            return self.dict_iteration(it, "dkeys")
        if o is not None and o.kind == "list":
            ch = o.f["chunks"]
            if len(ch) == 1 and ch[0].op == "each" and len(ch[0].args) == 3 and ch[0].args[2].op == "e":
                sp, el, i0 = ch[0].args[1], ch[0].args[2].args[0], ch[0].args[0]
                if el.op != "ref":
                    return sp, space_count(sp), lambda i: subst(el, {i0: i})
                return sp, space_count(sp), lambda i: el
            if len(ch) == 1 and ch[0].op == "spread":
                return self.iteration(ch[0].args[0], depth)
        if o is not None and o.kind == "inst":
            cls = self.classes[o.cls]
            m = self.class_lookup(cls, "__iter__")
            if m is not None:
                return self.iteration(self.call(self.bind(m, it, cls), [], {}), depth)
            if self.class_lookup(cls, "keys") is not None and self.class_lookup(cls, "__len__") is None and False:
                pass
        t = self.freeze(it)
        if t.op == "gamma":
            t = t
        sp = T("elems", t)
        return sp, T("len", t), lambda i: self.wrap_elem(T("item", t, i), t)

    def wrap_elem(self, e, seqt):
        h = self.type_hints.get(("elem", seqt))
        return self.typed(e, h) if h else e

    def dict_iteration(self, d, op):
        d = self.simp(d)
        o = self.obj(d)
        if o is not None and o.kind == "dict":
            base = o.base
            ents = o.f["entries"]
            t = base if base is not None and not ents else self.freeze(d)
            vh = o.f.get("vhint")
            if base is None and len(ents) == 1 and ents[0][0].op == "eachkey":
                k, v, g = ents[0]
                i0, sp, kk = k.args
                def f(i):
                    key = subst(kk, {i0: i})
                    val = subst(v, {i0: i}) if v.op != "ref" else v
                    return key if op == "dkeys" else val if op == "dvalues" else T("tuple", key, val)
                return sp, space_count(sp), f
        else:
            t, vh = self.freeze(d), None
        sp = T("keys", t)

        def f(i):
            k = T("dkey", t, i)
            v = T("item", t, k)
            if vh is not None:
                v = self.typed(v, vh)
            elif o is not None and o.base is None and o.kind == "dict":
                v = self.dict_any(o, v, k)
            return k if op == "dkeys" else v if op == "dvalues" else T("tuple", k, v)
        return sp, T("len", t), f

    def dict_any(self, o, v, k):
        return v

    # ------------------------------------------------------------------ names
    def mangle(self, name, fr):
        if name.startswith("__") and not name.endswith("__"):
            c = fr.cls if fr.cls is not None else (fr.func.cls if fr.func is not None else None)
            if c is not None:
                return "_" + c.name.lstrip("_") + name
        return name

    # ------------------------------------------------------------------ expressions
    def ev(self, e, fr):
        self.steps += 1
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.note("expr:" + type(e).__name__)
            return self.unk(type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        if e.value is Ellipsis:
            return T("ellipsis")
        return C(e.value)

    def e_Name(self, e, fr):
        n = self.mangle(e.id, fr)
        v = self.env_lookup(fr.env, n)
        if v is None:
            if n == "__class__":
                return T("class", fr.func.cls.cid) if fr.func and fr.func.cls else self.unk("__class__")
            if n in BUILTINS:
                return T("ext", "builtins." + n)
            self.event("unbound", n)
            return self.unk("name " + n)
        return self.simp(v)

    def e_Attribute(self, e, fr):
        v = self.ev(e.value, fr)
        return self.getattr(v, self.mangle(e.attr, fr), fr)

    def e_Tuple(self, e, fr):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            l = self.e_List(e, fr)
            els = self.known_elems(l)
            return T("tuple", *els) if els is not None else T("tupleof", self.freeze(l))
        return T("tuple", *[self.ev(x, fr) for x in e.elts])

    def mklist(self, els, kind="list"):
        return self.ref(kind, {"chunks": tuple(T("e", x) for x in els)})

    def e_List(self, e, fr):
        ch = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                ch.extend(self.chunks_of(self.ev(x.value, fr)))
            else:
                ch.append(T("e", self.ev(x, fr)))
        return self.ref("list", {"chunks": tuple(ch)})

    def e_Set(self, e, fr):
        ch = [T("e", self.ev(x, fr)) for x in e.elts]
        return self.ref("set", {"chunks": tuple(ch)})

    def chunks_of(self, v):
        """chunks of a list made from iterable v"""
        v = self.simp(v)
        els = self.known_elems(v)
        if els is not None:
            return tuple(T("e", x) for x in els)
        o = self.obj(v)
        if o is not None and o.kind == "list":
            return o.f["chunks"]
        if v.op in ("seq",):
            return v.args
        if v.op in ("rangeof", "zipof", "enumof", "mapof", "filterof", "ditems", "dkeys", "dvalues", "reversedof") or (o is not None and o.kind == "dict"):
            self.loopdepth += 1
            seq, n, f = self.iteration(v, self.loopdepth)
            idx = T("idx", self.loopdepth, seq)
            el = f(idx)
            self.loopdepth -= 1
            return (T("each", idx, seq, T("e", el)),)
        if v.op == "chainof":
            out = ()
            for a in v.args:
                out += self.chunks_of(a)
            return out
        if v.op == "chainfrom":
            ch = self.chunks_of(v.args[0])
            return tuple(map_leaf_chunks(c, self.chunks_of) for c in ch)
        return (T("spread", self.freeze(v)),)

    def e_Dict(self, e, fr):
        d = self.ref("dict", {"entries": ()})
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.dict_update(d, self.ev(v, fr))
            else:
                kk = self.ev(k, fr)
                vv = self.ev(v, fr)
                w = self.st.w(d.args[0])
                fk = self.freeze(kk)
                w.f["entries"] = tuple(x for x in w.f["entries"] if x[0] is not fk) + ((fk, vv, TRUE),)
        return d

    def dict_update(self, d, other):
        other = self.simp(other)
        o = self.obj(other)
        w = self.st.w(d.args[0])
        if o is not None and o.kind == "dict":
            if o.base is not None and not o.f["entries"]:
                if not w.f["entries"] and w.base is None:
                    w.base = o.base
                else:
                    w.f["entries"] = w.f["entries"] + ((T("eachkey", T("idx", 0, T("keys", o.base)), T("keys", o.base), T("dkey", o.base, T("idx", 0, T("keys", o.base)))), T("item", o.base, T("dkey", o.base, T("idx", 0, T("keys", o.base)))), TRUE),)
                return
            for k, v, g in o.f["entries"]:
                old = [x for x in w.f["entries"] if x[0] is k]
                nv, ng = v, g
                if g is not TRUE and old:
                    nv = T("gamma", g, v, old[0][1]) if v is not old[0][1] else v
                    ng = old[0][2] if old[0][2] is TRUE else or_(g, old[0][2])
                if old:
                    w.f["entries"] = tuple((k, nv, ng) if x[0] is k else x for x in w.f["entries"])
                else:
                    w.f["entries"] = w.f["entries"] + ((k, nv, ng),)
            return
        if other.op in ("zipof", "ditems") or (o is not None and o.kind == "list"):
            els = self.known_elems(other)
            if els is not None:
                for e in els:
                    self.setitem(d, self.getitem(e, C(0)), self.getitem(e, C(1)))
                return
            for ch in self.chunks_of(other):
                if ch.op == "each" and len(ch.args) == 3 and ch.args[2].op == "e" and ch.args[2].args[0].op == "tuple":
                    k, v = ch.args[2].args[0].args
                    w.f["entries"] = w.f["entries"] + ((T("eachkey", ch.args[0], ch.args[1], k), v, TRUE),)
                else:
                    t = T("dictfrom", ch)
                    i = T("idx", 0, T("keys", t))
                    w.f["entries"] = w.f["entries"] + ((T("eachkey", i, T("keys", t), T("dkey", t, i)), T("item", t, T("dkey", t, i)), TRUE),)
            return
        t = self.freeze(other)
        if not w.f["entries"] and w.base is None:
            w.base = t
        else:
            i = T("idx", 0, T("keys", t))
            w.f["entries"] = w.f["entries"] + ((T("eachkey", i, T("keys", t), T("dkey", t, i)), T("item", t, T("dkey", t, i)), TRUE),)

    def e_JoinedStr(self, e, fr):
        return strcat(*[self.ev(v, fr) for v in e.values])

    def e_FormattedValue(self, e, fr):
        v = self.ev(e.value, fr)
        spec = self.ev(e.format_spec, fr) if e.format_spec is not None else C("")
        return self.fmt_value(v, spec, e.conversion)

    def fmt_value(self, v, spec, conv=-1):
        v = self.simp(v)
        if v.op == "const" and is_const(spec) and conv in (-1, 115, 114):
            try:
                x = v.args[0]
                if conv == 114:
                    x = repr(x)
                elif conv == 115:
                    x = str(x)
                return C(format(x, spec.args[0]))
            except (ValueError, TypeError):
                pass
        if is_const(spec) and spec.args[0] in ("", "d", "s") and conv in (-1, 115):
            if is_str(v) or strlike(v):
                return v
            return T("str", self.freeze(v))
        return T("fmt", self.freeze(v), spec, C(conv))

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            return not_(self.truth(v))
        v = self.num(v)
        if isinstance(e.op, ast.USub):
            return neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        return T("un", "~", v)

    def e_BinOp(self, e, fr):
        a = self.ev(e.left, fr)
        b = self.ev(e.right, fr)
        return self.binop(BINOPS[type(e.op)], a, b)

    def binop(self, op, a, b):
        a, b = self.simp(a), self.simp(b)
        for x, y, rev in ((a, b, False), (b, a, True)):
            if x.op == "ref":
                o = self.obj(x)
                if o.kind == "inst" and (o.base is None or True):
                    cls = self.classes[o.cls]
                    nm = {"+": "add", "-": "sub", "*": "mul", "/": "truediv"}.get(op)
                    if nm:
                        m = self.class_lookup(cls, ("__r%s__" if rev else "__%s__") % nm)
                        if m is not None:
                            return self.call(self.bind(m, x, cls), [y], {})
        oa, ob = self.obj(a), self.obj(b)
        if op == "+":
            la = oa is not None and oa.kind == "list" or a.op in ("seq", "listof")
            lb = ob is not None and ob.kind == "list" or b.op in ("seq", "listof")
            if la and lb or (la and b.op == "call" and list_call(b)) or (lb and a.op == "call" and list_call(a)):
                return self.ref("list", {"chunks": tuple(self.chunks_of(a)) + tuple(self.chunks_of(b))})
            if a.op == "tuple" and b.op == "tuple":
                return T("tuple", *(a.args + b.args))
            if strlike(a) or strlike(b):
                return strcat(a, b)
        if op == "*":
            for x, y in ((a, b), (b, a)):
                ox = self.obj(x)
                if ox is not None and ox.kind == "list":
                    y = self.num(y)
                    if is_int(y) and len(ox.f["chunks"]) * max(0, y.args[0]) <= 2000:
                        return self.ref("list", {"chunks": ox.f["chunks"] * y.args[0]})
                    sp = T("rangespace", y)
                    return self.ref("list", {"chunks": (T("each", T("idx", 99, sp), sp, *ox.f["chunks"]),)})
                if x.op == "tuple" and is_int(y):
                    return T("tuple", *(x.args * y.args[0]))
                if strlike(x):
                    return repeat(x, self.num(y))
        if op == "%" and (strlike(a)):
            return self.str_percent(a, b)
        if op == "/" and self.is_path(a) or (op == "/" and self.is_path(b)):
            return T("pathjoin", *[x for y in (a, b) for x in (y.args if y.op == "pathjoin" else (self.freeze(y),))])
        a, b = self.freeze(a), self.freeze(b)
        if is_const(a) and is_const(b):
            x, y = a.args[0], b.args[0]
            try:
                r = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y, "//": lambda: x // y,
                     "%": lambda: x % y, "**": lambda: x ** y if abs(y) < 64 else None, "&": lambda: x & y, "|": lambda: x | y,
                     "^": lambda: x ^ y, "<<": lambda: x << y, ">>": lambda: x >> y}[op]()
                if r is not None and not (isinstance(r, (str, bytes)) and len(r) > 4096):
                    return C(r)
            except Exception:
                pass
        if op == "+":
            return add(a, b)
        if op == "-":
            if a.op in ("setof", "call") and False:
                pass
            return sub(a, b)
        if op == "*":
            return mul(a, b)
        if op == "/" and is_num(b) and b.args[0] != 0:
            return T("bin", "/", a, b)
        if op == "//" and is_int(b) and b.args[0] == 1:
            return a
        return T("bin", op, a, b)

    def is_path(self, v):
        return v.op in ("pathjoin",) or (v.op == "call" and v.args[0].op == "ext" and v.args[0].args[0] == "pathlib.Path") or \
            (v.op == "attr" and v.args[1] == "parent")

    def str_percent(self, a, b):
        if b.op == "tuple":
            vals = list(b.args)
        else:
            vals = [b]
        if not is_const(a):
            return T("fmt%", a, self.freeze(b))
        s = a.args[0]
        out, i, k = [], 0, 0
        import re
        pos = 0
        for m in re.finditer(r"%(?:%|[-+ #0]*\d*(?:\.\d+)?[a-zA-Z])", s):
            out.append(C(s[pos:m.start()]))
            spec = m.group(0)
            pos = m.end()
            if spec == "%%":
                out.append(C("%"))
                continue
            if k >= len(vals):
                return T("fmt%", a, self.freeze(b))
            v = self.simp(vals[k])
            k += 1
            if spec in ("%d", "%i", "%s"):
                out.append(self.fmt_value(v, C("")))
            elif is_const(v):
                try:
                    out.append(C(spec % v.args[0]))
                except (TypeError, ValueError):
                    out.append(T("fmt", v, C(spec), C(-2)))
            else:
                out.append(T("fmt", self.freeze(v), C(spec), C(-2)))
        out.append(C(s[pos:]))
        return strcat(*out)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)

        def go(i):
            v = self.ev(e.values[i], fr)
            if i == len(e.values) - 1:
                return v
            c = self.truth(v)
            k = self.known(c)
            if k is not None:
                return go(i + 1) if k == isand else v
            # value semantics; keep boolean form when v is boolean
            if v.op in ("cmp", "and", "or", "not", "truth") or v is c:
                r = self.branch_value(c, (lambda: go(i + 1)) if isand else (lambda: TRUE), (lambda: FALSE) if isand else (lambda: go(i + 1)))
                if r.op == "gamma" and r.args[0] is c:
                    if isand and r.args[2] is FALSE and boolean(r.args[1]):
                        return and_(c, r.args[1])
                    if not isand and r.args[1] is TRUE and boolean(r.args[2]):
                        return or_(c, r.args[2])
                return r
            return self.branch_value(c, (lambda: go(i + 1)) if isand else (lambda: v), (lambda: v) if isand else (lambda: go(i + 1)))
        return go(0)

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, fr)
            out.append(self.compare(CMPOPS[type(op)], left, right))
            left = right
        return out[0] if len(out) == 1 else and_(*out)

    def compare(self, op, a, b):
        a, b = self.simp(a), self.simp(b)
        if op in ("in", "not in"):
            r = self.contains(a, b)
            return r if op == "in" else not_(r)
        if op in ("is", "is not"):
            if a.op == "ref" and b.op == "ref":
                return C((a is b) == (op == "is"))
            for x, y in ((a, b), (b, a)):
                if x.op == "ref" and y is NONE:
                    o = self.obj(x)
                    if o.base is not None:
                        return T("cmp", op, o.base, NONE)
                    return C(op == "is not")
            for x, y in ((a, b), (b, a)):
                if x.op == "gamma" and is_const(y):
                    return self.truth(gamma(x.args[0], self.compare(op, x.args[1], y), self.compare(op, x.args[2], y)))
            return cmp(op, a, b)
        if op in ("==", "!=") and (a.op == "gamma" and is_const(b) or b.op == "gamma" and is_const(a)):
            x, y = (a, b) if a.op == "gamma" else (b, a)
            return gamma(x.args[0], self.compare(op, x.args[1], y), self.compare(op, x.args[2], y))
        if a.op == "ref" and b.op == "ref":
            la, lb = self.known_elems(a), self.known_elems(b)
            if la is not None and lb is not None and len(la) != len(lb):
                return C(op == "!=")
        return cmp(op, self.freeze(a), self.freeze(b))

    def contains(self, k, b):
        if b.op == "gamma":
            return gamma(b.args[0], self.contains(k, b.args[1]), self.contains(k, b.args[2]))
        o = self.obj(b)
        if b.op in ("dkeys",):
            return self.contains(k, b.args[0])
        if o is not None and o.kind == "dict":
            fk = self.freeze(k)
            maybe = o.base is not None
            conds = []
            for ek, _, g in o.f["entries"]:
                if ek is fk:
                    if g is TRUE:
                        return TRUE
                    conds.append(g)
                elif ek.op == "eachkey" or not (is_const(ek) and is_const(fk)):
                    if ek.op == "eachkey":
                        conds.append(T("cmp", "in", fk, T("keysof", ek)))
                    else:
                        conds.append(and_(g, cmp("==", fk, ek)))
            if maybe:
                conds.append(T("cmp", "in", fk, o.base))
            return or_(*conds) if conds else FALSE
        els = self.known_elems(b)
        if els is not None:
            fk = self.freeze(k)
            if is_const(fk) and all(is_const(x) for x in els):
                return C(any(x.args[0] == fk.args[0] for x in els))
            if any(x is fk for x in els):
                return TRUE
            if is_const(b) and isinstance(b.args[0], str):
                return T("cmp", "in", fk, b)
            return T("cmp", "in", fk, T("oneof", *sorted({self.freeze(x) for x in els}, key=lambda t: t.n)))
        if o is not None and o.kind == "inst":
            cls = self.classes[o.cls]
            m = self.class_lookup(cls, "__contains__")
            if m is not None:
                return self.truth(self.call(self.bind(m, b, cls), [k], {}))
        return cmp("in", self.freeze(k), self.freeze(b))

    def e_IfExp(self, e, fr):
        c = self.truth(self.ev(e.test, fr))
        return self.branch_value(c, lambda: self.ev(e.body, fr), lambda: self.ev(e.orelse, fr))

    def e_Lambda(self, e, fr):
        return self.make_func(e, fr)

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_Starred(self, e, fr):
        return self.ev(e.value, fr)

    def e_Slice(self, e, fr):
        return T("slice", *[self.num(self.ev(x, fr)) if x is not None else NONE for x in (e.lower, e.upper, e.step)])

    def e_Subscript(self, e, fr):
        v = self.ev(e.value, fr)
        k = self.ev(e.slice, fr)
        return self.getitem(v, k)

    def getitem(self, v, k):
        v, k = self.simp(v), self.simp(k)
        if v.op == "gamma":
            return self.branch_value(v.args[0], lambda: self.getitem(v.args[1], k), lambda: self.getitem(v.args[2], k))
        o = self.obj(v)
        if o is not None:
            if o.kind == "dict":
                return self.dict_get(v, o, k, None)
            if o.kind == "list":
                els = self.known_elems(v)
                if els is not None:
                    if is_int(k) and -len(els) <= k.args[0] < len(els):
                        return els[k.args[0]]
                    if k.op == "slice" and all(x is NONE or is_int(x) for x in k.args):
                        return self.mklist(els[slice(*[cval(x) for x in k.args])])
                else:
                    ch = o.f["chunks"]
                    if is_int(k) and k.args[0] >= 0 and all(c.op == "e" for c in ch[:k.args[0] + 1]) and len(ch) > k.args[0]:
                        return ch[k.args[0]].args[0]
                    if is_int(k) and k.args[0] < 0 and all(c.op == "e" for c in ch[k.args[0]:]) and len(ch) >= -k.args[0]:
                        return ch[k.args[0]].args[0]
                    if k.op == "slice" and k.args[0] is NONE and k.args[1] is C(-1) and k.args[2] is NONE and ch and ch[-1].op == "e":
                        return self.ref("list", {"chunks": ch[:-1]})
                    if k.op == "slice" and is_int(k.args[0]) and k.args[0].args[0] >= 0 and k.args[1] is NONE and k.args[2] is NONE and all(c.op == "e" for c in ch[:k.args[0].args[0]]):
                        return self.ref("list", {"chunks": ch[k.args[0].args[0]:]})
                return item(self.freeze(v), self.freeze(k))
            if o.kind == "arr":
                if "elts" in o.f:
                    n = len(o.f["elts"])
                    if is_int(k) and -n <= k.args[0] < n:
                        return o.f["elts"][k.args[0]]
                    if k.op == "slice" and all(x is NONE or is_int(x) for x in k.args):
                        return self.ref("arr", {"elts": o.f["elts"][slice(*[cval(x) for x in k.args])]})
                    picks = self.known_elems(k) if k.op in ("ref", "vec", "seq") else None
                    if picks is not None and all(is_int(x) and -n <= x.args[0] < n for x in picks):
                        return self.ref("arr", {"elts": [o.f["elts"][x.args[0]] for x in picks]})
                return item(self.freeze(v), self.freeze(k))
            if o.kind == "inst":
                cls = self.classes[o.cls]
                m = self.class_lookup(cls, "__getitem__")
                if m is not None:
                    return self.call(self.bind(m, v, cls), [k], {})
                return item(self.freeze(v), self.freeze(k))
            return item(v, self.freeze(k))
        els = None
        if v.op in ("tuple", "vec", "const", "rangeof", "seq"):
            els = self.known_elems(v)
        if els is not None:
            if is_int(k) and -len(els) <= k.args[0] < len(els):
                return els[k.args[0]]
            if k.op == "slice" and all(x is NONE or is_int(x) for x in k.args):
                sl = els[slice(*[cval(x) for x in k.args])]
                if is_const(v) and isinstance(v.args[0], (str, bytes)):
                    return C(v.args[0][slice(*[cval(x) for x in k.args])])
                return T("tuple", *sl)
        if v.op == "ditems" or v.op == "dkeys":
            pass
        return item(self.freeze(v), self.freeze(k))

    def dict_get(self, v, o, k, default):
        fk = self.freeze(k)
        if fk.op == "gamma":
            return self.branch_value(fk.args[0], lambda: self.dict_get(v, self.obj(v), fk.args[1], default),
                                     lambda: self.dict_get(v, self.obj(v), fk.args[2], default))
        ents = o.f["entries"]
        for ek, x, g in reversed(ents):
            if ek is fk:
                if g is TRUE or default is None:
                    return self.simp(x)
                return self.branch_value(g, lambda: x, lambda: default)
            if may_alias(ek, fk):
                break
        vh = o.f.get("vhint")
        dflt = o.f.get("factory")
        if self.grouping and dflt is None and default is None and any(ek.op == "eachkey" and ek.args[1] in self.mulists for ek, _, _ in ents):
            nv = self.ref("list", {"chunks": (T("spread", T("dget", self.freeze(v), fk)),)})
            self.setitem(v, fk, nv)
            return nv
        if is_const(fk) and all(is_const(ek) for ek, _, _ in ents):
            if o.base is None:
                if dflt is not None:
                    nv = self.call(dflt, [], {})
                    self.setitem(v, fk, nv)
                    return nv
                if default is not None:
                    return default
                self.event("keyerror", v, fk)
                if o.f.get("rest"):
                    return self.unk("dict")
                self.event("raise", T("ext", "KeyError"))
                raise Exc(self.st)
            t = T("item", o.base, fk)
            if default is not None:
                c = T("cmp", "in", fk, o.base)
                return self.branch_value(c, lambda: self.typed(t, vh), lambda: default)
            return self.typed(t, vh)
        if default is None and dflt is None and o.base is None and ents and not is_const(fk) \
                and all(g is TRUE and (is_const(ek) or ek.op in ("ext", "attr")) for ek, _, g in ents):
            self.event("tablekey", tuple(ek for ek, _, _ in ents), fk)
        if o.base is None and all(is_const(ek) and g is TRUE for ek, _, g in ents) and ents and dflt is None:
            vals = [self.freeze(x) for _, x, _ in ents]
            if not any(x.op == "ref" for _, x, _ in ents):
                return lookup(tuple((ek, x) for (ek, _, _), x in zip(ents, vals)), fk, default)
            # containers or instances as values: lookup keeps references
            if default is None or default is NONE:
                return self.table_ref(tuple((ek, x) for ek, x, _ in ents), fk)
        if dflt is not None:
            nv = self.call(dflt, [], {})
            if ents or o.base is not None:      # the key may be there already
                old = T("dget", self.freeze(v), fk)
                on = self.obj(nv)
                if on is not None and on.kind == "list" and not on.f.get("chunks"):
                    self.st.w(nv.args[0]).f["chunks"] = (T("spread", old),)
                elif is_num(nv):
                    nv = T("dget", old.args[0], fk, nv)
            self.setitem(v, fk, nv)
            return nv
        if o.base is not None and not ents:
            t = T("item", o.base, fk)
            if default is not None:
                return self.branch_value(T("cmp", "in", fk, o.base), lambda: self.typed(t, vh), lambda: default)
            return self.typed(t, vh)
        eachs = [e for e in ents if e[0].op == "eachkey"]
        if len(eachs) == len(ents) == 1 and o.base is None:
            kk, x, g = ents[0]
            # key of the same form as the generic key: substitute the index
            if fk.op == kk.args[2].op and fk.args[:-1] == kk.args[2].args[:-1] and isinstance(kk.args[2].args[-1], Term) and kk.args[2].args[-1] is kk.args[0]:
                return subst(x, {kk.args[0]: fk.args[-1]}) if x.op != "ref" else x
        return self.typed(item(self.freeze(v), fk), vh)

    def table_ref(self, entries, key):
        """value of a constant table of containers at a symbolic key: common-structure merge"""
        objs = [self.obj(x) for _, x in entries]
        if all(o is not None and o.kind == "dict" and o.base is None for o in objs):
            keys = [tuple(k for k, _, _ in o.f["entries"]) for o in objs]
            if len(set(keys)) == 1:
                d = self.ref("dict", {"entries": ()})
                ents = []
                for i, kk in enumerate(keys[0]):
                    vals = tuple((ek, self.freeze(o.f["entries"][i][1])) for (ek, _), o in zip(entries, objs))
                    ents.append((kk, lookup(vals, key, None), TRUE))
                self.st.w(d.args[0]).f["entries"] = tuple(ents)
                return d
        return item(T("dictof", NONE, tuple((k, self.freeze(x), TRUE) for k, x in entries)), key)

    # comprehensions
    def comp(self, gens, fr, leaf):
        """returns chunks"""
        env = self.new("env", {}, base=fr.env)
        f2 = Frame(env, fr.func, fr.self_, fr.depth, fr.module, fr.cls)

        def go(i):
            if i == len(gens):
                return (leaf(f2),)
            g = gens[i]
            it = self.ev(g.iter, f2 if i else fr)
            els = self.known_elems(it, limit=self.unroll * 4)
            if els is not None:
                out = ()
                for x in els:
                    self.assign(g.target, x, f2)
                    out += self.guarded(g.ifs, f2, lambda: go(i + 1))
                return out
            self.loopdepth += 1
            seq, n, f = self.iteration(it, self.loopdepth)
            idx = T("idx", self.loopdepth, seq)
            base = self.st
            self.st = base.clone()
            self.assign(g.target, f(idx), f2)
            try:
                inner = self.guarded(g.ifs, f2, lambda: go(i + 1))
            except Exc:
                inner = ()
            ev = self.st.events
            st = self.st
            self.loopdepth -= 1
            # keep effects of the body (objects and materialised values)
            st.events = base.events + ([("loop", self.where[-1] if self.where else ("?", 0), idx, seq, ev)] if ev else [])
            st.facts = base.facts
            self.st = st
            return (T("each", idx, seq, *inner),) if inner else ()
        return go(0)

    def guarded(self, ifs, fr, thunk):
        if not ifs:
            return thunk()
        c = and_(*[self.truth(self.ev(x, fr)) for x in ifs])
        k = self.known(c)
        if k is not None:
            return thunk() if k else ()
        base_facts = self.st.facts
        if not self.assume(c):
            return ()
        r = thunk()
        self.st.facts = base_facts
        return (T("g", c, T("chunks", *r), T("chunks")),)

    def e_ListComp(self, e, fr):
        ch = self.comp(e.generators, fr, lambda f2: T("e", self.ev(e.elt, f2)))
        return self.ref("list", {"chunks": tuple(ch)})

    def e_SetComp(self, e, fr):
        ch = self.comp(e.generators, fr, lambda f2: T("e", self.ev(e.elt, f2)))
        return self.ref("set", {"chunks": tuple(ch)})

    def e_GeneratorExp(self, e, fr):
        return self.e_ListComp(e, fr)

    def e_DictComp(self, e, fr):
        ch = self.comp(e.generators, fr, lambda f2: T("e", T("tuple", self.ev(e.key, f2), self.ev(e.value, f2))))
        ents = []

        def add_chunk(c, wrap, guard):
            if c.op == "e":
                k, v = c.args[0].args
                k = self.freeze(k)
                for i, sp in reversed(wrap):
                    k = T("eachkey", i, sp, k)
                    break
                ents.append((k, v, guard))
            elif c.op == "each":
                for x in c.args[2:]:
                    add_chunk(x, wrap + [(c.args[0], c.args[1])], guard)
            elif c.op == "g":
                for x in c.args[1].args:
                    add_chunk(x, wrap, and_(guard, c.args[0]))
                for x in c.args[2].args:
                    add_chunk(x, wrap, and_(guard, not_(c.args[0])))
        for c in ch:
            add_chunk(c, [], TRUE)
        if self.grouping and len(ch) == 1 and len(ents) == 1 and ents[0][2] is not TRUE and ents[0][0].op == "eachkey":
            return self.ref("dict", {"entries": ()}, base=T("dictfrom", self.freeze_chunk(ch[0], 0, ())))     # a selection
        # later equal keys win
        res = {}
        for k, v, g in ents:
            res.pop(k, None)
            res[k] = (k, v, g)
        return self.ref("dict", {"entries": tuple(res.values())})

    def e_Yield(self, e, fr):
        v = self.ev(e.value, fr) if e.value is not None else NONE
        acc = self.env_lookup(fr.env, "__yields__")
        if acc is not None:
            w = self.st.w(acc.args[0])
            w.f["chunks"] = w.f["chunks"] + (T("e", v),)
        return NONE

    def e_YieldFrom(self, e, fr):
        v = self.ev(e.value, fr)
        acc = self.env_lookup(fr.env, "__yields__")
        if acc is not None:
            w = self.st.w(acc.args[0])
            w.f["chunks"] = w.f["chunks"] + tuple(self.chunks_of(v))
        return NONE

    def e_Await(self, e, fr):
        return self.ev(e.value, fr)

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, fr):
        f = self.ev(e.func, fr)
        if f is SUPER and not e.args:
            cls = fr.func.cls if fr.func is not None else None
            slf = fr.self_
            if cls is None or slf is None:
                # nested function: search enclosing self
                return self.unk("super")
            return T("super", cls.cid, slf)
        args = []
        star = None
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fr)
                els = self.known_elems(v)
                if els is not None and star is None:
                    args.extend(els)
                else:
                    args.append(T("star", v))
                    star = True
            else:
                args.append(self.ev(a, fr))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                v = self.ev(k.value, fr)
                o = self.obj(v)
                if o is not None and o.kind == "dict" and all(is_const(x) and g is TRUE for x, _, g in o.f["entries"]):
                    for x, val, _ in o.f["entries"]:
                        kw[x.args[0]] = val
                    if o.base is not None:
                        kw["**"] = o.base
                else:
                    kw["**"] = self.freeze(v)
            else:
                kw[k.arg] = self.ev(k.value, fr)
        if isinstance(e.func, ast.Attribute) and f.op in ("attr",) or f.op == "meth":
            pass
        line = getattr(e, "lineno", 0)
        if self.where:
            self.where[-1] = (self.where[-1][0], line)
        return self.call(f, args, kw)

    def call(self, f, args, kw):
        f = self.simp(f)
        if f.op == "gamma":
            return self.branch_value(f.args[0], lambda: self.call(f.args[1], args, kw), lambda: self.call(f.args[2], args, kw))
        if f.op == "bound":
            return self.call_func(f.args[0], [f.args[1]] + list(args), kw) if f.args[0].op == "func" else self.call(f.args[0], [f.args[1]] + list(args), kw)
        if f.op == "func":
            return self.call_func(f, list(args), kw)
        if f.op == "class":
            return self.instantiate(self.classes[f.args[0]], args, kw)
        if f.op == "propset":
            return self.apply_decorator(f, args[0])
        if f.op == "partial":
            return self.call(f.args[0], list(f.args[1].args) + list(args), {**{k: v for k, v in f.args[2]}, **kw})
        if f.op == "ext":
            from . import extmodel
            return extmodel.call_ext(self, f, args, kw)
        if f.op == "attr":
            from . import extmodel
            return extmodel.call_method(self, f.args[0], f.args[1], args, kw)
        o = self.obj(f)
        if o is not None and o.kind == "inst":
            cls = self.classes[o.cls]
            m = self.class_lookup(cls, "__call__")
            if m is not None:
                return self.call(self.bind(m, f, cls), args, kw)
        ft = self.freeze(f)
        if ft.op == "lookup" and len(ft.args[0]) <= 16 and all(v.op in ("func", "class") for _, v in ft.args[0]):
            # table of callables: one case per key
            self.event("dispatch", ft)
            ents, key = ft.args[0], ft.args[1]

            def case(i):
                k, v = ents[i]
                k = k if isinstance(k, Term) else C(k)
                if i == len(ents) - 1:
                    return self.call(v, args, kw)
                return self.branch_value(cmp("==", key, k), lambda: self.call(v, args, kw), lambda: case(i + 1))
            return case(0)
        self.event("xcall", ft, tuple(self.freeze(a) for a in args), tuple((k, self.freeze(v)) for k, v in sorted(kw.items())))
        if ft.op == "lookup" and all(v.op in ("func", "class", "bound") for _, v in ft.args[0]):
            self.event("dispatch", ft)
        return T("call", ft, tuple(self.freeze(a) for a in args), tuple((k, self.freeze(v)) for k, v in sorted(kw.items())))

    def instantiate(self, cls, args, kw):
        q = cls.qual
        if q in self.intercept:
            return self.intercept[q](self, args, kw)
        r = self.ref("inst", {"__fresh__": TRUE}, cls.cid)
        self.event("new", r, cls.qual)
        init = self.class_lookup(cls, "__init__")
        if init is not None:
            self.call(T("bound", init, r), args, kw)
        else:
            eb = self.ext_bases(cls)
            if eb:
                self.st.w(r.args[0]).f["__extargs__"] = T("tuple", *[self.freeze(a) for a in args])
        return r

    def call_func(self, fterm, args, kw):
        fn = self.funcs[fterm.args[0]]
        if fn.qual in self.intercept:
            r = self.intercept[fn.qual](self, args, kw)
            if r is not None:
                return r
        if len(self.stack) > MAXDEPTH or self.stack.count(fn.fid) > 2:
            self.note("recursion:" + fn.qual)
            return self.unk("recursion " + fn.qual)
        node = fn.node
        self.analysed.add(fn.qual)
        env = self.new("env", {}, base=fn.env)
        fr = Frame(env, fn, None, len(self.stack), fn.module, None)
        if not self.bind_args(fn, args, kw, env):
            self.event("badcall", C(fn.qual))
            self.event("raise", T("ext", "TypeError"))
            raise Exc(self.st)
        if fn.cls is not None and args:
            fr.self_ = args[0]
        elif fn.cls is not None:
            fr.self_ = None
        # nested functions see the enclosing self through closures; super() needs fr.self_
        self.stack.append(fn.fid)
        path = self.tree(fn.module)[1]
        self.where.append((path, node.lineno))
        self.event("enterfn", fn.qual)
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, fr)
            if fn.is_gen:
                acc = self.ref("list", {"chunks": ()})
                self.env_set(env, "__yields__", acc)
            depth0 = len(self.where)
            o = self.exec_block(node.body, fr)
            self.where = self.where[:depth0]
            lv = self.join_out(o)
            if lv is None:
                if o.st is not None:
                    self.st = o.st
                raise Exc(self.st)
            self.st = lv.st
            self.event("leavefn", fn.qual)
            if fn.is_gen:
                return acc
            return self.collect(o, lv)
        finally:
            self.where.pop()
            self.stack.pop()

    def collect(self, o, lv):
        if lv.kind == "raise":
            raise Exc(self.st)
        return lv.val if lv.val is not None else NONE

    def bind_args(self, fn, args, kw, env):
        a = fn.node.args
        f = self.st.w(env).f
        pos = list(a.posonlyargs) + list(a.args)
        names = [x.arg for x in pos]
        kw = dict(kw)
        rest = []
        for i, v in enumerate(args):
            if v.op == "star":
                # unknown number of arguments
                t = self.freeze(v.args[0])
                for j in range(i, len(names)):
                    f[names[j]] = item(t, C(j - i))
                if a.vararg:
                    f[a.vararg.arg] = T("tupleof", t)
                names_done = set(names)
                break
            if i < len(names):
                f[names[i]] = v
            else:
                rest.append(v)
        if a.vararg and a.vararg.arg not in f:
            f[a.vararg.arg] = T("tuple", *rest)
        elif rest and not a.vararg:
            return False
        kwrest = {}
        kwnames = set(names) | {x.arg for x in a.kwonlyargs}
        star = kw.pop("**", None)
        for k, v in kw.items():
            if k in kwnames:
                if k in f:
                    return False
                f[k] = v
            elif a.kwarg:
                kwrest[k] = v
            else:
                return False
        nd = len(fn.defaults)
        for i, n in enumerate(names):
            if n not in f:
                j = i - (len(names) - nd)
                if star is not None:
                    d = fn.defaults[j] if j >= 0 else None
                    f[n] = item(star, C(n)) if d is None else gamma(T("cmp", "in", C(n), star), item(star, C(n)), d)
                elif j >= 0:
                    f[n] = fn.defaults[j]
                else:
                    return False
        for x, d in zip(a.kwonlyargs, fn.kwdefaults):
            if x.arg not in f:
                if star is not None:
                    f[x.arg] = item(star, C(x.arg)) if d is None else gamma(T("cmp", "in", C(x.arg), star), item(star, C(x.arg)), d)
                elif d is None:
                    return False
                else:
                    f[x.arg] = d
        if a.kwarg:
            d = self.ref("dict", {"entries": tuple((C(k), v, TRUE) for k, v in kwrest.items())}, None, star)
            f[a.kwarg.arg] = d
        # annotations give types to symbolic arguments
        mod = self.modules.get(fn.module)
        for x in pos:
            v = f.get(x.arg)
            if v is not None and v.op in ("sym", "item", "attr") and x.annotation is not None:
                h = self.annotation(x.annotation, fn)
                if h is not None:
                    f[x.arg] = self.typed(v, h)
        return True

    def annotation(self, node, fn):
        try:
            if isinstance(node, ast.Constant) and isinstance(node.value, str):
                node = ast.parse(node.value, mode="eval").body
            if isinstance(node, (ast.Name, ast.Attribute)):
                save = self.st.events
                self.st.events = []
                fr = Frame(self.modules[fn.module], None, None, 0, fn.module, None)
                v = self.ev(node, fr)
                self.st.events = save
                return self.class_of(v)
        except (Exc, SyntaxError):
            return None
        return None

    # ------------------------------------------------------------------ list helpers
    def list_extend(self, l, x):
        ch = tuple(self.chunks_of(x))
        w = self.st.w(l.args[0])
        w.f["chunks"] = w.f["chunks"] + ch
        self.event("listadd", l, ch)

    def run_function(self, qual, args=None, kw=None):
        """analyse module-level function or method `module:Class.name`"""
        mod, name = qual.split(":")
        self.load(mod)
        parts = name.split(".")
        v = self.module_attr(mod, parts[0])
        for p in parts[1:]:
            v = self.getattr(v, p) if v is not None else None
        if v is None:
            raise AnalysisError("anchor %s not found" % qual)
        return v


SUPER = T("ext", "builtins.super")
import builtins as _b
BUILTINS = set(dir(_b))

EXTCONST = {
    "numpy.pi": C(3.141592653589793), "os.SEEK_SET": C(0), "os.SEEK_CUR": C(1), "os.SEEK_END": C(2),
    "numpy.newaxis": NONE, "sys.maxsize": C(2 ** 63 - 1),
}


def foreign(v):
    """an object built by an external class, or obtained from one by a method: not of a class of the package"""
    while isinstance(v, Term):
        if v.op in ("xres", "call"):
            f = v.args[0]
            if isinstance(f, Term) and f.op == "method":
                v = f.args[0]
                continue
            f = f.args[0] if isinstance(f, Term) and f.op == "ext" else f
            return isinstance(f, str) and f.rpartition(".")[2][:1].isupper()
        return False
    return False


def boolean(t):
    return t.op in ("cmp", "and", "or", "not", "truth") or (is_const(t) and isinstance(t.args[0], bool))


def strlike(t):
    if is_const(t):
        return isinstance(t.args[0], (str, bytes))
    if t.op in ("strcat", "repeat", "fmt", "str", "fmt%", "join", "strmeth"):
        return True
    if t.op == "gamma":
        return strlike(t.args[1]) and strlike(t.args[2])
    if t.op == "lookup":
        return all(strlike(v) for _, v in t.args[0])
    return False


def is_arith(t):
    return t.op == "poly" or is_num(t)


def list_call(t):
    f = t.args[0]
    return (f.op == "ext" and f.args[0] in ("builtins.list", "builtins.sorted")) or (f.op == "method" and f.args[1] == "tolist")


def space_count(sp):
    if sp.op == "rangespace":
        return sp.args[0]
    if sp.op in ("elems", "keys"):
        return T("len", sp.args[0])
    if sp.op == "rev":
        return space_count(sp.args[0])
    return T("count", sp)


def map_leaf_chunks(c, chunks_of):
    if c.op == "e":
        ch = chunks_of(c.args[0])
        return ch[0] if len(ch) == 1 else T("chunkseq", *ch)
    if c.op == "each":
        return T("each", c.args[0], c.args[1], *[map_leaf_chunks(x, chunks_of) for x in c.args[2:]])
    return c


def join_chunks(c, a, b):
    k = 0
    while k < min(len(a), len(b)) and a[k] is b[k]:
        k += 1
    ra, rb = a[k:], b[k:]
    if len(ra) == len(rb) and all(x.op == "e" and y.op == "e" for x, y in zip(ra, rb)):
        return a[:k] + tuple(T("e", gamma(c, x.args[0], y.args[0]) if x.args[0].op != "ref" and y.args[0].op != "ref" else T("gamma", c, x.args[0], y.args[0])) if x is not y else x for x, y in zip(ra, rb))
    return a[:k] + (T("g", c, T("chunks", *ra), T("chunks", *rb)),)


def ungated(ch, k, mut):
    """a list that goes on when the key is there and starts when it is not: goes on in any case"""
    def member(c):
        return (c.op == "cmp" and c.args[0] in ("in", "not in") and c.args[1] is k and contains(c.args[2], lambda x: x is mut)) or (c.op == "not" and member(c.args[0]))

    def positive(c):
        return not positive(c.args[0]) if c.op == "not" else c.args[0] == "in"
    if not ch or len(ch) < 1 or ch[0].op != "g" or not member(ch[0].args[0]):
        return ch
    yes, no = ch[0].args[1].args, ch[0].args[2].args
    if not positive(ch[0].args[0]):
        yes, no = no, yes
    if yes and yes[0].op == "spread" and yes[0].args[0].op == "dget" and yes[1:] == no:
        return yes + tuple(ch[1:])
    if no and no[0].op == "spread" and no[0].args[0].op == "dget":
        return ch
    return ch


def may_alias(a, b):
    """can two dict keys be equal?"""
    if a is b:
        return True
    if a.op == "eachkey":
        a = a.args[2]
    if b.op == "eachkey":
        b = b.args[2]
    if is_const(a) and is_const(b):
        return a.args[0] == b.args[0]
    if a.op == "ext" and b.op == "ext" and all(x.args[0].startswith("pyvista.CellType.") for x in (a, b)):
        return a.args[0] == b.args[0]       # members of one enumeration
    if a.op in ("tuple",) and b.op == "tuple":
        return len(a.args) == len(b.args) and all(may_alias(x, y) for x, y in zip(a.args, b.args))
    if a.op == "poly" or b.op == "poly":
        d = sub(a, b)
        if is_num(d):
            return d.args[0] == 0
    pa, pb = (x.args if x.op == "strcat" else (x,) for x in (a, b))
    for x, y, f in ((pa[0], pb[0], str.startswith), (pa[-1], pb[-1], str.endswith)):
        if is_const(x) and is_const(y) and isinstance(x.args[0], str) and isinstance(y.args[0], str):
            u, v = x.args[0], y.args[0]
            if not (f(u, v) or f(v, u)):
                return False
    return True


def item(v, k):
    """normalised v[k] for symbolic v"""
    if v.op == "gamma":
        return gamma(v.args[0], item(v.args[1], k), item(v.args[2], k))
    if v.op == "seq" and len(v.args) == 1 and v.args[0].op == "spread":
        return item(v.args[0].args[0], k)
    if v.op in ("tuple", "vec"):
        if is_int(k) and -len(v.args) <= k.args[0] < len(v.args):
            return v.args[k.args[0]]
        if k.op == "slice" and all(x is NONE or is_int(x) for x in k.args):
            return T(v.op, *v.args[slice(*[cval(x) for x in k.args])])
    if v.op == "seq" and all(c.op == "e" for c in v.args) and is_int(k) and -len(v.args) <= k.args[0] < len(v.args):
        return v.args[k.args[0]].args[0]
    if v.op == "sliced" and is_int(k) and k.args[0] >= 0 and (v.args[2] is NONE or (is_int(v.args[2]) and is_int(v.args[1]) and k.args[0] < v.args[2].args[0] - v.args[1].args[0])):
        return item(v.args[0], add(v.args[1] if v.args[1] is not NONE else C(0), k))
    if k.op == "slice" and k.args[2] is NONE and v.op in ("unpack", "sliced", "item", "attr", "sym", "call", "dictof") and \
            (k.args[0] is NONE or (is_int(k.args[0]) and k.args[0].args[0] >= 0)) and (k.args[1] is NONE or (is_int(k.args[1]) and k.args[1].args[0] >= 0)):
        if v.op == "unpack":
            a = k.args[0] if k.args[0] is not NONE else C(0)
            return T("sliced", v, a, k.args[1])
        if v.op == "sliced" and (is_int(v.args[1])):
            a = add(v.args[1], k.args[0] if k.args[0] is not NONE else C(0))
            b = add(v.args[1], k.args[1]) if k.args[1] is not NONE else v.args[2]
            return T("sliced", v.args[0], a, b)
    if v.op == "rangeof" and v.args[2] is C(1) and k.op not in ("slice", "tuple"):
        return add(v.args[0], k)
    if v.op == "mapelem":
        pass
    if v.op == "seq" and len(v.args) == 1 and v.args[0].op == "each" and len(v.args[0].args) == 3 and v.args[0].args[2].op == "e" and k.op not in ("slice", "tuple") and not (is_int(k) and k.args[0] < 0):
        return subst(v.args[0].args[2].args[0], {v.args[0].args[0]: k})
    if v.op == "dictof" and v.args[0] is NONE and is_const(k):
        for ek, x, g in reversed(v.args[1]):
            if ek is k:
                return x
    if v.op == "varsof" and is_str(k) and v.args[0].op not in ("ref", "obj"):
        return T("attr", v.args[0], k.args[0])
    return T("item", v, k)


REBUILD["item"] = item


def sym_attr(v, name):
    if v.op == "gamma" and v.args[1].op != "ref":
        return gamma(v.args[0], sym_attr(v.args[1], name), sym_attr(v.args[2], name))
    if name == "itemsize":
        # numpy contract: itemsize is determined by the dtype name
        n = T("attr", T("attr", v, "dtype"), "name")
        return lookup(tuple((C(k), C(s)) for k, s in ITEMSIZE), n, None)
    return T("attr", v, name)


ITEMSIZE = (("int8", 1), ("int16", 2), ("int32", 4), ("int64", 8), ("float32", 4), ("float64", 8), ("float128", 16), ("uint8", 1), ("uint32", 4), ("uint64", 8))

REBUILD["attr"] = sym_attr


def has_exit(s):
    """does the statement contain return/break/continue leaving it?"""
    def go(n, inloop):
        if isinstance(n, ast.Return):
            return True
        if isinstance(n, (ast.Break, ast.Continue)):
            return not inloop
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda, ast.AsyncFunctionDef)):
            return False
        il = inloop or (isinstance(n, (ast.For, ast.While)) and n is not s)
        return any(go(c, il) for c in ast.iter_child_nodes(n))
    return any(go(c, isinstance(s, (ast.For, ast.While))) for c in ast.iter_child_nodes(s))


def mk_keep(o, kinds):
    return out_map(o, lambda l: l if l.kind in kinds else dead())


def walk_noscope(node):
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            todo.extend(ast.iter_child_nodes(n))
