"""import-time semantics of the package: module bodies executed over the sets of bound names"""
import ast
import builtins
import importlib
import os
import sys

from .engine import REPO, PKG

BUILTINS = set(dir(builtins)) | {"__name__", "__file__", "__doc__", "__package__", "__spec__", "__path__", "__loader__", "__builtins__",
                                 "__qualname__", "__module__", "__annotations__", "__class__"}


class Fail(Exception):
    """an exception at import time"""

    def __init__(self, kind, what, where):
        self.kind, self.what, self.where = kind, what, where


class Mod:
    def __init__(self, name, path, pkg):
        self.name, self.path, self.pkg = name, path, pkg
        self.names = {}
        self.done = False
        self.dynamic = False      # __getattr__, globals() tricks: unknown names are not judged


def locate(name, repo=None):
    p = os.path.join(repo or REPO, *name.split("."))
    if os.path.isfile(os.path.join(p, "__init__.py")):
        return os.path.join(p, "__init__.py"), True
    if os.path.isfile(p + ".py"):
        return p + ".py", False
    if os.path.isdir(p):
        return p, True
    return None, False


def all_modules(repo=None):
    repo = repo or REPO
    out = []
    for root, dirs, files in os.walk(os.path.join(repo, PKG)):
        dirs[:] = sorted(d for d in dirs if d != "__pycache__")
        for f in sorted(files):
            if f.endswith(".py"):
                rel = os.path.relpath(os.path.join(root, f), repo)[:-3].split(os.sep)
                if rel[-1] == "__init__":
                    rel = rel[:-1]
                out.append(".".join(rel))
    return out


_trees = {}


def tree_of(path):
    if path not in _trees:
        with open(path, encoding="utf8") as fh:
            _trees[path] = ast.parse(fh.read(), path)
    return _trees[path]


class World:
    """one fresh interpreter"""

    def __init__(self, missing=(), repo=None):
        self.missing, self.repo = set(missing), repo or REPO
        self.mods = {}
        self.problems = []          # (kind, what, (path, line)) survived problems (unsure branches)
        self.unsure = 0
        self.stmts = 0
        self.external = []          # (top package, guarded, where)
        self.guard = 0

    def where(self, m, n):
        return (m.path, getattr(n, "lineno", 0))

    # ---------------------------------------------------------------- modules
    def load(self, name, at):
        if name in self.mods:
            return self.mods[name]
        if "." in name:
            self.load(name.rsplit(".", 1)[0], at)
            if name in self.mods:
                return self.mods[name]
        path, pkg = locate(name, self.repo)
        if path is None:
            raise Fail("ModuleNotFoundError", f"no module named {name}", at)
        m = Mod(name, path, pkg)
        self.mods[name] = m
        if path.endswith(".py"):
            t = tree_of(path)
            m.dynamic = any(isinstance(n, ast.FunctionDef) and n.name == "__getattr__" for n in t.body) or \
                any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("globals", "exec", "vars", "setattr")
                    for s in t.body if not isinstance(s, (ast.FunctionDef, ast.ClassDef)) for n in ast.walk(s))
            try:
                self.block(t.body, m, m.names, ())
            except Fail:
                self.mods.pop(name, None)
                raise
        m.done = True
        if "." in name:
            par, last = name.rsplit(".", 1)
            if par in self.mods:
                self.mods[par].names[last] = ("module", name)
        return m

    def ext(self, name, m, node):
        top = name.split(".")[0]
        self.external.append((top, self.guard > 0, self.where(m, node)))
        if top in self.missing:
            raise Fail("ModuleNotFoundError", f"no module named {top}", self.where(m, node))

    def ext_from(self, mod, attr, m, node):
        if mod.split(".")[0] in sys.stdlib_module_names:
            try:
                obj = importlib.import_module(mod)
            except Exception:
                return
            if not hasattr(obj, attr):
                try:
                    importlib.import_module(mod + "." + attr)
                except Exception:
                    raise Fail("ImportError", f"cannot import name {attr} from {mod}", self.where(m, node))

    # ---------------------------------------------------------------- statements
    def block(self, body, m, ns, outer):
        for s in body:
            self.stmt(s, m, ns, outer)

    def stmt(self, s, m, ns, outer):
        self.stmts += 1
        if isinstance(s, ast.Import):
            for a in s.names:
                if a.name.split(".")[0] == PKG:
                    self.load(a.name, self.where(m, s))
                    ns[a.asname or a.name.split(".")[0]] = ("module", a.name if a.asname else PKG)
                else:
                    self.ext(a.name, m, s)
                    ns[a.asname or a.name.split(".")[0]] = ("ext", a.name if a.asname else a.name.split(".")[0])
        elif isinstance(s, ast.ImportFrom):
            self.import_from(s, m, ns)
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in s.decorator_list:
                self.expr(d, m, ns, outer)
            self.signature(s, m, ns, outer)
            ns[s.name] = ("func", m.name, s)
            self.decorated(s.decorator_list, m, ns, outer)
        elif isinstance(s, ast.ClassDef):
            for d in s.decorator_list + s.bases + [k.value for k in s.keywords]:
                self.expr(d, m, ns, outer)
            local = {}
            self.block(s.body, m, local, (ns,) + outer)
            ns[s.name] = ("class", m.name, s)
            self.decorated(s.decorator_list, m, ns, outer)
        elif isinstance(s, ast.Try):
            self.try_(s, m, ns, outer)
        elif isinstance(s, ast.If):
            v = self.const(s.test, ns, outer)
            self.expr(s.test, m, ns, outer)
            if v is True:
                self.block(s.body, m, ns, outer)
            elif v is False:
                self.block(s.orelse, m, ns, outer)
            else:
                self.maybe(s.body, m, ns, outer)
                self.maybe(s.orelse, m, ns, outer)
        elif isinstance(s, (ast.For, ast.While)):
            if isinstance(s, ast.For):
                self.expr(s.iter, m, ns, outer)
                self.bind(s.target, ns, None)
            else:
                self.expr(s.test, m, ns, outer)
            self.maybe(s.body, m, ns, outer)
            self.maybe(s.orelse, m, ns, outer)
        elif isinstance(s, ast.With):
            for i in s.items:
                self.expr(i.context_expr, m, ns, outer)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, ns, None)
            self.block(s.body, m, ns, outer)
        elif isinstance(s, ast.Assign):
            self.expr(s.value, m, ns, outer)
            v = self.value(s.value, ns, outer)
            for t in s.targets:
                self.bind(t, ns, v)
                if not isinstance(t, ast.Name):
                    self.expr(t, m, ns, outer)
        elif isinstance(s, ast.AnnAssign):
            self.annotation(s.annotation, m, ns, outer)
            if s.value is not None:
                self.expr(s.value, m, ns, outer)
                self.bind(s.target, ns, self.value(s.value, ns, outer))
        elif isinstance(s, ast.AugAssign):
            self.expr(s.value, m, ns, outer)
            if isinstance(s.target, ast.Name):
                self.need(s.target.id, m, s, ns, outer)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.need(t.id, m, s, ns, outer)
                    ns.pop(t.id, None)
        elif isinstance(s, ast.Raise):
            if s.exc is not None:
                self.expr(s.exc, m, ns, outer)
            raise Fail("raise", "module raises at import", self.where(m, s))
        elif isinstance(s, (ast.Expr, ast.Assert, ast.Return)):
            for c in ast.iter_child_nodes(s):
                self.expr(c, m, ns, outer)
        elif isinstance(s, (ast.Global, ast.Nonlocal, ast.Pass, ast.Break, ast.Continue)):
            pass
        else:
            for c in ast.iter_child_nodes(s):
                if isinstance(c, ast.expr):
                    self.expr(c, m, ns, outer)

    def maybe(self, body, m, ns, outer):
        """statements which may or may not run"""
        try:
            self.unsure += 1
            self.block(body, m, ns, outer)
        except Fail as f:
            if f.kind != "raise":
                self.problems.append(("unsure", f"{f.kind}: {f.what}", f.where))
        finally:
            self.unsure -= 1

    def import_from(self, s, m, ns):
        base = s.module or ""
        if s.level:
            parts = m.name.split(".")
            if not m.pkg:
                parts = parts[:-1]
            if s.level - 1 >= len(parts) and not (s.level - 1 == 0):
                raise Fail("ImportError", "relative import beyond the package", self.where(m, s))
            parts = parts[:len(parts) - (s.level - 1)]
            if not parts:
                raise Fail("ImportError", "relative import without a package", self.where(m, s))
            base = ".".join(parts + ([s.module] if s.module else []))
        if base == "__future__":
            m.names["__future_annotations__"] = True if any(a.name == "annotations" for a in s.names) else m.names.get("__future_annotations__")
            return
        if base.split(".")[0] != PKG:
            self.ext(base, m, s)
            for a in s.names:
                self.ext_from(base, a.name, m, s)
                ns[a.asname or a.name] = ("ext", base + "." + a.name)
            return
        src = self.load(base, self.where(m, s))
        for a in s.names:
            if a.name == "*":
                for k, v in list(src.names.items()):
                    if not k.startswith("_"):
                        ns[k] = v
                continue
            if a.name in src.names:
                ns[a.asname or a.name] = src.names[a.name]
                continue
            if locate(base + "." + a.name, self.repo)[0] and src.pkg:
                self.load(base + "." + a.name, self.where(m, s))
                ns[a.asname or a.name] = ("module", base + "." + a.name)
                continue
            if src.dynamic:
                ns[a.asname or a.name] = None
                continue
            part = "" if src.done else " (partially initialized: circular import)"
            raise Fail("ImportError", f"cannot import name {a.name} from {base}{part}", self.where(m, s))

    def try_(self, s, m, ns, outer):
        catches = set()
        for h in s.handlers:
            catches |= names_of(h.type) if h.type is not None else {"BaseException"}
        imp = bool(catches & {"ImportError", "ModuleNotFoundError", "Exception", "BaseException"})
        try:
            self.guard += imp
            try:
                self.block(s.body, m, ns, outer)
            finally:
                self.guard -= imp
        except Fail as f:
            for h in s.handlers:
                hn = names_of(h.type) if h.type is not None else {"BaseException"}
                if hn & mro_of(f.kind) or f.kind == "raise":
                    if h.name:
                        ns[h.name] = None
                    self.block(h.body, m, ns, outer)
                    break
            else:
                self.block(s.finalbody, m, ns, outer)
                raise
        else:
            self.block(s.orelse, m, ns, outer)
        self.block(s.finalbody, m, ns, outer)

    # ---------------------------------------------------------------- names and expressions
    def bind(self, t, ns, v):
        if isinstance(t, ast.Name):
            ns[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bind(x, ns, None)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, ns, None)

    def look(self, name, ns, outer):
        for d in (ns,) + tuple(outer):
            if name in d:
                return True, d[name]
        return False, None

    def need(self, name, m, node, ns, outer):
        ok, v = self.look(name, ns, outer)
        if not ok and name not in BUILTINS and not m.dynamic:
            raise Fail("NameError", f"name {name} is not defined", self.where(m, node))
        return v

    def value(self, e, ns, outer):
        if isinstance(e, ast.Constant):
            return ("const", e.value)
        if isinstance(e, ast.Name):
            return self.look(e.id, ns, outer)[1]
        if isinstance(e, ast.Attribute):
            b = self.value(e.value, ns, outer)
            if b and b[0] == "module" and b[1] in self.mods:
                return self.mods[b[1]].names.get(e.attr)
        return None

    def const(self, e, ns, outer):
        """truth of a test when known"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            v = self.const(e.operand, ns, outer)
            return None if v is None else not v
        if isinstance(e, ast.Compare) and isinstance(e.left, ast.Name) and e.left.id == "__name__":
            return False
        v = self.value(e, ns, outer)
        if v and v[0] == "const":
            return bool(v[1])
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.Is, ast.IsNot)):
            l = self.value(e.left, ns, outer)
            r = self.value(e.comparators[0], ns, outer)
            if l and r and r == ("const", None):
                is_none = l == ("const", None)
                return is_none if isinstance(e.ops[0], ast.Is) else not is_none
        if isinstance(e, ast.Attribute) and e.attr == "TYPE_CHECKING" or isinstance(e, ast.Name) and e.id == "TYPE_CHECKING":
            return False
        return None

    def expr(self, e, m, ns, outer, bound=()):
        if e is None or not isinstance(e, ast.AST):
            return
        if isinstance(e, ast.Lambda):
            for d in e.args.defaults + e.args.kw_defaults:
                self.expr(d, m, ns, outer, bound)
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            b = set(bound)
            if outer:       # class scope: inner names of a comprehension do not see class names; not judged
                return
            for g in e.generators:
                self.expr(g.iter, m, ns, outer, tuple(b))
                for t in ast.walk(g.target):
                    if isinstance(t, ast.Name):
                        b.add(t.id)
                for i in g.ifs:
                    self.expr(i, m, ns, outer, tuple(b))
            for part in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                self.expr(part, m, ns, outer, tuple(b))
            return
        if isinstance(e, ast.NamedExpr):
            self.expr(e.value, m, ns, outer, bound)
            self.bind(e.target, ns, None)
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id not in bound:
                self.need(e.id, m, e, ns, outer)
            return
        if isinstance(e, ast.Attribute):
            self.expr(e.value, m, ns, outer, bound)
            if isinstance(e.value, ast.Name) and e.value.id in bound:
                return
            b = self.value(e.value, ns, outer)
            if b and b[0] == "module" and b[1] in self.mods:
                mm = self.mods[b[1]]
                if e.attr not in mm.names and not mm.dynamic and e.attr not in BUILTINS:
                    part = "" if mm.done else " (partially initialized: circular import)"
                    raise Fail("AttributeError", f"module {b[1]} has no attribute {e.attr}{part}", self.where(m, e))
            elif b == ("const", None) and isinstance(e.ctx, ast.Load):
                raise Fail("AttributeError", f"None has no attribute {e.attr}", self.where(m, e))
            return
        if isinstance(e, (ast.BoolOp, ast.IfExp)):
            first = e.values[0] if isinstance(e, ast.BoolOp) else e.test
            self.expr(first, m, ns, outer, bound)
            rest = e.values[1:] if isinstance(e, ast.BoolOp) else [e.body, e.orelse]
            for r in rest:
                try:
                    self.expr(r, m, ns, outer, bound)
                except Fail as f:
                    self.problems.append(("unsure", f"{f.kind}: {f.what}", f.where))
            return
        for c in ast.iter_child_nodes(e):
            self.expr(c, m, ns, outer, bound)
        if isinstance(e, ast.Call):
            self.called(self.value(e.func, ns, outer))

    def signature(self, f, m, ns, outer):
        a = f.args
        for d in a.defaults + a.kw_defaults:
            self.expr(d, m, ns, outer)
        for x in a.posonlyargs + a.args + a.kwonlyargs + [a.vararg, a.kwarg]:
            if x is not None and x.annotation is not None:
                self.annotation(x.annotation, m, ns, outer)
        if f.returns is not None:
            self.annotation(f.returns, m, ns, outer)

    def annotation(self, e, m, ns, outer):
        if m.names.get("__future_annotations__"):
            return
        self.expr(e, m, ns, outer)

    def decorated(self, decs, m, ns, outer):
        for d in decs:
            self.called(self.value(d, ns, outer))

    def called(self, v, depth=0):
        """globals loaded by a package function called at import time have to be bound at that time"""
        if not v or v[0] != "func" or depth > 4 or v[1] not in self.mods:
            return
        m = self.mods[v[1]]
        f = v[2]
        local = set()
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                local.add(n.id)
            elif isinstance(n, ast.arg):
                local.add(n.arg)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not f:
                local.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                local |= {(a.asname or a.name).split(".")[0] for a in n.names}
            elif isinstance(n, ast.ExceptHandler) and n.name:
                local.add(n.name)
        for s in f.body:      # only what runs unconditionally
            if isinstance(s, (ast.If, ast.For, ast.While, ast.Try)):
                continue
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in local and n.id not in m.names \
                        and n.id not in BUILTINS and not m.dynamic:
                    raise Fail("NameError", f"name {n.id} is not defined when {f.name} is called", self.where(m, n))


def names_of(t):
    return {n.id if isinstance(n, ast.Name) else n.attr for n in ast.walk(t) if isinstance(n, (ast.Name, ast.Attribute))}


def mro_of(kind):
    c = getattr(builtins, kind, None)
    return {k.__name__ for k in c.__mro__} if isinstance(c, type) else {kind}
