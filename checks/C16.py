"""Every module imports in any order and console commands exist.

The import-time semantics of Python is executed on the syntax trees of the package over the sets of bound names: each module
is taken in turn as the first import of a fresh interpreter; circular imports see the names bound so far, guarded imports are
followed when the optional package is missing.  Names, attributes of package modules, imported names, decorators, default
values, annotations and base classes have to be bound when they are evaluated."""
import ast

from sa import cli
from sa.imports import World, Fail, all_modules, locate
from sa.engine import REPO, PKG
from sa.util import site
import os
import re
import sys
import tomllib

TECHNIQUE = "abstract execution of module bodies over bound names, each module first; resolution of console entry points"
LEVEL_NOTE = "All modules of the package as first import, with all packages and without each package whose import is guarded. Third-party modules are trusted to import and to provide the names imported from them."
RULES = {"first": "the module can be imported first in a fresh interpreter",
         "optional": "the module can be imported without a package whose import is guarded elsewhere, unless it imports it itself",
         "declared": "an unguarded external import is of the standard library or of a declared dependency",
         "script": "a console command resolves to a function that can be called without argument"}
ASSUMPTIONS = ["declared dependencies are installed; pyvista brings matplotlib and vtk"]
BROUGHT = {"pyvista": {"matplotlib", "vtk", "vtkmodules"}, "scipy": {"numpy"}, "h5py": {"numpy"}}


def declared():
    with open(os.path.join(REPO, "pyproject.toml"), "rb") as fh:
        d = tomllib.load(fh)
    out = set()
    for x in d.get("project", {}).get("dependencies", []):
        n = re.match(r"[A-Za-z0-9_.-]+", x).group(0).lower()
        out |= {n} | BROUGHT.get(n, set())
    return out


def direct(mod, pkg):
    """the module imports pkg without a guard at its top level"""
    p, _ = locate(mod)
    if not p.endswith(".py"):
        return False
    for s in ast.parse(open(p).read()).body:
        if isinstance(s, ast.Import) and any(a.name.split(".")[0] == pkg for a in s.names):
            return True
        if isinstance(s, ast.ImportFrom) and not s.level and (s.module or "").split(".")[0] == pkg:
            return True
    return False


def passes_through(d, mm, w):
    """the decorator calls the function with exactly the arguments received"""
    n = d.func if isinstance(d, ast.Call) else d
    v = w.value(n, mm.names, ())
    if not v or v[0] != "func":
        return False
    calls = [c for c in ast.walk(v[2]) if isinstance(c, ast.Call) and isinstance(c.func, ast.Name)
             and any(isinstance(a, ast.Starred) for a in c.args)]
    return bool(calls) and all(len(c.args) == 1 and all(k.arg is None for k in c.keywords) for c in calls)


def run(rep):
    mods = all_modules()
    deps = declared()
    guarded, seen = {}, set()
    for m in mods:
        w = World()
        try:
            w.load(m, (m, 0))
            unsure = [p for p in w.problems]
            if unsure:
                rep.undecided("first", m, f"{unsure[0][1]} at {site(unsure[0][2])} on a conditional path")
            else:
                rep.ok("first", m, f"{len(w.mods)} modules, {w.stmts} statements")
        except Fail as f:
            rep.bad("first", m, f"{f.kind}: {f.what} at {site(f.where)}", key=f"{m} {f.what}")
        for name in w.mods:
            rep.function(name)
        for top, g, where in w.external:
            if g:
                guarded.setdefault(top, where)
            elif (top, where) not in seen:
                seen.add((top, where))
                if top not in sys.stdlib_module_names:
                    rep.check(top.lower() in deps, "declared", f"{top} at {site(where)}", "declared" if top.lower() in deps else
                              "neither in the standard library nor a declared dependency", key=f"declared {top}")
    for top in sorted(guarded):
        if top in sys.stdlib_module_names or top.startswith("_"):
            continue
        for m in mods:
            if direct(m, top):
                continue
            w = World(missing=[top])
            try:
                w.load(m, (m, 0))
                if w.problems:
                    rep.undecided("optional", f"{m} without {top}", f"{w.problems[0][1]} at {site(w.problems[0][2])}")
                else:
                    rep.ok("optional", f"{m} without {top}", f"{len(w.mods)} modules")
            except Fail as f:
                rep.bad("optional", f"{m} without {top}", f"{f.kind}: {f.what} at {site(f.where)}", key=f"{m} without {top}: {f.what}")
    for cmd, (mod, fn) in sorted(cli.scripts().items()):
        w = World()
        try:
            mm = w.load(mod, ("pyproject.toml", 0))
        except Fail as f:
            rep.bad("script", cmd, f"{mod} does not import: {f.what}", key=f"script {cmd}")
            continue
        v = mm.names.get(fn)
        if fn not in mm.names:
            if mm.dynamic:
                rep.undecided("script", cmd, "names bound dynamically")
            else:
                rep.bad("script", cmd, f"{mod} has no {fn}", key=f"script {cmd}")
        elif v and v[0] == "func":
            a = v[2].args
            req = [x.arg for x in a.posonlyargs + a.args][:len(a.posonlyargs + a.args) - len(a.defaults)] + \
                [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
            if req and not all(passes_through(d, mm, w) for d in v[2].decorator_list):
                rep.undecided("script", cmd, "decorated function with required parameters")
            else:
                rep.check(not req, "script", cmd, f"{mod}.{fn}({', '.join(req)})", key=f"script {cmd}")
        elif v and v[0] in ("module", "const"):
            rep.bad("script", cmd, f"{mod}.{fn} is a {v[0]}, not a function", key=f"script {cmd}")
        else:
            rep.ok("script", cmd, f"{mod}.{fn} bound")
