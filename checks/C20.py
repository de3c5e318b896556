"""Files opened for writing are closed on every normal path.

The writing entry points are interpreted abstractly; the ordered events (open, close, leaving of a with block) are walked on
every path: a file opened for writing must not be open any more where the function returns normally.  Any other place of the
package that opens a file for writing is found in the syntax trees and its function is traced in the same way."""
import ast
import os

from sa import cli, outputs
from sa.engine import Engine, REPO, Exc
from sa.terms import T, C, Term, is_const, show
from sa.util import site, enclosing

TECHNIQUE = "abstract interpretation of the writing entry points; typestate (opened, closed) of each file on every normal path"
LEVEL_NOTE = "All normal paths of every function of the package that opens a file for writing. Files written by pyvista or matplotlib are closed by these libraries."
RULES = {"closed": "a file opened for writing is closed before the function returns",
         "late": "nothing is written to a file after it was closed"}
ASSUMPTIONS = ["pyvista.save and matplotlib.savefig close the files they write"]


def dead(evs):
    return any(e[0] == "raise" for e in evs)


def walk(evs, st, where, late):
    """files possibly open after the events (None: no normal end).  st: {file: open event}"""
    for e in evs:
        k = e[0]
        if k == "raise":
            return None
        if k == "open" and len(e) > 4:
            if outputs.write_mode(e[4]) is not False:
                st = {**st, e[2]: e}
        elif k in ("close", "exit"):
            st = {f: o for f, o in st.items() if f is not e[2]}
        elif k == "write" and isinstance(e[2], Term) and e[2] not in st:
            late.append(e)
        elif k == "if":
            a = walk(e[3], st, where, late)
            b = walk(e[4], st, where, late)
            if a is None and b is None:
                return None
            st = {**(a or {}), **(b or {})}
        elif k == "loop":
            a = walk(e[4], st, where, late)
            st = {**st, **(a or {})} if a is not None else st
    return st


def write_opens():
    """[(file, line, function qualname or None, class, call)] where the source opens a file with a writing mode"""
    out = []
    for root, _, files in os.walk(os.path.join(REPO, "cfdtools")):
        for f in sorted(files):
            if not f.endswith(".py"):
                continue
            p = os.path.join(root, f)
            tree = ast.parse(open(p).read())
            for cls, fn in functions(tree):
                for c in ast.walk(fn):
                    if isinstance(c, ast.Call) and writes(c):
                        out.append((p, c.lineno, cls, fn.name))
    return out


def functions(tree):
    for n in tree.body:
        if isinstance(n, ast.FunctionDef):
            yield None, n
        elif isinstance(n, ast.ClassDef):
            for m in n.body:
                if isinstance(m, ast.FunctionDef):
                    yield n.name, m


def writes(c):
    name = c.func.id if isinstance(c.func, ast.Name) else c.func.attr if isinstance(c.func, ast.Attribute) else None
    if name not in ("open", "File", "fdopen"):
        return False
    vals = [a.value for a in list(c.args) + [k.value for k in c.keywords] if isinstance(a, ast.Constant) and isinstance(a.value, str)]
    return any(set(v) <= set("wabtx+-r") and any(ch in v for ch in "wax+") for v in vals)


def judge(rep, label, en, before, events):
    late = []
    st = walk(list(before) + list(events), {}, label, late)
    seen = set()
    for e in cli.flat(events):
        if e[0] == "open" and len(e) > 4 and outputs.write_mode(e[4]) is not False:
            seen.add((e[1][0], e[1][1]))
            if st is not None and e[2] in st:
                rep.bad("closed", f"{label}: file opened at {site(e[1])}", "still open on a normal path when the function returns",
                        key=f"{label} {site(e[1])}")
            else:
                rep.ok("closed", f"{label}: file opened at {site(e[1])}", "closed")
    for e in late:
        if st is not None and any(o[0] == "open" and o[2] is e[2] for o in cli.flat(events) if len(o) > 2):
            rep.bad("late", f"{label}: {site(e[1])}", "written after the file was closed", key=f"{label} late")
    return seen


def run(rep):
    seen = set()
    for label, en, before, events in outputs.targets():
        rep.function(*en.analysed)
        if label == "h5File.open":
            continue               # hands the open file to its caller
        n = judge(rep, label, en, before, events)
        seen |= n
        if not n and "vtkList" not in label:
            rep.undecided("closed", label, "no file opened for writing was found")
    for p, line, cls, fn in write_opens():
        if any(s == p and l == line for s, l in seen):
            continue
        mod = os.path.relpath(p, REPO)[:-3].replace(os.sep, ".")
        label = f"{mod}.{(cls + '.') if cls else ''}{fn}"
        if any(label2_covers(cls, fn, l) for l, *_ in outputs.targets()):
            continue
        try:
            en = Engine()
            en.load(mod)
            n0 = len(en.st.events)
            if cls:
                o = en.instance_of(T("sym", cls.lower()), en.find_class(mod, cls))
                f = en.getattr(o, fn)
            else:
                f = en.module_attr(mod, fn)
            node = next(n for c, n in functions(ast.parse(open(p).read())) if c == cls and n.name == fn)
            names = [a.arg for a in node.args.args][(1 if cls else 0):]
            en.call(f, [T("sym", a) for a in names], {})
            rep.function(*en.analysed)
            if not judge(rep, label, en, [], en.st.events[n0:]):
                rep.undecided("closed", label, "opening not found in the trace")
        except Exc:
            rep.undecided("closed", label, "no normal path")


def label2_covers(cls, fn, label):
    return label == f"{cls}.{fn}"
