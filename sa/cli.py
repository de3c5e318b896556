"""the console commands of the project, interpreted abstractly on arbitrary command lines"""
import os
import tomllib

from .engine import Engine, REPO
from .terms import T, C, is_const, walk, Term, gamma


def scripts(repo=None):
    """{command: (module, function)} declared by pyproject.toml"""
    repo = repo or REPO
    with open(os.path.join(repo, "pyproject.toml"), "rb") as fh:
        d = tomllib.load(fh)
    out = {}
    for k, v in d.get("project", {}).get("scripts", {}).items():
        m, _, f = v.partition(":")
        out[k] = (m.strip(), f.strip())
    return out


_cache = {}


def trace(mod, fn):
    """engine after running mod.fn(argv) on a symbolic command line, and the returned value"""
    if (mod, fn) not in _cache:
        en = Engine()

        def probes(e, args, kw):       # what the probe store holds is not the matter of the commands
            e.event("xcall", T("ext", "cfdtools.probes.data.phydata"), tuple(e.freeze(a) for a in args),
                    tuple((k, e.freeze(v)) for k, v in sorted(kw.items())), T("sym", "probes"))
            return T("sym", "probes")
        en.intercept["cfdtools.probes.data.phydata"] = probes
        f = en.module_attr(mod, fn)
        r = en.call(f, [T("sym", "argv")], {})
        _cache[mod, fn] = (en, r)
    return _cache[mod, fn]


def flat(events):
    for e in events:
        yield e
        if e[0] == "loop":
            yield from flat(e[4])
        elif e[0] == "if":
            yield from flat(e[3])
            yield from flat(e[4])


def bare(t):
    """a path term without str()/Path() conversions"""
    while isinstance(t, Term):
        if t.op == "str" and len(t.args) == 1:
            t = t.args[0]
        elif t.op == "call" and len(t.args[1]) == 1 and not t.args[2] and isinstance(t.args[0], Term) \
                and t.args[0].op == "ext" and t.args[0].args[0] in ("pathlib.Path", "os.fspath", "builtins.str", "os.path.abspath"):
            t = t.args[1][0]
        elif t.op == "attr" and t.args[1] in ("_str",):
            t = t.args[0]
        elif t.op == "gamma":
            return gamma(t.args[0], bare(t.args[1]), bare(t.args[2]))
        else:
            break
    return t
