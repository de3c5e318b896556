"""Console commands never write over an existing file.

Every console command declared in pyproject.toml is interpreted abstractly on an arbitrary command line.  Each event that
creates or truncates a file (open for writing, h5py file, delegated save or write_data) carries the term of its path and
the facts established on its path: the rule asks for the fact "this same path does not exist".  The path returned to the
caller has to be the same term.  The loop that looks for a free name must produce candidates that differ at each turn."""
from sa import cli
from sa.terms import T, C, Term, is_const, walk, show, contains, not_, gamma
from sa.util import site, resolve

TECHNIQUE = "abstract interpretation of every console command; must-facts (path found free) at each file creation"
LEVEL_NOTE = "All paths of all declared commands; the path of each file creation is compared as a term with the path of the dominating existence test. Trusts pathlib/os.path semantics; races with other processes are outside."
RULES = {"free": "a file is only created at a path whose non-existence was established on every path leading there",
         "returned": "the returned name is the path given to the writer",
         "counter": "the candidate names tried in turn are different"}
ASSUMPTIONS = ["no other process creates the file between the test and the creation",
               "registered writers create only the file they are given"]

SINK_METHODS = {"save", "write_data", "to_hdf5", "dumphdf", "tofile", "write_text", "write_bytes", "touch", "write"}
WRITEMODES = ("w", "wb", "w+", "wb+", "w+b", "wt", "a", "ab")


def fact_paths(facts):
    """bare path terms known not to exist"""
    out = []
    for f in facts:
        if f.op == "not":
            tested(f.args[0], out)
    return out


def tested(t, out):
    """paths whose existence makes t true"""
    while isinstance(t, Term) and t.op == "truth":
        t = t.args[0]
    if not isinstance(t, Term):
        return
    if t.op == "gamma":           # the test of a path chosen by a condition: test(c ? a : b)
        l, r = [], []
        tested(t.args[1], l)
        tested(t.args[2], r)
        for x in l:
            for y in r:
                out.append(gamma(t.args[0], x, y))
        return
    if t.op == "or":
        for x in t.args:
            tested(x, out)
        return
    if t.op not in ("call", "xres"):
        return
    fn = t.args[0]
    name = fn.args[0] if isinstance(fn, Term) and fn.op == "ext" else fn if isinstance(fn, str) else None
    if isinstance(fn, Term) and fn.op == "method" and fn.args[1] == "exists":
        out.append(cli.bare(fn.args[0]))
    elif name in ("os.path.exists", "os.path.lexists") and t.args[1]:
        out.append(cli.bare(t.args[1][0]))


def sinks(en):
    for e in cli.flat(en.st.events):
        if e[0] == "open" and len(e) > 5:
            mode = e[4]
            m = mode.args[0] if isinstance(mode, Term) and is_const(mode) else None
            if m is None or (isinstance(m, str) and any(c in m for c in "wa")):
                if m not in ("w-", "x"):
                    yield e, e[3], f"open mode {m!r}"
        elif e[0] == "xcall" and isinstance(e[2], Term) and e[2].op == "method" and e[2].args[1] in SINK_METHODS:
            kw = dict(e[4]) if e[4] else {}
            a = e[3][0] if e[3] else kw.get("filename")
            if a is not None:
                yield e, a, f".{e[2].args[1]}()"


OPAQUE = ("unk", "nextof", "pick", "mu")


def opaque(p):
    return contains(p, lambda x: x.op in OPAQUE) or contains(
        p, lambda x: x.op == "call" and x.args[0].op == "ext" and x.args[0].args[0] in ("builtins.next", "itertools.count", "builtins.filter"))


def cond_known(c, facts):
    return True if c in facts else False if not_(c) in facts else None


def narrow(p, facts):
    """p with the choices decided by the facts resolved"""
    m = {}
    for x in walk(p):
        if x.op == "gamma":
            v = cond_known(x.args[0], facts)
            if v is not None:
                m[x.args[0]] = v
    return resolve(p, m) if m else p


def run(rep):
    n = 0
    done = set()
    for name, (mod, fn) in sorted(cli.scripts().items()):
        if (mod, fn) in done:
            continue
        done.add((mod, fn))
        en, r = cli.trace(mod, fn)
        rep.function(*en.analysed)
        outs = []
        for e, path, how in sinks(en):
            n += 1
            where = f"{fn} -> {site(e[1])} {how}"
            p = cli.bare(path)
            free = fact_paths(e.facts)
            if any(q is p for q in free):
                rep.ok("free", where, show(p, 3))
            elif any(cli.bare(narrow(q, e.facts)) is cli.bare(narrow(p, e.facts)) for q in free):
                rep.ok("free", where, show(p, 3))
            elif opaque(p) or any(contains(f, lambda x: x.op == "method" and x.args[1] in ("is_file", "isfile", "stat"))
                                  or contains(f, lambda x: x.op == "ext" and x.args[0] in ("os.path.isfile", "os.access"))
                                  for f in e.facts):
                rep.undecided("free", where, show(p, 3))
            else:
                rep.bad("free", where, f"file created at {show(p, 4)}; paths found free: {[show(q, 3) for q in free] or 'none'}")
            outs.append((p, where))
            for x in walk(p):
                if x.op == "last":
                    rep.check(bool(advances(x)), "counter", f"{fn} candidate names", show(x.args[2], 4))
                elif x.op == "gamma" and x.args[0].op == "cmp" and x.args[0].args[2].op == "count" \
                        and x.args[0].args[2].args[0].op == "while":
                    n_ = x.args[0].args[2]
                    rep.check(contains(x.args[1], lambda y: y is n_ or y.op == "mu"), "counter", f"{fn} candidate names",
                              f"after any number of turns: {show(x.args[1], 4)}")
        rv = cli.bare(en.freeze(r)) if isinstance(r, Term) else None
        if outs and rv is not None:
            for p, where in outs:
                if rv is p:
                    rep.ok("returned", f"{fn} {where}", "same path")
                elif opaque(rv) or opaque(p):
                    rep.undecided("returned", f"{fn} {where}", show(rv, 3))
                elif is_const(rv) and not isinstance(rv.args[0], str):
                    rep.ok("returned", f"{fn} {where}", f"no name returned ({show(rv)})")
                else:
                    rep.bad("returned", f"{fn} {where}", f"returned {show(rv, 4)}, written {show(p, 4)}")
    rep.extra["file_creations"] = n


def advances(last):
    """the value of the loop body depends on the number of the turn or on the previous value"""
    idx, body = last.args[0], last.args[2]
    return contains(body, lambda x: x is idx) or contains(body, lambda x: x.op == "mu")
