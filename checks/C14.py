"""Every declared command-line option takes effect.

Every console command is interpreted abstractly on an arbitrary command line.  The options it declares are read from the
calls to add_argument that it makes; the uses of an option are the events (calls, file operations, mutations, decisions)
whose arguments or path conditions contain the parsed value.  An option that reaches nothing, a value read that no
option declares, data removed at another location than the option says, or a written file that does not depend on the
extrusion, scaling or output folder asked for, is a violation."""
from checks.C12 import sinks
from sa import cli
from sa.engine import Engine
from sa.terms import T, C, Term, NONE, TRUE, FALSE, is_const, walk, show, contains, cmp, not_
from sa.util import site, resolve

TECHNIQUE = "abstract interpretation of every console command; def-use of the parsed options up to calls, decisions and written data"
LEVEL_NOTE = "All paths of all declared commands. Uses inside registered readers/writers chosen at run time are seen up to the call. What an option does numerically is not judged."
RULES = {"declared": "a parsed value that is read is declared by the command",
         "used": "a declared option reaches a call, a decision or the written data",
         "removal": "--remove-<location>-data removes from the data of this location, before writing",
         "written": "the written file depends on extrusion, scaling and output folder",
         "order": "scaling is applied to the mesh that is written (after extrusion)",
         "format": "a format that is given decides the reader or writer",
         "sizes": "cube sizes reach the generator, each in its direction",
         "choices": "each admitted value of an option is in the table it selects from",
         "check": "the integrity flag reaches the reader"}
ASSUMPTIONS = ["argparse behaves as documented", "options of the shared group that concern nothing a command does are exempt (EXEMPT)"]

# options of the shared group 'file name and format' in commands that neither write a file nor check one
EXEMPT = {("cfdinfo", "info"), ("cfdinfo", "outpath"), ("cfdwritecube", "info"), ("cfdwritecube", "check"),
          ("ic3brief", "info"), ("ic3brief", "outpath"), ("ic3brief", "check"),
          ("ic3probe_plotline", "check"), ("vtkbrief", "info"), ("vtkbrief", "outpath"), ("vtkbrief", "check")}
REPORTING = {"", "log"}        # separator; log level is read by the package from the command line itself


def parsed(en):
    """(namespace term, {dest: (option strings, kwargs, event)})"""
    ns, decl = None, {}
    for e in cli.flat(en.st.events):
        if e[0] != "xcall" or not isinstance(e[2], Term) or e[2].op != "method":
            continue
        if e[2].args[1] in ("parse_args", "parse_known_args"):
            ns = e[5]
        elif e[2].args[1] == "add_argument":
            kw = dict(e[4])
            names = [a.args[0] for a in e[3] if is_const(a)]
            if "dest" in kw and is_const(kw["dest"]):
                d = kw["dest"].args[0]
            else:
                long_ = [n for n in names if n.startswith("--")] or names
                d = long_[0].lstrip("-").replace("-", "_") if long_ else None
            if d is not None:
                decl[d] = (names, kw, e)
    return ns, decl


class Uses:
    """options occurring in terms (memoised)"""
    def __init__(self, ns, en=None):
        self.ns, self.memo, self.en = ns, {}, en

    def of(self, t):
        if isinstance(t, tuple):
            r = frozenset()
            for x in t:
                r |= self.of(x)
            return r
        if not isinstance(t, Term):
            return frozenset()
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = frozenset()
        n = option_of(t, self.ns)
        r = frozenset([n]) if n is not None else frozenset()
        if n is None:
            for x in t.args:
                r |= self.of(x)
            if self.en is not None and t in self.en.loopnext:
                r |= self.of(tuple(x for x in self.en.loopnext[t] if isinstance(x, Term)))
        self.memo[t] = r
        return r


def option_of(t, ns):
    if t.op == "attr" and t.args[0] is ns:
        return t.args[1]
    if t.op == "item" and is_const(t.args[1]) and isinstance(t.args[0], Term) and t.args[0].op == "varsof" and t.args[0].args[0] is ns:
        return t.args[1].args[0]
    return None


EFFECT = ("xcall", "open", "write", "mutate", "delitem", "raise", "assert", "setitem", "dispatch", "enterfn", "unpack", "read")


def used_options(en, u):
    out = {}
    for i, e in enumerate(cli.flat(en.st.events)):
        if e[0] == "if":
            for o in u.of(e[2]):
                out.setdefault(o, []).append((i, e))
        elif e[0] == "loop":
            for o in u.of(e[3]):
                out.setdefault(o, []).append((i, e))
        elif e[0] in EFFECT:
            if e[0] == "xcall" and isinstance(e[2], Term) and e[2].op == "method" and e[2].args[0] is u.ns:
                continue
            for o in u.of(tuple(e[2:])) | u.of(tuple(e.facts)):
                out.setdefault(o, []).append((i, e))
    return out


def run(rep):
    done = set()
    for name, (mod, fn) in sorted(cli.scripts().items()):
        if (mod, fn) in done:
            continue
        done.add((mod, fn))
        en, r = cli.trace(mod, fn)
        rep.function(*en.analysed)
        ns, decl = parsed(en)
        if ns is None:
            rep.undecided("used", fn, "no parsed arguments found")
            continue
        u = Uses(ns, en)
        used = used_options(en, u)
        evs = list(cli.flat(en.st.events))
        for o in sorted(used):
            i, e = used[o][0]
            rep.check(o in decl, "declared", f"{fn} option {o!r}", f"read at {site(e[1])}; declared: {', '.join(sorted(decl))}")
        for o in sorted(decl):
            if o in REPORTING or (fn, o) in EXEMPT:
                continue
            rep.check(o in used, "used", f"{fn} option {o!r}",
                      f"{len(used.get(o, ()))} uses" if o in used else f"declared at {site(decl[o][2][1])}, reaches nothing")
        removals(rep, fn, en, u, evs, decl)
        outputs(rep, fn, en, u, evs, decl)
        order(rep, fn, evs, u, decl)
        fmt(rep, fn, mod, ns, decl)
        plots(rep, fn, evs, u, decl)
        reader_flag(rep, fn, evs, u, decl)
    sizes(rep)


LOCS = ("node", "face", "cell")


def removals(rep, fn, en, u, evs, decl):
    first_out = next((i for i, e in enumerate(evs) if e[0] == "open" and is_const(e[4]) and "w" in str(e[4].args[0])
                      or e[0] == "xcall" and isinstance(e[2], Term) and e[2].op == "method" and e[2].args[1] in ("save", "write_data")), None)
    for loc in LOCS:
        opt = f"remove_{loc}_data"
        if opt not in decl:
            continue
        hit = []
        for i, e in enumerate(evs):
            if e[0] not in ("mutate", "delitem", "xcall"):
                continue
            if e[0] == "xcall":
                if not (isinstance(e[2], Term) and e[2].op == "method" and "pop" in e[2].args[1]):
                    continue
                where, key = e[2].args[1], e[3]
            elif e[0] == "mutate":
                if e[3] not in ("pop", "__delitem__"):
                    continue
                where, key = en.freeze(e[2]), e[4]
                where = where.args[1] if isinstance(where, Term) and where.op == "attr" else None
            else:
                where, key = en.freeze(e[2]), e[3]
                where = where.args[1] if isinstance(where, Term) and where.op == "attr" else None
            if opt in u.of(key):
                hit.append((i, e, where))
        if not hit:
            if any(opt in u.of(tuple(e[2:])) for e in evs if e[0] in ("xcall", "enterfn", "mutate", "delitem", "setitem", "loop")):
                rep.undecided("removal", f"{fn} --remove-{loc}-data", "no removal recognised")
            else:
                rep.bad("removal", f"{fn} --remove-{loc}-data", "the names given reach no removal")
            continue
        for i, e, where in hit:
            w = f"{fn} --remove-{loc}-data [{site(e[1])}]"
            if where is None or not any(l + "data" in where for l in LOCS):
                rep.undecided("removal", w, f"removed from {where}")
            else:
                rep.check(loc + "data" in where, "removal", w, f"removed from {where}")
            if first_out is not None:
                rep.check(i < first_out, "removal", w + " order", "before writing" if i < first_out else "after the file was written")


def sink_terms(en, evs):
    """(sink event, path, terms that end up in the file)"""
    for e, path, how in sinks(en):
        if e[0] == "open":
            data = [x[3] for x in evs if x[0] == "write" and x[2] is e[2]]
        else:
            data = [e[2].args[0]] + list(e[3][1:])
        yield e, path, data


def outputs(rep, fn, en, u, evs, decl):
    allsinks = list(sink_terms(en, evs))
    for e, path, data in allsinks:
        if "outpath" in decl:
            rep.check("outpath" in u.of(path), "written", f"{fn} -> {site(e[1])} --outpath", f"path {show(path, 4)}")
    if not allsinks:
        return
    c = T("truth", T("attr", u.ns, "extrude"))
    for o in ("extrude", "scale"):
        if o not in decl:
            continue
        # events that carry the value itself: calls on the mesh, mutations, written data
        carry = [e for e in evs if e[0] in ("xcall", "write", "setitem", "setattr", "inplace", "mutate", "listadd")
                 and not (e[0] == "xcall" and isinstance(e[2], Term) and e[2].op == "method" and e[2].args[0] is u.ns)
                 and o in u.of(tuple(e[2:]))]
        rep.check(bool(carry), "written", f"{fn} --{o}", f"{len(carry)} events carry the value")
        if o == "scale" and "extrude" in decl and carry:
            for v, w in ((False, "without"), (True, "with")):
                rep.check(any(not_(c if v else not_(c)) not in e.facts and o in u.of(resolve(tuple(e[2:]), {c: v})) for e in carry),
                          "written", f"{fn} --scale {w} --extrude", "value used on this path")
        if o == "extrude" and carry:
            data = [d for _, _, ds in allsinks for d in ds]
            if data:
                rep.check(o in u.of(tuple(data)), "written", f"{fn} --extrude in the file",
                          "written data depends on it" if o in u.of(tuple(data)) else "what is written does not depend on the value")


def order(rep, fn, evs, u, decl):
    if not ("scale" in decl and "extrude" in decl):
        return
    sc = [i for i, e in enumerate(evs) if e[0] == "enterfn" and e[2].rpartition(".")[2] == "scale"
          or e[0] == "xcall" and isinstance(e[2], Term) and e[2].op == "method" and e[2].args[1] == "scale" and "scale" in u.of(e[3])]
    ex = [i for i, e in enumerate(evs) if e[0] == "enterfn" and e[2].endswith("Mesh.export_extruded")]
    if not sc or not ex:
        rep.undecided("order", fn, "no call to Mesh.scale or Mesh.export_extruded seen")
        return
    rep.check(max(sc) > max(ex), "order", fn, "scaling follows extrusion" if max(sc) > max(ex) else
              "the mesh is scaled before it is extruded: the extruded direction is not scaled")


def trace_with(mod, fn, facts, intercept=None):
    en = Engine()
    en.intercept.update(intercept or {})
    en.intercept["cfdtools.probes.data.phydata"] = lambda e, a, k: T("sym", "probes")
    f = en.module_attr(mod, fn)
    en.st.facts = en.st.facts + tuple(facts)
    try:
        en.call(f, [T("sym", "argv")], {})
    except Exception as ex:
        if type(ex).__name__ != "Exc":
            raise
    return en


def fmt(rep, fn, mod, ns, decl):
    if "fmt" not in decl:
        return
    f = T("attr", ns, "fmt")
    en = trace_with(mod, fn, [cmp("is not", f, NONE)])
    keys = {}
    for e in cli.flat(en.st.events):
        if e[0] != "xcall" or not isinstance(e[2], Term):
            continue
        for x in walk(e[2]):
            if x.op == "item" and is_const(x.args[1]) and x.args[1].args[0] in ("reader", "writer") and x.args[0].op in ("item", "lookup"):
                if contains(x.args[0].args[0], lambda y: is_const(y) and y.args[0] == ".ic3"):
                    keys[en.freeze(x.args[0].args[1])] = e
    for k, e in keys.items():
        k = en.freeze(k)
        alts = alternatives(en, k)
        if all(x is f for x in alts):
            rep.ok("format", f"{fn} [{site(e[1])}]", "chosen by --fmt")
            continue
        other = [x for x in alts if not contains(x, lambda y: y is f)]
        told = any(x.op in ("g", "gamma") and contains(x.args[0], lambda y: y is f) for x in walk(k))  # which branch may follow from the option
        if other and not told and (len(alts) == 1 or all(x is f or x in other for x in alts)):
            rep.bad("format", f"{fn} [{site(e[1])}]", f"--fmt given, but the format is chosen by {show(other[0], 4)}")
        else:
            rep.undecided("format", f"{fn} [{site(e[1])}]", show(k, 4))


def alternatives(en, k):
    """the values a key can have: branches taken apart, the element of a literal list in place of the list"""
    k = en.freeze(k)
    if k.op in ("g", "gamma"):
        return [x for y in k.args[1:] for x in alternatives(en, y)]
    if k.op == "item" and isinstance(k.args[0], Term):
        b = en.freeze(k.args[0])
        seqs = [b]
        if b.op == "seq" and len(b.args) == 1 and b.args[0].op in ("g", "gamma"):
            seqs = [T("seq", *x.args) if x.op == "chunks" else x for x in branches(b.args[0])]
        elif b.op in ("g", "gamma"):
            seqs = branches(b)
        if all(x.op == "seq" for x in seqs):
            if all(len(x.args) == 1 and x.args[0].op == "e" for x in seqs) and k.args[1] in (C(0), C(-1)):
                return [y for x in seqs for y in alternatives(en, x.args[0].args[0])]
            one = [x.args[0].args[0] if len(x.args) == 1 and x.args[0].op == "e" else T("item", x, k.args[1]) for x in seqs]
            return [y for x in one for y in (alternatives(en, x) if x.op != "item" else [x])]
    return [k]


def branches(t):
    return [x for y in t.args[1:] for x in branches(y)] if t.op in ("g", "gamma") else [t]


def plots(rep, fn, evs, u, decl):
    for e in evs:
        if e[0] != "dispatch":
            continue
        ents, key = e[2].args[0], e[2].args[1]
        o = option_of(key, u.ns)
        if o is None or o not in decl:
            continue
        names = [k.args[0] if isinstance(k, Term) else k for k, _ in ents]
        ch = decl[o][1].get("choices")
        if ch is not None:
            chs = choices(ch)
            if chs is None:
                rep.undecided("choices", f"{fn} --{o}", show(ch, 3))
            else:
                rep.check(set(chs) <= set(names), "choices", f"{fn} --{o} [{site(e[1])}]", f"admitted {chs}, table {names}")
        # under each choice, the options that describe the picture are used
        for k in names:
            yes = cmp("==", key, C(k))
            others = [cmp("!=", key, C(n)) for n in names if n != k]
            sub_ = [x for x in evs if x[0] == "xcall" and (yes in x.facts or all(c in x.facts for c in others))]
            if not sub_:
                continue
            for opt in ("axis", "datalist", "cmap", "nlevels", "prefix"):
                if opt in decl:
                    rep.check(any(opt in u.of(tuple(x[2:])) for x in sub_), "used", f"{fn} --{o} {k} option {opt!r}",
                              "reaches the calls made for this choice")
            for x in sub_:
                if isinstance(x[2], str) and x[2].rpartition(".")[2] in DRAW or isinstance(x[2], Term) and x[2].op == "ext" \
                        and x[2].args[0].rpartition(".")[2] in DRAW:
                    for opt in ("axis", "datalist", "cmap", "nlevels"):
                        if opt in decl:
                            rep.check(opt in u.of(tuple(x[2:])), "used", f"{fn} --{o} {k} map [{site(x[1])}] option {opt!r}", "reaches the map drawn")


DRAW = ("contourf", "contour", "pcolormesh", "pcolor", "imshow")


def choices(t):
    if t.op == "seq" and all(c.op == "e" and is_const(c.args[0]) for c in t.args):
        return [c.args[0].args[0] for c in t.args]
    if t.op == "tuple" and all(is_const(c) for c in t.args):
        return [c.args[0] for c in t.args]
    return None


def reader_flag(rep, fn, evs, u, decl):
    if "check" not in decl or (fn, "check") in EXEMPT:
        return
    for e in evs:
        if e[0] != "xcall" or not isinstance(e[2], Term):
            continue
        t = e[2]
        if t.op == "item" and is_const(t.args[1]) and t.args[1].args[0] == "reader" or t.op == "lookup" and "reader" in show(t, 3):
            kw = dict(e[4])
            rep.check("check" in u.of(e[4]) | u.of(e[3]), "check", f"{fn} reader [{site(e[1])}]", f"called with {', '.join(kw) or 'no option'}")


def sizes(rep):
    """cube command: each size reaches the parameter of its direction"""
    got = {}

    def cube(en, args, kw):
        cls = en.find_class("cfdtools.meshbase.simple", "Cube")
        init = en.class_lookup(cls, "__init__")
        names = [a.arg for a in en.funcs[init.args[0]].node.args.args][1:]
        for n, a in list(zip(names, args)) + list(kw.items()):
            got[n] = en.freeze(a)
        return T("sym", "cube")
    sc = cli.scripts()
    if "cfdwritecube" not in sc:
        return
    mod, fn = sc["cfdwritecube"]
    en = trace_with(mod, fn, [], {"cfdtools.meshbase.simple.Cube": cube})
    ns, decl = parsed(en)
    for d in ("nx", "ny", "nz"):
        if d not in decl:
            continue
        if d not in got:
            rep.undecided("sizes", f"{fn} --{d}", f"generator called with {', '.join(got) or 'unknown'}")
            continue
        o = {option_of(x, ns) for x in walk(got[d])} - {None}
        rep.check(d in o, "sizes", f"{fn} --{d}", f"generator parameter {d} gets {show(got[d], 3)}")
        kw = decl[d][1]
        t = kw.get("type")
        rep.check(t is not None and t.op == "ext" and t.args[0].endswith("int") or (None if t is not None and t.op != "ext" else False),
                  "sizes", f"{fn} --{d} type", f"parsed as {show(t, 2) if t is not None else 'str'}")
