"""Timer follows its start, pause and stop protocol.

The class is executed abstractly on every history of operations up to a bound, with an opaque clock value for each reading,
and compared with the two-state protocol automaton (raised errors, state unchanged by a refused operation, elapsed time as an
exact sum of clock differences).  Every function of the package that creates a timer is then checked with a path-sensitive
typestate analysis: no start while running, no pause or stop while stopped, stopped on each normal exit."""
import ast
import itertools
import os

from sa.engine import Engine, Exc, REPO, PKG
from sa.cli import flat
from sa.imports import all_modules, locate, tree_of
from sa.terms import T, C, NONE, sub, add, show, walk, is_num

TECHNIQUE = "abstract execution of the class against a protocol automaton; path-sensitive typestate analysis of its users"
LEVEL_NOTE = "All histories of length 3 (quick) or 5 (thorough) over start, pause, stop and the with statement. Users are followed inside one function; a timer that escapes the function is left undecided."
RULES = {"refuse": "start while running, pause or stop while stopped raise TimerError and leave the timer as it was",
         "accept": "start while stopped, pause and stop while running succeed",
         "elapsed": "the elapsed time is the sum of the intervals between each start and its pause since the last stop",
         "report": "stop reports the elapsed time accumulated",
         "with": "the with statement starts on entry, stops on each exit and lets exceptions pass",
         "double": "a timer is not started while running",
         "idle": "a timer is not paused or stopped while stopped",
         "left": "a started timer is stopped on each normal path"}
ASSUMPTIONS = ["the clock of the time module is read once per call and is not None"]
API = "cfdtools.api"


def raised(en, exc):
    """name of the class of the exception"""
    last = None
    for e in exc.st.events:
        if e[0] == "raise":
            last = e
    if last is None:
        return "an exception"
    o = en.obj(last[2])
    if o is not None and o.cls is not None:
        return en.classes[o.cls].qual.split(".")[-1]
    return show(last[2], 3)[:60]


def clocks(t):
    return [x for x in walk(t) if x.op == "clock"]


def drive(en, cls, hist, kw):
    """runs a history; yields (op, expected, outcome, what) tuples"""
    t = en.call(cls, [], dict(kw))
    running, start, total = False, None, C(0)
    for i, op in enumerate(hist):
        before = en.rdcount
        meth, args = {"start": ("start", []), "pause": ("pause", []), "stop": ("stop", []), "stopn": ("stop", [T("sym", "n")]), "enter": ("__enter__", []),
                      "exit": ("__exit__", [NONE, NONE, NONE]),
                      "fail": ("__exit__", [T("ext", "builtins.ValueError"), T("sym", "exc"), T("sym", "tb")])}[op]
        en.logs = []
        nev = len(en.st.events)
        try:
            r = en.call(en.getattr(t, meth), args, {})
            exc = None
        except Exc as ex:
            r, exc = None, raised(en, ex)
            en.st = ex.st
        logs = [a for _, args in en.logs for a in args]
        legal = (op in ("start", "enter")) != running
        if exc is None and any(e[0] == "raise" for e in flat(en.st.events[nev:])):
            yield op, i, "accept" if legal else "refuse", None, "raises on a condition that is not decided"
            return
        if not legal:
            if exc is None:
                yield op, i, "refuse", False, "is accepted"
                return
            ok = exc == "TimerError"
            yield op, i, "refuse", ok, f"raises {exc}"
            if not ok:
                return
        else:
            if exc is not None:
                yield op, i, "accept", False, f"raises {exc}"
                return
            yield op, i, "accept", True, "succeeds"
            if op in ("start", "enter"):
                running, start = True, before
            else:
                total = add(total, T("interval", start, before))
                running = False
                if op != "pause":
                    # what stop reports, before it is reset
                    yield op, i, "report", (logs, total), ""
                    total = C(0)
            if op in ("exit", "fail") and r is not None and en.known(en.truth(r)) is True:
                yield op, i, "with", False, "__exit__ swallows exceptions"
            if op in ("exit", "fail"):
                yield op, i, "with", True, "__exit__ stops the timer and lets exceptions pass"
        if not running:
            yield op, i, "elapsed", (en.freeze(en.getattr(t, "elapsed")), total), ""


def intervals(total):
    """(start index, end index) of the intervals of a model sum"""
    return sorted((x.args[0], x.args[1]) for x in walk(total) if x.op == "interval")


def run(rep):
    en = Engine(REPO)
    cls = en.module_attr(API, "Timer")
    rep.function("cfdtools.api.Timer")
    w = "cfdtools/api.py (Timer)"
    ops = ["start", "pause", "stop"]
    depth = 5 if rep.thorough else 4
    hists = [h for k in range(1, depth + 1) for h in itertools.product(ops, repeat=k)]
    hists += [h for k in (1, 2, 3) for h in itertools.product(["start", "pause", "stopn", "enter", "exit", "fail"], repeat=k)
              if set(h) & {"stopn", "enter", "exit", "fail"}]
    kws = [{}, {"task": C("x" * 100), "nelem": T("sym", "nelem"), "msg": C("m")}]
    base = en.st
    seen = {}
    nh = 0
    for h in hists:
        for kw in (kws if len(h) < 3 else kws[:1]):
            en.st = base.clone()
            en.st.events = []
            nh += 1
            try:
                for op, i, rule, ok, what in drive(en, cls, h, kw):
                    if rule in ("elapsed", "report"):
                        ok, what = compare(rule, *ok)
                    pre = "/".join(h[:i + 1])
                    k = (rule, op, ok, what)
                    seen.setdefault(k, []).append(pre)
            except Exception as ex:
                seen.setdefault(("accept", h[-1], None, f"not followed: {type(ex).__name__} {ex}"[:120]), []).append("/".join(h))
    for (rule, op, ok, what), pres in seen.items():
        first = min(pres, key=len)
        if ok is True:
            rep.ok(rule, w, f"{op} {what} ({len(pres)} histories)")
        elif ok is None:
            rep.undecided(rule, w, f"{op} {what} after {first}")
        else:
            rep.bad(rule, w, f"history {first}: {op} {what}", key=f"{rule}:{op}:{what}")
    rep.extra["histories"] = nh
    users(rep)


def compare(rule, got, total):
    want = intervals(total)
    if rule == "elapsed":
        res = matches(got, want)
        return res, "gives the accumulated time" if res else f"gives an elapsed time that is not the {len(want)} interval(s) since the last stop"
    num = [t for t in got]
    hit = any(matches_in(t, want) for t in num)
    if not hit and any(matches(t, want) is None for t in num):
        return None, "reports a value that is not followed"
    some = any(clocks(t) for t in num)
    if hit:
        return True, "reports the accumulated time"
    return (False if some else None), "reports something else than the accumulated time" if some else "reports nothing recognised"


def matches(t, want):
    """True/False/None: t is the sum over `want` of (a clock read at the end) - (a clock read at the start)"""
    if not want:
        return is_num(t) and t.args[0] == 0 or t is NONE
    cs = {c.args[1]: c for c in clocks(t)}
    if not all(c.args[0] in ("time.perf_counter", "time.monotonic", "time.time") for c in cs.values()) or any(x.op in ("xres", "call", "method", "gamma", "lookup") for x in walk(t)):
        return None
    acc = t
    for a, b in want:
        s = next((cs[k] for k in sorted(cs) if k > a and k <= b), None)
        e = next((cs[k] for k in sorted(cs) if k > b), None)
        if s is None or e is None:
            return False
        acc = sub(acc, sub(e, s))
    return is_num(acc) and acc.args[0] == 0


def matches_in(t, want):
    if matches(t, want):
        return True
    return any(matches(x, want) for x in walk(t) if x.op == "poly" or x.op == "add")


# ----------------------------------------------------------------------------------------------------------------------
# users of timers

class Path:
    """abstract state of one path: timers {var: 'off'|'on'|'?'}, decisions [(text, bool, names)]"""
    __slots__ = ("t", "dec", "onat")

    def __init__(self, t=(), dec=(), onat=()):
        self.t, self.dec, self.onat = dict(t), tuple(dec), dict(onat)

    def copy(self):
        return Path(self.t, self.dec, self.onat)

    def key(self):
        return (tuple(sorted(self.t.items())), self.dec, tuple(sorted(self.onat.items())))


def names_in(n):
    return ({x.id for x in ast.walk(n) if isinstance(x, ast.Name)} | {ast.unparse(x) for x in ast.walk(n) if isinstance(x, ast.Attribute)}) - {"self"}


class Users:
    LIMIT = 3000

    def __init__(self, rep, rel, fname, fn, is_timer):
        self.rep, self.rel, self.fname, self.fn, self.is_timer = rep, rel, fname, fn, is_timer
        self.tracked, self.escaped = set(), set()
        self.bad = {}
        self.sites = 0
        self.maybe, self.closed = {}, set()
        self.deps = {}
        for n in self.own_nodes(fn):          # what the local names are computed from
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)) and n.value is not None:
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    for x in names_in(t):
                        self.deps.setdefault(x, set()).update(names_in(n.value))

    def closure(self, names):
        out, todo = set(), list(names)
        while todo:
            x = todo.pop()
            if x not in out:
                out.add(x)
                todo.extend(self.deps.get(x, ()))
        return frozenset(out)

    def where(self, n):
        return f"{self.rel}:{n.lineno} ({self.fname})"

    def run(self):
        own = list(self.own_nodes(self.fn))
        for n in own:
            if isinstance(n, ast.Assign) and self.is_timer(n.value):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.tracked.add(t.id)
                    else:
                        self.rep.undecided("left", self.where(n), "timer stored outside the function")
            if isinstance(n, ast.With):
                for it in n.items:
                    if self.is_timer(it.context_expr):
                        self.rep.ok("with", self.where(n), "timer managed by a with statement")
        # escapes
        for n in ast.walk(self.fn):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not self.fn:
                self.escaped |= self.tracked & names_in(n)
        parents = {c: p for p in ast.walk(self.fn) for c in ast.iter_child_nodes(p)}
        for n in own:
            if isinstance(n, ast.Name) and n.id in self.tracked and isinstance(n.ctx, ast.Load):
                p = parents.get(n)
                if isinstance(p, ast.Attribute) or isinstance(p, ast.withitem):
                    continue
                self.escaped.add(n.id)
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                self.escaped |= self.tracked & set(n.names)
        for v in sorted(self.escaped):
            self.rep.undecided("left", self.where(self.fn), f"timer {v} leaves the function")
        for n in own:      # a timer started and forgotten
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "start" and self.is_timer(n.func.value):
                self.report("left", n, "(temporary)", "is started and cannot be stopped")
        self.tracked -= self.escaped
        if not self.tracked:
            return
        ends = self.block(self.fn.body, [Path()])
        for kind in ("next", "return"):
            for p in ends.get(kind, []):
                self.at_end(p)
        for (v, line), (rule, n, what) in self.maybe.items():
            if (v, line) not in self.closed:    # no path from this start reaches a stop first
                self.report(rule, n, v, what)
        for v in sorted(self.tracked):
            if not any(x == v for _, x in self.bad):
                self.rep.ok("left", self.where(self.fn), f"timer {v}: protocol followed on the paths of the function")
        for (rule, v), (n, what) in self.bad.items():
            self.rep.bad(rule, self.where(n), f"timer {v} {what}", key=f"{rule}:{self.fname}:{v}")

    def own_nodes(self, fn):
        todo = list(ast.iter_child_nodes(fn))
        while todo:
            n = todo.pop()
            yield n
            if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
                todo.extend(ast.iter_child_nodes(n))

    def report(self, rule, n, v, what):
        self.bad.setdefault((rule, v), (n, what))

    def at_end(self, p):
        for v, s in p.t.items():
            if s == "on":
                self.leak(p, v, "left", p.onat[v][0], "started here is not stopped on a normal path")

    def leak(self, p, v, rule, node, what):
        if self.feasible(p, v):
            self.report(rule, node, v, what)
        else:
            self.maybe[v, p.onat[v][0].lineno] = (rule, node, what)

    def feasible(self, p, v):
        """decisions taken since the start do not depend on those taken before it"""
        node, ndec = p.onat[v]
        before = set().union(*[d[2] for d in p.dec[:ndec]]) if ndec else set()
        after = set().union(*[d[2] for d in p.dec[ndec:]]) if len(p.dec) > ndec else set()
        return not (before & after)

    def op(self, p, v, m, node):
        s = p.t.get(v)
        if s is None or s == "?":
            return
        if m == "start":
            if s == "on":
                self.leak(p, v, "double", node, "is started while running")
            p.t[v] = "on"
            p.onat[v] = (node, len(p.dec))
        elif m in ("pause", "stop"):
            if s == "off":
                self.report("idle", node, v, f"is given {m} while stopped")
            elif s == "on":
                self.closed.add((v, p.onat[v][0].lineno))
            p.t[v] = "off" if s == "on" else "?"
        elif m == "reset":
            p.t[v] = "off"

    def starts(self, nodes):
        """tracked timers that some of the statements may start"""
        return {c.func.value.id for s in nodes for c in ast.walk(s) if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute)
                and c.func.attr == "start" and isinstance(c.func.value, ast.Name) and c.func.value.id in self.tracked}

    def skip(self, paths, nodes):
        """the statements were skipped on a condition that may be tested again in another form"""
        vs = self.starts(nodes)
        for p in paths:
            for v in vs:
                if p.t.get(v) == "off":
                    p.t[v] = "off?"
        return paths

    def expr(self, e, paths):
        """timer operations inside an expression, in evaluation order"""
        if e is None:
            return
        calls = [n for n in ast.walk(e) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)
                 and isinstance(n.func.value, ast.Name) and n.func.value.id in self.tracked]
        for c in calls:
            self.sites += 1
            for p in paths:
                self.op(p, c.func.value.id, c.func.attr, c)

    def dedup(self, paths):
        out = {}
        for p in paths:
            out.setdefault(p.key(), p)
        r = list(out.values())
        if len(r) > self.LIMIT:
            out = {}
            for p in r:                      # forget decisions: join
                q = p.copy()
                q.dec = ()
                q.onat = {v: (n, 0) for v, (n, _) in q.onat.items()}
                out.setdefault(q.key(), q)
            r = list(out.values())[:self.LIMIT]
        return r

    def decide(self, paths, test, val):
        if test is None:
            return [p.copy() for p in paths]
        txt, nm = ast.unparse(test), self.closure(names_in(test)) | {"loop " + x for x in names_in(test)}
        if isinstance(test, ast.Constant):
            return [p.copy() for p in paths] if bool(test.value) == val else []
        out = []
        for p in paths:
            known = [d[1] for d in p.dec if d[0] == txt and d[3]]
            if known and known[-1] != val:
                continue
            q = p.copy()
            if not known:
                q.dec = q.dec + ((txt, val, nm, True),)
            out.append(q)
        return out

    def forget(self, paths, names):
        """decisions on names that are rebound no longer tell anything"""
        for p in paths:
            p.dec = tuple((t, v, n, live and not (n & names)) for t, v, n, live in p.dec)

    def block(self, body, paths):
        res = {"next": [], "return": [], "break": [], "continue": [], "any": []}
        for s in body:
            if not paths:
                break
            r = self.stmt(s, paths)
            for k in ("return", "break", "continue", "any"):
                res[k].extend(r.get(k, []))
            paths = self.dedup(r.get("next", []))
        res["next"] = paths
        return res

    def relevant(self, s):
        return any(isinstance(n, ast.Name) and n.id in self.tracked for n in ast.walk(s)) or \
            any(isinstance(n, (ast.Return, ast.Raise, ast.Break, ast.Continue)) for n in ast.walk(s))

    def assigned(self, s):
        out = set()
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                out.add(ast.unparse(n))
        return out

    def stmt(self, s, paths):
        snapshot = [p.copy() for p in paths]
        r = self.stmt1(s, paths)
        r.setdefault("any", []).extend(snapshot)
        return r

    def stmt1(self, s, paths):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return {"next": paths}
        if isinstance(s, ast.If):
            if not self.relevant(s):
                self.forget(paths, self.assigned(s))
                return {"next": paths}
            self.expr(s.test, paths)
            a = self.block(s.body, self.skip(self.decide(paths, s.test, True), s.orelse))
            b = self.block(s.orelse, self.skip(self.decide(paths, s.test, False), s.body))
            return {k: a.get(k, []) + b.get(k, []) for k in ("next", "return", "break", "continue", "any")}
        if isinstance(s, (ast.For, ast.While)):
            if not self.relevant(s):
                self.forget(paths, self.assigned(s))
                return {"next": paths}
            out = {"next": [], "return": [], "any": []}
            it = s.iter if isinstance(s, ast.For) else s.test
            self.expr(it, paths)
            cur = [p.copy() for p in paths]
            done = self.skip([p.copy() for p in paths], s.body) if not (isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value) else []
            for turn in range(2):
                self.forget(cur, self.assigned(s))
                for p in cur:
                    p.dec = p.dec + (("loop", True, frozenset("loop " + x for x in names_in(it)) if turn == 0 else frozenset(), False),)
                r = self.block(s.body, cur)
                out["return"] += r["return"]
                out["any"] += r["any"]
                out["next"] += [p.copy() for p in r["break"]]
                cur = self.dedup(r["next"] + r["continue"])
                if isinstance(s, ast.While) and not isinstance(s.test, ast.Constant):
                    for p in cur:
                        self.expr(s.test, [p])
                if not (isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value):
                    done += [p.copy() for p in cur]
            r = self.block(s.orelse, self.dedup(done))
            for k in ("return", "any"):
                out[k] += r[k]
            out["next"] += r["next"]
            out["break"], out["continue"] = r["break"], r["continue"]
            return out
        if isinstance(s, ast.With):
            managed = []
            for it in s.items:
                self.expr(it.context_expr, paths)
                if isinstance(it.context_expr, ast.Name) and it.context_expr.id in self.tracked:
                    managed.append(it.context_expr.id)
                    for p in paths:
                        self.op(p, it.context_expr.id, "start", s)
            r = self.block(s.body, paths)
            for v in managed:
                for k in ("next", "return", "break", "continue"):
                    for p in r[k]:
                        self.op(p, v, "stop", s)
            return r
        if isinstance(s, ast.Try):
            r = self.block(s.body, [p.copy() for p in paths])
            entered = self.dedup([p.copy() for p in r["any"]] + [p.copy() for p in r["next"]])
            e = self.block(s.orelse, r["next"])
            out = {k: r[k] + e[k] for k in ("return", "break", "continue", "any")}
            out["next"] = e["next"]
            for h in s.handlers:
                hp = self.skip([p.copy() for p in entered], s.body)
                for p in hp:
                    p.dec = p.dec + ((f"handler {h.lineno}", True, frozenset(), False),)
                x = self.block(h.body, hp)
                for k in ("next", "return", "break", "continue", "any"):
                    out[k] = out[k] + x[k]
            if s.finalbody:
                fin = {"any": out["any"]}
                for k in ("next", "return", "break", "continue"):
                    f = self.block(s.finalbody, self.dedup([p.copy() for p in out[k]])) if out[k] else None
                    fin.setdefault(k, [])
                    if f is None:
                        continue
                    fin[k] += f["next"]
                    for k2 in ("return", "break", "continue"):
                        fin.setdefault(k2, [])
                        fin[k2] += f[k2]
                return fin
            return out
        if isinstance(s, ast.Return):
            self.expr(s.value, paths)
            return {"return": paths}
        if isinstance(s, ast.Raise):
            return {"next": []}
        if isinstance(s, ast.Break):
            return {"break": paths}
        if isinstance(s, ast.Continue):
            return {"continue": paths}
        if isinstance(s, ast.Assign):
            self.expr(s.value, paths)
            self.forget(paths, self.assigned(s))
            for t in s.targets:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name) and x.id in self.tracked:
                        for p in paths:
                            if p.t.get(x.id) == "on":
                                self.leak(p, x.id, "left", p.onat[x.id][0], "started here is replaced before it is stopped")
                            p.t[x.id] = "off" if self.is_timer(s.value) and t is x else "?"
            return {"next": paths}
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and ast.unparse(s.value.func).split(".")[-1] in ("error_stop", "exit"):
            return {"next": []}
        for e in ast.iter_child_nodes(s):
            if isinstance(e, ast.expr):
                self.expr(e, paths)
        self.forget(paths, self.assigned(s))
        return {"next": paths}


def users(rep):
    nsites = 0
    for mod in all_modules():
        path, _ = locate(mod)
        if not path.endswith(".py"):
            continue
        tree, rel = tree_of(path), os.path.relpath(path, REPO)
        alias_mod, alias_cls = set(), set()
        for n in ast.walk(tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.name == API:
                        alias_mod.add(a.asname or a.name)
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    if n.module == API and a.name == "Timer":
                        alias_cls.add(a.asname or a.name)
                    if n.module == PKG and a.name == "api":
                        alias_mod.add(a.asname or a.name)
        if mod == API:
            alias_cls.add("Timer")

        def is_timer(e):
            return isinstance(e, ast.Call) and (isinstance(e.func, ast.Name) and e.func.id in alias_cls or
                                                isinstance(e.func, ast.Attribute) and e.func.attr == "Timer" and ast.unparse(e.func.value) in alias_mod)
        if not any(is_timer(n) for n in ast.walk(tree)):
            continue

        def go(node, pre):
            nonlocal nsites
            for c in ast.iter_child_nodes(node):
                if isinstance(c, ast.FunctionDef):
                    if any(is_timer(n) for n in ast.walk(c)):
                        u = Users(rep, rel, pre + c.name, c, is_timer)
                        u.run()
                        nsites += u.sites
                        rep.function(f"{rel} {pre}{c.name}")
                    go(c, pre + c.name + ".")
                elif isinstance(c, ast.ClassDef):
                    go(c, pre + c.name + ".")
                else:
                    go(c, pre)
        go(tree, "")
    rep.extra["timer_operations_followed"] = nsites
