"""helpers shared by the checks: source sites, case splits, polynomial comparison"""
import ast
import os

from .terms import (T, C, Term, NONE, TRUE, FALSE, add, sub, mul, is_const, is_num, is_int, gamma, lookup, poly_of, subst,
                    walk, show, contains, cmp, not_)

_funcs = {}


def enclosing(path, line):
    """qualified name of the function of file `path` containing `line`"""
    if path not in _funcs:
        out = []
        try:
            with open(path) as fh:
                tree = ast.parse(fh.read())
        except OSError:
            tree = ast.parse("")

        def go(n, pre):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                    q = pre + c.name
                    if not isinstance(c, ast.ClassDef):
                        out.append((c.lineno, c.end_lineno, q))
                    go(c, q + ".")
                else:
                    go(c, pre)
        go(tree, "")
        _funcs[path] = out
    best = ""
    for a, b, q in _funcs[path]:
        if a <= line <= b:
            best = q
    return best


def site(s, repo="/repo"):
    f, l = s
    rel = os.path.relpath(f, repo) if f.startswith(repo) else f
    q = enclosing(f, l)
    return f"{rel}:{l}" + (f" ({q})" if q else "")


def conds_in(t):
    """conditions of the gamma nodes and (entries, key) of the lookups in t"""
    g, lk = [], []
    for x in walk(t):
        if x.op == "gamma":
            g.append(x.args[0])
        elif x.op == "lookup":
            lk.append(x)
    return g, lk


def resolve(t, assign):
    """t with every gamma on a condition of `assign` (cond -> bool) and every lookup key assigned resolved"""
    m = {}
    for x in walk(t):
        if x.op == "gamma" and x.args[0] in assign:
            m[x] = None
    memo = {}

    def go(x):
        if not isinstance(x, Term):
            return tuple(go(y) for y in x) if isinstance(x, tuple) else x
        if x in memo:
            return memo[x]
        if x in assign and isinstance(assign[x], Term):
            r = assign[x]
        elif x.op == "gamma":
            c = x.args[0]
            v = assign.get(c)
            if v is None and not_(c) in assign:
                v = not assign[not_(c)]
            if v is True or v is False:
                r = go(x.args[1] if v else x.args[2])
            else:
                r = gamma(go(c), go(x.args[1]), go(x.args[2]))
        elif x.op == "poly":
            r = C(0)
            for mon, co in x.args:
                p = C(co)
                for a in mon:
                    p = mul(p, go(a))
                r = add(r, p)
        elif x.op in ("const", "sym", "ext", "func", "class", "module", "nan", "ref"):
            r = x
        else:
            args = tuple(go(a) for a in x.args)
            from .terms import rebuild
            r = x if all(a is b for a, b in zip(args, x.args)) else rebuild(x.op, args)
        memo[x] = r
        return r
    return go(t)


def cases(terms, limit=64):
    """assignments (dict) over gamma conditions and lookup keys occurring at value positions of terms.

    Every returned assignment resolves all gamma/lookup nodes of the terms (up to `limit` cases)."""
    todo = [({}, tuple(terms))]
    done = []
    while todo:
        asg, ts = todo.pop()
        pick = None
        for t in ts:
            pick = outer_choice(t)
            if pick is not None:
                break
        if pick is None or len(done) + len(todo) >= limit:
            done.append((asg, ts))
            continue
        kind, what = pick
        if kind == "g":
            for v in (True, False):
                a2 = dict(asg)
                a2[what] = v
                todo.append((a2, tuple(resolve(t, {what: v}) for t in ts)))
        else:
            entries, key = what
            # a lookup without default raises on other keys: every lookup of this key restricts it
            ks = None
            for t in ts:
                for x in walk(t):
                    if x.op == "lookup" and x.args[1] is key and x.args[2] is None:
                        s = [k for k, _ in x.args[0]]
                        ks = s if ks is None else [k for k in ks if k in s]
            for k in (ks if ks is not None else [k for k, _ in entries]):
                a2 = dict(asg)
                a2[key] = k
                todo.append((a2, tuple(resolve(t, {key: k}) for t in ts)))
    return done


def outer_choice(t):
    """outermost gamma condition / lookup key that influences the polynomial t"""
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop(0)
        if not isinstance(x, Term) or x in seen:
            continue
        seen.add(x)
        if x.op == "gamma":
            return "g", x.args[0]
        if x.op == "lookup":
            return "l", (x.args[0], x.args[1])
        if x.op == "poly":
            for m, _ in x.args:
                stack.extend(m)
        elif x.op in ("strcat", "repeat", "tuple", "str", "charsize"):
            stack.extend(x.args)
    return None


def atoms(t):
    return {a for m in poly_of(t) for a in m}


def primitive(a):
    """an input quantity that the analysis knows to vary independently of the other inputs"""
    if a.op == "sym":
        return True
    if a.op == "attr":
        b = a.args[0]
        while b.op == "attr":
            b = b.args[0]
        return b.op == "sym" and a.args[1] not in ("size", "shape", "nbytes", "itemsize")
    if a.op == "item" and is_const(a.args[1]):
        return a.args[0].op in ("unpack",)
    return False


def differ(a, b, indep=primitive, context=()):
    """True: the polynomials are equal in every case; False: definitely different in some case (with the
    case); None: they may differ but over quantities whose relation is not known"""
    res = True
    why = None
    for asg, ts in cases((a, b) + tuple(c for c in context if c is not None)):
        x, y = ts[0], ts[1]
        d = sub(x, y)
        if is_num(d) and d.args[0] == 0:
            continue
        ax, ay = atoms(x), atoms(y)
        if all((at in ax and at in ay) or indep(at) for at in atoms(d)) and all(indep(t) or t in (ax & ay) for t in ax ^ ay):
            return False, (asg, x, y)
        res = None
        why = (asg, x, y)
    return res, why


def show_case(asg):
    return ", ".join(f"{show(k, 3)}={show(v, 2) if isinstance(v, Term) else v}" for k, v in asg.items())
