"""Node coordinates keep their axis and their node.

Coordinates of symbolic content are given to a mesh by each setter, transformed, and asked for by each accessor; the terms that come
back are evaluated on small tables, so that an axis or a node taken for another one shows. The
same is done for the arrays read from CGNS and VTK and for the points given to VTK and HDF5 files."""
from sa import registry, surface
from sa.engine import Exc
from sa.terms import T, C, NONE, Term, show, walk
from sa.witness import Unknown as NoValue
from checks.C29 import Groups, flatten

TECHNIQUE = ("abstract execution of setters, accessors, transformations and converters on symbolic coordinates; the resulting terms are "
             "evaluated on tables of different values")
LEVEL_NOTE = ("Any coordinates for which the code takes the path of the table (no branch depends on them); the comparison uses four tables "
              "of three nodes. IC3 and GMSH layouts of coordinates are decided by C02, C06 and C28.")
RULES = {"given": "coordinates given by a setter come back from every accessor, axis by axis and node by node",
         "scaled": "each axis is multiplied by its own factor",
         "morphed": "the function is given x, y, z and its results become x, y, z",
         "array": "coordinates are kept as arrays, so that a factor multiplies them",
         "read": "coordinates read from a file are those of the axis of that name",
         "written": "points given to a file are the coordinates of the nodes in x, y, z order"}
ASSUMPTIONS = ["numpy functions return what their documentation says", "the function given to morph works value by value"]
MESH = "cfdtools.meshbase._mesh"
X, Y, Z, ND, F, S = (T("sym", n) for n in ("xcoord", "ycoord", "zcoord", "coordinates", "function", "factors"))
TABLES = [[[3, 5, 8], [20, 70, 40], [900, 600, 100]], [[8, -5, 3], [-70, 20, -40], [100, 600, 900]], [[0, 0, 1], [0, 2, 0], [0, 0, 0]], [[-1, -2, -3]] * 3]
FACTORS = [[2, 7, 11], [1, 1, 3], [0, -1, 2], [1, 5, 1]]


def turned(rows):
    return [list(r) for r in zip(*rows)]


def contents(k):
    x, y, z = TABLES[k]
    return {X: x, Y: y, Z: z, ND: turned(TABLES[k]), S: FACTORS[k]}


def moved(x, y, z):
    return [a + 10000 * b for a, b in zip(x, y)], [b - c for b, c in zip(y, z)], [c * c + a for a, c in zip(x, z)]


class Coordinates(Groups):
    def op_call(self, f, args, kw):
        if f is F and not kw:
            vals = [v for a in args for v in (self.items(self.ev(a.args[0])) if a.op == "star" else [self.ev(a)])]
            if len(vals) != 3:
                raise NoValue("arguments of the function")
            return tuple(moved(*(self.items(v) for v in vals)))
        name = f.args[1] if f.op in ("method", "attr") else f.args[0].split(".")[-1] if f.op == "ext" else ""
        kw = dict(kw) if kw else {}
        if name in ("stack", "concatenate") and len(args) == 1 and set(kw) <= {"axis"}:
            v, axis = self.items(self.ev(args[0])), self.ev(kw["axis"]) if kw else 0
            deep = len(shape_of(v[0]))
            if name == "stack" and deep == 1 and axis in (0, 1, -1):
                return [list(r) for r in (zip(*v) if axis else v)]
            if name == "concatenate" and deep == 2 and axis in (1, -1):
                return [[y for p in r for y in p] for r in zip(*v)]
        if name in ("array", "asarray", "ascontiguousarray", "float64") and len(args) >= 1:
            return self.items(self.ev(args[0]))
        if name in ("copy",):
            return self.ev(f.args[0]) if f.op in ("method", "attr") else self.ev(args[0])
        if name in ("multiply", "prod") and len(args) == 2:
            return self.times(self.ev(args[0]), self.ev(args[1]))
        return super().op_call(f, args, tuple(kw.items()))

    def times(self, a, b):
        """product of arrays, the shorter one along the last axis"""
        da, db = (len(shape_of(v)) for v in (a, b))
        if da < db:
            a, b, da, db = b, a, db, da
        if db == 0:
            return [self.times(x, b) for x in a] if da else a * b
        if da > db:
            return [self.times(x, b) for x in a]
        if len(a) != len(b):
            raise NoValue("shapes")
        return [self.times(x, y) for x, y in zip(a, b)]

    def op_poly(self, *monos):
        vals = [([self.ev(x) for x in m], c) for m, c in monos]
        if len(vals) == 1:
            m, c = vals[0]
            for x in m:
                c = self.times(x if not isinstance(x, (tuple, range)) else list(x), c)
            return c
        return super().op_poly(*monos)


def shape_of(v):
    return (len(v),) + shape_of(v[0]) if isinstance(v, (list, tuple)) and v else (0,) if isinstance(v, (list, tuple)) else ()


def plain(v):
    return [plain(x) for x in v] if isinstance(v, (list, tuple)) else v


def judge(rep, rule, where, name, en, term, want, more=None):
    """want: what is expected, as a function of the coordinates and factors"""
    t = en.freeze(term)
    for k in range(len(TABLES)):
        con = contents(k)
        if more:
            con.update(more(TABLES[k]))
        expected = plain(want(TABLES[k], FACTORS[k]))
        try:
            got = plain(Coordinates(en, con).value(t))
        except (NoValue, Exc, KeyError, TypeError, AttributeError, ValueError) as e:
            rep.undecided(rule, where, f"{name}: {type(e).__name__} {str(e)[:100]}")
            return
        if got != expected:
            rep.bad(rule, where, f"{name}: {got}, {expected} expected", key=name)
            return
    rep.ok(rule, where, f"{name}: as given")


def attempt(rep, rule, where, name, f):
    try:
        return f()
    except Exc:
        rep.bad(rule, where, f"{name}: ends in an exception", key=name + ":raises")
    return None


SETTERS = {"set_nodescoord_nd": [ND], "set_nodescoord_xyz": [X, Y, Z]}
ACCESS = {"tuple": ({}, lambda rows: rows), "array": ({"ndarray": C(True)}, turned)}


def mesh(setter):
    en = surface.fresh()
    m = en.call(en.module_attr(MESH, "Mesh"), [], {"nnode": C(3)})
    en.call(en.getattr(m, setter), SETTERS[setter], {})
    return en, m


def run(rep):
    for s in SETTERS:
        where = f"{MESH}.Mesh.{s}"
        rep.function(where)
        for a, (kw, form) in ACCESS.items():
            t = attempt(rep, "given", where, a, lambda: ask(s, kw))
            if t:
                judge(rep, "given", where, a, *t, lambda rows, _, form=form: form(rows))
    transforms(rep)
    arrays(rep)
    cgns(rep)
    vtk(rep)
    hdf5(rep)


def ask(s, kw, change=None):
    en, m = mesh(s)
    for name, args in change or ():
        en.call(en.getattr(m, name), args, {})
    return en, en.call(en.getattr(m, "nodescoord"), [], kw)


def transforms(rep):
    def by(rows, fs):
        return [[v * f for v in r] for r, f in zip(rows, fs)]

    def move(rows, fs=None):
        return moved(*rows)
    for rule, name, changes in (("scaled", "scale", [("scale", [S], by)]), ("scaled", "scale", [("scale", [S], by), ("scale", [S], by)]),
                                ("morphed", "morph", [("morph", [F], move)]), ("morphed", "morph", [("scale", [S], by), ("morph", [F], move)]),
                                ("morphed", "morph", [("morph", [F], move), ("morph", [F], move)])):
        where = f"{MESH}.Mesh.{name}"
        rep.function(where)

        def want(rows, fs):
            for c in changes:
                rows = c[2](rows, fs)
            return rows
        for s in SETTERS:
            for a, (kw, form) in ACCESS.items():
                n = f"{s}, {', '.join(c[0] for c in changes)}, {a}"
                t = attempt(rep, rule, where, n, lambda: ask(s, kw, [c[:2] for c in changes]))
                if t:
                    judge(rep, rule, where, n, *t, lambda rows, fs: form(want(rows, fs)))


def listed(t):
    """a Python list for sure, which a factor would repeat"""
    if t.op in ("seq", "list"):
        return True
    if t.op == "gamma":
        return listed(t.args[1]) or listed(t.args[2])
    return False


def arrays(rep):
    for fmt in ("CGNS", "GMSH", "IC3", "IC3V4"):
        r = registry.run_reader(fmt)
        where = fmt + " reader"
        if r.failed or getattr(r, "mesh", None) is None:
            rep.undecided("array", where, "the mesh read is not followed")
            continue
        try:
            t = r.en.freeze(r.en.call(r.en.getattr(r.mesh, "nodescoord"), [], {}))
        except Exc:
            rep.bad("array", where, "a mesh just read has no coordinates", key=fmt)
            continue
        if t.op != "tuple" or len(t.args) != 3:
            rep.undecided("array", where, "coordinates are not three values")
            continue
        for q, v in zip("xyz", t.args):
            rep.check(not listed(v), "array", where, f"{q} of a mesh just read is {'a list' if listed(v) else 'an array'}", key=f"{fmt}:{q}")


def cgns(rep):
    r = registry.run_reader("CGNS")
    where = "cfdtools.cgns.cgns.cgnszone.coords"
    if r.failed or getattr(r, "mesh", None) is None:
        rep.undecided("read", where, "the mesh read is not followed")
        return
    rep.function(where)
    en = r.en
    try:
        t = en.freeze(en.call(en.getattr(r.mesh, "nodescoord"), [], {}))
    except Exc:
        rep.bad("read", where, "a mesh just read has no coordinates", key="cgns")
        return

    def more(rows):
        out = {}
        for x in walk(t):
            if x.op == "item" and x.args[1].op == "const" and isinstance(x.args[1].args[0], str):
                for n, v in zip("XYZ", rows):
                    if x.args[1].args[0].strip("/").startswith("Coordinate" + n):
                        out[x] = v if x.args[1].args[0].endswith("data") else {" data": v}
        return out
    judge(rep, "read", where, "coordinates of a zone", en, t, lambda rows, _: rows, more)


def vtk(rep):
    where = "cfdtools.vtk._vtk.vtkMesh"
    cls = "cfdtools.vtk._vtk"

    def back():
        en = surface.fresh()
        g = T("sym", "grid")
        en.assume(T("truth", g))
        grid = en.instance_of(g, en.classes[en.module_attr(cls, "vtkMesh").args[0]])
        for a, v in (("points", ND), ("cells_dict", en.ref("dict", {"entries": ()})), ("n_cells", C(0)), ("n_points", C(3))):
            en.setattr(grid, a, v)
        v = en.call(en.module_attr(cls, "vtkMesh"), [], {})
        en.call(en.getattr(v, "set_pvmesh"), [grid], {})
        return en, en.call(en.getattr(en.call(en.getattr(v, "export_mesh"), [], {}), "nodescoord"), [], {})
    rep.function(where + ".export_mesh")
    t = attempt(rep, "read", where + ".export_mesh", "points", back)
    if t:
        judge(rep, "read", where + ".export_mesh", "points of a grid", *t, lambda rows, _: rows)

    def there():
        en, m = mesh("set_nodescoord_xyz")
        en.call(en.getattr(m, "set_cell2node"), [en.call(en.module_attr("cfdtools.meshbase._connectivity", "elem_connectivity"), [], {})], {})
        v = en.call(en.module_attr(cls, "vtkMesh"), [], {})
        n = len(en.st.events)
        en.call(en.getattr(v, "set_mesh"), [m], {})
        return en, [x for e in en.st.events[n:] for x in made(e)] + [x for x in walk(en.freeze(en.getattr(v, "_grid"))) if x.op == "call"]
    rep.function(where + ".set_mesh")
    t = attempt(rep, "written", where + ".set_mesh", "points", there)
    if t:
        en, calls = t
        calls = [c for c in calls if c.op in ("call", "xres") and c.args[0].op == "ext" and c.args[0].args[0].endswith("UnstructuredGrid")]
        args = {x for c in calls for x in [dict(c.args[2] or ()).get("points") or (c.args[1][-1] if c.args[1] else None)] if x is not None}
        if len(args) != 1:
            rep.undecided("written", where + ".set_mesh", "the grid made of the mesh is not followed")
        else:
            judge(rep, "written", where + ".set_mesh", "points of the grid", en, args.pop(), lambda rows, _: turned(rows))


def made(e):
    return [x for v in e for x in ([v] if isinstance(v, Term) else ()) if x.op in ("call", "xres")]


def hdf5(rep):
    where = "cfdtools.data.DataSetList.dumphdf"
    rep.function(where)

    def dump():
        en, m = mesh("set_nodescoord_xyz")
        en.call(en.getattr(m, "set_cell2node"), [en.call(en.module_attr("cfdtools.meshbase._connectivity", "elem_connectivity"), [], {})], {})
        seen = []

        def stored(e, a, k):
            seen.append((a, k))
            return NONE
        en.intercept["cfdtools.hdf5._hdf5.h5File.write_unsmesh"] = stored
        d = en.call(en.module_attr("cfdtools.data", "DataSetList"), [C(0)], {"Xrep": C("cellaverage"), "Trep": C("instant")})
        en.call(en.getattr(d, "set_mesh"), [m], {})
        en.call(en.getattr(d, "dumphdf"), [T("sym", "filename")], {})
        return en, seen
    t = attempt(rep, "written", where, "nodes", dump)
    if not t:
        return
    en, seen = t
    if len(seen) != 1:
        rep.undecided("written", where, "the mesh written is not followed")
        return
    a, k = seen[0]
    v = k.get("nodes") or (a[2] if len(a) > 2 else None)
    if v is None:
        rep.undecided("written", where, "the nodes written are not followed")
        return
    judge(rep, "written", where, "nodes of the mesh", en, v, lambda rows, _: turned(rows))
