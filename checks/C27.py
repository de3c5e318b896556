"""HDF5 dumps: what is stored, where, and what reads it or refers to it.

The dumps (mesh of a VTK grid, list of data sets, list of VTK files with its XDMF description) are executed abstractly on grids
with known element types and lists with a known number of data sets; arrays stay symbolic.  Every group, data set and attribute
created is reduced to (path, value).  The XDMF text is rebuilt from its terms and each reference in it is looked up among what was
created.  The reader of dumped meshes is then executed on the dumped paths."""
import xml.etree.ElementTree as ET

from sa import surface
from sa.engine import Exc
from sa.terms import T, C, Term, TRUE, NONE, cmp, show, walk
from sa.witness import Text, Unknown, shape
from checks.C06 import Schema, written
from checks.C09 import sym

TECHNIQUE = "abstract execution of the dumps on known structures with symbolic arrays; comparison of HDF5 paths created with those read and with the references of the XDMF text"
LEVEL_NOTE = "Every element type in pairs; lists of 1 and 12 data sets; scalar and vector variables; with and without time. Names and number of variables are samples; h5py is modelled as a store of paths."
RULES = {"mesh": "nodes and each table of elements of the mesh are stored, under the paths used to read them",
         "data": "each variable of each data set is stored once, with the values of this variable of this data set",
         "property": "each property is an attribute of the group of its data set and nothing else is",
         "read": "reading a dumped mesh gives the same points and the same tables for the same element types",
         "reference": "each reference of the XDMF text is a data set created, with its number of values; all are referred to",
         "series": "one grid for each data set, in order, holding the references of this data set under the names of its variables",
         "file": "the file named in the XDMF text is the one dumped and returned, and the text is beside it",
         "header": "version and type of data are read from the attributes they are written to"}
ASSUMPTIONS = ["variables of cells are arrays of one or two dimensions", "names of variables contain no slash"]
V, L, D, H = "cfdtools.vtk._vtk", "cfdtools.vtk._vtkList", "cfdtools.data", "cfdtools.hdf5._hdf5"
MESHED = ("tri3", "quad4", "tetra4", "pyra5", "prism6", "hexa8")
NNODE = {"bar2": 2, "tri3": 3, "quad4": 4, "tetra4": 4, "pyra5": 5, "prism6": 6, "hexa8": 8}
POINTS = sym("points")
NP = 9


class Dump:
    """a VTK grid and data sets in a fresh engine"""

    def __init__(self, types, nset=0, time=True, names=("Q", "U", "rho"), more=()):
        self.en = en = surface.fresh()
        self.contents = {POINTS: [[10 * i + c for c in range(3)] for i in range(NP)]}
        self.types = types
        self.table = {}
        vt = en.module_attr(V, "vtkMesh")
        codes = en.module_attr(V, "vtktype_ele")
        self.grid = T("sym", "grid")
        en.assume(T("truth", self.grid))
        self.g = en.instance_of(self.grid, en.classes[vt.args[0]])
        entries = []
        for k, t in enumerate(types):
            E = sym("table", t)
            self.table[t] = E
            self.contents[E] = [[(r + c) % NP for c in range(NNODE[t])] for r in range(2 + k)]
            en.assume(cmp("==", T("item", T("attr", E, "shape"), C(1)), C(NNODE[t])))
            entries.append((en.getitem(codes, C(t)), E, TRUE))
        self.ncell = sum(len(self.contents[e]) for e in self.table.values())
        for a, v in (("points", POINTS), ("cells_dict", en.ref("dict", {"entries": tuple(entries)})), ("n_cells", C(self.ncell)), ("n_points", C(NP))):
            en.setattr(self.g, a, v)
        # what pyvista and numpy are asked about the arrays is known
        self.data = []
        self.list = None
        if nset:
            self.list = en.call(en.module_attr(D, "DataSetList"), [C(nset)], {"Xrep": C("cellaverage"), "Trep": C("instant")})
            for i in range(nset):
                ds = {}
                for j, n in enumerate(names + more[:i] if i % 2 else names[::-1]):
                    v = sym(n, f"set{i}")
                    ds[n] = v
                    self.contents[v] = [[i, j, r] for r in range(self.ncell)] if n == "U" else [100 * i + 10 * j + r for r in range(self.ncell)]
                tm = T("sym", f"time{i}")
                kw = {}
                if time:
                    en.assume(cmp("is not", tm, NONE))
                    kw["time"] = tm
                    self.contents[tm] = [i / 2]         # as VTK stores it
                en.call(en.getattr(self.list, "add_datalist"), [en.ref("dict", {"entries": tuple((C(n), v, TRUE) for n, v in ds.items())})], kw)
                self.data.append((ds, tm if time else None))
        self.start = len(en.st.events)

    def created(self):
        """[(kind, path text, value term, event)] or None when a path is not known"""
        sc = Schema(self.en, self.en.st.events[self.start:], T("sym", "none"), T("sym", "none"))
        out = []
        for kind, f, path, data, kw, e in written(sc):
            if any(not isinstance(p, Term) or p.op != "const" for p in path):
                return None
            if kw.get("guard") not in (None, True, TRUE):
                return None
            if any(self.holds(c) is False for c in sc.facts.get(id(e), ())):
                continue
            out.append((kind, "/" + "/".join(p.args[0] for p in path), data, e))
        return out

    def holds(self, c):
        """True / False / None for what is not known"""
        if c.op == "not":
            v = self.holds(c.args[0])
            return None if v is None else not v
        try:
            return bool(Text(self.en, self.contents).value(c))
        except Unknown:
            return None

    def value(self, t):
        if not isinstance(t, Term):
            raise Unknown("no value")
        return Text(self.en, self.contents).value(self.en.freeze(t))


def opened(d):
    return [e for e in d.en.st.events[d.start:] if e[0] == "open"]


def attempt(rep, d, f, args, kw, where, name, rule="mesh"):
    try:
        return d.en.call(f, args, kw)
    except Exc as x:
        rep.bad(rule, where, f"{name}: fails on valid data", key=f"{where}:fails")
        return None


def stored(rep, d, where, name, lists):
    """compare everything created with what has to be"""
    made = d.created()
    if made is None:
        rep.undecided("data" if lists else "mesh", where, f"{name}: paths that are not known")
        return None
    sets = {}
    for kind, p, data, e in made:
        if kind == "dataset":
            if p in sets:
                rep.bad("data", where, f"{name}: {p} is created twice", key=f"{where}:twice")
            sets[p] = data
    want = {"/mesh/nodes": POINTS}
    for t, E in d.table.items():
        want["/mesh/cells/" + t] = E
    for i, (ds, tm) in enumerate(d.data if lists else ()):
        for n, v in ds.items():
            want[f"/datalist/i{i:06}/{n}"] = v
    for p, v in want.items():
        rule = "data" if p.startswith("/datalist") else "mesh"
        if p not in sets:
            rep.bad(rule, where, f"{name}: {p} is not stored", key=f"{where}:{rule}:missing")
            continue
        try:
            got = d.value(sets[p])
        except Unknown as x:
            rep.undecided(rule, where, f"{name}: {p}: {x}")
            continue
        rep.check(got == d.contents[v], rule, where, f"{name}: {p} holds " + (show(v, 2) if got == d.contents[v] else f"{show(sets[p], 3)[:60]} instead of {show(v, 2)}"), key=f"{where}:{rule}:value")
    extra = sorted(set(sets) - set(want))
    rep.check(not extra, "property" if any(p.split("/")[-1] == "time" for p in extra) else "data", where, f"{name}: nothing else is stored" + (": " + ", ".join(extra) if extra else ""), key=f"{where}:extra")
    attrs = {}
    for kind, p, data, e in made:
        if kind == "attr":
            attrs[p] = data
    if lists:
        for i, (ds, tm) in enumerate(d.data):
            p = f"/datalist/i{i:06}/time"
            if tm is None:
                rep.check(p not in attrs, "property", where, f"{name}: no time for data set {i}", key=f"{where}:notime")
                continue
            if p not in attrs:
                rep.bad("property", where, f"{name}: time of data set {i} is not stored as an attribute", key=f"{where}:time")
                continue
            try:
                got = d.value(attrs[p])
                rep.check(got == d.contents[tm], "property", where, f"{name}: attribute time of data set {i}", key=f"{where}:timevalue")
            except Unknown as x:
                rep.undecided("property", where, f"{name}: time of data set {i}: {x}")
    return sets, attrs


def described(rep, d, where, name, sets, text, filename):
    """the XDMF text against the data sets created"""
    try:
        root = ET.fromstring(text)
    except ET.ParseError as x:
        rep.bad("reference", where, f"{name}: the text is not well formed: {x}", key="xdmf:form")
        return
    sizes = {}
    for p, v in sets.items():
        try:
            sizes[p] = d.value(v)
        except Unknown:
            pass
    used = set()

    def look(item, what):
        ref = (item.text or "").strip()
        f, sep, path = ref.partition(":")
        rep.check(f in (filename, filename.rsplit("/", 1)[-1]), "file", where, f"{name}: {what} refers to {f}" + ("" if f == filename else f" instead of {filename}"), key="xdmf:file")
        if path not in sets:
            rep.bad("reference", where, f"{name}: {what} refers to {path}, which is not stored", key=f"xdmf:{what.split()[0]}:path")
            return None
        used.add(path)
        dims = [int(x) for x in item.get("Dimensions", "").split()]
        if path in sizes:
            s = shape(sizes[path])
            n = 1
            for k in s:
                n *= k
            m = 1
            for k in dims:
                m *= k
            ok = m == n and (len(dims) <= 1 or tuple(dims) == s)
            rep.check(ok, "reference", where, f"{name}: {what}: {item.get('Dimensions')} values of {path}" + ("" if ok else f", which has {s}"), key=f"xdmf:{what.split()[0]}:dimensions")
        rep.check(item.get("Format") in ("HDF", "HDF5"), "reference", where, f"{name}: {what} is in an HDF5 file", key="xdmf:format")
        return path
    series = [g for g in root.iter("Grid") if g.get("GridType") == "Collection"]
    grids = [g for s in series for g in s.findall("Grid")]
    rep.check(len(series) == 1 and len(grids) == len(d.data), "series", where, f"{name}: {len(grids)} grids for {len(d.data)} data sets", key="xdmf:grids")
    times = [g.find("Time").get("Value") if g.find("Time") is not None else None for g in grids]
    try:
        vals = [float(x) for x in times]
        rep.check(all(a < b for a, b in zip(vals, vals[1:])), "series", where, f"{name}: times increase", key="xdmf:times")
    except (TypeError, ValueError):
        rep.bad("series", where, f"{name}: a grid has no time", key="xdmf:times")
    for i, g in enumerate(grids):
        geo = [x for x in g.findall("Geometry/DataItem")]
        rep.check(len(geo) == 1, "series", where, f"{name}: grid {i} has one geometry", key="xdmf:geometry")
        for x in geo:
            p = look(x, f"geometry of grid {i}")
            rep.check(p in (None, "/mesh/nodes"), "series", where, f"{name}: geometry of grid {i} is the nodes", key="xdmf:nodes")
        rep.check(all(x.get("GeometryType") == "XYZ" for x in g.findall("Geometry")), "series", where, f"{name}: points of grid {i} have three coordinates", key="xdmf:xyz")
        seen = set()
        for tp in g.findall("Topology"):
            for x in tp.findall("DataItem"):
                p = look(x, f"topology of grid {i}")
                if p is None:
                    continue
                seen.add(p)
                if p in sizes:
                    rep.check(tp.get("NumberOfElements") == str(len(sizes[p])), "reference", where, f"{name}: {tp.get('NumberOfElements')} elements in {p}", key="xdmf:elements")
        rep.check(seen == {"/mesh/cells/" + t for t in d.types}, "series", where, f"{name}: grid {i} has all tables of elements", key="xdmf:topology")
        if i >= len(d.data):
            continue
        ds = d.data[i][0]
        names = [a.get("Name") for a in g.findall("Attribute")]
        rep.check(sorted(names) == sorted(ds), "series", where, f"{name}: grid {i} has variables {', '.join(map(str, names))}", key="xdmf:variables")
        for a in g.findall("Attribute"):
            n = a.get("Name")
            for x in a.findall("DataItem"):
                p = look(x, f"variable {n} of grid {i}")
                if p is None or n not in ds:
                    continue
                try:
                    same = d.value(sets[p]) == d.contents[ds[n]]
                    rep.check(same, "series", where, f"{name}: {n} of grid {i} is in {p}", key="xdmf:variable")
                except Unknown as u:
                    rep.undecided("series", where, f"{name}: {n} of grid {i}: {u}")
            two = isinstance(d.contents[ds[n]][0], list) if n in ds else None
            rep.check(None if two is None else a.get("AttributeType") == ("Vector" if two else "Scalar"), "series", where, f"{name}: {n} is a {a.get('AttributeType')}", key="xdmf:type")
            rep.check(a.get("Center") == "Cell", "series", where, f"{name}: {n} is of cells", key="xdmf:center")
    lost = sorted(set(sets) - used)
    rep.check(not lost, "reference", where, f"{name}: all data sets are referred to" + (": not " + ", ".join(lost) if lost else ""), key="xdmf:lost")


def mesh_dump(rep, types):
    where = V + ".vtkMesh.dumphdf"
    name = "+".join(types)
    d = Dump(types)
    en = d.en
    m = en.call(en.module_attr(V, "vtkMesh"), [], {"pvmesh": d.g})
    d.start = len(en.st.events)
    if attempt(rep, d, en.getattr(m, "dumphdf"), [C("x.h5")], {"overwrite": TRUE}, where, name) is None:
        return
    r = stored(rep, d, where, name, False)
    if r is None:
        return
    sets, attrs = r
    # ---- read the group back
    where = V + ".vtkMesh.importhdfgroup"
    cls = en.classes[en.module_attr(H, "h5File").args[0]]
    grp = en.instance_of(T("sym", "hgroup"), cls)
    cells = en.ref("dict", {"entries": tuple((C(p.split("/")[-1]), v, TRUE) for p, v in sets.items() if p.startswith("/mesh/cells/"))})
    top = {p.split("/")[-1]: v for p, v in sets.items() if p.count("/") == 2 and p.startswith("/mesh/")}
    top["cells"] = cells
    en.setattr(grp, "attrs", en.ref("dict", {"entries": tuple((C(p.split("/")[-1]), v, TRUE) for p, v in attrs.items() if p.startswith("/mesh/"))}))
    missing = []

    def child(e, a, kw):
        k = a[-1]
        if k.op == "const" and k.args[0] in top:
            return top[k.args[0]]
        missing.append(show(k, 2))
        return T("sym", "absent")
    en.intercept[H + ".h5File.__getitem__"] = child
    back = en.call(en.module_attr(V, "vtkMesh"), [], {})
    try:
        en.call(en.getattr(back, "importhdfgroup"), [grp], {})
    except Exc:
        rep.bad("read", where, f"{name}: a dumped mesh is refused", key="read:refused")
        return
    for k in missing:
        rep.bad("read", where, f"{name}: reads {k}, which is not stored", key="read:missing")
    g = en.getattr(back, "_grid")
    calls = [x for x in walk(en.freeze(g)) if x.op in ("xres", "call")]
    args = None
    for x in calls:
        f = x.args[0]
        if isinstance(f, Term) and f.op == "ext" and f.args[0].endswith("UnstructuredGrid"):
            args = x.args[1]
            break
    if args is None or len(args) < 2:
        rep.undecided("read", where, f"{name}: the grid made is not understood")
        return
    t = en.freeze(args[0])
    codes = en.module_attr(V, "vtktype_ele")
    want = {en.freeze(en.getitem(codes, C(x))): E for x, E in d.table.items()}
    if t.op != "dictof" or any(g not in (True, TRUE) for k, v, g in t.args[1]):
        rep.undecided("read", where, f"{name}: tables of the grid made are not understood")
        return
    got = {k: v for k, v, _ in t.args[1]}
    rep.check(set(got) == set(want), "read", where, f"{name}: element types read are " + ", ".join(sorted(show(k, 2) for k in got)), key="read:types")
    try:
        ok = all(d.value(got[k]) == d.contents[want[k]] for k in want if k in got)
        rep.check(ok, "read", where, f"{name}: tables read are those stored", key="read:tables")
        rep.check(d.value(args[1]) == d.contents[POINTS], "read", where, f"{name}: points read are those stored", key="read:points")
    except Unknown as x:
        rep.undecided("read", where, f"{name}: {x}")


def list_dump(rep, types, nset, time, more=()):
    where = L + ".vtkList.dumphdf"
    name = f"{'+'.join(types)}, {nset} data sets" + ("" if time else " without time") + (" of different variables" if more else "")
    d = Dump(types, nset, time, more=more)
    en = d.en
    cls = en.classes[en.module_attr(L, "vtkList").args[0]]
    obj = en.instance_of(T("sym", "vtklist"), cls)
    en.setattr(obj, "_mesh", d.g)
    en.setattr(obj, "_data", d.list)
    d.start = len(en.st.events)
    r = attempt(rep, d, en.getattr(obj, "dumphdf"), [C("out/x.h5")], {"overwrite": TRUE, "xdmf": TRUE}, where, name, "data")
    if r is None:
        return
    s = stored(rep, d, where, name, True)
    if s is None:
        return
    files = opened(d)
    h5 = [e for e in files if str(e[-1]) == "h5py"]
    txt = [e for e in files if str(e[-1]) != "h5py"]
    if len(h5) != 1 or len(txt) != 1:
        rep.check(False if len(txt) == 0 or len(h5) == 0 else None, "file", where, f"{name}: {len(h5)} HDF5 and {len(txt)} XDMF files are written", key="file:number")
        return
    try:
        real = d.value(h5[0][3])
        rep.check(d.value(r) == real, "file", where, f"{name}: the name returned is {real}", key="file:returned")
        beside = d.value(txt[0][3])
        rep.check(beside.rsplit("/", 1)[0] == real.rsplit("/", 1)[0] and beside.endswith((".xmf", ".xdmf")), "file", where, f"{name}: the text is in {beside}", key="file:beside")
    except Unknown as x:
        rep.undecided("file", where, f"{name}: {x}")
        real = "out/x.h5"
    try:
        text = "".join(d.value(e[3][0] if isinstance(e[3], tuple) else e[3]) for e in en.st.events[d.start:] if e[0] == "write" and e[2] is txt[0][2])
    except Unknown as x:
        rep.undecided("reference", where, f"{name}: text: {x}")
        return
    described(rep, d, where, name, s[0], text, real)


def header(rep):
    where = H + ".h5File.open"
    en = surface.fresh()
    f = en.call(en.module_attr(H, "h5File"), [C("x.h5")], {})
    start = len(en.st.events)
    en.call(en.getattr(f, "open"), [], {"mode": C("w"), "datatype": C("datalist"), "version": C(7)})
    sc = Schema(en, en.st.events[start:], T("sym", "none"), T("sym", "none"))
    attrs = {}
    for kind, _, path, data, kw, e in written(sc):
        if kind == "attr" and path and path[0].op == "const":
            attrs[path[0].args[0]] = data
    rep.check(attrs.get("cfd_datatype") == C("datalist") and attrs.get("data_version") == C(7), "header", where, f"attributes written: {', '.join(f'{k}={show(v, 2)}' for k, v in sorted(attrs.items()))}", key="header:written")
    g = en.call(en.module_attr(H, "h5File"), [C("x.h5")], {})
    en.call(en.getattr(g, "open"), [], {})
    for a, want in (("datatype", "cfd_datatype"), ("_version", "data_version"), ("_cfdtools_version", "cfdtools_version")):
        t = en.freeze(en.getattr(g, a))
        keys = {x.args[1][0].args[0] for x in walk(t) if x.op == "call" and isinstance(x.args[0], Term) and x.args[0].op in ("method", "attr") and x.args[0].args[1] == "get" and x.args[1] and isinstance(x.args[1][0], Term) and x.args[1][0].op == "const"}
        keys |= {x.args[1].args[0] for x in walk(t) if x.op in ("item", "lookup") and isinstance(x.args[1], Term) and x.args[1].op == "const" and isinstance(x.args[1].args[0], str)}
        if not keys:
            rep.undecided("header", where, f"{a} read: {show(t, 3)[:60]}")
        else:
            rep.check(want in keys and want in attrs, "header", where, f"{a} is read from {', '.join(sorted(map(str, keys)))}", key=f"header:{a}")


def run(rep):
    for f in (V + ".vtkMesh.dumphdf", V + ".vtkMesh.importhdfgroup", V + ".vtkMesh.xdmf_content", L + ".vtkList.dumphdf", D + ".DataSetList.dumphdf", D + ".DataSetList.xdmf_content", H + ".h5File.open", H + ".h5File.write_unsmesh"):
        rep.function(f)
    header(rep)
    pairs = [(a, b) for a in MESHED for b in MESHED if a < b]
    for types in [(t,) for t in ("bar2",) + MESHED] + pairs:
        mesh_dump(rep, types)
    for types in [(t,) for t in MESHED] + (pairs if rep.thorough else pairs[::5]):
        list_dump(rep, types, 2, True)
    list_dump(rep, ("hexa8", "prism6"), 1, False)
    list_dump(rep, ("quad4",), 12 if not rep.thorough else 120, True)
    list_dump(rep, ("tri3", "quad4"), 3, False)
    list_dump(rep, ("hexa8",), 3, True, ("extra", "another"))
