"""IC3 writers order boundary faces and marks before writing.

The writers are constructed abstractly on meshes of each kind (faces absent, split or mixed; marks of nodes, of faces, lists and
ranges, complete or not).  Operations of the mesh that prepare faces and marks are replaced by their effect: each yields new symbolic
tables.  What the writer holds at the end is then compared with what it must write."""
from sa import surface
from sa.arrays import cat, decide
from sa.engine import Exc
from sa.terms import T, C, Term, NONE, TRUE, show, subst, walk
from sa.witness import Unknown as NotKnown, Witness
from checks.C09 import CONN, MESH, numbers, sym, table_rows

TECHNIQUE = "abstract execution of the writer constructors with mesh operations replaced by their effects; final faces and marks compared in normal form"
LEVEL_NOTE = "Each writer; faces absent, split and mixed; every pair of kinds of marks; complete and incomplete marking. The effects of renumbering are proved in C09."
RULES = {"faces": "a mesh without faces gets them before they are written",
         "marks": "every mark written is one of faces",
         "complete": "boundary faces without mark get one",
         "range": "every mark written is a range",
         "tables": "tables written are those after renumbering",
         "written": "the marks written are those of the mesh, internal ones excepted",
         "convert": "a node mark becomes the faces that have all their nodes in it",
         "missing": "the mark added holds the boundary faces without mark"}
ASSUMPTIONS = ["meshes have cells and coordinates"]
WRITERS = (("v2", "cfdtools.ic3.writerV2"), ("v3", "cfdtools.ic3.writerV3"), ("v4", "cfdtools.ic3.writerV4"))
OPS = ("make_face_connectivity", "bocomarks_set_node_to_face", "make_unmarked_BC", "reindex_boundaryfaces")


class World:
    """a mesh on which operations have their effect only"""

    def __init__(self, en, faces, marks, complete):
        self.en, self.complete, self.log, self.misuse = en, complete, [], []
        self.shapes, self.env = {}, {}
        self.state = faces
        Mesh = en.module_attr(MESH, "Mesh")
        self.mesh = mesh = en.call(Mesh, [], {"nnode": T("sym", "nnode")})
        for q in "XYZ":
            self.shapes[sym(q)] = (T("sym", "nnode"), None)
        en.call(en.getattr(mesh, "set_nodescoord_xyz"), [sym(q) for q in "XYZ"], {})
        ec = self.table("cell", ("hexa8",), 8)
        en.call(en.getattr(mesh, "set_cell2node"), [ec], {})
        if faces == "split":
            self.split("given")
        elif faces == "mixed":
            self.add("mixed", "given")
        for k, kind in enumerate(marks):
            self.mark(f"{kind}{k}", kind)
        for op in OPS:
            en.intercept[f"{MESH}.Mesh.{op}"] = getattr(self, op)

    def table(self, name, types=("quad4",), w=4):
        en = self.en
        ec = en.call(en.module_attr(CONN, "elem_connectivity"), [], {})
        for n in types:
            E = sym(name, n)
            self.shapes[E] = (sym("n", name, n), w)
            self.env[sym("n", name, n)] = C(2 + len(self.env) % 3)
            en.call(en.getattr(ec, "add_elems"), [C(n), E], {})
        return ec

    def add(self, side, tag):
        en = self.en
        ec = self.table(tag + side)
        f = sym(tag, side, "f2c")
        self.shapes[f] = (sym("n", tag, side, "quad4"), 2)
        en.call(en.getattr(self.mesh, "add_faces"), [C(side), ec, en.call(en.module_attr(CONN, "indexindirection"), [f], {})], {})

    def split(self, tag):
        self.add("boundary", tag)
        self.add("internal", tag)

    def mark(self, name, kind):
        en = self.en
        b = en.call(en.module_attr(MESH, "submeshmark"), [C(name)], {})
        en.setattr(b, "geodim", C("bdnode" if kind.startswith("node") else "bdface"))
        en.setattr(b, "type", C("internal" if kind == "internal" else "boundary"))
        self.listed(b, name) if "range" not in kind else en.setattr(b, "index", self.ranged(name))
        en.call(en.getattr(self.mesh, "add_boco"), [b], {})

    def listed(self, b, name):
        self.en.setattr(b, "index", numbers(self.en, sym("L", name)))

    def ranged(self, name):
        return self.en.call(self.en.module_attr(CONN, "indexlist"), [], {"irange": T("tuple", sym("first", name), sym("last", name))})

    def marks(self):
        en = self.en
        return {k.args[0]: v for k, v, g in en.obj(en.obj(self.mesh).f["_bocos"]).f["entries"] if isinstance(k, Term) and k.op == "const"}

    def nodebased(self, b):
        return self.en.getattr(b, "geodim") in (C("node"), C("bdnode"), C("intnode"))

    def has(self, side):
        return any(k == C(side) for k, _, _ in self.en.obj(self.en.obj(self.mesh).f["_faces"]).f["entries"])

    # ------------------------------------------------------------ effects
    def make_face_connectivity(self, en, a, kw):
        self.log.append("make")
        self.split("made")
        return NONE

    def bocomarks_set_node_to_face(self, en, a, kw):
        self.log.append("convert")
        if not self.has("boundary"):
            self.misuse.append("marks of nodes are converted without boundary faces")
        for name, b in self.marks().items():
            if self.nodebased(b):
                en.setattr(b, "geodim", C("bdface"))
                self.listed(b, name + "faces")
        return NONE

    def make_unmarked_BC(self, en, a, kw):
        self.log.append("unmarked")
        if any(self.nodebased(b) for b in self.marks().values()):
            self.misuse.append("unmarked faces are searched while marks of nodes remain")
        name = a[1] if len(a) > 1 else kw.get("name", C("unmarked_faces"))
        if self.complete or not self.has("boundary"):
            return en.ref("list", {"chunks": ()})
        if name.op == "const":
            self.mark(name.args[0], "facelist")
        return en.ref("list", {"chunks": (T("e", C(7)),)})

    def reindex_boundaryfaces(self, en, a, kw):
        self.log.append("reindex")
        if not self.has("boundary"):
            self.misuse.append("faces are renumbered without boundary faces")
            return NONE
        if any(self.nodebased(b) for b in self.marks().values()):
            self.misuse.append("faces are renumbered while marks of nodes remain")
        bd = en.getitem(en.getattr(self.mesh, "_faces"), C("boundary"))
        old = en.getattr(en.getitem(bd, C("face2cell")), "conn")
        new = T("sym", "renumberedf2c")
        n = next((self.shapes[x][0] for x in walk(en.freeze(old)) if x in self.shapes), T("sym", "nb"))
        self.shapes[new] = (n, 2)
        en.setattr(en.getitem(bd, C("face2cell")), "conn", new)
        es = en.obj(en.getitem(bd, C("face2node"))).f["_elem2node"]
        for k, v, _ in list(en.obj(es).f["entries"]):
            I = T("sym", "renumbered" + k.args[0])
            self.shapes[I] = (n, None)
            en.setitem(v, C("index"), numbers(en, I))
        for name, b in self.marks().items():
            en.setattr(b, "index", self.ranged(name + "new"))
        return NONE


def scenario(rep, ver, module, faces, marks, complete):
    name = f"{ver}, {faces or 'no'} faces, marks {'+'.join(marks) or 'none'}" + ("" if complete else ", faces without mark")
    where = module + ".writer.set_mesh"
    en = surface.fresh()
    w = World(en, faces, marks, complete)
    try:
        obj = en.call(en.module_attr(module, "writer"), [w.mesh], {})
    except Exc:
        # mixed faces with marks of nodes or lists cannot be ordered: refused
        rep.check(True if faces == "mixed" else False, "faces", where, f"{name}: refused", key=f"{name}:refused")
        return
    for m in w.misuse:
        if faces == "mixed":
            return      # the operation refuses it
        rep.bad("marks", where, f"{name}: {m}", key=f"{name}:{m}")
    o = en.obj(obj)
    # ---- faces
    has = {s: w.has(s) for s in ("mixed", "boundary", "internal")}
    rep.check(has["mixed"] or has["boundary"] and has["internal"], "faces", where, f"{name}: the mesh has faces when tables are made", key=f"{name}:faces")
    # ---- marks
    present = w.marks()
    for k, b in present.items():
        rep.check(not w.nodebased(b), "marks", where, f"{name}: mark {k} is of {show(en.getattr(b, 'geodim'), 2)}", key=f"{name}:{k}:geodim")
        t = en.freeze(en.getattr(en.getattr(b, "index"), "type"))
        rep.check(None if t.op != "const" else t == C("range"), "range", where, f"{name}: mark {k} is a {show(t, 2)}", key=f"{name}:{k}:range")
    if has["boundary"] and not complete:
        extra = [k for k in present if k not in {f"{kind}{i}" for i, kind in enumerate(marks)}]
        rep.check(bool(extra), "complete", where, f"{name}: faces without mark get one", key=f"{name}:complete")
    # ---- marks written
    bocos = en.obj(o.f.get("bocos", NONE)) if isinstance(o.f.get("bocos"), Term) else None
    if bocos is None or bocos.kind != "dict" or any(not (isinstance(k, Term) and k.op == "const") or g is not True and g != TRUE for k, _, g in bocos.f["entries"]):
        rep.undecided("written", where, f"{name}: marks written")
    else:
        got = {k.args[0]: v for k, v, _ in bocos.f["entries"]}
        want = {k for k, b in present.items() if en.getattr(b, "type") != C("internal")}
        rep.check(set(got) == want and all(got[k] is present[k] for k in got), "written", where, f"{name}: marks written are {', '.join(sorted(got)) or 'none'}", key=f"{name}:written")
    # ---- tables
    f2e = o.f.get("f2e")
    if f2e is None:
        rep.undecided("tables", where, f"{name}: table of cells of faces")
        return
    d = en.getattr(w.mesh, "_faces")
    parts = []
    for s in (("mixed",) if has["mixed"] else ("boundary", "internal")):
        t = en.freeze(en.getattr(en.getitem(en.getitem(d, C(s)), C("face2cell")), "conn"))
        if t.op == "gamma" and t.args[1] == NONE:
            t = t.args[2]
        parts.append(t)
    if any(t not in w.shapes for t in parts):
        rep.undecided("tables", where, f"{name}: {show(parts[0], 3)}")
        return
    ok, why = decide(en, f2e, cat([table_rows(t, w.shapes[t][0], 2) for t in parts]), w.shapes, [], w.env)
    rep.check(ok, "tables", where, f"{name}: cells of the faces written" + ("" if ok else ": " + why), key=f"{name}:f2e")
    # nodes of the faces: from the rows and the numbers held at the end
    f2v = o.f.get("f2v")
    try:
        v = en.freeze(en.getitem(f2v, C("noofa_v")))
    except Exception:
        rep.undecided("tables", where, f"{name}: nodes of the faces written")
        return
    leaf = {x for x in walk(deep(en, v)) if x.op == "sym"}
    need = set()
    for s in (("mixed",) if has["mixed"] else ("boundary", "internal")):
        ec = en.getitem(en.getitem(d, C(s)), C("face2node"))
        for k, e, _ in en.obj(en.obj(ec).f["_elem2node"]).f["entries"]:
            need |= {x for x in walk(deep(en, en.freeze(en.getitem(e, C("elem2node"))))) if x in w.shapes}
            need |= {x for x in walk(deep(en, en.freeze(en.call(en.getattr(en.getitem(e, C("index")), "list"), [], {})))) if x in w.shapes}
    lost = sorted(x.args[0] for x in need - leaf)
    rep.check(True if not lost else (False if any(x in w.shapes for x in leaf) else None), "tables", where, f"{name}: nodes of the faces written" + (f" do not come from {', '.join(lost)}" if lost else ""), key=f"{name}:noofa")


def deep(en, t, depth=4):
    """heap references followed"""
    for _ in range(depth):
        m = {x: en.freeze(x) for x in walk(t) if x.op == "ref" and en.freeze(x) is not x}
        if not m:
            break
        t = subst(t, m)
    return t


FACES = [[0, 1, 2, 3], [2, 3, 4, 5], [0, 1, 6, 7], [4, 5, 6, 7], [1, 2, 5, 6]]
NODELISTS = ([0, 1, 2, 3, 4, 5], [7, 6, 5, 4, 1, 0], [3, 2, 1, 0], [0, 3, 5], [1, 2, 5, 6, 1], list(range(8)))


def effects(rep):
    """what the operations that find faces do, on witnesses"""
    en = surface.fresh()
    w = World(en, "split", ("node", "facelist", "facerange", "node"), False)
    en.intercept.clear()
    table = sym("givenboundary", "quad4")
    bd = en.getitem(en.getitem(en.getattr(w.mesh, "_faces"), C("boundary")), C("face2node"))
    e = [v for k, v, _ in en.obj(en.obj(bd).f["_elem2node"]).f["entries"]][0]
    number = sym("number", "boundary")
    en.setitem(e, C("index"), numbers(en, number))
    where = MESH + ".Mesh.bocomarks_set_node_to_face"
    rep.function(where)
    start = en.st.clone()
    try:
        en.call(en.getattr(w.mesh, "bocomarks_set_node_to_face"), [], {})
    except Exc as x:
        rep.bad("convert", where, f"refused on a mesh with boundary faces: {x}", key="convert:refused")
        return
    def content(b):
        return deep(en, en.freeze(en.call(en.getattr(en.getattr(b, "index"), "list"), [], {})))

    def kept(name):
        return {"facelist1": [4, 9], "facerange2": [5, 6]}[name]
    for k, b in w.marks().items():
        g = en.freeze(en.getattr(b, "geodim"))
        rep.check(None if g.op != "const" else g == C("bdface"), "convert", where, f"mark {k} is then of {show(g, 2)}", key=f"convert:{k}:geodim")
        for order in ([0, 1, 2, 3, 4], [7, 3, 9, 12, 4]):
            for nodes in NODELISTS:
                facts = {table: FACES, number: order, sym("L", k): nodes, sym("first", k): 5, sym("last", k): 6}
                want = sorted(order[i] for i, f in enumerate(FACES) if set(f) <= set(nodes)) if k.startswith("node") else kept(k)
                if k == "facelist1":
                    facts[sym("L", k)] = kept(k)
                verdict(rep, en, content(b), facts, want, "convert", where, f"mark {k}, nodes {nodes}, faces numbered {order}", f"convert:{k}")
    # ---- faces without mark
    where = MESH + ".Mesh.make_unmarked_BC"
    rep.function(where)
    for arg in ([], [C("rest")]):
        en.st = start.clone()
        for k, b in w.marks().items():
            if k.startswith("node"):
                en.setattr(b, "geodim", C("bdface"))
        try:
            r = en.call(en.getattr(w.mesh, "make_unmarked_BC"), arg, {})
        except Exc as x:
            rep.bad("missing", where, f"refused on marks of faces: {x}", key="missing:refused")
            return
        entries = en.obj(en.obj(w.mesh).f["_bocos"]).f["entries"]
        name = arg[0].args[0] if arg else "unmarked_faces"
        extra = [(v, g) for k, v, g in entries if k == C(name)]
        rep.check(len(extra) == 1, "missing", where, f"a mark named {name} for faces without mark", key="missing:name")
        for marked in ([0], [7, 3], [9], [7, 9, 12], [2, 3]):
            for order in ([0, 1, 2, 3, 4, 5], [7, 3, 9, 12, 4, 5, 6]):
                order = order[:5]
                facts = {table: FACES, number: order, sym("L", "node0"): marked, sym("L", "facelist1"): [4], sym("L", "node3"): [], sym("first", "facerange2"): 5, sym("last", "facerange2"): 6}
                gone = set(marked) | {4, 5, 6}
                want = sorted(set(order) - gone)
                verdict(rep, en, deep(en, en.freeze(r)), facts, want, "missing", where, f"faces {order}, marked {sorted(gone)}: faces returned", "missing:returned")
                if len(extra) == 1:
                    b, g = extra[0]
                    if g is not True and g != TRUE:
                        verdict(rep, en, deep(en, en.freeze(g)), facts, bool(want), "missing", where, f"faces {order}, marked {sorted(gone)}: a mark is added", "missing:added")
                    if want:
                        verdict(rep, en, content(b), facts, want, "missing", where, f"faces {order}, marked {sorted(gone)}: faces of the mark added", "missing:mark")
        # every face has a mark: none is added
        if len(extra) == 1:
            b, g = extra[0]
            facts = {table: FACES, number: [5, 4, 6, 1, 0], sym("L", "node0"): [0, 1], sym("L", "facelist1"): [4], sym("L", "node3"): [], sym("first", "facerange2"): 5, sym("last", "facerange2"): 6}
            if g is True or g == TRUE:
                rep.bad("missing", where, "a mark is added whether or not faces are without mark", key="missing:added")
            else:
                verdict(rep, en, deep(en, en.freeze(g)), facts, False, "missing", where, "every face has a mark: a mark is added", "missing:added")
            for a, v in (("geodim", ("bdface", "face")), ("type", ("boundary",))):
                t = en.freeze(en.getattr(b, a))
                rep.check(None if t.op != "const" else t.args[0] in v, "missing", where, f"the mark added has {a} {show(t, 2)}", key=f"missing:{a}")


def verdict(rep, en, t, facts, want, rule, where, what, key):
    try:
        got = Witness(en, facts).value(t)
    except NotKnown as x:
        rep.undecided(rule, where, f"{what}: {x}")
        return
    if isinstance(want, list):
        got = sorted(got) if isinstance(got, (list, frozenset)) else got
    rep.check(got == want, rule, where, f"{what}: {got}" + ("" if got == want else f" instead of {want}"), key=key)


def run(rep):
    effects(rep)
    for ver, module in WRITERS:
        rep.function(module + ".writer.set_mesh")
        rep.function(module + ".writer.set_bocos")
        kinds = ("node", "facelist", "facerange")
        sets = [()] + [(k,) for k in kinds] + [(a, b) for a in kinds for b in kinds] + [("facerange", "internal"), ("node", "facelist", "facerange")]
        for marks in sets if ver == "v2" or rep.thorough else sets[:4] + [("node", "facerange"), ("facerange", "facelist"), ("facerange", "internal")]:
            for faces in ("", "split", "mixed"):
                for complete in (True, False) if faces != "mixed" else (True,):
                    scenario(rep, ver, module, faces, marks, complete)
