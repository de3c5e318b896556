import os, sys
sys.path.insert(0, os.path.dirname(__file__))
from common import PRE
W2, W3, R, H = ("cfdtools/ic3/" + x for x in ("writerV2.py", "writerV3.py", "reader_legacy.py", "_ic3.py"))
WALK = '''
import struct
def sections(fn, e="<"):
    raw = open(fn, "rb").read()
    pos = 8
    while True:
        if pos + 256 > len(raw):
            fail("chain of sections broken at %d" % pos)
        ident, skip = struct.unpack(e + "iq", raw[pos + 52:pos + 64])
        if not 10 <= ident <= 52 or skip < 256:
            fail("not a section header at %d" % pos)
        yield ident, raw[pos:pos + 52].split(b"\\0")[0].decode(), raw[pos:pos + skip]
        if ident == 51:
            return
        pos += skip
'''
TET = '''
def tetmesh():
    from cfdtools.meshbase._mesh import Mesh
    from cfdtools.meshbase._connectivity import elem_connectivity
    m = Mesh(ncell=2, nnode=5)
    e = elem_connectivity()
    e.add_elems("tetra4", np.array([[0, 1, 2, 3], [1, 2, 3, 4]]))
    m.set_cell2node(e)
    m.set_nodescoord_nd(np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 1]], dtype=float))
    return m
'''

S = [
 dict(id="c01-v2-noofa-length", property="C01",
      edits=[(W2, 'header.hsize + type2nbytes["int32"] * nface + type2nbytes["int32"] * self.params["noofa_count"]',
              'header.hsize + type2nbytes["int32"] * nface + type2nbytes["int32"] * nface * int(self.f2v["noofa"][0])')],
      needs="a mesh with triangles and quadrangles",
      breaks="length of the face-to-node section assumes all faces have as many nodes as the first one",
      demo=PRE + WALK + '''
from cfdtools.meshbase._mesh import Mesh
from cfdtools.meshbase._connectivity import elem_connectivity
m = Mesh(ncell=1, nnode=6)
e = elem_connectivity()
e.add_elems("prism6", np.arange(6).reshape(1, 6))
m.set_cell2node(e)
m.set_nodescoord_nd(np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 0, 1], [0, 1, 1]], dtype=float))
try:
    write_ic3(m, 2, "out.ic3", endian="little")
except Exception as err:
    fail(repr(err))
list(sections("out.ic3"))
'''),
 dict(id="c03-v2-node-vector-id", property="C03",
      edits=[(W2, '                header.id = ic3_restart_codes["UGP_IO_NO_D3"]', '                header.id = ic3_restart_codes["UGP_IO_CV_D3" if nno == self.params["cv_count"] else "UGP_IO_NO_D3"]')],
      needs="a mesh with as many nodes as cells and a node vector field",
      breaks="node vectors become cell vectors when both counts are equal",
      demo=PRE + WALK + '''
from cfdtools.meshbase._mesh import Mesh
from cfdtools.meshbase._connectivity import elem_connectivity
m = Mesh(ncell=5, nnode=5)
e = elem_connectivity()
e.add_elems("tetra4", np.array([[0, 1, 2, 3], [1, 2, 3, 4], [0, 1, 2, 4], [0, 1, 3, 4], [0, 2, 3, 4]]))
m.set_cell2node(e)
m.set_nodescoord_nd(np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1], [.2, .2, .2]], dtype=float))
m._bocos.clear()
m.set_nodedata(dataset("nodal", U=np.arange(15.).reshape(5, 3)))
m.make_face_connectivity()
for f in m._faces.values():
    pass
try:
    write_ic3(m, 2, "out.ic3", endian="little")
except AssertionError:
    m = None
if m is None:
    m = cube(1, 1, 1)
    m.set_nodedata(dataset("nodal", U=np.arange(24.).reshape(8, 3)))
    import cfdtools.ic3.writerV2 as w
    wr = w.writer(m, endian="little")
    wr.params["cv_count"] = 1
    wr.write_data("out.ic3")
ids = [i for i, name, _ in sections("out.ic3") if name == "U"]
from cfdtools.ic3._ic3 import ic3_restart_codes as c
if ids != [c["UGP_IO_NO_D3"]]:
    fail("node vector written in section %s" % ids)
'''),
 dict(id="c03-reader-face-vector", property="C03",
      edits=[(R, "                self.facedata.add_data(h.name, vector)", "                (self.nodedata if fa_count == no_count else self.facedata).add_data(h.name, vector)")],
      needs="a file with a face vector field on a mesh with as many faces as nodes",
      breaks="face vectors are exported as node vectors",
      demo=PRE + '''
import struct
import cfdtools.ic3._ic3 as ic
from cfdtools.ic3.reader_legacy import reader
import io
class F: pass
r = reader("none")
r.byte_swap = None
import inspect
# a prism has six nodes and five faces, two prisms sharing no face: use a wedge of 1x1 cube plus counts 8 nodes / 6 faces;
# a hexahedron cut in two prisms has 8 nodes and 9 faces; two tetrahedra: 5 nodes, 7 faces; a pyramid: 5 nodes, 5 faces
from cfdtools.meshbase._mesh import Mesh
from cfdtools.meshbase._connectivity import elem_connectivity
m = Mesh(ncell=1, nnode=5)
e = elem_connectivity()
e.add_elems("pyra5", np.arange(5).reshape(1, 5))
m.set_cell2node(e)
m.set_nodescoord_nd(np.array([[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0], [.5, .5, 1]], dtype=float))
m.set_nodedata(dataset("nodal", U=np.arange(15.).reshape(5, 3)))
write_ic3(m, 2, "out.ic3", endian="little")
raw = bytearray(open("out.ic3", "rb").read())
pos = 8
while True:
    ident, skip = struct.unpack("<iq", raw[pos + 52:pos + 64])
    if ident == ic.ic3_restart_codes["UGP_IO_NO_D3"]:
        raw[pos + 52:pos + 56] = struct.pack("<i", ic.ic3_restart_codes["UGP_IO_FA_D3"])
    if ident == 51:
        break
    pos += skip
open("out.ic3", "wb").write(raw)
r = read_ic3("out.ic3")
if "U" in r._nodedata.keys() or "U" not in r._facedata.keys():
    fail("face vector exported elsewhere")
'''),
 dict(id="c04-rdata-native", property="C04",
      edits=[(W2, '''        BinaryWrite(self.fid, self.endian, "d" * nnode * 3, self.coordinates.ravel(order='C'))''',
              '''        self.fid.write(np.ascontiguousarray(self.coordinates, dtype=np.float64).tobytes())''')],
      needs="a byte order other than the one of the machine",
      breaks="coordinates are written in native order",
      demo=PRE + '''
m = cube(1, 2, 1)
write_ic3(m, 2, "out.ic3", endian="big")
r = read_ic3("out.ic3")
if not np.allclose(r.nodescoord(ndarray=True), cube(1, 2, 1).nodescoord(ndarray=True)):
    fail("coordinates changed")
'''),
 dict(id="c05-partition-npart", property="C05",
      edits=[(W2, "header.idata[1] = self.params['partition'].get('npart', 1)", "header.idata[1] = 1")],
      needs="a mesh partitioned in several parts",
      breaks="the number of parts is always one",
      demo=PRE + '''
m = cube(2, 1, 1)
m.set_partition({"npart": 2, "icvpart": np.array([0, 1], dtype=np.int32)})
write_ic3(m, 2, "out.ic3")
r = read_ic3("out.ic3")
if r._cellprop["partition"]["npart"] != 2:
    fail("npart %s" % r._cellprop["partition"]["npart"])
'''),
 dict(id="c05-zone-end", property="C05",
      edits=[(R, "            boco.index = _conn.indexlist(irange=[h.idata[1], h.idata[2]])", "            boco.index = _conn.indexlist(irange=[h.idata[1], h.idata[2] if boco.type in ('internal', 'boundary') else h.idata[2] - 1])")],
      needs="a periodic mark",
      breaks="periodic marks lose their last face",
      demo=PRE + '''
m = cube(2, 1, 1)
m._bocos["imin"].type = "perio_cart"
m._bocos["imin"].properties["periodic_transform"] = [1.] + [0.] * 15
write_ic3(m, 2, "out.ic3")
a = m._bocos["imin"].index.range()
b = read_ic3("out.ic3")._bocos["imin"].index.range()
if list(a) != list(b):
    fail("%s read as %s" % (a, b))
'''),
 dict(id="c05-time-zero-weights", property="C05",
      edits=[(W2, "            header.name = key.upper() + '_WGT'", "            header.name = key + '_wgt'"),
             (R, "                self.simulation_state[h.name.lower()] = h.rdata[0]", "                self.simulation_state[h.name if h.name.endswith('_WGT') else h.name.lower()] = h.rdata[0]")],
      needs="a file of the solver with averaging weights, read then written again",
      breaks="weights named as in solver files are no longer recognised by the writer",
      demo=PRE + WALK + '''
m = cube(1, 1, 2)
m.set_params({"rho_wgt": 0.5})
write_ic3(m, 2, "one.ic3", endian="little")
raw = open("one.ic3", "rb").read().replace(b"rho_wgt", b"RHO_WGT")
open("one.ic3", "wb").write(raw)
r = read_ic3("one.ic3")
write_ic3(r, 2, "two.ic3", endian="little")
w = [n for i, n, _ in sections("two.ic3") if n.lower() == "rho_wgt"]
if not w:
    fail("weight lost")
'''),
 dict(id="c13-v2-open-before-check", property="C13",
      edits=[(W2, '''        self._check_bocos()
        # Open the file for binary writing
        with open(self.filename, "wb") as self.fid:
''', '''        # Open the file for binary writing
        with open(self.filename, "wb") as self.fid:
            self._check_bocos()
'''),
             (W2, '''            raise RuntimeError("Inconsistent data to write")
''', '''            raise RuntimeError("Inconsistent data to write !")
''')],
      needs="marks changed after the writer was made, on an existing file",
      breaks="a refused request empties the existing file",
      demo=PRE + '''
import cfdtools.ic3.writerV2 as w
m = cube(1, 1, 2)
wr = w.writer(m)
list(wr.bocos.values())[0].geodim = "bdnode"
open("old.ic3", "w").write("precious")
try:
    wr.write_data("old.ic3")
except Exception:
    pass
else:
    sys.exit(0)
if open("old.ic3").read() != "precious":
    fail("existing file truncated by a refused request")
'''),
 dict(id="c02-v2-zone-shape", property="C02",
      edits=[(W2, '''self.f2e.ravel().tolist())''', '''self.f2e.ravel(order='K').tolist())''')],
      needs="a face-to-cell table stored column by column (Fortran order)",
      breaks="pairs of cells are written in memory order",
      demo=PRE + '''
m = cube(2, 2, 1)
write_ic3(m, 2, "one.ic3")
r = read_ic3("one.ic3")
f = r._faces["mixed"]["face2cell"]
want = f.conn.copy()
f.conn = np.asfortranarray(f.conn)
write_ic3(r, 2, "two.ic3")
got = read_ic3("two.ic3")._faces["mixed"]["face2cell"].conn
if not np.array_equal(want, got):
    fail("face to cell table changed")
'''),
]
S = [s for s in S if s["id"] not in ("c05-partition-npart", "c05-zone-end", "c03-reader-face-vector", "c13-v2-open-before-check")]  # these fail the tests, or change no original line
