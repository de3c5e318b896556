import os, sys
sys.path.insert(0, os.path.dirname(__file__))
from common import PRE
W2, W3, R, H = ("cfdtools/ic3/" + x for x in ("writerV2.py", "writerV3.py", "reader_legacy.py", "_ic3.py"))

S = [
 dict(id="c01-v3-node-int-skip", property="C01",
      edits=[(W3, 'header.skip = header.hsize + type2nbytes["float64"] * totsize * 9', 'header.skip = header.hsize + type2nbytes["float64"] * ncv * 9')],
      needs="a cell tensor field with several degrees of freedom per cell written in V3, followed by another section",
      breaks="the recorded length of a tensor section ignores ndof, so hopping to the next section lands inside the payload",
      demo=PRE + '''
import struct
m = cube()
d = dataset("cellaverage")
d.Xrep = "spectralcell"
d.ndof = 2
d._data["T"] = np.arange(m.ncell * 2 * 9, dtype=float).reshape(m.ncell * 2, 3, 3)
m.set_celldata(d)
write_ic3(m, 3, "out.ic3", endian="little")
raw = open("out.ic3", "rb").read()
pos = 8
while True:
    if pos + 256 > len(raw):
        fail("chain of sections broken at %d" % pos)
    ident, skip = struct.unpack("<iq", raw[pos + 52:pos + 64])
    if ident == 51:
        break
    if not 10 <= ident <= 51 or skip < 256:
        fail("not a section header at %d" % pos)
    pos += skip
if pos + 256 != len(raw):
    fail("end of file section is not the end")
'''),
 dict(id="c02-v3-cell-ndof-slot", property="C02",
      edits=[(W3, '''                header.id = ic3_restart_codes["UGP_IO_CV_D3"]
                header.skip = header.hsize + type2nbytes["float64"] * totsize * 3
                header.idata[0] = ncv
                header.idata[1] = ndof
''', '''                header.id = ic3_restart_codes["UGP_IO_CV_D3"]
                header.skip = header.hsize + type2nbytes["float64"] * totsize * 3
                header.idata[0] = ncv
                header.idata[1] = 3
''')],
      needs="a cell vector field in a V3 file, read back",
      breaks="number of degrees of freedom of vectors is stored as the number of components: the reader takes three times too many values",
      demo=PRE + '''
m = cube()
v = np.random.rand(m.ncell, 3)
m.set_celldata(dataset("cellaverage", U=v, V=2 * v))
write_ic3(m, 3, "out.ic3")
try:
    r = read_ic3("out.ic3")
except Exception as e:
    fail("cannot read back: %r" % e)
got = r._celldata
if sorted(got.keys()) != ["U", "V"] or not np.array_equal(got["U"], v):
    fail("vector data changed")
'''),
 dict(id="c02-reader-face-slots", property="C02",
      edits=[(R, '''        # number of nodes from faces
        noofa_count = self.mesh["params"]["noofa_count"] = h.idata[3]''',
              '''        # number of nodes from faces (quads)
        noofa_count = self.mesh["params"]["noofa_count"] = 4 * fa_count''')],
      needs="a mesh with faces that are not all quadrangles",
      breaks="reader assumes four nodes per face instead of the stored number of face nodes",
      demo=PRE + '''
from cfdtools.meshbase._mesh import Mesh
from cfdtools.meshbase._connectivity import elem_connectivity
from cfdtools.data import DataSet
m = Mesh(ncell=1, nnode=4)
c = elem_connectivity()
c.add_elems("tetra4", np.array([[0, 1, 2, 3]]))
m.set_cell2node(c)
m.set_nodescoord_nd(np.array([[0., 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]]))
m.set_params({})
write_ic3(m, 2, "out.ic3")
try:
    r = read_ic3("out.ic3")
except Exception as e:
    fail("cannot read back: %r" % e)
if r.nface != 4:
    fail("faces lost")
'''),
]
