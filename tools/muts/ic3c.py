W2, W3, R, H = ("cfdtools/ic3/" + x for x in ("writerV2.py", "writerV3.py", "reader_legacy.py", "_ic3.py"))
XR = '''        s = BinaryRead(
            self.fid, "%dd" % (no_count * 3), self.byte_swap, type2nbytes["float64"] * no_count * 3
        )
        self.mesh["coordinates"]'''
XW = '''        BinaryWrite(self.fid, self.endian, "d" * nnode * 3, self.coordinates.ravel(order='C'))'''
VW = '''        BinaryWrite(
            self.fid,
            self.endian,
            "i" * self.params["noofa_count"],
            self.f2v["noofa_v"].tolist(),
        )'''
ORD = "{'native': '=', 'little': '<', 'big': '>'}[self.endian]"
M = [
 ("r frombuffer", None, R, XR, '''        s = np.frombuffer(self.fid.read(no_count * 3 * 8), dtype='<f8' if self.byte_swap else '>f8')
        self.mesh["coordinates"]'''),
 ("frombuffer native", "C04", R, XR, '''        s = np.frombuffer(self.fid.read(no_count * 3 * 8), dtype=np.float64)
        self.mesh["coordinates"]'''),
 ("frombuffer f4", "C02", R, XR, '''        s = np.frombuffer(self.fid.read(no_count * 3 * 4), dtype='<f4' if self.byte_swap else '>f4')
        self.mesh["coordinates"]'''),
 ("r fromfile", None, R, XR, '''        s = np.fromfile(self.fid, dtype='<f8' if self.byte_swap else '>f8', count=no_count * 3)
        self.mesh["coordinates"]'''),
 ("fromfile count", "C02", R, XR, '''        s = np.fromfile(self.fid, dtype='<f8' if self.byte_swap else '>f8', count=no_count)
        self.mesh["coordinates"]'''),
 ("r tobytes", None, W2, XW, "        self.fid.write(np.asarray(self.coordinates, dtype=" + ORD + " + 'f8').tobytes())"),
 ("tobytes f4", "C02", W2, XW, "        self.fid.write(np.asarray(self.coordinates, dtype=" + ORD + " + 'f4').tobytes())"),
 ("tobytes native", "C04", W2, XW, "        self.fid.write(np.asarray(self.coordinates).tobytes())"),
 ("tofile native", "C04", W2, XW, "        self.coordinates.tofile(self.fid)"),
 ("tobytes F", "C02", W2, XW, "        self.fid.write(np.asarray(self.coordinates, dtype=" + ORD + " + 'f8').tobytes(order='F'))"),
 ("r noofa_v tobytes", None, W2, VW, "        self.fid.write(self.f2v['noofa_v'].astype(" + ORD + " + 'i4').tobytes())"),
 ("noofa_v i8", "C02", W2, VW, "        self.fid.write(self.f2v['noofa_v'].astype(" + ORD + " + 'i8').tobytes())"),
 ("noofa_v i8 length", "C01", W2, VW, "        self.fid.write(self.f2v['noofa_v'].astype(" + ORD + " + 'i8').tobytes())"),
]
