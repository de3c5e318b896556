W2, W3, R, H = ("cfdtools/ic3/" + x for x in ("writerV2.py", "writerV3.py", "reader_legacy.py", "_ic3.py"))
M = [
 ("c01 noofa skip v2", "C01", W2, 'type2nbytes["int32"] * nface + type2nbytes["int32"] * self.params["noofa_count"]', 'type2nbytes["int32"] * nface + type2nbytes["int64"] * self.params["noofa_count"]'),
 ("c01 tensor skip v2", "C01", W2, 'type2nbytes["float64"] * ncv * 9', 'type2nbytes["float64"] * ncv * 3'),
 ("c01 hop", "C01", H, 'bfile.seek(self.skip() - 256, os.SEEK_CUR)', 'bfile.seek(self.skip(), os.SEEK_CUR)'),
 ("c01 hop idata", "C01", H, 's[nlen + self.id.size]  # store', 's[nlen + self.id.size + 1]  # store'),
 ("c02 idata0", "C02", R, 'fa_count = self.mesh["params"]["fa_count"] = h.idata[1]', 'fa_count = self.mesh["params"]["fa_count"] = h.idata[2]'),
 ("c02 order F", "C02", W2, 'self.coordinates.ravel(order=\'C\')', 'self.coordinates.ravel(order=\'F\')'),
 ("c02 reshape T", "C02", R, 'np.asarray(s).reshape(no_count, 3))', 'np.asarray(s).reshape(3, no_count).T)'),
 ("c02 f2c reshape", "C02", R, '.reshape((fa_count, 2))', '.reshape((2, fa_count)).T'),
 ("c02 index zero", "C02", R, 'np.concatenate(([0], np.cumsum(nno_per_face)))', 'np.concatenate(([0], nno_per_face))'),
 ("c02 vec count", "C02", R, '"%dd" % (ndof * cv_count * 3),\n', '"%dd" % (cv_count * 3),\n'),
 ("c02 assert noofa", "C02", R, 'assert h.idata[1] == noofa_count', 'assert h.idata[1] == no_count'),
 ("c02 header idata 7", "C02", H, 'self.binstr += "qqqqqqqq"  # idata (long long)', 'self.binstr += "iqqqqqqqi"  # idata (long long)'),
 ("c02 npart", "C02", R, "self.mesh[\"partition\"]['npart'] = h.idata[1]", "self.mesh[\"partition\"]['npart'] = h.idata[0]"),
 ("c02 reader q type", "C02", H, 'ic3_restart_codes["UGP_IO_NO_II1"]: {scode: "q", sz: 8', 'ic3_restart_codes["UGP_IO_NO_II1"]: {scode: "i", sz: 4'),
 ("c02 write noofa", "C02", W2, '"i" * nface, self.f2v["noofa"].tolist()', '"i" * nface, self.f2v["noofa_v"].tolist()'),
 ("c02 v3 data skip sect", "C02", W3, 'header.idata[1] = self.vars["cells"].ndof', 'header.idata[1] = 3'),
]
