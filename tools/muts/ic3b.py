W2, W3, R, H = ("cfdtools/ic3/" + x for x in ("writerV2.py", "writerV3.py", "reader_legacy.py", "_ic3.py"))
M = [
 ("c03 size test node", "C03", R, 'elif h.id[0] in node_sections:\n                s = BinaryRead(self.fid, "%d" % no_count', 'elif h.idata[0] == no_count:\n                s = BinaryRead(self.fid, "%d" % no_count'),
 ("c03 face to node", "C03", R, 'self.facedata.add_data(h.name, scalar)', 'self.nodedata.add_data(h.name, scalar)'),
 ("c03 face vec to cell", "C03", R, 'self.facedata.add_data(h.name, vector)', 'self.celldata.add_data(h.name, vector)'),
 ("c03 missing kind in list", "C03", R, '("FA", ("D1", "D3", "II1")),', '("FA", ("D1", "II1")),'),
 ("c03 reshape F", "C03", R, 'np.asarray(s).reshape((no_count, 3))\n                self.nodedata', 'np.asarray(s).reshape((3, no_count)).T\n                self.nodedata'),
 ("c03 v2 id vec", "C03", W2, 'header.id = ic3_restart_codes["UGP_IO_CV_D3"]', 'header.id = ic3_restart_codes["UGP_IO_NO_D3"]'),
 ("c03 v3 lookup int", "C03", W3, '', ''),
 ("c03 v2 tensor guard", "C03", W2, 'if len(cvdata.shape) == 3:', 'if len(cvdata.shape) > 3:'),
 ("c03 v2 vec guard", "C03", W2, 'if len(nddata.shape) == 2:', 'if len(nddata.shape) == 1:'),
 ("c03 v2 tensor ravel F", "C03", W2, '"d" * ncv * 9,\n                    cvdata.ravel(order=\'C\')', '"d" * ncv * 9,\n                    cvdata.ravel(order=\'F\')'),
 ("c03 v2 vars", "C03", W2, '"nodes": self._mesh._nodedata', '"nodes": self._mesh._facedata'),
 ("c03 ref items->keys", None, W2, '''for cvname, cvdata in self.vars["cells"].items():
            # Tensor
            if len(cvdata.shape) == 3:''', '''for cvname in self.vars["cells"].keys():
            cvdata = self.vars["cells"][cvname]
            # Tensor
            if cvdata.ndim == 3:'''),
 ("c03 ref guard", None, W2, 'if nddata.size == nddata.shape[0]:', 'if len(nddata.shape) == 1:'),
 ("c03 ref continue", None, W2, '''            if len(nddata.shape) == 2:
                log.info(f"  write node vector data {ndname}")''', '''            is_vector = len(nddata.shape) == 2
            if is_vector:
                log.info(f"  write node vector data {ndname}")'''),
 ("c04 be header", "C04", H, "if byte_swap:  # little-endian\n        form = '<' + form", "if byte_swap and len(form) < 64:  # little-endian\n        form = '<' + form"),
 ("c04 writer eof", "C04", W2, 'header.name = "EOF"\n            header.id = ic3_restart_codes["UGP_IO_EOF"]\n            header.skip = header.hsize\n            header.write(self.fid, self.endian)', 'header.name = "EOF"\n            header.id = ic3_restart_codes["UGP_IO_EOF"]\n            header.skip = header.hsize\n            header.write(self.fid, "native")'),
 ("c04 table", "C04", H, "'<'", "'='"),
 ("c04 coords", "C04", W2, 'BinaryWrite(self.fid, self.endian, "d" * nnode * 3', 'BinaryWrite(self.fid, "little", "d" * nnode * 3'),
 ("c05 kind", "C05", H, '"perio_cylx": 3', '"perio_cylx": 4'),
 ("c05 range swapped", "C05", W2, 'header.idata[1] = ifmin\n            header.idata[2] = ifmax\n            last', 'header.idata[1] = ifmax\n            header.idata[2] = ifmin\n            last'),
 ("c05 perio rdata", "C05", R, 'boco.properties["periodic_transform"] = h.rdata', 'boco.properties["periodic_transform"] = h.rdata[:3]'),
 ("c05 perio shift", "C05", W2, 'header.rdata[idx] = val', 'header.rdata[idx - 1] = val'),
 ("c05 last boco", "C05", W2, 'last_boco = max(last_boco, ifmax)', 'last_boco = max(last_boco, ifmin)'),
 ("c05 last boco off", "C05", W2, 'ifmin, ifmax = last_boco + 1, self.params[\'fa_count\'] - 1', 'ifmin, ifmax = last_boco, self.params[\'fa_count\'] - 1'),
 ("c05 last boco overwritten", "C05", W2, 'last_boco = max(last_boco, ifmax)', 'last_boco = ifmax'),
 ("c05 internal end", "C05", W2, 'last_boco + 1, self.params[\'fa_count\'] - 1', 'last_boco + 1, self.params[\'fa_count\']'),
 ("c05 internal kind", "C05", W2, "type2zonekind['internal']", "type2zonekind['boundary']"),
 ("c05 npart", "C05", W2, "self.params['partition'].get('npart', 1)", "self.params['partition'].get('nparts', 1)"),
 ("c05 time", "C05", W2, 'for key in ["DT", "TIME"]', 'for key in ["DT"]'),
 ("c05 time slot", "C05", R, 'self.simulation_state[h.name.lower()] = h.rdata[0]', 'self.simulation_state[h.name.lower()] = h.rdata[1]'),
 ("c05 step slot", "C05", R, 'self.simulation_state[h.name.lower()] = h.idata[0]', 'self.simulation_state[h.name.lower()] = h.idata[1]'),
 ("c05 wgt suffix", "C05", W2, "key.upper() + '_WGT'", "key.upper() + 'WGT'"),
 ("c05 wgt none", "C05", W2, "self.simstate['wgt'] = {**weights, **self.simstate['wgt']}", "self.simstate['wgt'] = {**self.simstate['wgt']}"),
 ("c05 wgt const", "C05", W2, 'header.rdata[0] = self.simstate["wgt"][key]', 'header.rdata[0] = 1.0'),
 ("c05 time from dt", "C05", W2, 'header.rdata[0] = value', 'header.rdata[0] = self.simstate["time"]'),
 ("c05 ref enumerate", None, W2, 'for idx, val in enumerate(boco.properties["periodic_transform"]):\n                        header.rdata[idx] = val', 'for idx in range(len(boco.properties["periodic_transform"])):\n                        header.rdata[idx] = boco.properties["periodic_transform"][idx]'),
 ("c05 ref perio slice", None, W2, 'for idx, val in enumerate(boco.properties["periodic_transform"]):\n                        header.rdata[idx] = val', 'header.rdata[:] = boco.properties["periodic_transform"]'),
 ("c05 ref last", None, W2, 'last_boco = max(last_boco, ifmax)', 'if ifmax > last_boco:\n                last_boco = ifmax'),
 ("c05 ref next", None, W2, [(W2, 'ifmin, ifmax = last_boco + 1, self.params[\'fa_count\'] - 1  # last face', 'first_internal = last_boco + 1\n        ifmin, ifmax = first_internal, self.params[\'fa_count\'] - 1  # last face')][0][1], 'first_internal = last_boco + 1\n        ifmin, ifmax = first_internal, self.params[\'fa_count\'] - 1  # last face'),
 ("c05 ref zone helper", None, R, 'boco = _mesh.submeshmark(h.name)\n            boco.type = zonekind2type[h.idata[0]]', 'kind, first, last = h.idata[:3]\n            boco = _mesh.submeshmark(h.name)\n            boco.type = zonekind2type[kind]'),
]
M=[m for m in M if m[3]]
