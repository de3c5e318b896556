W, R, W2 = "cfdtools/ic3/writerV4.py", "cfdtools/ic3/readerV4.py", "cfdtools/ic3/writerV2.py"
M = [
 ("w coord path", "C06", W, 'fid.create_dataset("coordinates", data', 'fid.create_dataset("Coordinates", data'),
 ("r stats name", "C06", [(R, "        if 'VolumeStats' in fid:\n            read_vars(fid['VolumeStats'], fid['VolumeStats'].keys())", "        if 'Statistics' in fid:\n            read_vars(fid['Statistics'], fid['Statistics'].keys())")]),
 ("w stats group", "C06", W, 'create_group("VolumeStats")', 'create_group("Volumestats")'),
 ("w both coord", None, [(W, 'fid.create_dataset("coordinates", data', 'fid.create_dataset("Coordinates", data'), (W, 'fid["coordinates"].attrs', 'fid["Coordinates"].attrs'), (R, "fid['coordinates']", "fid['Coordinates']")]),
 ("w no_count attr", "C06", W, "                'no_count': self._mesh.nnode,", "                'node_count': self._mesh.nnode,"),
 ("counts swapped", "C06", [(W, "'no_count': self._mesh.nnode", "'no_count': self._mesh.ncell"), (W, '"cv_count": self._mesh.ncell', '"cv_count": self._mesh.nnode')]),
 ("coord order F", "C06", W, "data=coordinates.ravel())", "data=coordinates.ravel(order='F'))"),
 ("coord transposed", "C06", R, "fid['coordinates'][()].reshape(no_count, 3)", "fid['coordinates'][()].reshape(3, no_count).T"),
 ("coord f4", "C06", W, 'fid.create_dataset("coordinates", data=coordinates.ravel())', 'fid.create_dataset("coordinates", data=coordinates.ravel(), dtype="f4")'),
 ("rho f4", "C06", W, "create_dataset(cvname.lower(), data=cvdata.ravel(order='C'), dtype='f8')\n        return\n\n    def _write_solution_stats", "create_dataset(cvname.lower(), data=cvdata.ravel(order='C'), dtype='f4')\n        return\n\n    def _write_solution_stats"),
 ("stats order F", "C06", W, "            volume_group.create_dataset(cvname.lower(), data=cvdata.ravel(order='C'), dtype='f8')", "            volume_group.create_dataset(cvname.lower(), data=cvdata.ravel(order='F'), dtype='f8')"),
 ("reader reshape T", "C06", R, "field = field.reshape(-1, nb_fields)", "field = field.reshape(nb_fields, -1).T"),
 ("reader drops upper", "C06", R, "var_up = var.upper()", "var_up = var"),
 ("reader forgets rhou", "C06", R, "('rho', 'rhou', 'rhoe')", "('rho', 'rhoe')"),
 ("reader loops names ok", None, R, "        read_vars(fid, [var for var in ('rho', 'rhou', 'rhoe') if var in fid])", "        for var in ('rho', 'rhou', 'rhoe'):\n            if var in fid:\n                read_vars(fid, [var])"),
 ("mark last off", "C06", R, "max_range = offsets[1:] - 1", "max_range = offsets[1:]"),
 ("mark first off", "C06", R, "min_range = offsets[:-1]", "min_range = offsets[:-1] + 1"),
 ("mark writer max", "C06", W, "            min_range.append(ifmin)\n            max_range", "            min_range.append(ifmax)\n            max_range"),
 ("internal start", "C06", W, "ifmin, ifmax = last_boco + 1,", "ifmin, ifmax = last_boco,"),
 ("end", "C06", W, "        min_range.append(ifmax)\n\n        dt", "        min_range.append(ifmax - 1)\n\n        dt"),
 ("sort by label", "C06", W, "key=lambda x: x[0]", "key=lambda x: x[1]"),
 ("no sort key ok", None, W, ", key=lambda x: x[0])", ")"),
 ("only offsets sorted", "C06", W, "        min_range, labels, kinds = zip(*sorted(zip(min_range, labels, kinds), key=lambda x: x[0]))\n        min_range = list(min_range)\n", "        min_range = sorted(min_range)\n"),
 ("kind table", "C06", W, "kinds.append(type2zonekind[boco.type])", "kinds.append(1)"),
 ("periodic group name", "C06", W, "per_group = bnd_group.create_group(boco.name)", "per_group = bnd_group.create_group(boco.type)"),
 ("periodic not under label", "C06", R, "if label in fid['Boundaries']:", "if label in fid['Connectivities']:"),
 ("periodic name", "C06", W, '                        "periodic_transform",\n                        3', '                        "transform",\n                        3'),
 ("periodic f4", "C06", W, '                        dtype="f8"', '                        dtype="f4"'),
 ("time not written", "C06", W, '                "time": self._mesh._params.get(\'time\', 0),\n', ''),
 ("time from step", "C06", W, "self._mesh._params.get('time', 0)", "self._mesh._params.get('step', 0)"),
 ("weights dropped", "C06", R, "        if 'VolumeStats' in fid:\n            self._read_informative_values(fid['VolumeStats'])", "        pass"),
 ("labels swapped kinds", "C06", W, "min_range, labels, kinds = zip(*sorted(zip(min_range, labels, kinds), key", "min_range, kinds, labels = zip(*sorted(zip(min_range, labels, kinds), key"),
 ("cvofa reshape", "C06", R, ".reshape((fa_count, 2))", ".reshape((2, fa_count)).T"),
 ("noofa no leading 0", "C06", R, "np.concatenate(([0], np.cumsum(nno_per_face)))", "np.cumsum(nno_per_face)"),
 ("noofa swapped", "C06", [(W, "'noofa_i', data=self.f2v[\"noofa\"]", "'noofa_i', data=self.f2v[\"noofa_v\"]"), (W, "'noofa_v', data=self.f2v[\"noofa_v\"]", "'noofa_v', data=self.f2v[\"noofa\"]")]),
 ("int16 table", "C06", W, "data=self.f2v[\"noofa_v\"], dtype='i4'", "data=self.f2v[\"noofa_v\"], dtype='i2'"),
 ("stats rey forgotten lower", "C06", W, "cvdata = self.vars[\"cells\"][cvname]\n            log.debug('  ' + cvname)\n            volume_group.create_dataset(cvname.lower(), data", "cvdata = self.vars[\"cells\"][stats_var[0]]\n            log.debug('  ' + cvname)\n            volume_group.create_dataset(cvname.lower(), data"),
 ("boundaries read but skip last", "C06", R, "zip(labels, kinds, min_range, max_range)", "zip(labels, kinds, min_range[1:], max_range)"),
 ("group constants ok", None, [(W, "import h5py\n", "import h5py\n\nBND = 'Boundaries'\n"), (W, 'fid.create_group("Boundaries")', "fid.create_group(BND)"), (W, "bnd_group.create_dataset('offsets'", "fid[BND].create_dataset('offsets'")]),
 ("reader bnd local ok", None, [(R, "            offsets = fid['Boundaries']['offsets'][()]", "            bnd = fid['Boundaries']\n            offsets = bnd['offsets'][:]"), (R, "            labels = fid['Boundaries']['labels'][()]", "            labels = np.array(bnd['labels'])")]),
 ("append offsets end ok", None, W, "        min_range = list(min_range)\n        min_range.append(ifmax)\n", "        min_range = [*min_range, ifmax]\n"),
 ("dict group ok", None, R, "            read_vars(fid['VolumeStats'], fid['VolumeStats'].keys())", "            stats = dict(fid['VolumeStats'])\n            read_vars(stats, list(stats))"),
 ("items ok", None, R, "            read_vars(fid['VolumeStats'], fid['VolumeStats'].keys())", "            group = fid['VolumeStats']\n            read_vars(group, [name for name in group])"),
 ("rho written wrong", "C06", W, "            for cvname in ['RHO', 'RHOU', 'RHOE']:\n                cvdata = self.vars[\"cells\"][cvname]", "            for cvname in ['RHO', 'RHOU', 'RHOE']:\n                cvdata = self.vars[\"cells\"]['RHO']"),
]
