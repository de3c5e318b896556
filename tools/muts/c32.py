P = "cfdtools/probes/plot.py"
D = "cfdtools/probes/data.py"
L = "cfdtools/plot.py"
CF = 'plt.contourf(axis, data.alldata["time"], data.alldata[var], levels=nlevels, cmap=colmap)'
FF = '''        axis,
        f[1 : n // 200],
        np.abs(psdmap[1 : n // 200, :]),
        levels=nlevels,'''
PS = "psdmap = np.abs(fftm.fft(data.alldata[var] - np.average(data.alldata[var]), axis=0))"
M = [
    ("time swap", "C32", P, CF, CF.replace('axis, data.alldata["time"]', 'data.alldata["time"], axis')),
    ("time shows axis", "C32", P, CF, CF.replace("data.alldata[var]", "data.alldata[kwargs['axis']]")),
    ("time half", "C32", P, CF, CF.replace('data.alldata["time"], data.alldata[var]', 'data.alldata["time"][::2], data.alldata[var][::2]')),
    ("time zero based", "C32", P, CF, CF.replace('data.alldata["time"]', '(data.alldata["time"] - data.alldata["time"][0])')),
    ("time reversed", "C32", P, CF, CF.replace("data.alldata[var]", "data.alldata[var][::-1]")),
    ("time columns reversed", "C32", P, CF, CF.replace("data.alldata[var]", "data.alldata[var][:, ::-1]")),
    ("time levels fixed", "C32", P, CF, CF.replace("levels=nlevels", "levels=30")),
    ("time levels none", "C32", P, CF, CF.replace("levels=nlevels, ", "")),
    ("time levels+1", "C32", P, CF, CF.replace("levels=nlevels", "levels=nlevels + 1")),
    ("time no cmap", "C32", P, CF, CF.replace(", cmap=colmap", "")),
    ("axis first line", "C32", P, "axis = np.mean(axisdata, axis=0)\n", "axis = axisdata[0]\n"),
    ("axis mean 1", "C32", P, "axis = np.mean(axisdata, axis=0)\n", "axis = np.mean(axisdata, axis=1)\n"),
    ("axis ndim 2", "C32", P, "if axisdata.ndim > 1:", "if axisdata.ndim > 2:"),
    ("axis relative", "C32", P, "        axis = axisdata\n", "        axis = axisdata - axisdata[0]\n"),
    ("axis squared", "C32", P, "        err = np.mean(axisdata**2, axis=0) - axis**2\n", "        err = np.mean(axisdata**2, axis=0) - axis**2\n        axis = axis + np.sqrt(np.abs(err))\n"),
    ("fft axis 1", "C32", P, PS, PS.replace("axis=0", "axis=1")),
    ("fft no axis", "C32", P, PS, PS.replace(", axis=0", "")),
    ("fft mean by time", "C32", P, PS, PS.replace("np.average(data.alldata[var])", "np.average(data.alldata[var], axis=1)[:, np.newaxis]")),
    ("fft minus instantaneous", "C32", P, PS, PS.replace("- np.average(data.alldata[var])", "- data.alldata[var][:, :1]")),
    ("fft real", "C32", P, PS, PS.replace("np.abs(fftm.fft(data.alldata[var] - np.average(data.alldata[var]), axis=0))", "np.real(fftm.fft(data.alldata[var] - np.average(data.alldata[var]), axis=0))")),
    ("freq from 0", "C32", P, "f[1 : n // 200],", "f[0 : n // 200 - 1],"),
    ("freq 2", "C32", P, "np.abs(psdmap[1 : n // 200, :])", "np.abs(psdmap[2 : n // 200 + 1, :])"),
    ("freq sizes", "C32", P, "np.abs(psdmap[1 : n // 200, :])", "np.abs(psdmap[: n // 200, :])"),
    ("freq dtmin", "C32", P, "f = fftm.fftfreq(n, dtavg)", "f = fftm.fftfreq(n, dtmin)"),
    ("freq no dt", "C32", P, "f = fftm.fftfreq(n, dtavg)", "f = fftm.fftfreq(n)"),
    ("freq n-1", "C32", P, "f = fftm.fftfreq(n, dtavg)", "f = fftm.fftfreq(n - 1, dtavg)"),
    ("freq n shape 1", "C32", P, "n = data.alldata[var].shape[0]", "n = data.alldata[var].shape[1]"),
    ("freq order of minavgmax", "C32", P, "dtmin, dtavg, dtmax = minavgmax", "dtavg, dtmin, dtmax = minavgmax"),
    ("freq t", "C32", P, "dtmin, dtavg, dtmax = minavgmax(t[1:] - t[:-1])", "dtmin, dtavg, dtmax = minavgmax(t[2:] - t[:-2])"),
    ("freq step of first", "C32", P, "f = fftm.fftfreq(n, dtavg)", "f = fftm.fftfreq(n, t[1] - t[0])"),
    ("freq levels", "C32", P, FF, FF.replace("levels=nlevels", "levels=nlevels // 2")),
    ("freq squared twice", None, P, FF, FF.replace("np.abs(psdmap[1 : n // 200, :])", "psdmap[1 : n // 200, :]")),
    ("name time", "C32", P, 'figname = basename + "." + var + ".time.png"', 'figname = basename + ".time.png"'),
    ("name freq is time", "C32", P, 'figname = basename + "." + var + ".freq.png"', 'figname = basename + "." + var + ".time.png"'),
    ("name axis", "C32", P, 'figname = basename + "." + var + ".freq.png"', 'figname = basename + "." + axis + ".freq.png"'),
    ("saved empty", "C32", P, '    colmap = cfdplt.normalizeCmap(cmap, nlevels)\n    if kwargs', '    fig.savefig(figname, bbox_inches="tight")\n    colmap = cfdplt.normalizeCmap(cmap, nlevels)\n    if kwargs'),
    ("minavgmax order", "C32", "cfdtools/utils/maths.py", "[np.min, np.average, np.max]", "[np.min, np.max, np.average]"),
    ("cmap bins", "C32", L, ".resampled(nBins)", ".resampled(256)"),
    ("cmap name", "C32", P, "colmap = cfdplt.normalizeCmap(cmap, nlevels)\n    if kwargs", "colmap = cfdplt.normalizeCmap('turbo', nlevels)\n    if kwargs"),
    ("read 2", "C32", D, "self.alldata[varname] = rdata[:, 3:]", "self.alldata[varname] = rdata[:, 2:]"),
    ("read time 0", "C32", D, 'self.alldata["time"] = rdata[:, 1]', 'self.alldata["time"] = rdata[:, 0]'),
    ("read time always", "C32", D, 'if "time" not in self.alldata:', 'if True:'),
    ("read 1d 2", "C32", D, "self.alldata[varname] = rdata[3:]", "self.alldata[varname] = rdata[2:]"),
    ("read coord 2", "C32", D, "self.alldata[varname] = rdata[0, 3:]", "self.alldata[varname] = rdata[0, 2:]"),
    ("read coord column", "C32", D, "self.alldata[varname] = rdata[0, 3:]", "self.alldata[varname] = rdata[:, 3]"),
    ("read coord ignored", "C32", D, "                if force_coordinate:", "                if force_coordinate and not self.verbose and 'X' in self.alldata:"),
    ("read name", "C32", D, 'fname = prefix + "." + varname', 'fname = self.basename + "." + varname.lower()'),
    ("read drop last", "C32", D, "self.alldata[varname] = rdata[:, 3:]", "self.alldata[varname] = rdata[:, 3:-1]"),
    # behaviour kept
    ("ok local", None, P, CF, 'vals = data.alldata[var]\n    t = data.alldata["time"]\n    plt.contourf(axis, t, vals, nlevels, cmap=colmap)'),
    ("ok rfft", None, [(P, PS, "psdmap = np.abs(fftm.rfft(data.alldata[var], axis=0))"), (P, "f = fftm.fftfreq(n, dtavg)", "f = fftm.rfftfreq(n, d=dtavg)")]),
    ("ok mean per probe", None, P, PS, PS.replace("np.average(data.alldata[var])", "np.average(data.alldata[var], axis=0)")),
    ("ok diff", None, P, "minavgmax(t[1:] - t[:-1])", "minavgmax(np.diff(t))"),
    ("ok len", None, P, "n = data.alldata[var].shape[0]", "n = len(data.alldata[var])"),
    ("ok mean method", None, P, "axis = np.mean(axisdata, axis=0)\n", "axis = axisdata.mean(axis=0)\n"),
    ("ok early return", None, P, "    else:\n        axis = axisdata\n    return axis", "        return axis\n    return axisdata"),
    ("ok fstring", None, P, 'figname = basename + "." + var + ".time.png"', 'figname = f"{basename}.{var}.time.png"'),
    ("ok helper save", None, P, '    log.info("> saving figure " + figname)\n    fig.savefig(figname, bbox_inches="tight")\n    fig.clf()\n\n\ndef plot_freqmap', '    _save(fig, figname)\n\n\ndef _save(fig, figname):\n    log.info("> saving figure " + figname)\n    fig.savefig(figname, bbox_inches="tight")\n    fig.clf()\n\n\ndef plot_freqmap'),
    ("ok window", None, P, FF, FF.replace("1 : n // 200", "1 : n // 100")),
    ("ok band", None, [(P, FF, FF.replace("f[1 : n // 200]", "f[band]").replace("np.abs(psdmap[1 : n // 200, :])", "psdmap[band]")), (P, "    n = data.alldata[var].shape[0]\n", "    n = data.alldata[var].shape[0]\n    band = slice(1, n // 200)\n")]),
    ("ok shape test", None, P, "if axisdata.ndim > 1:", "if len(axisdata.shape) > 1:"),
    ("ok ndim swap", None, [(D, "if rdata.ndim == 1:  # supposed to be coordinate", "table = np.atleast_2d(rdata)[:, 3:]\n            if rdata.ndim == 1:  # supposed to be coordinate"), (D, "self.alldata[varname] = rdata[3:]", "self.alldata[varname] = table[0]")]),
    ("ok values local", None, [(D, "self.alldata[varname] = rdata[:, 3:]", "self.alldata[varname] = values"), (D, "                if force_coordinate:", "                values = rdata[:, 3:]\n                if force_coordinate:")]),
    ("ok setdefault", None, D, '''                    if "time" not in self.alldata:
                        # if time missing, get it from current data, no consistency test with other data
                        if self.verbose:
                            log.info(" . define 'time'")
                        self.alldata["time"] = rdata[:, 1]''', '''                    self.alldata.setdefault("time", rdata[:, 1])'''),
]
