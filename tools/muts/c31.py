D = "cfdtools/data.py"
ROW = """            for i in range(nit):
                v[i, :] = np.log(
                    np.abs(fftm.rfft(self[name][hwin * i : hwin * (i + 2) + 1] * np.hanning(2 * hwin + 1)))
                )[lowcrop:]
"""
M = [
    ("spectrum window", "C31", D, "fftm.fft(self[name][imin:imax])", "fftm.fft(self[name])"),
    ("spectrum imax off", "C31", D, "fftm.fft(self[name][imin:imax])", "fftm.fft(self[name][imin : imax - 1 if imax else None])"),
    ("spectrum no abs", "C31", D, "np.abs(fftm.fft(self[name][imin:imax]))", "np.real(fftm.fft(self[name][imin:imax]))"),
    ("spectrum freq dt", "C31", D, "f = fftm.fftfreq(n, dtavg)", "f = fftm.fftfreq(n, self.dtstats()[0])"),
    ("spectrum freq whole", "C31", D, "        dtavg, dtdev, n = self.dtstats(imin, imax)  # check 'timeevol'", "        dtavg, dtdev, n = self.dtstats()  # check 'timeevol'"),
    ("spectrum rfft", "C31", D, "np.abs(fftm.fft(self[name][imin:imax]))", "np.abs(fftm.rfft(self[name][imin:imax]))"),
    ("spectrum shift", "C31", D, "f = fftm.fftfreq(n, dtavg)", "f = fftm.fftshift(fftm.fftfreq(n, dtavg))"),
    ("spectrum time kept", "C31", D, "        datalist = [name for name in (datafilter if datafilter else self.keys()) if name != 'time']\n        for name", "        datalist = [name for name in (datafilter if datafilter else self.keys())]\n        for name"),
    ("dt dev", "C31", D, "return np.mean(dt), np.std(dt), t.shape[0]", "return np.mean(dt), np.std(dt), dt.shape[0]"),
    ("dt window", "C31", D, "t = self._data['time'][imin:imax]", "t = self._data['time'][:imax]"),
    ("dt first", "C31", D, "return np.mean(dt),", "return dt[0],"),
    ("gram nit", "C31", D, "nit = (ntot - 1) // hwin - 1", "nit = int(2 * ntot / nwind) - 1"),
    ("gram nit short", "C31", D, "nit = (ntot - 1) // hwin - 1", "nit = ntot // hwin - 2"),
    ("gram freq", "C31", D, "f = fftm.rfftfreq(2 * hwin + 1, dtavg)", "f = fftm.fftfreq(nwind, dtavg)"),
    ("gram freq crop", "C31", D, "f[lowcrop : hwin + 1]", "f[: hwin + 1 - lowcrop]"),
    ("gram time start", "C31", D, "self['time'][hwin::hwin])[:-1]", "self['time'][::hwin])[:-2]"),
    ("gram time end", "C31", D, "self['time'][hwin::hwin])[:-1]", "self['time'][hwin::hwin])[1:]"),
    ("gram overlap", "C31", D, "self[name][hwin * i : hwin * (i + 2) + 1]", "self[name][hwin * i + i % 2 : hwin * (i + 2) + 1 + i % 2]"),
    ("gram crop", "C31", D, "                )[lowcrop:]", "                )[:-lowcrop]"),
    ("gram no window", None, D, " * np.hanning(2 * hwin + 1)", ""),
    ("gram same row", "C31", D, "v[i, :] = np.log(", "v[i // 2, :] = np.log("),
    ("gram first variable", "C31", D, "fftm.rfft(self[name][hwin", "fftm.rfft(self[datalist[0]][hwin"),
    ("gram range", "C31", D, "for i in range(nit):", "for i in range(nit - 1):"),
    ("gram filter", "C31", D, "        datalist = [name for name in (datafilter if datafilter else self.keys()) if name != 'time']\n        dtavg", "        datalist = [name for name in self.keys() if name != 'time']\n        dtavg"),
    # behaviour kept
    ("rf spectrum local", None, D, "np.abs(fftm.fft(self[name][imin:imax]))", "np.absolute(fftm.fft(self._data[name][slice(imin, imax)]))"),
    ("rf spectrum diff", None, D, "dt = t[1:] - t[:-1]", "dt = np.diff(t)"),
    ("rf len", None, D, "t.shape[0]", "len(t)"),
    ("rf gram rows", None, D, ROW, """            window = np.hanning(2 * hwin + 1)
            for i in range(nit):
                first = hwin * i
                piece = self[name][first : first + 2 * hwin + 1]
                amp = np.abs(fftm.rfft(piece * window))
                v[i] = np.log(amp)[lowcrop:]
"""),
    ("rf gram enumerate", None, D, "for i in range(nit):", "for i, _ in enumerate(newdataset['time']):"),
    ("rf gram list", None, D, "            v = np.zeros((nit, hwin + 1 - lowcrop))\n", "            v = np.empty((nit, hwin - 1))\n"),
    ("rf gram stack", None, D, "            v = np.zeros((nit, hwin + 1 - lowcrop))\n            # print(ntot, nit, nwind, hwin, newdataset['freq'].shape, f.shape)\n" + ROW, """            rows = [
                np.log(np.abs(fftm.rfft(self[name][hwin * i : hwin * (i + 2) + 1] * np.hanning(2 * hwin + 1))))[lowcrop:]
                for i in range(nit)
            ]
            v = np.array(rows)
"""),
    ("rf gram hwin", None, D, "hwin = int(nwind / 2)", "hwin = nwind // 2"),
    ("rf gram time", None, D, "(self['time'][hwin::hwin])[:-1]", "self['time'][hwin : hwin * nit + 1 : hwin]"),
    ("rf gram helper", None, [(D, ROW, """            for i in range(nit):
                v[i, :] = self._amplitudes(self[name][hwin * i : hwin * (i + 2) + 1])[lowcrop:]
"""), (D, "    def dataSet_spectrogram(", "    @staticmethod\n    def _amplitudes(values):\n        return np.log(np.abs(fftm.rfft(values * np.hanning(len(values)))))\n\n    def dataSet_spectrogram(")]),
]
