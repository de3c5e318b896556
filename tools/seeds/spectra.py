import os, sys
sys.path.insert(0, os.path.dirname(__file__))
from common import PRE
D = "cfdtools/data.py"
SIG = PRE + '''
from cfdtools.data import DataSet
def signal(n, dt=0.5):
    d = DataSet(Trep="timeevol")
    t = 3. + np.arange(n) * dt
    d.add_data("time", t)
    d.add_data("P", np.sin(1.7 * t) + 0.2 * np.arange(n))
    return d
'''
S = [
 dict(id="c31-window-start", property="C31",
      edits=[(D, "t = self._data['time'][imin:imax]", "t = self._data['time'][:imax][imin or 0 :]")],
      needs="a window given by a negative start and an end (counted from the end of the signal)",
      breaks="frequencies and values of the spectrum have different sizes",
      demo=SIG + '''
for lo, hi in ((None, None), (2, 9), (None, -3), (-8, None), (-8, -2), (-8, 10)):
    s = signal(12).dataSet_spectrum(imin=lo, imax=hi)
    n = len(range(12)[lo:hi])
    if s["freq"].shape != (n,) or s["P"].shape != (n,):
        fail("window %s:%s: %s frequencies, %s values" % (lo, hi, s["freq"].shape, s["P"].shape))
'''),
 dict(id="c31-time-of-slices", property="C31",
      edits=[(D, "newdataset.add_data('time', (self['time'][hwin::hwin])[:-1])", "newdataset.add_data('time', (self['time'][nwind - hwin :: hwin])[: (ntot - 1) // hwin - 1])")],
      needs="a window with an odd number of samples",
      breaks="the time of each slice is one sample late",
      demo=SIG + '''
for n, w in ((21, 4), (21, 5), (43, 7), (30, 6)):
    d = signal(n)
    s = d.dataSet_spectrogram(window=w)
    h = w // 2
    if s["time"].shape[0] != s["P"].shape[0] or not np.allclose(s["time"], [d["time"][h * (i + 1)] for i in range(s["P"].shape[0])]):
        fail("%d samples, window %d: times %s" % (n, w, s["time"]))
'''),
]
