import os, sys
sys.path.insert(0, os.path.dirname(__file__))
from common import PRE
P = "cfdtools/probes/plot.py"
D = "cfdtools/probes/data.py"
MAP = PRE + '''
import os, tempfile
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from cfdtools.probes import data as pdata, plot as pplot
drawn = []
class Stop(Exception):
    pass
def contourf(*a, **k):
    drawn.append((a, k))
    raise Stop()
plt.contourf = contourf
def shown(f, d, axis="X", var="P", n=23):
    try:
        f(d, prefix="run", axis=axis, datalist=var, cmap="viridis", nlevels=n, verbose=False, check=False)
    except Stop:
        return drawn[-1]
'''
S = [
 dict(id="c32-mean-step", property="C32",
      edits=[(P, "f = fftm.fftfreq(n, dtavg)", "f = fftm.fftfreq(n, (t[-1] - t[0]) / n)")],
      needs="any probed signal: the time step is the length of the record over the number of samples",
      breaks="each row of the frequency map is drawn at a frequency slightly too high",
      demo=MAP + '''
d = pdata.phydata("run")
n = 1000
t = 2. + 0.25 * np.arange(n)
d.alldata.update(time=t, X=np.arange(3.), P=np.sin(t)[:, None] * np.arange(1., 4.))
a, k = shown(pplot.plot_freqmap, d)
if not np.allclose(a[1], np.arange(1, len(a[1]) + 1) / (n * 0.25), rtol=1e-6, atol=0):
    fail("frequencies %s" % a[1])
'''),
 dict(id="c32-time-of-last-file", property="C32",
      edits=[(D, 'self.alldata["time"] = rdata[:, 1]', 'self.alldata["time"] = rdata[:, 1] - rdata[0, 1]')],
      needs="a probe file whose record does not start at time zero",
      breaks="the time map is drawn on times that are not those of the file",
      demo=MAP + '''
with tempfile.TemporaryDirectory() as tmp:
    base = os.path.join(tmp, "probe")
    rows = np.array([[i, 5. + 0.5 * i, 3, 1. + i, 2. + i, 3. + i] for i in range(6)])
    np.savetxt(base + ".P", rows, delimiter=" ")
    d = pdata.phydata(base)
    d.check_data("P", prefix=base)
    d.alldata["X"] = np.arange(3.)
    a, k = shown(pplot.plot_timemap, d)
    if not np.allclose(a[1], rows[:, 1]) or not np.allclose(a[2], rows[:, 3:]):
        fail("times %s" % a[1])
'''),
 dict(id="c32-axis-of-first-line", property="C32",
      edits=[(P, "axis = np.mean(axisdata, axis=0)\n", "axis = axisdata[0]\n")],
      needs="a coordinate given by several lines that are not all alike",
      breaks="the map is drawn on the first line of the coordinate, not on their mean",
      demo=MAP + '''
d = pdata.phydata("run")
x = np.arange(12.).reshape(4, 3) ** 1.5
d.alldata.update(time=np.arange(4.), X=x, P=np.ones((4, 3)))
a, k = shown(pplot.plot_timemap, d)
if not np.allclose(a[0], x.mean(axis=0)):
    fail("axis %s" % a[0])
'''),
]
