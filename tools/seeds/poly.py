import os, sys
sys.path.insert(0, os.path.dirname(__file__))
from common import PRE
P = "cfdtools/utils/polybase.py"
POL = PRE + '''
from cfdtools.utils.polybase import poly1d
'''
S = [
 dict(id="c33-position-clipped", property="C33",
      edits=[(P, "return self.invvdm @ np.array([self._polyeval(ibas)(x) for ibas in self._gradbasis])", "return self.invvdm @ np.array([self._polyeval(ibas)(np.clip(x, self._roots[0], self._roots[-1]) if self._order > 5 else x) for ibas in self._gradbasis])")],
      needs="the gradient of a basis of order six or more between the last node and the end of the interval",
      breaks="the gradient is the one at the last node",
      demo=POL + '''
for series in ("legendre", "polynomial"):
    for n in (2, 3, 5, 6, 7):
        b = poly1d(n, series)
        for x in (-1., 0.3, 0.98):
            for k in range(1, n):
                if not np.isclose(b.diff_weights(x) @ b._roots ** k, k * x ** (k - 1)):
                    fail("%s of order %d: derivative of x**%d at %s" % (series, n, k, x))
'''),
 dict(id="c33-weights-of-mean", property="C33",
      edits=[(P, "self._roots, self._wghts = roots_legendre(order)", "self._roots, self._wghts, total = roots_legendre(order, mu=True)\n        self._wghts /= total")],
      needs="the weights of the nodes used to integrate",
      breaks="the weights give the mean over the interval, not the integral",
      demo=POL + '''
for n in (2, 3, 4):
    b = poly1d(n)
    for k in range(2 * n):
        if not np.isclose(b._wghts @ b._roots ** k, 0 if k % 2 else 2. / (k + 1), atol=1e-12):
            fail("order %d: integral of x**%d is %s" % (n, k, b._wghts @ b._roots ** k))
'''),
]
