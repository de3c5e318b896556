P = "cfdtools/utils/polybase.py"
V = "return np.array([self._polyeval(ibas)(self._roots) for ibas in self._basis])"
I = "return self.invvdm @ np.array([self._polyeval(ibas)(x) for ibas in self._basis])"
G = "return self.invvdm @ np.array([self._polyeval(ibas)(x) for ibas in self._gradbasis])"
B = "self._basis = [(0,) * i + (1,) for i in range(order)]"
GB = "self._gradbasis = [self._polyeval(ibas).deriv().coef for ibas in self._basis]"
R = "self._roots, self._wghts = roots_legendre(order)"
DEV = "cfdtools/utils/_dev.py"
M = [
    ("vdm transposed", "C33", P, V, V + ".T"),
    ("vdm legendre", "C33", P, V, V.replace("self._polyeval(ibas)", "polyL.Legendre(ibas)")),
    ("interp transposed", "C33", P, I, I.replace("self.invvdm", "self.invvdm.T")),
    ("grad transposed", "C33", P, G, G.replace("self.invvdm", "self.invvdm.T")),
    ("interp legendre only", "C33", P, I, I.replace("self._polyeval(ibas)", "polyL.Legendre(ibas)")),
    ("grad basis power", "C33", P, GB, GB.replace("self._polyeval(ibas)", "poly.Polynomial(ibas)")),
    ("grad second", "C33", P, GB, GB.replace("deriv()", "deriv(2)")),
    ("grad eval power", "C33", P, G, G.replace("self._polyeval(ibas)", "poly.Polynomial(ibas)")),
    ("grad of basis", "C33", P, G, G.replace("self._gradbasis", "self._basis")),
    ("basis short", "C33", P, B, B.replace("range(order)", "range(order - 1)")),
    ("basis long", "C33", P, B, B.replace("range(order)", "range(order + 1)")),
    ("basis ones", "C33", P, B, B.replace("(0,) * i", "(1,) * i")),
    ("basis shift", None, P, B, B.replace("(1,)", "(2,)")) if False else ("basis no constant", "C33", P, B, B.replace("range(order)", "range(1, order + 1)")),
    ("roots order+1", "C33", P, R, R.replace("(order)", "(order + 1)")),
    ("weights first", "C33", P, R, "self._wghts, self._roots = roots_legendre(order)"),
    ("weights normalised", "C33", P, R, R + "\n        self._wghts = self._wghts / 2"),
    ("roots 0 1", "C33", P, R, R + "\n        self._roots = (self._roots + 1) / 2"),
    ("cache in class", "C33", DEV, "        if not hasattr(self, attr_name):\n            setattr(self, attr_name, fn(self))", "        if not hasattr(self, attr_name):\n            setattr(type(self), attr_name, fn(self))"),
    ("cache one name", "C33", DEV, "attr_name = '_cache_' + fn.__name__", "attr_name = '_cache_' + fn.__name__[-3:]"),
    ("alias swapped", "C33", P, "    gradv_weights = diff_weights", "    gradv_weights = interp_weights"),
    ("dict swapped", "C33", P, "{'legendre': polyL.Legendre, 'polynomial': poly.Polynomial}", "{'polynomial': polyL.Legendre, 'legendre': poly.Polynomial}"),
    ("series forced", "C33", P, "self._polyeval = polybasis_dict[series]", "self._polyeval = polybasis_dict['legendre']"),
    ("pinv sign", "C33", P, "return lin.inv(self.vdm)", "return lin.inv(self.vdm.T)"),
    ("grad minus", "C33", P, G, G.replace("return self", "return -self")),
    ("sorted roots", "C33", P, V, V.replace("(self._roots)", "(self._roots[::-1])")),
    ("clip", "C33", P, I, I.replace("(x)", "(np.clip(x, -1.0, 1.0))")),
    ("clip gradient", "C33", P, G, G.replace("(x)", "(np.minimum(x, 1.0))")),
    ("first answer kept", "C33", P, I, "if not hasattr(self, '_last'):\n            self._last = " + I[7:] + "\n        return self._last"),
    # behaviour kept
    ("ok solve", None, P, I, "return lin.solve(self.vdm, np.array([self._polyeval(ibas)(x) for ibas in self._basis]))"),
    ("ok dot", None, P, I, I.replace("self.invvdm @ np.array(", "np.dot(self.invvdm, np.array(") + ")"),
    ("ok helper", None, [(P, I, "return self.invvdm @ self._values(self._basis, x)\n\n    def _values(self, coefs, x):\n        return np.array([self._polyeval(c)(x) for c in coefs])"), (P, G, "return self.invvdm @ self._values(self._gradbasis, x)"), (P, V, "return self._values(self._basis, self._roots)")]),
    ("ok deriv kept", None, [(P, GB, "self._gradbasis = [self._polyeval(ibas).deriv() for ibas in self._basis]"), (P, G, "return self.invvdm @ np.array([g(x) for g in self._gradbasis])")]),
    ("ok loop basis", None, P, B, "self._basis = []\n        for i in range(order):\n            self._basis.append((0,) * i + (1,))"),
    ("ok leggauss", None, P, R, "self._roots, self._wghts = polyL.leggauss(order)"),
    ("ok rename", None, [(P, R, "self._nodes, self._w = roots_legendre(order)"), (P, V, V.replace("_roots", "_nodes"))]),
    ("ok transpose", None, P, I, "return np.array([self._polyeval(ibas)(x) for ibas in self._basis]).T @ self.invvdm.T") if False else
    ("ok gauss weights", None, P, "return lin.inv(self.vdm)", "return lin.solve(self.vdm, np.eye(self._order))"),
    ("ok basis method", None, P, V, "return np.array([self._polyeval.basis(i)(self._roots) for i in range(self._order)])"),
    ("ok scale basis", None, P, "return lin.inv(self.vdm)", "inverse = lin.inv(self.vdm)\n        return inverse"),
]
