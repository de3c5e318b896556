D="cfdtools/probes/data.py"; PL="cfdtools/probes/plot.py"; CLI="cfdtools/_cli.py"
M=[
 ("dep missing","C22",D,'"Mach": ["U", "Asound"],','"Mach": ["U"],'),
 ("dep wrong","C22",D,'"INVX-": ["U-X", "Asound"],','"INVX-": ["U", "Asound"],'),
 ("sign","C22",D,"5 * self.alldata['Asound'] - self.alldata['U-X']","self.alldata['U-X'] - 5 * self.alldata['Asound']"),
 ("uz","C22",D,"self.alldata['U-Z'] ** 2","self.alldata['U-Y'] ** 2"),
 ("store wrong","C22",D,"self.alldata['INVX+'] =","self.alldata['INVX-'] ="),
 ("swap funcs","C22",D,'"INVX+": self.compute_invxp,\n            "INVX-": self.compute_invxm,','"INVX+": self.compute_invxm,\n            "INVX-": self.compute_invxp,'),
 ("R any deps (never False)",None,D,"success = np.all([self","success = np.any([self"),
 ("prefix","C22",D,"self.check_data(depvar, prefix) for","self.check_data(depvar) for"),
 ("entropy prec","C22",D,"np.log(self.alldata['P'] / self.alldata['RHO'] ** 1.4)","np.log((self.alldata['P'] / self.alldata['RHO']) ** 1.4)"),
 ("asound inplace","C22",D,"        self.alldata['Asound'] = np.sqrt(1.4","        self.alldata['P'] = 1.4 * self.alldata['P']\n        self.alldata['Asound'] = np.sqrt(1.0"),
 ("col","C22",D,"self.alldata[varname] = rdata[:, 3:]","self.alldata[varname] = rdata[:, 2:]"),
 ("time col","C22",D,'self.alldata["time"] = rdata[:, 1]','self.alldata["time"] = rdata[:, 0]'),
 ("stale","C22",D,"success = varname in self.alldata","success = False"),
 ("raise","C22",D,'                raise NameError(varname + " missing or unable to compute")','                log.error(varname + " missing or unable to compute")\n                return False'),
 ("recompute","C22",D,"        if not success:  # try to compute it\n            if varname","        if varname in self.dependency_vars or not success:  # try to compute it\n            if varname"),
 ("axis not asked","C22",CLI,"        var,\n        parser.args().axis,\n","        var,\n"),
 ("R alias",None,D,"        self.alldata['U'] = np.sqrt(\n            self.alldata['U-X'] ** 2 + self.alldata['U-Y'] ** 2 + self.alldata['U-Z'] ** 2\n        )","        d = self.alldata\n        sq = 0.0\n        for c in self.dependency_vars['U']:\n            sq = sq + d[c] * d[c]\n        d['U'] = np.sqrt(sq)"),
 ("R helper",None,D,"    def compute_Mach(self):\n        self.alldata['Mach'] = self.alldata['U'] / self.alldata['Asound']","    def _v(self, n):\n        return self.alldata[n]\n\n    def compute_Mach(self):\n        self.alldata['Mach'] = np.divide(self._v('U'), self._v('Asound'))"),
 ("R loop",None,D,"                success = np.all([self.check_data(depvar, prefix) for depvar in self.dependency_vars[varname]])","                success = True\n                for depvar in self.dependency_vars[varname]:\n                    success = self.check_data(depvar, prefix) and success"),
 ("R early",None,D,"        fname = prefix + \".\" + varname\n        if os.path.exists(fname):","        fname = f\"{prefix}.{varname}\"\n        exists = os.path.exists(fname)\n        if exists:"),
 ("R gamma",None,D,"class phydata:","GAMMA = 1.4\n\n\nclass phydata:"),
]
