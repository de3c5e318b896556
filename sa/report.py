"""obligations, verdicts, evidence"""
import os


class Report:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.obligations = []
        self.analysed = set()
        self.paths = 0
        self.extra = {}
        self._keys = set()

    @property
    def thorough(self):
        return self.tier == "thorough"

    @property
    def violations(self):
        return [o for o in self.obligations if o["status"] == "violated"]

    def _add(self, status, rule, where, what, key=None):
        k = (status, rule, where, what)
        if k in self._keys:
            return
        self._keys.add(k)
        self.obligations.append({"status": status, "rule": rule, "where": where, "what": what,
                                 "key": key or f"{rule}@{where}"})

    def ok(self, rule, where, what=""):
        self._add("holds", rule, where, what)

    def bad(self, rule, where, what, key=None):
        self._add("violated", rule, where, what, key)

    def undecided(self, rule, where, what=""):
        self._add("undecided", rule, where, what)

    def check(self, cond, rule, where, what="", key=None):
        """cond: True holds / False violated / None undecided"""
        if cond is None:
            self.undecided(rule, where, what)
        elif cond:
            self.ok(rule, where, what)
        else:
            self.bad(rule, where, what, key)

    def function(self, *names):
        self.analysed.update(names)

    def evidence(self, mod, wall, new, old):
        by = {}
        for o in self.obligations:
            by.setdefault(o["rule"], {"holds": 0, "violated": 0, "undecided": 0})[o["status"]] += 1
        rules = getattr(mod, "RULES", {})
        n = len(self.obligations)
        held = sum(1 for o in self.obligations if o["status"] == "holds")
        und = [o for o in self.obligations if o["status"] == "undecided"]
        cov = {
            "explanation": (mod.__doc__ or "").strip(),
            "obligations": n,
            "discharged": held,
            "undecided": len(und),
            "undecided_items": [f"[{o['rule']}] {o['where']}: {o['what']}" for o in und[:40]],
            "violated": [f"[{o['rule']}] {o['where']}: {o['what']}" for o in self.violations[:40]],
            "rules": {r: dict(v, rule=rules.get(r, "")) for r, v in sorted(by.items())},
            "functions_analysed": len(self.analysed),
            "functions": sorted(self.analysed)[:150],
            "samples": [f"[{o['rule']}] {o['where']}: {o['what']} -> {o['status']}" for o in self.obligations[:12]],
        }
        cov.update(self.extra)
        return {"property": self.pid, "tier": self.tier if self.tier in ("quick", "thorough") else "quick",
                "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other", "coverage": cov,
                "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(wall, 3), "violations": new}


def load_known(path, pid):
    """finding lines:  finding: property=<id> key=<key> <what fails>   (fixed: lines suppress nothing)"""
    out = {}
    if not os.path.exists(path):
        return out
    with open(path) as fh:
        for line in fh:
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                if rest.startswith("key="):
                    key, _, what = rest[4:].partition(" :: ")
                    out[key] = what
    return out
