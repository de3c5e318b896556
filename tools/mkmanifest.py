#!/usr/bin/env python3
"""development aid: (re)write MANIFEST.json from properties.jsonl and the registered checks"""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
NA = {
 "N03": "Conservation and exactness of the convolution are arithmetic facts on runtime weights and volumes; a static rule could only freeze the present formula.",
 "N04": "Bit-identity across chains of formats depends on third-party encoders (meshio, h5py, vtk) and on runtime values; the layout clauses of it that are structural are claimed separately as C02, C03, C05, C06 and C27.",
}


def main():
    checks, na = [], []
    for line in open(os.path.join(HERE, "properties.jsonl")):
        p = json.loads(line)["id"]
        if p in NA:
            na.append({"property": p, "reason": NA[p]})
            continue
        if not os.path.exists(os.path.join(HERE, "checks", p + ".py")):
            na.append({"property": p, "reason": "no sound static check for it is registered yet (see DESIGN.md)"})
            continue
        m = importlib.import_module("checks." + p)
        if getattr(m, "NOT_CLAIMED", None):
            na.append({"property": p, "reason": m.NOT_CLAIMED})
            continue
        checks.append({"property": p,
                       "quick_cmd": f"/usr/bin/python3 check.py {p} --tier quick",
                       "thorough_cmd": f"/usr/bin/python3 check.py {p} --tier thorough",
                       "technique": m.TECHNIQUE, "level": "other", "level_note": m.LEVEL_NOTE})
    json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na},
              open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "claimed", len(na), "not")


main()
