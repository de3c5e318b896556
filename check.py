#!/usr/bin/env python3
"""run one static check:  check.py <ID> [--tier quick|thorough]

exit 0: every decided obligation holds (or is a listed known finding); exit 1 + VIOLATION line otherwise.
"""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from sa.report import Report, load_known  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--verbose", "-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    mod = importlib.import_module("checks." + a.id)
    rep = Report(a.id, a.tier)
    try:
        mod.run(rep)
    except Exception as e:                      # analysis gives no verdict: never an alarm
        rep.undecided("internal", "analysis", f"{type(e).__name__}: {e}")
        if a.verbose:
            traceback.print_exc()
    except RecursionError as e:
        rep.undecided("internal", "analysis", f"RecursionError: {e}")
    known = load_known(os.path.join(HERE, "known_findings.txt"), a.id)
    new, old = [], []
    for v in rep.violations:
        (old if v["key"] in known else new).append(v)
    for k in sorted(known):
        if any(v["key"] == k for v in old):
            print(f"KNOWN-FINDING: property={a.id} {k} {known[k]}")
    evd = os.environ.get("VERIF_EVIDENCE") or os.path.join(HERE, "evidence")
    os.makedirs(evd, exist_ok=True)
    ev = rep.evidence(mod, time.time() - t0, len(new), len(old))
    with open(os.path.join(evd, a.id + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    if a.verbose:
        for o in rep.obligations:
            print(" ", o["status"], o["rule"], "|", o["where"], "|", o["what"])
    print(f"{a.id}: {ev['coverage']['obligations']} obligations, {ev['coverage']['discharged']} hold, "
          f"{ev['coverage']['undecided']} undecided, {len(new)} violated, {len(old)} known; {ev['wall_s']:.2f}s")
    if new:
        path = os.path.join(evd, a.id + ".replay.txt")
        with open(path, "w") as fh:
            fh.write(f"replay: python3 {os.path.join(HERE, 'check.py')} {a.id}\n")
            for v in new:
                fh.write(f"\n[{v['rule']}] {v['where']}\n  {v['what']}\n  key: {v['key']}\n")
        for v in new[:20]:
            print(f"  [{v['rule']}] {v['where']}: {v['what']}")
        print(f"VIOLATION property={a.id} replay={path}")
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
