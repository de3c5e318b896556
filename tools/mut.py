#!/usr/bin/env python3
"""development aid: run checks on scratch copies of /repo with small edits (see tools/muts/*.py)

usage: mut.py <list.py> [filter]      list.py defines M = [(name, expect, file, old, new[, count])]
expect: property id that must alarm, or None when every check must stay quiet"""
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def apply(root, edits):
    for f, old, new in edits:
        p = os.path.join(root, f)
        s = open(p).read()
        if old not in s:
            return f"text not found in {f}: {old[:60]!r}"
        open(p, "w").write(s.replace(old, new, 1))
    return None


def one(m, allids):
    name, expect, edits = m[0], m[1], m[2]
    if isinstance(edits, str):
        edits = [(m[2], m[3], m[4])]
    d = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
    try:
        for x in ("cfdtools", "pyproject.toml"):
            src = os.path.join(os.environ.get("MUT_BASE", "/repo"), x)
            (shutil.copytree if os.path.isdir(src) else shutil.copy)(src, os.path.join(d, x))
        e = apply(d, edits)
        if e:
            return name, expect, "BADEDIT " + e, ""
        import ast
        for f, _, _ in edits:
            ast.parse(open(os.path.join(d, f)).read())
        hits, out = [], ""
        ids = [expect] if expect and not os.environ.get("ALL") else allids
        for i in ids:
            r = subprocess.run(["/usr/bin/python3", os.path.join(HERE, "check.py"), i], capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d), cwd=HERE)
            if r.returncode != 0:
                hits.append(i)
                out += r.stdout[-1500:] + r.stderr[-500:]
        return name, expect, hits, out
    finally:
        shutil.rmtree(d)


def main():
    spec = importlib.util.spec_from_file_location("l", sys.argv[1])
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    flt = sys.argv[2] if len(sys.argv) > 2 else ""
    allids = sorted(f[:-3] for f in os.listdir(os.path.join(HERE, "checks")) if f.startswith("C") and f.endswith(".py"))
    ms = [m for m in mod.M if flt in m[0]]
    bad = 0
    with ThreadPoolExecutor(8) as ex:
        for name, expect, hits, out in ex.map(lambda m: one(m, allids), ms):
            if isinstance(hits, str):
                print("??", name, hits)
                bad += 1
            elif expect is None:
                print("ok quiet" if not hits else "FALSE ALARM", name, hits)
                if hits:
                    print(out)
                    bad += 1
            else:
                print("ok caught" if expect in hits else "MISSED", name, hits)
                bad += expect not in hits
                if os.environ.get("SHOW"):
                    print(out)
    print(len(ms), "edits,", bad, "unexpected")


main()
