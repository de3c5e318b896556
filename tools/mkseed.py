#!/usr/bin/env python3
"""development aid: build /verif/seeded/<id> from a spec and confirm it on /repo (applied and undone)

spec file: S = [dict(id=, property=, edits=[(file, old, new)], demo=python source, needs=, breaks=)]
usage: mkseed.py spec.py [id-filter] [--notest]"""
import importlib.util
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = None


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def orig_lines(f):
    """line numbers (1-based) of HEAD's file that come from the original repository"""
    r = sh(f"git -C /repo blame -s --line-porcelain HEAD -- {f}").stdout
    base = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.split()[0]
    out, n = set(), 0
    for line in r.splitlines():
        p = line.split()
        if len(p) >= 3 and len(p[0]) == 40 and all(c in "0123456789abcdef" for c in p[0]):
            cur = p[0]
            n = int(p[2])
        if line.startswith("\t") and cur == base:
            out.add(n)
    return out


def main():
    spec = importlib.util.spec_from_file_location("s", sys.argv[1])
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    flt = next((a for a in sys.argv[2:] if not a.startswith("--")), "")
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable_pass"]) if "stable_pass" in json.load(open("/opt/vp/BASELINE.json")) else None
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "/repo not clean"
    for s in mod.S:
        if flt not in s["id"]:
            continue
        d = os.path.join(HERE, "seeded", s["id"])
        if os.path.isdir(d):
            shutil.rmtree(d)
        os.makedirs(d)
        try:
            for f, old, new in s["edits"]:
                p = os.path.join("/repo", f)
                t = open(p).read()
                if t.count(old) != 1:
                    print(s["id"], "BAD EDIT", f, t.count(old), repr(old[:50]))
                    raise SystemExit
                open(p, "w").write(t.replace(old, new))
            diff = sh("git -C /repo diff").stdout
            dz = sh("git -C /repo diff -U0").stdout
            touched = False
            cur = None
            import re
            for line in dz.splitlines():
                if line.startswith("--- a/"):
                    cur = orig_lines(line[6:])
                m = re.match(r"@@ -(\d+)(?:,(\d+))? ", line)
                if m:
                    a, n = int(m.group(1)), int(m.group(2) or 1)
                    touched |= any(k in cur for k in range(a, a + n))
            if not touched:
                print(s["id"], "WARNING: no original line changed")
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            open(os.path.join(d, "demo.py"), "w").write(s["demo"].lstrip("\n"))
            open(os.path.join(d, "demo.sh"), "w").write(
                '#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\n'
                'here="$(cd "$(dirname "$0")" && pwd)"\nwork="$(mktemp -d)"\ntrap \'rm -rf "$work"\' EXIT\n'
                'export REPO="$PWD"\ncd "$work" || exit 3\n/opt/venv/bin/python "$here/demo.py"\n')
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                      open(os.path.join(d, "meta.json"), "w"), indent=1)
            with_patch = sh(f"bash {d}/demo.sh", cwd="/repo")
            tests = ""
            if "--notest" not in sys.argv:
                b = sh("bash /opt/vp/build.sh")
                t = sh("bash /opt/vp/test.sh /tmp/seedtest.json")
                res = json.load(open("/tmp/seedtest.json"))
                tests = f"build={b.returncode} " + judge(res)
            chk = sh(f"/usr/bin/python3 {HERE}/check.py {s['property']}", env=dict(os.environ, VERIF_EVIDENCE="/tmp"))
        finally:
            sh("git -C /repo checkout -- .")
        without = sh(f"bash {d}/demo.sh", cwd="/repo")
        ok = without.returncode == 0 and with_patch.returncode != 0
        print(s["id"], "demo", "OK" if ok else f"BAD (clean {without.returncode}, patched {with_patch.returncode})", tests,
              "CAUGHT" if chk.returncode == 1 else f"missed({chk.returncode})")
        if not ok:
            print(without.stdout[-800:], without.stderr[-800:], with_patch.stdout[-800:], with_patch.stderr[-800:])


def judge(res):
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = base.get("stable") or base.get("tests") or base.get("pass") or base.get("passed")
    got = res.get("pass") or res.get("passed") or []
    miss = [t for t in want if t not in got]
    return "tests ok" if not miss else f"TESTS FAIL {miss[:3]}"


main()
