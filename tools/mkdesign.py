#!/usr/bin/env python3
"""(re)write DESIGN.md from tools/design/*.md, the checks, the evidence and the planted bugs"""
import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
D = os.path.join(HERE, "tools", "design")


def read(n):
    return open(os.path.join(D, n)).read()


def main():
    out = [read("head.md")]
    muts = json.load(open(os.path.join(D, "mutants.json"))) if os.path.exists(os.path.join(D, "mutants.json")) else {}
    na = []
    for line in open(os.path.join(HERE, "properties.jsonl")):
        p = json.loads(line)
        f = os.path.join(HERE, "checks", p["id"] + ".py")
        if not os.path.exists(f):
            na.append(p)
            continue
        m = importlib.import_module("checks." + p["id"])
        out.append(f"### {p['id']} {p['title']}\n")
        out.append(m.__doc__.strip() + "\n")
        out.append("Rules (the oracle):\n" + "\n".join(f"* `{k}`: {v}" for k, v in m.RULES.items()) + "\n")
        out.append("Bounds: " + m.LEVEL_NOTE + "\n")
        if m.ASSUMPTIONS:
            out.append("Assumptions: " + "; ".join(m.ASSUMPTIONS) + ".\n")
        if p["id"] in muts:
            out.append("Mutation lists: " + muts[p["id"]] + "\n")
    out.append("\n## 3. Planted bugs (`seeded/`) and what catches them\n")
    out.append("| planted bug | property | caught by its check | needs |\n|---|---|---|---|")
    res = json.load(open(os.path.join(D, "seeds.json"))) if os.path.exists(os.path.join(D, "seeds.json")) else {}
    for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*"))):
        m = json.load(open(os.path.join(d, "meta.json")))
        n = os.path.basename(d)
        out.append(f"| {n} | {m['property']} | {res.get(n, '?')} | {m['needs']} |")
    out.append("\nBesides these, `tools/muts/*.py` hold the development mutants (one-edit faults and behaviour-preserving\n"
               "rewrites); `tools/mut.py` applies them to scratch copies. Faults in them that no check reports:\n")
    out.append(read("missed.md"))
    out.append(read("tail.md"))
    open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out))


main()
