#!/usr/bin/env python3
"""seedrun.py [ids]: applies each planted bug to /repo, runs its property's check (or all), undoes it"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
man = {c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]}
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(V + "/seeded"))
every = "--all" in sys.argv
def sh(c): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=V)
assert not sh("git -C /repo status --short").stdout.strip()
for i in ids:
    prop = json.load(open("%s/seeded/%s/meta.json" % (V, i)))["property"]
    a = sh("git -C /repo apply %s/seeded/%s/patch.diff" % (V, i))
    if a.returncode: print(i, "DOES NOT APPLY", a.stdout); continue
    try:
        out = []
        for p in (sorted(man) if every else [prop]):
            if p not in man: out.append("%s not claimed" % p); continue
            r = sh("python3 engine/check.py %s quick" % p)
            if r.returncode == 1: out.append("%s CAUGHT%s" % (p, "" if p == prop else " (other)"))
            elif p == prop or r.returncode != 0: out.append("%s rc=%d %s" % (p, r.returncode, r.stdout.strip().split("\n")[-1][:200]))
        print(i, "|", "; ".join(out), flush=True)
    finally:
        sh("git -C /repo checkout -- .")
