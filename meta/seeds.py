#!/usr/bin/env python3
"""Applies each planted bug to a scratch copy of /repo and runs checks on it; records which check reports it in meta/caught.json.
usage: seeds.py [seed ...]   (all seeds and only their own property by default; -a: every claimed check)"""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/xo-seeds"
allc = "-a" in sys.argv
want = [a for a in sys.argv[1:] if a != "-a"] or sorted(os.listdir(V + "/seeded"))
cf = V + "/meta/caught.json"
res = json.load(open(cf)) if os.path.exists(cf) else {}
ids = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
for s in want:
    d = "%s/seeded/%s" % (V, s)
    if not os.path.exists(d + "/patch.diff"): continue
    shutil.rmtree(S, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", S])
    if subprocess.call(["git", "-C", S, "apply", d + "/patch.diff"]):
        print(s, "DOES NOT APPLY"); res[s] = []; continue
    p = json.load(open(d + "/meta.json"))["property"]
    res[s] = []
    for i in (ids if allc else [p]):
        r = subprocess.run(["python3", V + "/check.py", i], env=dict(os.environ, XO_REPO=S), capture_output=True, text=True, cwd=V)
        if r.returncode == 1 and "VIOLATION property=%s " % i in r.stdout: res[s].append(i)
        elif r.returncode not in (0, 1): print(s, i, "rc", r.returncode, r.stderr[-300:])
    print(s, p, "caught by", res[s])
    json.dump(res, open(cf, "w"), indent=1, sort_keys=True)
shutil.rmtree(S, ignore_errors=True)
