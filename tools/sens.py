#!/usr/bin/env python3
"""Applies each planted bug to /repo, runs its property's check, undoes it.

  sens.py [-a] [ID...]    -a: run all checks of the same part, not only the property's own
"""
import json, os, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
every = "-a" in args
args = [a for a in args if a != "-a"]
ids = args or sorted(os.listdir(HERE + "/seeded"))
checks = [c["property"] for c in json.load(open(HERE + "/MANIFEST.json"))["checks"]]
assert not subprocess.check_output(["git", "-C", "/repo", "status", "--porcelain"]).strip(), "repo not clean"
for id in ids:
    d = HERE + "/seeded/" + id
    pid = json.load(open(d + "/meta.json"))["property"]
    todo = [pid] + ([c for c in checks if c != pid and c[0] == pid[0]] if every else [])
    subprocess.check_call(["git", "-C", "/repo", "apply", d + "/patch.diff"])
    try:
        res = []
        for c in todo:
            t0 = time.time()
            p = subprocess.run(["python3", HERE + "/run.py", c, "quick"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick"))
            hit = p.returncode == 1 and ("VIOLATION property=%s " % c) in p.stdout
            res.append("%s:%s(%.0fs)" % (c, "CAUGHT" if hit else "missed" if p.returncode == 0 else "ERROR%d" % p.returncode, time.time() - t0))
            if c == pid:
                first = [l for l in p.stdout.splitlines() if l.strip()][-3:]
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    print(id, " ".join(r for r in res if not (every and "missed" in r and not r.startswith(pid))), flush=True)
    if os.environ.get("V"):
        print("   " + "\n   ".join(first))
