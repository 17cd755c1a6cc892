#!/usr/bin/env python3
"""Apply each planted bug to /repo in turn, run its property's quick check (and any named with -c), undo.
usage: seedrun.py [-c C03,C05] [id ...]"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]; extra = []
if args[:1] == ["-c"]: extra = args[1].split(","); args = args[2:]
for i in args or sorted(os.listdir(V + "/seeded")):
    d = os.path.join(V, "seeded", i)
    if not os.path.exists(d + "/meta.json"): continue
    prop = json.load(open(d + "/meta.json"))["property"]
    if subprocess.run(["git", "-C", "/repo", "diff", "--quiet"]).returncode: sys.exit("/repo is dirty")
    subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], check=True)
    try:
        for p in extra or [prop]:
            t = time.time()
            r = subprocess.run([sys.executable, V + "/check.py", p], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=dict(os.environ, VERIF_TIER="quick", VERIF_SEED="1"))
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=" + p)]
            k = [l.strip() for l in r.stdout.splitlines() if l.startswith("  ")][:1]
            print("%-28s %s %s rc=%d %.0fs %s" % (i, p, "CAUGHT" if r.returncode == 1 and v else "MISSED", r.returncode, time.time() - t, (k or [r.stderr.strip()[-200:]])[0][:150]), flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
