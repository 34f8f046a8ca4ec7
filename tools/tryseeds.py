#!/usr/bin/env python3
"""Runs the checks against the planted bugs, in scratch copies of /repo: tryseeds.py [id...] [--all-checks]"""
import json, os, shutil, subprocess, sys, tempfile, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claimed = [c["property"] for c in json.load(open(ROOT + "/MANIFEST.json"))["checks"]]
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(ROOT + "/seeded"))
for i in ids:
    d = os.path.join(ROOT, "seeded", i)
    prop = json.load(open(d + "/meta.json"))["property"]
    t = tempfile.mkdtemp(prefix="seed-"); r = t + "/repo"
    try:
        subprocess.run(["cp", "-a", "/repo", r], check=True)
        subprocess.run(["git", "-C", r, "apply", d + "/patch.diff"], check=True)
        for p in (claimed if "--all-checks" in sys.argv else [prop]):
            t0 = time.time()
            x = subprocess.run([sys.executable, ROOT + "/check.py", p], env=dict(os.environ, VF_REPO=r), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            v = [l for l in x.stdout.splitlines() if l.startswith("VIOLATION")]
            print("%-40s %s rc=%d %s %.0fs %s" % (i, p, x.returncode, "CAUGHT" if v and x.returncode == 1 else "missed" if x.returncode == 0 else "ERROR", time.time() - t0,
                  "" if x.returncode != 2 else x.stdout[-300:]), flush=True)
    finally:
        shutil.rmtree(t, True)
