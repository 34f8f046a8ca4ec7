#!/usr/bin/env python3
"""Checks that the tools are there and that all specifications parse."""
import glob, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
bad = 0
for f in sorted(glob.glob(os.path.join(ROOT, "spec", "*.tla"))):
    r = subprocess.run(["java", "-cp", JAR, "tla2sany.SANY", f], cwd=os.path.join(ROOT, "spec"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 or "*** Errors" in r.stdout:
        print(r.stdout); bad = 1
os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
sys.exit(bad)
