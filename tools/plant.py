#!/usr/bin/env python3
"""Keeps a planted bug: plant.py FILE.py, where FILE.py defines id, property, needs, breaks, edits [(file, old, new)], demo (C++), extra {name: text}, sh.
The edits are tried in a scratch copy of /repo: build, tests, and the demonstration with and without them."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
T = tempfile.mkdtemp(prefix="plant-"); R = T + "/repo"
sh("git clone -q /repo %s; cd /opt/vp && cp build.sh test.sh run_tests.py results.py %s/ && sed -i 's#/repo#%s#g; s#/opt/vp/#%s/#g' %s/*.sh" % (R, T, R, T, T))
for fn in sys.argv[1:]:
    g = {}; exec(open(fn).read(), g)
    d = T + "/seeded/" + g["id"]; os.makedirs(d, exist_ok=True)
    sh("git -C %s checkout -q -- ." % R)
    if "demo" in g:
        open(d + "/demo.cc", "w").write('#include "demo.h"\n' + g["demo"])
        sh("cp %s/demo/demo.h %s/" % (HERE, d))
    if "sh" in g: open(d + "/demo.sh", "w").write(g["sh"])
    else: sh("cp %s/demo/%s.sh %s/demo.sh" % (HERE, "tool" if g.get("tool") else "demo", d))
    for n, t in g.get("extra", {}).items(): open(d + "/" + n, "w").write(t)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=g["property"], needs=g["needs"], what_it_breaks=g["breaks"]), open(d + "/meta.json", "w"), indent=1)
    ok = True
    r = sh("bash %s/build.sh" % T + ""); r0 = sh(d + "/demo.sh", cwd=R)
    if r0.returncode: print(g["id"], "demo fails on the unchanged tree", r0.stdout[-800:]); ok = False
    for f, old, new in g["edits"]:
        s = open(R + "/" + f).read()
        if s.count(old) != 1: print(g["id"], f, "occurrences:", s.count(old)); ok = False
        open(R + "/" + f, "w").write(s.replace(old, new, 1))
    open(d + "/patch.diff", "w").write(sh("git -C %s diff" % R + "").stdout)
    r = sh("bash %s/build.sh" % T + "")
    if r.returncode: print(g["id"], "does not build", r.stdout[-1500:]); ok = False
    else:
        r = sh("bash %s/test.sh %s/tests.json" % (T, T) + "")
        base = json.load(open("/opt/vp/BASELINE.json")); res = json.load(open(T + "/tests.json"))
        base = base.get("stable", base.get("tests", base)) if isinstance(base, dict) else base
        bad = [x for x in base if x not in res.get("passed", [])]
        if bad: print(g["id"], "tests fail:", bad); ok = False
        r1 = sh(d + "/demo.sh", cwd=R)
        if not r1.returncode: print(g["id"], "demo passes with the bug"); ok = False
        else: print("   ", r1.stdout.strip().splitlines()[:2])
    if ok: sh("rm -rf %s/seeded/%s; mv %s %s/seeded/" % (ROOT, g["id"], d, ROOT))
    print(g["id"], "KEPT" if ok else "NOT OK", flush=True)
shutil.rmtree(T, True)
