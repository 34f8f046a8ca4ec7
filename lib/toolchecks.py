"""Checks of the tools dscompress and decompress (C15, C16)."""
from vf import *

DIST = {"Uniform": "-uniform", "Gaussian": "-gaussian", "StudentsT": "-studentt"}
BROKEN = {"rows": [], "order": [], "cols": [], "kw": "", "sub": "", "broken": 1}


def mk_line(p, path):
    cols = " ".join("col=%s;%s;%s;%d;%d;%d;%d;%s;%d" % (c["name"], c["type"], c["dm"], c["np"], c["nc"], c["dim"], c["var"], c["bad"], c["seed"]) for c in p["cols"])
    return "mk path=%s rows=%s flag=%s np=%d nc=%d fseed=%d dy=%s dyname=%s %s" % (path, ",".join("%d:%d:%d:%d:%d" % (r["t"], r["f"], r["d"], r["a"], r["b"]) for r in p["rows"]), p["flag"], p["np"], p["nc"], p["fseed"], p["dy"], p["dyname"], cols)


def command(o, d):
    """Command line, working directory and what it asks for, for a measurement set in directory d."""
    name = ["in.ms", "in.ms/", "./in.ms", os.path.join(d, "in.ms"), os.path.join(d, "in.ms") + "//"][o["path"]]
    if o["tool"] == "decompress": return [name], None
    groups = []
    if o["db"]: groups.append(["-data-bit-rate", str(o["db"])])
    if o["wb"]: groups.append(["-weight-bit-rate", str(o["wb"])])
    if o["norm"]: groups.append(["-%snormalization" % o["norm"].lower()])
    if o["dist"] == "TruncatedGaussian": groups.append(["-truncgaus", o["trunc"]])
    elif o["dist"]: groups.append([DIST[o["dist"]]])
    if o["static"]: groups.append(["-static-seed"])
    if o["reorder"]: groups.append(["-reorder"])
    for c in o["ask"]: groups.append(["-column", c])
    if o["bad"]: groups.append([o["bad"]])
    k = o["order"]
    groups = groups[k:] + groups[:k] if k < 4 else groups[::-1]
    cmd = dict(cols=o["ask"] or ["DATA"], db=o["db"] or 8, wb=o["wb"] or 12, norm=o["norm"] or "AF", dist=o["dist"] or "TruncatedGaussian", bad=o["bad"], reorder=o["reorder"],
               trunc="%.9g" % float(o["trunc"]) if o["dist"] == "TruncatedGaussian" else "2.5")
    return [a for g in groups for a in g] + [name], cmd


def snaps(ck, tag, lines):
    """Runs msnap on lines; one line that ends it badly does not spoil the others."""
    out = []
    while len(out) < len(lines):
        ip, op = os.path.join(ck.work, tag + ".in"), os.path.join(ck.work, tag + ".out")
        open(ip, "w").write("\n".join(lines[len(out):]) + "\n")
        open(op, "w").close()
        try:
            rc = subprocess.run([os.path.join(ck.bins, "msnap"), ip, op], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120).returncode
        except subprocess.TimeoutExpired:
            rc = -1
        got = [l for l in open(op, errors="replace").read().split("\n") if l]
        for l in got:
            try: out.append(json.loads(l))
            except ValueError: out.append({"ok": 0, "what": "garbled"}); break
        if len(out) < len(lines) and (rc != 0 or len(got) == 0): out.append({"ok": 0, "what": "ended with %d" % rc})
    return out


def worker(ck, k, plans):
    """plans: list of (id, plan). Returns events per id, or None for a measurement set that can not be made."""
    dirs = {}
    for i, p in plans:
        dirs[i] = os.path.join(ck.work, "ms%d" % i)
        os.makedirs(dirs[i])
    ms = lambda i: os.path.join(dirs[i], "in.ms")
    made = snaps(ck, "w%d" % k, [x for i, p in plans for x in (mk_line(p, ms(i)), "snap path=" + ms(i))])
    evs, failed = {}, []
    for n, (i, p) in enumerate(plans):
        a, b = made[2 * n], made[2 * n + 1]
        if not a["ok"] or not b["ok"]: failed.append((i, a, b)); continue
        b.pop("ok")
        evs[i] = [{"e": "mk", "s": b}]
    for step in range(max([len(p["cmds"]) for _, p in plans] or [0])):
        todo = [(i, p) for i, p in plans if i in evs and step < len(p["cmds"])]
        res = {}
        for i, p in todo:
            o = p["cmds"][step]
            args, cmd = command(o, dirs[i])
            try:
                r = subprocess.run([os.path.join(ck.bins, o["tool"])] + args, cwd=dirs[i], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=120)
                rc, err = r.returncode, r.stderr.decode(errors="replace")[-300:]
            except subprocess.TimeoutExpired:
                rc, err = 124, "did not end"
            res[i] = (o, args, cmd, rc, err)
        got = snaps(ck, "w%d" % k, ["snap path=" + ms(i) for i, _ in todo])
        for (i, p), g in zip(todo, got):
            o, args, cmd, rc, err = res[i]
            e = {"e": o["tool"], "args": args, "rc": rc, "err": err, "left": len([x for x in os.listdir(dirs[i]) if x != "in.ms"])}
            if cmd: e["cmd"] = cmd
            if rc == 124: e["e"] = "hang"
            if g["ok"]: e["s"] = {k: v for k, v in g.items() if k != "ok"}
            else: e["s"] = dict(BROKEN, what=g.get("what"))
            evs[i].append(e)
            if not g["ok"]: p["cmds"] = p["cmds"][:step + 1]
    for d in dirs.values(): shutil.rmtree(d, True)
    return evs, failed


def run_plans(ck, plans, tag, judge):
    parts = [[] for _ in range(CPUS)]
    for i, p in enumerate(plans): parts[i % CPUS].append((i, p))
    runs, failed = {}, []
    with concurrent.futures.ThreadPoolExecutor(CPUS) as ex:
        for evs, f in ex.map(lambda k: worker(ck, k, parts[k]), range(CPUS)):
            runs.update(evs); failed += f
    scripts = {i: [mk_line(p, "in.ms")] + [" ".join([o["tool"]] + command(o, "")[0]) for o in p["cmds"]] for i, p in enumerate(plans)}
    ck.note("ran %d %s, %d could not be made" % (len(plans), tag, len(failed)))
    if len(failed) > len(plans) // 20: raise InfraError("too many measurement sets could not be made: %r %r" % (scripts[failed[0][0]], failed[0][1:]))
    n = {"refused": 0, "done": 0}
    for v in runs.values():
        for e in v[1:]: n["done" if e["rc"] == 0 else "refused"] += 1
    ck.note("commands: %r" % n)
    ck.cov["evaluations"] += n["done"] + n["refused"]
    # what the other tool makes of a measurement set is judged by its own check
    for v in runs.values():
        while v[-1]["e"] not in ("mk", "hang") and v[-1]["e"] != judge: v.pop()
        for k, e in enumerate(v):
            if "broken" in e["s"] and e["e"] not in (judge, "mk"): del v[k:]; break
    if runs: ck.sample({"script": scripts[min(runs)], "last": {k: v for k, v in runs[min(runs)][-1].items() if k != "s"}})
    ck.validate(runs, "ToolsTrace", "ToolsTrace.cfg", scripts, chunk=120, env={"JUDGE": judge})
    ck.note_valid()


def enlarge(ck, plans, n):
    """Some of the measurement sets, with more than a thousand rows: the tools may handle rows in groups."""
    out = []
    for p in sorted(plans, key=lambda p: (len(p["cols"]), -len(p["cmds"]))):
        if len(out) == n: break
        if p["how"] != "none" or p["flag"] != "ok" or not p["rows"] or any(c["dim"] != 2 or c["bad"] != "no" or c["nc"] != p["nc"] for c in p["cols"]) or any(o.get("bad") for o in p["cmds"]): continue
        # different numbers of rows, that are not a multiple of anything, and columns
        if sum(len(q["cols"]) == len(p["cols"]) for q in out) > n // 3: continue
        rows, want, k = [], ck.rng.choice([1030, 1090, 1300, 2060]) // len(p["cols"]) + 1024 * (len(p["cols"]) > 1), 0
        while len(rows) < want:
            rows += [dict(r, t=r["t"] + 20 * k) for r in p["rows"]]; k += 1
        out.append(dict(p, rows=rows, np=1, nc=1, cols=[dict(c, np=1, nc=1) for c in p["cols"]]))
    return out


def tools_check(ck, aim, n):
    ck.build("msnap dscompress decompress")
    ck.model_check("ToolsMC", "ToolsMC.cfg")
    for rnd in range(1 if not ck.thorough() else 10):
        jobs = [("ToolsGen", 'SPECIFICATION Spec\nCONSTANT Aim = "%s"\nCHECK_DEADLOCK FALSE\n' % aim, n, 6, SEED * 6211 + 100 * rnd + j) for j in range(8)]
        plans = [p for v in ck.generate(jobs) for p in v]
        run_plans(ck, plans + enlarge(ck, plans, 6), "measurement sets", "dscompress" if aim == "compress" else "decompress")
        if ck.violations: return


def compress_check(ck):
    """C15"""
    tools_check(ck, "compress", 200)


def decompress_check(ck):
    """C16"""
    tools_check(ck, "decompress", 140)
