"""Checks that replay generated table histories and validate them against DyscoStore."""
from vf import *

NORMS = ["AF", "RF", "Row"]
DISTS = [("TruncatedGaussian", 12), ("TruncatedGaussian", 16), ("Uniform", 10), ("Uniform", 12), ("Uniform", 16)]
SHAPES = [(1, 1), (1, 1), (2, 1), (1, 3), (4, 2), (2, 5), (4, 1), (3, 2)]


def params(rng, norm=None):
    """Settings of a table that the abstract histories do not depend on."""
    norm = norm or rng.choice(NORMS)
    dist, db = rng.choice(DISTS)
    npol, nch = rng.choice(SHAPES)
    perm = rng.choice([0, 0, 1, 2, 3, 4])
    x = rng.random()
    if x < 0.03: npol, nch = rng.choice([(4, 64), (1, 300), (2, 257), (5, 7)])
    elif x < 0.05: perm = 5
    return dict(styles=rng.randrange(1, 100000), norm=norm, dist=dist, db=db, wb=rng.choice([8, 10, 12, 16]), npol=npol, nch=nch,
                tk=rng.choice([0, 0, 1, 2, 3]), perm=perm, autos=0 if norm == "AF" else rng.choice([0, 1]),
                trunc=rng.choice([1.5, 2.5, 4] if db == 16 else [1.5, 2.5]), nu=rng.choice([3, 10]))


def to_script(hist, rid, prm, head, tab=1, final=True):
    """Translates a history printed by DyscoStoreGen to a driver script; returns (lines, extra fields for mk)."""
    L = ["run %d %s" % (rid, head)]
    mk = hist[0]
    p = dict(prm, rpb=mk["rpb"], nrow=mk["nrow"], cols=",".join(map(str, mk["cols"])))
    if mk["cols2"]:
        p["cols2"] = ",".join(map(str, mk["cols2"]))
    L.append("mk %d %s" % (tab, " ".join("%s=%s" % kv for kv in p.items())))
    rpb = mk["rpb"]
    for q, o in enumerate(hist[1:], 1):
        k = o["op"]
        if k == "put": L.append("put %d %d %d %d" % (tab, o["c"], o["r"], o["v"]))
        elif k == "get": L.append("get %d %d %d" % (tab, o["c"], o["r"]))
        elif k == "all": L.append("all %d %d" % (tab, o["k"]))
        elif k == "close":
            L.append("close %d" % tab)
            if o["rpb"] != rpb:
                rpb = o["rpb"]; L.append("setrpb %d %d" % (tab, rpb))
        elif k == "open":
            nxt = next((x["op"] for x in hist[q:] if x["op"] in ("close", "reopen")), "")
            L.append("open %d %s" % (tab, "rofile" if o["m"] == "ro" and prm.get("styles") and len(L) % 2 and nxt != "reopen" else o["m"]))
        elif k in ("digest", "flush", "reopen"): L.append("%s %d" % (k, tab))
        elif k == "addrows": L.append("addrows %d %d" % (tab, o["n"]))
        elif k in ("rmrow",): L.append("rmrow %d %d" % (tab, o["r"]))
        elif k == "addmgr": L.append("addmgr %d %d %d" % (tab, o["c"], o["m"]))
        elif k in ("addcol", "rmcol", "ren"): L.append("%s %d %d" % (k, tab, o["c"]))
        elif k == "finish":
            if not final: break
            if o["mode"] != "closed":
                L += ["all %d 0" % tab, "close %d" % tab]
                if o["rpb"] != rpb:
                    rpb = o["rpb"]; L.append("setrpb %d %d" % (tab, rpb))
            L += ["open %d rw" % tab, "all %d 1" % tab, "close %d" % tab, "open %d %s" % (tab, "rofile" if prm.get("styles") else "ro"), "all %d 0" % tab, "close %d" % tab]
        else:
            raise InfraError("unknown op " + k)
    return L


def enrich(runs, hists, maxrow):
    """Adds to the recorded 'mk' events what the specification needs to know."""
    for rid, evs in runs.items():
        for e in evs:
            if e["e"] == "mk":
                e["cols2"] = hists[rid][0]["cols2"] if rid in hists else []
                e["maxrow"] = maxrow
    return runs


def gencfg(maxrow, length, kind, weights, rpbs="1, 2, 3, 4"):
    return """SPECIFICATION Spec
CONSTANTS MaxRow = %d  Len1 = %d  RPBs = {%s}
ColKind = "%s"
Weights = {%s}
CHECK_DEADLOCK FALSE
""" % (maxrow, length, rpbs, kind, ", ".join('"%s"' % w for w in weights))


def gen_hists(ck, specs, per, rnd=0, rpbs="1, 2, 3, 4"):
    """specs: list of (maxrow, length, colkind, weights). Returns list of (maxrow, history)."""
    jobs = [("DyscoStoreGen", gencfg(m, n, k, w, rpbs), per, n + 20, (SEED * 1000 + rnd) * 100 + i + 1) for i, (m, n, k, w) in enumerate(specs)]
    out = []
    for (m, n, k, w), vals in zip(specs, ck.generate(jobs)):
        out += [(m, v) for v in vals[:per]]
    return out


def replay(ck, hists, heads=None, norm=None, timeout=60, prm=None):
    scripts, byid, mr = [], {}, 1
    for i, (m, h) in enumerate(hists):
        mr = max(mr, m)
        head = heads(i) if heads else "nproc=%d sched=off" % ck.rng.choice([1, 2, 4, 8])
        p = prm(i) if prm else params(ck.rng, norm)
        s = to_script(h, i, p, head)
        scripts.append(s); byid[i] = h
    runs = ck.run_store(scripts, timeout=timeout)
    ck.note("replayed %d histories" % len(scripts))
    enrich(runs, byid, mr + 8)
    ck.cov["evaluations"] += len(scripts)
    if len(runs) != len(scripts):
        raise InfraError("driver lost runs")
    sd = {i: s for i, s in enumerate(scripts)}
    bad = ck.validate(runs, "DyscoStoreTrace", "DyscoStoreTrace.cfg", sd, chunk=STORE_CHUNK)
    ck.sample({"script": scripts[0], "last_events": runs[0][-3:]})
    return runs, sd, bad


# ------------------------------------------------------------------ properties
S, RD = "session", "read"
STORE_SPECS = {
    # property -> list of (rows, calls, columns, weights)
    "C01": [(12, 25, "any", [S]), (12, 45, "many", [S]), (24, 60, "one", [S]), (16, 30, "two", [S, "rows"]), (12, 40, "many", [S, "two"]), (20, 50, "two", [S])],
    "C02": [(12, 30, "any", [RD]), (16, 60, "many", [RD]), (12, 50, "one", [RD, S]), (20, 60, "two", [RD, S]), (12, 40, "two", [RD, "rows"])],
    "C03": [(12, 30, "any", [S]), (16, 50, "many", [S, "two"]), (12, 40, "two", [S, "two"]), (20, 30, "many", [S, RD]), (12, 40, "many", [S, "two", "rows"])],
    "C17": [(12, 30, "many", ["cols", S]), (12, 30, "two", ["cols", S]), (12, 25, "any", ["cols", S, RD]), (12, 40, "many", ["cols", S, "two"]), (14, 40, "many", ["cols", S, "rows"])],
    "C18": [(12, 30, "any", ["ro", S, RD]), (16, 40, "many", ["ro", S, RD]), (12, 40, "two", ["ro", S, "rows", RD]), (20, 40, "one", ["ro", S, "rows"]), (12, 40, "many", ["ro", S, "two"])],
    "C20": [(12, 30, "any", ["rows", S]), (16, 40, "one", ["rows", S]), (16, 40, "two", ["rows", S, RD]), (12, 40, "many", ["rows", S, "two"]), (9, 20, "any", ["rows", S, "ro"])],
}
STORE_CHUNK = 2500


def mc_store(ck):
    cfg = open(os.path.join(SPEC, "DyscoStoreMC.cfg")).read()
    if not ck.thorough():
        cfg = cfg.replace("MaxOps = 5", "MaxOps = 4")
    else:
        cfg = cfg.replace("MaxOps = 5", "MaxOps = 6")
    ck.model_check("DyscoStoreMC", cfg)


def store_check(ck):
    """C01 C02 C03 C17 C18 C20"""
    ck.build("store")
    mc_store(ck)
    specs = STORE_SPECS[ck.pid]
    per = 330
    rounds = 12 if ck.thorough() else 1
    for rnd in range(rounds):
        sp = [(m, n + (rnd % 3) * 20, k, w) for m, n, k, w in specs]
        hists = gen_hists(ck, sp, per, rnd)
        if ck.pid in ("C02", "C03", "C01", "C17"):
            # half of the histories under controlled schedules of the encoding threads
            pol = ["rand", "starve", "lifo", "sticky", "pct3", "eager", "rand+spur"]
            heads = lambda i: ("nproc=%d sched=off" % ck.rng.choice([1, 2, 4, 8])) if i % 2 else \
                "nproc=%d sched=%s seed=%d" % (ck.rng.choice([1, 2, 3, 8]), ck.rng.choice(pol), ck.rng.randrange(1 << 30))
        else:
            heads = None
        # tables with many rows per block
        large = gen_hists(ck, [(130, 120, "any", [S, RD] + (["rows"] if ck.pid == "C20" else [])), (70, 150, "two", [S, RD] + (["cols"] if ck.pid == "C17" else []))], 12, 900 + rnd, "15, 31, 36")
        replay(ck, hists, heads=heads)
        replay(ck, large)
        if ck.pid in ("C01", "C03"):
            two_tables(ck, [h for h in hists if h[1]][:200 if not ck.thorough() else 600])
        if ck.violations:
            break
    ck.assumptions += ["the metadata columns are filled before the data and precede the data columns", "time blocks are regular; the first block is written before the others",
                       "one thread uses the table", "the values of a history are chosen well inside the range that the settings of its table can represent"]
    if ck.pid == "C20":
        kf1(ck)


def two_tables(ck, hists):
    """Pairs of histories, interleaved on two tables that are open at the same time."""
    scripts, byid, mr = [], {}, 1
    for i in range(0, len(hists) - 1, 2):
        (m1, h1), (m2, h2) = hists[i], hists[i + 1]
        mr = max(mr, m1, m2)
        rid = i // 2
        a = to_script(h1, rid, params(ck.rng), "", 1)[1:]
        b = to_script(h2, rid, params(ck.rng), "", 2)[1:]
        out = ["run %d nproc=%d sched=off" % (rid, ck.rng.choice([1, 2, 4]))]
        while a or b:
            src = a if a and (not b or ck.rng.random() < len(a) / (len(a) + len(b))) else b
            out.append(src.pop(0))
        scripts.append(out); byid[rid] = (h1, h2)
    runs = ck.run_store(scripts)
    for rid, evs in runs.items():
        for e in evs:
            if e["e"] == "mk":
                e["cols2"] = byid[rid][e["tab"] - 1][0]["cols2"]; e["maxrow"] = mr + 8
    ck.cov["evaluations"] += len(scripts)
    ck.validate(runs, "DyscoStoreTrace", "DyscoStoreTrace.cfg", {i: s for i, s in enumerate(scripts)}, chunk=STORE_CHUNK)
    ck.note("two tables: %d pairs" % len(scripts))


def kf1(ck):
    """The known finding KF1: closing while the size of time blocks is not known and only a part of the first block was written."""
    s = ["run 0 nproc=2 sched=off", "mk 1 norm=AF dist=TruncatedGaussian db=12 wb=12 npol=1 nch=1 rpb=3 nrow=9 cols=1", "put 1 1 0 3", "close 1"]
    ev = ck.run_store([s])[0]
    if ev[-1]["e"] == "terminate":
        ck.known.append("KF1 closing a table of which only a part of the first time block was written ends the process")
    elif ev[-1]["e"] not in ("end",):
        ck.violation("closing after writing part of the first block: %s" % ev[-1], {"script": s, "trace": ev})


def sched_check(ck):
    """C04 C05: controlled schedules."""
    ck.build("store")
    mc_writebehind(ck)
    pol = ["rand", "rand", "sticky", "pct1", "pct2", "pct3", "pct5", "starve", "eager", "rr", "lifo", "rand+spur", "pct3+spur", "lifo+spur"]
    if ck.pid == "C04":
        specs = [(12, 40, "any", [S, RD]), (16, 60, "many", [S, RD]), (24, 60, "one", [RD, S]), (20, 60, "two", [RD, S])]
    else:
        specs = [(12, 25, "any", [S]), (12, 40, "many", ["cols", S]), (24, 60, "one", [S]), (12, 30, "two", ["rows", S, "cols"]), (20, 60, "many", [S, "two"])]
    rounds = 10 if ck.thorough() else 1
    for rnd in range(rounds):
        hists = gen_hists(ck, specs, 330, rnd)
        heads = lambda i: "nproc=%d sched=%s seed=%d" % (ck.rng.choice([1, 2, 3, 4, 8]), pol[i % len(pol)], ck.rng.randrange(1 << 30))
        fast = lambda i: dict(params(ck.rng), dist="Uniform", db=ck.rng.choice([8, 10]), tol=0.055 if 0 else 0.055)
        replay(ck, hists, heads=heads)
        if ck.violations:
            return
    if ck.pid == "C05":
        sweeps(ck)
    ck.assumptions += ["preemption happens at synchronisation and file operations (data races between them are not observed)"]


def sweeps(ck):
    """With the encoding threads standing still a bounded number of blocks is accepted, for any table size."""
    scripts, n = [], 0
    byid = {}
    for nproc in (1, 2, 3, 4, 6, 8, 32):
        for cols in ("1", "3", "1,3"):
            for rpb in (1, 2, 3):
                for static in (0, 1):
                    nb = 80
                    c = int(cols[0])
                    scripts.append(["run %d nproc=%d sched=rand seed=%d" % (n, nproc, n + SEED),
                                    "mk 1 norm=RF dist=Uniform db=10 wb=10 npol=1 nch=1 rpb=%d nrow=%d cols=%s static=%d" % (rpb, nb * rpb, cols, static),
                                    "sweep 1 %d %d 3" % (c, nb), "all 1 0", "close 1", "open 1 rw", "all 1 1", "close 1"])
                    n += 1
    runs = ck.run_store(scripts)
    enrich(runs, {}, 250)
    ck.cov["evaluations"] += len(scripts)
    ck.validate(runs, "DyscoStoreTrace", "DyscoStoreTrace.cfg", dict(enumerate(scripts)), chunk=300)
    ck.note("sweeps: ahead=%s" % sorted({e["ahead"] for r in runs.values() for e in r if e["e"] == "sweep"}))


def wbcfg(cols, nb, rpb, nw, mc, ops, bug="none", live=False, tok="{1,2}"):
    return """SPECIFICATION Spec
CONSTANTS Cols = %d NBlocks = %d RPB = %d NWorkers = %d MaxCache = %d Tokens = %s MaxOps = %d Bug = "%s"
INVARIANTS TypeOK Refines ReadsLatest Durable Bounded AllEnded ExclusiveWrite NoLostWakeup
CHECK_DEADLOCK TRUE
%s
""" % (cols, nb, rpb, nw, mc, tok, ops, bug, "PROPERTIES Terminates" if live else "")


def mc_writebehind(ck):
    """The design of the write cache, exhaustively; and that the invariants notice deliberate design errors."""
    if ck.pid == "C04":
        cfgs = [(1, 3, 1, 2, 2, 4), (2, 2, 1, 1, 1, 4)] if not ck.thorough() else [(1, 3, 1, 2, 2, 5), (1, 2, 2, 2, 2, 5), (2, 2, 1, 2, 1, 4), (1, 3, 1, 3, 2, 5), (2, 2, 2, 1, 1, 5), (1, 4, 1, 2, 3, 5)]
        bugs = [("nowait", 4), ("early", 4)] if not ck.thorough() else [(b, 4) for b in ("nowait", "noload", "nodrain", "twice", "early")]
    else:
        cfgs = [(1, 3, 1, 2, 2, 3, "none", True)] if not ck.thorough() else [(1, 3, 1, 2, 2, 4, "none", True), (2, 2, 1, 1, 1, 4, "none", True), (1, 2, 2, 2, 1, 4, "none", True), (1, 4, 1, 2, 2, 5)]
        bugs = [("nonotify", 4), ("unbounded", 4)]
    for c in cfgs:
        ck.model_check("WriteBehind", wbcfg(*c), xmx="8g", timeout=3000)
    for b, n in bugs:
        ck.model_check("WriteBehind", wbcfg(1, 3, 1, 2, 2, n, b), expect_ok=False)
