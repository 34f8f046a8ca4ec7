"""Histories in which the process that updates a table is killed (C23)."""
from storechecks import *


def model(ck):
    cfg = 'SPECIFICATION Spec\nCONSTANTS NBlocks = %d NCols = 2 MaxOps = %d Bug = "%s"\nINVARIANTS AfterKill Stored\nCHECK_DEADLOCK FALSE\n'
    ck.model_check("Crash", cfg % ((2, 3, "none") if not ck.thorough() else (3, 4, "none")))
    for b in ("header", "whole", "row", "truncate"): ck.model_check("Crash", cfg % (2, 2, b), expect_ok=False)


def after(rng, hist, tab, prm):
    """What the next process does with a table: lines of the script."""
    nrow, base, changed = hist[0]["nrow"], hist[0]["nrow"], False
    for o in hist[1:]:
        if o["op"] == "addrows": nrow += o["n"]
        elif o["op"] == "rmrow": nrow -= 1
        elif o["op"] == "open": base, changed = nrow, False
        if o["op"] in ("addrows", "rmrow"): changed = True
    L = ["open %d %s" % (tab, rng.choice(["ro", "rw"])), "all %d %d" % (tab, rng.randrange(3)), "close %d" % tab]
    for k in range(0 if changed else rng.randrange(2)):      # (the time and antennas of added rows may not be there)
        L.append("open %d rw" % tab)
        for j in range(rng.randrange(1, 6)):
            if base: L.append("put %d %d %d %d" % (tab, rng.choice(hist[0]["cols"]), rng.randrange(base), rng.randint(1, 8)))
        L += ["all %d 0" % tab, "close %d" % tab]
    L += ["open %d ro" % tab, "all %d 1" % tab, "close %d" % tab]
    return ["R " + x for x in L]


def crash_check(ck):
    ck.build("store")
    model(ck)
    specs = [(12, 20, "any", [S, "update"]), (12, 30, "many", [S, RD, "update"]), (16, 30, "two", [S, RD, "two", "update"]), (24, 30, "many", [S, "update"]), (14, 30, "many", [S, "rows", "update"])]
    pol = ["off", "off", "rand", "starve", "eager", "lifo"]
    killed = tables = 0
    for rnd in range(10 if ck.thorough() else 1):
        hists = gen_hists(ck, specs, 60, 700 + rnd)
        ck.note("generated %d histories" % len(hists))
        base, mr = [], 1
        for i, (m, h) in enumerate(hists):
            mr = max(mr, m)
            p = params(ck.rng)
            if ck.rng.random() < 0.4: p["npol"], p["nch"] = ck.rng.choice([(4, 64), (4, 300), (2, 700)])   # blocks larger than the buffers of streams
            if ck.rng.random() < 0.5: p["styles"] = 0
            base.append((h, p, "nproc=%d sched=%s seed=%d" % (ck.rng.choice([1, 2, 4]), ck.rng.choice(pol), ck.rng.randrange(1 << 30))))
        def script(k, i, f, stop=None):
            h, p, head = base[i]
            L = to_script(h, k, p, head + " announce=1 " + f, final=False)
            last = [x for x, t in enumerate(L) if t.startswith("open ")][-1]
            L[last:last] = ["open 1 ro", "all 1 0", "close 1"]
            if stop is not None: L.insert(stop, "kill 1")
            else: L.append("close 1")
            return L + after(ck.rng, h, 1, p)
        def go(scripts, which, what):
            runs = ck.run_store(scripts)
            if len(runs) != len(scripts): raise InfraError("driver lost runs")
            enrich(runs, {k: base[i][0] for k, i in enumerate(which)}, mr + 8)
            ck.cov["evaluations"] += len(scripts)
            ck.validate(runs, "CrashTrace", "CrashTrace.cfg", dict(enumerate(scripts)), chunk=STORE_CHUNK)
            ck.note("%s: %d histories" % (what, len(scripts)))
            return runs
        runs = go([script(i, i, "faults=none") for i in range(len(base))], range(len(base)), "not killed")
        if ck.violations: return
        todo, which = [], []
        for i in range(len(base)):
            evs = runs[i]
            opens = [e for e in evs if e["e"] == "open"]
            if evs[-1]["e"] != "end" or not opens: continue
            w0, w1, r0, r1 = opens[-1]["w"], evs[-1]["writes"], opens[-1]["rd"], evs[-1]["reads"]
            pts = set()
            if w1 > w0:
                pts |= {("k", w0 + 1, 0), ("k", w1, 1), ("k", w1, 2)}
                for j in range(4): pts.add(("k", ck.rng.randint(w0 + 1, w1), ck.rng.choice([0, 1, 1, 2])))
            if r1 > r0: pts.add(("j", ck.rng.randint(r0 + 1, r1), 0))
            for k, n, part in sorted(pts):
                todo.append(script(len(todo), i, "faults=%s at=%d part=%d" % (k, n, part))); which.append(i)
            # between two calls
            L = script(0, i, "faults=none")
            a = [x for x, t in enumerate(L) if t.startswith("open ")][-1]
            z = [x for x, t in enumerate(L) if not t.startswith("R ")][-1]
            for j in range(2):
                todo.append(script(len(todo), i, "faults=none", stop=ck.rng.randint(a + 1, z))); which.append(i)
        runs = go(todo, which, "killed")
        for v in runs.values():
            if any(e["e"] == "killed" for e in v): killed += 1
        if rnd == 0: ck.sample({"script": todo[0][:1] + todo[0][-8:], "last_events": runs[0][-3:]})
        if ck.violations: return
    ck.note("in %d of them the process was killed" % killed)
    ck.assumptions += ["what the killed process had handed to the operating system reaches the file (the system itself does not crash)",
                       "histories with added, removed or renamed columns and tables that are being created are not included"]
