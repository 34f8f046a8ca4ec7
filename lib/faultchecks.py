"""Histories during which the operating system refuses operations on the storage files (C22)."""
from storechecks import *


def tag(runs):
    """Gives every event the number of operations that had been refused when it ended."""
    out = {}
    for rid, evs in runs.items():
        res, n = [], 0
        for e in evs:
            if e["e"] == "fault":
                n = e["n"]
                if res: res[-1]["inj"] = n
                if len(res) > 1 and res[-1]["e"] == "exception": res[-2]["inj"] = n     # both of the same call
            else: res.append(dict(e, inj=n))
        out[rid] = res
    return out


def model(ck):
    cfg = 'SPECIFICATION Spec\nCONSTANTS NBlocks = %d MaxOps = %d Bug = "%s"\nINVARIANTS Right Stored\nCHECK_DEADLOCK FALSE\n'
    ck.model_check("Faults", cfg % (3, 5 if not ck.thorough() else 8, "none"))
    for b in ("tail", "zeros", "skip"): ck.model_check("Faults", cfg % (3, 4, b), expect_ok=False)


def fault_check(ck):
    ck.build("store")
    model(ck)
    specs = [(12, 25, "any", [S]), (12, 40, "many", [S, RD]), (16, 40, "two", [S, RD, "two"]), (12, 30, "many", ["cols", S]), (12, 30, "any", ["rows", S, RD])]
    refused = told = 0
    pol = ["off", "off", "rand", "starve", "eager", "lifo"]
    for rnd in range(8 if ck.thorough() else 1):
        hists = gen_hists(ck, specs, 60, 500 + rnd)
        base, mr = [], 1
        for i, (m, h) in enumerate(hists):
            mr = max(mr, m)
            p = params(ck.rng)
            if ck.rng.random() < 0.3: p["npol"], p["nch"] = ck.rng.choice([(4, 64), (4, 300), (2, 700)])   # blocks larger than the buffers of streams
            p["styles"] = p["styles"] if ck.rng.random() < 0.5 else 0
            sd = p["styles"]
            base.append((h, p, "nproc=%d sched=%s seed=%d" % (ck.rng.choice([1, 2, 4]), ck.rng.choice(pol), ck.rng.randrange(1 << 30))))
        def scripts_of(list_):
            return [to_script(base[i][0], k, base[i][1], base[i][2] + " " + f) for k, (i, f) in enumerate(list_)]
        def go(list_, what):
            sc = scripts_of(list_)
            runs = ck.run_store(sc)
            if len(runs) != len(sc): raise InfraError("driver lost runs")
            enrich(runs, {k: base[i][0] for k, (i, f) in enumerate(list_)}, mr + 8)
            runs = tag(runs)
            ck.cov["evaluations"] += len(sc)
            ck.validate(runs, "FaultTrace", "FaultTrace.cfg", dict(enumerate(sc)), chunk=STORE_CHUNK)
            ck.note("%s: %d histories" % (what, len(sc)))
            return runs
        # counting; operations that only do a part of what was asked are no errors
        runs = go([(i, "faults=none" + (" short=%d" % ck.rng.choice([1, 7, 100]) if i % 2 else "")) for i in range(len(base))], "without errors")
        if ck.violations: return
        lst = []
        for i in range(len(base)):
            end = runs[i][-1]
            if end["e"] != "end": continue
            w, r = end["writes"], end["reads"]
            if i % 2: w, r = min(w, 40), min(r, 60)
            pts = set()
            if w: pts |= {("w", w), ("w", max(1, w - 1)), ("w", ck.rng.randint(1, w)), ("w", ck.rng.randint(1, w))}
            if r: pts |= {("r", ck.rng.randint(1, r)), ("r", ck.rng.randint(1, r)), ("r", r)}
            for k, n in sorted(pts):
                lst.append((i, "faults=%s at=%d persist=%d partial=%d errno=%s" % (k, n, ck.rng.randrange(2), ck.rng.choice([0, 0, 1]) if k == "w" else 0, ck.rng.choice(["EIO", "ENOSPC"]) if k == "w" else "EIO")))
        runs = go(lst, "operations refused")
        refused += sum(1 for v in runs.values() if v[-1]["inj"])
        told += sum(1 for v in runs.values() if any(e["inj"] and (e["e"] in ("terminate", "exception") or e.get("ok") == 0 or e.get("v") == -2) for e in v))
        if rnd == 0: ck.sample({"faults": lst[1][1], "last_events": runs[1][-2:]})
        if ck.violations: return
    ck.note("in %d of them an operation was refused; %d were told" % (refused, told))
    ck.assumptions += ["what a program does with a table after an error was reported is not judged", "errors are injected in read, write and their variants, on the storage files of Dysco"]
