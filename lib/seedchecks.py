"""Reproducibility with a static seed (C19)."""
from vf import *
import storechecks as st
import hashlib

SHAPES = [(1, 4), (2, 2), (4, 2), (2, 5), (4, 1), (3, 2)]
POL = ["rand", "sticky", "pct1", "pct3", "starve", "eager", "lifo", "rr", "rand+spur", "lifo+spur"]


def cfg(nb, nw, mq, mw, order, inv):
    return "SPECIFICATION Spec\nCONSTANTS NBlocks = %d NWorkers = %d MaxQueue = %d MaxWrites = %d Order = \"%s\"\nINVARIANT %s\nCHECK_DEADLOCK FALSE\n" % (nb, nw, mq, mw, order, inv)


def params(rng):
    p = st.params(rng)
    p["npol"], p["nch"] = rng.choice(SHAPES)
    p["dist"] = rng.choice(["TruncatedGaussian", "Uniform", "Gaussian", "StudentsT"])
    p["db"] = rng.choice([2, 3, 4, 6, 8, 10, 12])
    p["tol"] = 100
    return p


def digests(h):
    """A digest after every time the table was closed"""
    out = []
    for l in h:
        out.append(l)
        if l.startswith("close"): out.append("digest 1")
    return out


def seed_check(ck):
    """C19"""
    ck.build("store")
    big = ck.thorough()
    ck.model_check("Reproducible", cfg(3, 1, 3, 5 if not big else 6, "first", "Reproducible"))
    ck.model_check("Reproducible", cfg(3, 1, 3, 4, "lowest", "ReproducibleAscending"))
    ck.model_check("Reproducible", cfg(3, 1, 3, 4, "lowest", "Reproducible"), expect_ok=False)
    ck.model_check("Reproducible", cfg(3, 2, 3, 4, "first", "Reproducible"), expect_ok=False)
    ra = lambda test, o, mo: "SPECIFICATION Spec\nCONSTANTS Cols = {1, 2} NBlocks = 3 MaxOps = %d Test = \"%s\" AtOpen = %d\nINVARIANTS SameHandedOver NothingHidden LoadedIsThere\nCHECK_DEADLOCK FALSE\n" % (mo, test, o)
    for o in (0, 1): ck.model_check("ReadsAside", ra("own", o, 7 if big else 5))
    for t in ("mixed", "file"): ck.model_check("ReadsAside", ra(t, 0, 5), expect_ok=False)
    S, RD = "session", "read"
    specs = [(12, 30, "any", [S]), (16, 60, "one", [S]), (24, 40, "one", [S, RD]), (20, 60, "two", [S]), (24, 60, "many", [S]), (24, 30, "one", [S, RD, "rows"]), (12, 40, "many", [S, RD]), (20, 40, "two", [S, "rows"])]
    for rnd in range(8 if big else 1):
        hists = st.gen_hists(ck, specs, 110, 50 + rnd)
        scripts, what = [], []
        for i, (m, h) in enumerate(hists):
            prm = params(ck.rng)
            rows = {(o["c"], o["r"]) for o in h if o["op"] == "put" and o["c"] != 3 and o["v"] not in (0, 9)}
            dith = len(rows) >= 10 and prm["db"] <= 8
            # a static seed is a setting of the first session only: what later sessions write is dithered at random
            static = i % 4 != 3
            hh = h
            if static:
                k = [j for j, o in enumerate(h) if o["op"] in ("close", "finish")]
                hh = h[:k[0] + 1] if k and h[k[0]]["op"] == "close" else h
            for k in range(6 if static else 2):
                head = "nproc=%d sched=%s seed=%d" % (ck.rng.choice([1, 2, 3, 4, 8, 16]), POL[(i + 3 * k) % len(POL)] if k % 3 != 2 else "off", ck.rng.randrange(1 << 30))
                s = st.to_script(hh, len(scripts), dict(prm, static=int(static)), head, final=False)
                if not any(l.startswith("close") for l in s[-1:]): s.append("close 1")
                scripts.append(digests(s)); what.append((i, static, dith))
        runs = ck.run_store(scripts)
        if len(runs) != len(scripts): raise InfraError("driver lost runs")
        ck.note("replayed %d histories %d times" % (len(hists), len(scripts)))
        groups, sc = {}, {}
        for j, (i, static, dith) in enumerate(what):
            g = groups.setdefault(i, [dict(e="hist", run=i)])
            sc.setdefault(i, []).append(scripts[j])
            g.append(dict(e="out", res=runs[j][-1]["e"], out=[x["h"] for x in runs[j] if x["e"] == "digest"], static=static, dithered=dith))
        ck.cov["evaluations"] += len(scripts)
        ck.sample(groups[0][:3])
        ck.validate(groups, "SeedTrace", "SeedTrace.cfg", sc, chunk=3000)
        ck.note_valid()
        if ck.violations: return
    ck.assumptions += ["the static seed holds for the session in which the table is made", "one thread uses the table"]
