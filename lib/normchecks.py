"""Checks of the normalizations: accuracy, non-finite samples, weights."""
from vf import *
import math, array, struct
from rw import RW
import dyfile
from numchecks import levels

NORMGEN = """SPECIFICATION Spec
CONSTANTS Norms = {%s}  Flagging = %s
CHECK_DEADLOCK FALSE
"""
CONFS = [("Uniform", 0), ("Uniform", 0), ("TruncatedGaussian", 1.5), ("TruncatedGaussian", 2.5), ("TruncatedGaussian", 4.0), ("StudentsT", 3.0), ("StudentsT", 10.0), ("Gaussian", 0)]
NaN, PInf, MInf, Zero = 1000, 1001, 1002, 1003


def log64(x):
    return -99999 if x == 0 else 99999 if x != x or math.isinf(x) else math.ceil(64 * math.log2(abs(x)))


def sample(e, rng):
    if e == NaN: return math.nan
    if e == PInf: return math.inf
    if e == MInf: return -math.inf
    if e == Zero: return 0.0
    return math.ldexp(rng.choice((1.0, -1.0)), e)


def norm_run(ck, scens, prefix, confs=None, extra=""):
    """Writes and reads every scenario through the storage manager; returns events and scripts."""
    rw = RW(ck)
    rng = ck.rng
    bits = [2, 3, 4, 6, 8, 10, 12, 16]
    cf = []
    for s in scens:
        d, p = rng.choice(CONFS)
        b = rng.choice(bits)
        if d == "Gaussian" and b == 16: b = 8     # slow to construct
        cf.append((d, p, b))
    lev = levels(ck, cf, prefix + "lev")
    gap = {}
    for c, L in lev.items():
        gap[c] = math.ceil(64 * math.log2(max(y - x for x, y in zip(L, L[1:])) / L[-1]))
    groups, vals = [], []
    for i, s in enumerate(scens):
        v = [sample(e, rng) for b in s["X"] for r in b for q in r for e in q]
        f = rw.floats("%s%d.f" % (prefix, i), v)
        vals.append(v)
        d, p, b = cf[i]
        path = rw.path("%s%d.tab" % (prefix, i))
        groups.append(["w path=%s cols=1 a1=%s a2=%s nblk=%d npol=%d nch=%d norm=%s dist=%s db=%d trunc=%g nu=%g d1=%s %s" % (
            path, ",".join(str(s["num"][a]) for a in s["a1"]), ",".join(str(s["num"][a]) for a in s["a2"]), s["nb"], s["np"], s["nc"], s["norm"], d, b, p, p or 1, f, extra),
            "r path=%s cols=1 o1=%s" % (path, rw.path("%s%d.o" % (prefix, i)))])
    st = rw.run(groups)
    evs, scripts = {}, {}
    for i, s in enumerate(scens):
        e = dict(s, e="norm", res="ok", conf=list(map(str, cf[i])), gap=gap[cf[i]])
        e.pop("flags", None)
        for k in range(2):
            if st[i * 1000 + k]["res"] != "ok": e["res"] = st[i * 1000 + k]["res"] + " " + st[i * 1000 + k]["what"]
        out = rw.read("%s%d.o" % (prefix, i))
        if out is None or len(out) != len(vals[i]):
            e["res"] = "short" if e["res"] == "ok" else e["res"]; out = None
        tab = rw.path("%s%d.tab" % (prefix, i))
        sf = dyfile.find(tab) if out is not None else None
        if out is not None and sf is None:
            e["res"] = "no storage file"
        elif out is not None:
            # scale of every visibility, from the factors in the file
            try:
                F, top, sc = dyfile.DyFile(sf, [False], s["np"], s["nc"]), lev[cf[i]][-1], []
                for b in range(s["nb"]):
                    meta, _ = F.chunk(b, 0)
                    sc.append([[log64(F.factor(meta, r, ch, p, s["num"][s["a1"][r]], s["num"][s["a2"][r]]) * top) for ch in range(s["nc"]) for p in range(s["np"])] for r in range(s["R"])])
            except (struct.error, IndexError, KeyError, ValueError) as x:
                e["res"] = "the storage file does not have the layout: %s" % x
                sc = []
            e["sc"] = sc
            n = 0
            C, Le = [], []
            for b in s["X"]:
                cb, lb = [], []
                for r in b:
                    cr, lr = [], []
                    for q in r:
                        cq, lq = [], []
                        for _ in q:
                            x, y = vals[i][n], out[n]; n += 1
                            cq.append(1 if y != y else 2 if math.isinf(y) else 3 if y == 0 else 0)
                            err = abs(y - x) if y == y and not math.isinf(y) and x == x and not math.isinf(x) else 0
                            lq.append(log64(err))
                        cr.append(cq); lr.append(lq)
                    cb.append(cr); lb.append(lr)
                C.append(cb); Le.append(lb)
            e["cls"], e["le"] = C, Le
            ck.cov["evaluations"] += n
        evs[i] = e
        scripts[i] = {"ops": groups[i], "values": list(vals[i])[:2000], "flags": s["flags"]}
        for suf in (".f", ".o"):
            try: os.unlink(rw.path("%s%d%s" % (prefix, i, suf)))
            except OSError: pass
        shutil.rmtree(rw.path("%s%d.tab" % (prefix, i)), True)
    return evs, scripts


def norm_check(ck, flagging):
    ck.build("rw num")
    for rnd in range(1 if not ck.thorough() else 10):
        per = 40
        jobs = [("NormGen", NORMGEN % ('"%s"' % no, flagging), per, 8, SEED * 7919 + 1000 * rnd + 10 * j + k + (500 if flagging == "TRUE" else 0)) for k, no in enumerate(("AF", "RF", "Row")) for j in range(6)]
        scens = [s for v in ck.generate(jobs) for s in v]
        ck.note("generated %d data sets" % len(scens))
        evs, scripts = norm_run(ck, scens, "n%d_" % rnd)
        ck.note("stored and read them")
        ck.sample({"ops": scripts[0]["ops"], "flags": scripts[0]["flags"]})
        ck.validate({k: [v] for k, v in evs.items()}, "NormTrace", "NormTrace.cfg", scripts, chunk=30)
        if ck.violations: return


def accuracy_check(ck): norm_check(ck, "FALSE")
def flag_check(ck): norm_check(ck, "TRUE")
