"""Checks of weights."""
from vf import *
import math, struct
from fractions import Fraction
from rw import RW
import dyfile

GEN = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
"""


def symbols(vals, tops, s, off, prefer=None):
    """Nearest symbols of values read (in units of 2^e), per block; a preferred symbol where the value fits it too (among
    the smallest floats several do)."""
    q1 = (1 << s["b"]) - 1
    unit = Fraction(2) ** s["e"]
    out, n = [], 0
    for k in range(s["nb"]):
        M = tops[k] or 1
        blk = []
        for r in range(s["R"]):
            row = []
            for c in range(s["nc"]):
                y = vals[n:n + s["np"]]; n += s["np"]
                if len(set(y)) != 1 or y[0] != y[0] or math.isinf(y[0]):
                    off.append((k, r, c)); row.append(-1); continue
                v = Fraction(y[0]) / unit
                t = v * q1 / M
                sy = int(t + Fraction(1, 2)) if t >= 0 else -1
                lim = max(Fraction(y[0]) / (1 << 21), Fraction(2) ** -150)
                pr = prefer[k][r][c] if prefer and prefer[k][r] else sy
                if pr != sy and abs(Fraction(pr) * M * unit / q1 - Fraction(y[0])) <= lim: sy = pr
                if abs(Fraction(sy) * M * unit / q1 - Fraction(y[0])) > lim or sy < 0 or sy > q1: off.append((k, r, c, y[0]))
                row.append(sy)
            blk.append(row)
        out.append(blk)
    return out


def weight_check(ck):
    ck.build("rw")
    ck.model_check("WeightBlock", "WeightBlock.cfg")
    rounds = 1 if not ck.thorough() else 12
    for rnd in range(rounds):
        jobs = [("WeightGen", GEN, 90, 7, SEED * 6271 + 100 * rnd + j) for j in range(8)]
        sc = [s for v in ck.generate(jobs) for s in v]
        ck.note("generated %d tables" % len(sc))
        rw = RW(ck)
        groups, low = [], []
        for i, s in enumerate(sc):
            f = rw.floats("w%d.f" % i, [math.ldexp(w, s["e"]) for b in s["W"] for r in b for c in r for w in c])
            d = rw.floats("d%d.f" % i, [ck.rng.gauss(0, 1) for _ in range(2 * s["nb"] * s["R"] * s["nc"] * s["np"])])
            p = rw.path("w%d.tab" % i)
            cols = ck.rng.choice(["3", "3", "1,3", "3,1"])
            a = ",".join(str(x) for x in range(s["R"]))
            g = ["w path=%s cols=%s a1=%s a2=%s nblk=%d npol=%d nch=%d norm=%s dist=%s db=%d wb=%d d3=%s d1=%s" % (
                p, cols, a, ",".join(str(x + 1) for x in range(s["R"])), s["nb"], s["np"], s["nc"], s["norm"], s["dist"], ck.rng.choice([2, 4, 8]), s["b"], f, d),
                "r path=%s cols=3 o3=%s" % (p, rw.path("w%d.o" % i)), "cp path=%s to=%s" % (p, p + "1")]
            s["cols"] = cols
            if s["u"]["do"]:
                u = s["u"]
                g += ["u path=%s c=3 row=%d n=1 npol=%d nch=%d v=%.17g" % (p, (u["b"] - 1) * s["R"] + u["r"] - 1, s["np"], s["nc"], math.ldexp(u["v"], s["e"])),
                      "r path=%s cols=3 o3=%s" % (p, rw.path("w%d.o2" % i))]
            groups.append(g)
        st = rw.run(groups)
        ck.note("stored and read them")
        evs, scripts = {}, {}
        for i, s in enumerate(sc):
            e = dict(s, e="weights", res="ok")
            off = []
            for k in range(len(groups[i])):
                if st[i * 1000 + k]["res"] != "ok": e["res"] = "%s %s" % (st[i * 1000 + k]["res"], st[i * 1000 + k]["what"])
            n = s["nb"] * s["R"] * s["nc"] * s["np"]
            tops = [max(min(c) for r in b for c in r) for b in s["W"]]
            v = rw.read("w%d.o" % i)
            if e["res"] == "ok":
                if v is None or len(v) != n: e["res"] = "short"
            if e["res"] == "ok":
                try:
                    sf = dyfile.find(rw.path("w%d.tab1" % i))
                    ix = s["cols"].split(",").index("3")
                    F = dyfile.DyFile(sf, [c == "3" for c in s["cols"].split(",")], s["np"], s["nc"])
                    e["F"] = []
                    for k in range(s["nb"]):
                        sy = F.chunk(k, ix)[1]
                        e["F"].append([sy[r * s["nc"]:(r + 1) * s["nc"]] for r in range(s["R"])])
                except (struct.error, IndexError, KeyError, ValueError) as x:
                    e["res"] = "file can not be interpreted: %s" % x
            if e["res"] == "ok":
                e["S"] = symbols(v, tops, s, off, e["F"])
                ck.cov["evaluations"] += n
            if e["res"] == "ok" and s["u"]["do"]:
                v = rw.read("w%d.o2" % i)
                if v is None or len(v) != n: e["res"] = "short"
                else:
                    u = s["u"]; k = u["b"] - 1; q1 = (1 << s["b"]) - 1
                    rest = [x for j, r in enumerate(e["S"][k]) if j != u["r"] - 1 for x in r]
                    # the other rows are written again with the values that were read: S M / q
                    Sm = max(rest + [0]); old = Fraction(Sm * tops[k], q1)
                    t2 = list(tops)
                    if u["v"] >= old: e["Sm"] = -1; t2[k] = Fraction(u["v"])
                    else: e["Sm"] = Sm; t2[k] = old
                    e["M1"] = tops[k]
                    if t2[k] == tops[k] or s["e"] > -110: e["S2"] = symbols(v, t2, s, off, [[None if (j, r) == (k, u["r"] - 1) else x for r, x in enumerate(blk)] for j, blk in enumerate(e["S"])])
                    else: e["u"] = dict(u, do=0)      # too close to the smallest floats to tell
            e["off"] = bool(off)
            e["offs"] = off[:3]
            scripts[i] = {"ops": groups[i], "weights": s["W"]}
            evs[i] = e
            for suf in (".f", ".o", ".o2"):
                try: os.unlink(rw.path("w%d%s" % (i, suf)))
                except OSError: pass
            shutil.rmtree(rw.path("w%d.tab" % i), True); shutil.rmtree(rw.path("w%d.tab1" % i), True)
        if rnd == 0: ck.sample(scripts[0])
        ck.validate({k: [v] for k, v in evs.items()}, "WeightTrace", "WeightTrace.cfg", scripts, chunk=30)
        if ck.violations: return
