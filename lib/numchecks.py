"""Checks of packing, quantization and dithering."""
from vf import *
import struct, bisect
import dyfile
from rw import RW

PACKGEN = """SPECIFICATION Spec
CONSTANTS MaxN = %d  More = {%s}
INVARIANT Inv
CHECK_DEADLOCK FALSE
"""
ALLDISTS = [("Gaussian", 0), ("Uniform", 0), ("StudentsT", 1.0), ("StudentsT", 3.0), ("StudentsT", 10.0), ("TruncatedGaussian", 1.0), ("TruncatedGaussian", 1.5), ("TruncatedGaussian", 2.5), ("TruncatedGaussian", 4.0)]
BITS = [2, 3, 4, 6, 8, 10, 12, 16]


def run_num(ck, lines, name="num"):
    """Runs commands in parallel; returns dict id -> event."""
    parts = [lines[i::CPUS] for i in range(CPUS)]
    procs = []
    for i, part in enumerate(parts):
        if not part: continue
        sp, op = os.path.join(ck.work, "%s%d.txt" % (name, i)), os.path.join(ck.work, "%s%d.out" % (name, i))
        open(sp, "w").write("\n".join(part) + "\n")
        procs.append((subprocess.Popen([os.path.join(ck.bins, "num"), sp, op], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL), op))
    res = {}
    for p, op in procs:
        p.wait()
        if p.returncode != 0: raise InfraError("num ended with %d" % p.returncode)
        for line in open(op):
            e = json.loads(line); res[e["id"]] = e
        os.unlink(op)
    if len(res) != len(lines): raise InfraError("num lost commands")
    return res


def judge(ck, evs, what, chunk=400, script=None):
    """Every event is its own run of NumTrace."""
    return ck.validate({k: [v] for k, v in evs.items()}, "NumTrace", "NumTrace.cfg", script, chunk=chunk)


def packing_check(ck):
    ck.build("num")
    ck.model_check("Packing", "Packing.cfg")
    maxn, more = (40, [41, 47, 63, 64, 65, 100, 127, 1000]) if not ck.thorough() else (140, [191, 255, 256, 257, 511, 1000, 1001, 1002, 1003, 1004, 1005, 1006, 1007, 2047])
    pats = ck.enumerate("PackingGen", PACKGEN % (maxn, ", ".join(map(str, more))), workers=CPUS)
    ck.note("generated %d streams" % len(pats))
    pats.sort(key=lambda q: (q["b"], q["n"], q["p"]))
    # a few long streams of random symbols
    for b in BITS:
        for n in ([2000 + 17 * b] if not ck.thorough() else [3000, 4999, 8192 + b]):
            pats.append(dict(b=b, n=n, p=-1, s=[ck.rng.randrange(1 << b) for _ in range(n)]))
    lines = ["pack %d %d %s" % (i, q["b"], " ".join(map(str, q["s"]))) for i, q in enumerate(pats)]
    evs = run_num(ck, lines)
    ck.note("packed")
    for i, q in enumerate(pats):
        evs[i].update(p=q["p"], b=q["b"], n=q["n"])
        if q["p"] < 0: evs[i]["s"] = q["s"]
    ck.cov["evaluations"] += len(evs)
    ck.sample({"in": pats[100], "event": evs[100]})
    judge(ck, evs, "packing", chunk=200, script={i: lines[i] for i in range(len(lines))})
    ck.assumptions.append("positions of bits are told apart by the patterns for streams of up to %d symbols of every bit count; a defect that shows for longer streams only is found if it depends on the length modulo the group size" % maxn)


def quant_configs(ck):
    c = []
    for d, p in ALLDISTS:
        for b in BITS:
            if b == 16 and d == "Gaussian" and not ck.thorough(): pass
            c.append((d, p, b))
    if ck.thorough():
        c += [("StudentsT", p, b) for p in (1.5, 2.0, 5.0, 100.0) for b in BITS] + [("TruncatedGaussian", p, b) for p in (0.5, 2.0, 3.0, 3.5, 5.0) for b in BITS]
    return c


def quantizer_check(ck):
    ck.build("num")
    ck.model_check("Quantizer", "Quantizer.cfg")
    lines = []
    for d, p, b in quant_configs(ck):
        stride = 1 if b <= 10 else (3 if b == 12 else 97) if not ck.thorough() else (1 if b <= 12 else 5)
        xs = []
        for _ in range(200):
            xs.append(struct.unpack("f", struct.pack("I", ck.rng.getrandbits(32)))[0])
        xs = ["%.9g" % x for x in xs if x == x and abs(x) < 3.5e38] + ["%.9g" % ck.rng.gauss(0, 1.5) for _ in range(400)]
        lines.append("quant %d %s %g %d %d %s" % (len(lines), d, p, b, stride, " ".join(xs)))
    lines.sort(key=lambda l: -int(l.split()[4]))
    evs = run_num(ck, lines)
    ck.note("quantized %d values of %d configurations" % (sum(len(e.get("x", ())) for e in evs.values()), len(evs)))
    ck.cov["evaluations"] += sum(4 * len(e.get("x", ())) for e in evs.values())
    ck.sample({k: evs[0].get(k) for k in ("dist", "par", "b", "n")})
    judge(ck, evs, "quantization", chunk=8, script={int(l.split()[1]): l[:200] for l in lines})


def dither_check(ck):
    ck.build("num rw")
    ck.model_check("Quantizer", "Quantizer.cfg")
    lines = []
    for d, p, b in quant_configs(ck):
        stride = 1 if b <= 8 else (1 << b) // (200 if not ck.thorough() else 2000) + 1
        lines.append("dith %d %s %g %d %d %d" % (len(lines), d, p, b, stride, ck.rng.getrandbits(30)))
    lines.sort(key=lambda l: -int(l.split()[4]))
    evs = run_num(ck, lines)
    ck.note("thresholds of %d values" % sum(len(e.get("sym", ())) for e in evs.values()))
    ck.cov["evaluations"] += sum(len(e.get("sym", ())) for e in evs.values())
    judge(ck, evs, "dithering", chunk=8, script={int(l.split()[1]): l for l in lines})
    dither_tables(ck)


def ord2f(i):
    return struct.unpack("f", struct.pack("I", i if i >= 0 else (0x80000000 | -i)))[0]


def levels(ck, confs, name="lev"):
    """Decoded levels of the code for (distribution, parameter, bits)."""
    confs = sorted(set(confs))
    evs = run_num(ck, ["quant %d %s %g %d 100000" % (i, d, p, b) for i, (d, p, b) in enumerate(confs)], name)
    out = {}
    for i, c in enumerate(confs):
        if evs[i]["res"] != "ok": raise InfraError("no levels for %s" % (c,))
        out[c] = [ord2f(v) for v in evs[i]["lev"]]
    return out


def dither_tables(ck):
    """Whole tables: what part of the samples was stored as the upper level, and are samples, rows, blocks, columns and runs independent?"""
    rw = RW(ck)
    rng = ck.rng
    n = 18 if not ck.thorough() else 60
    confs = []
    allc = [(no, d, p, b) for no in ("AF", "RF", "Row") for d, p in [("Uniform", 0), ("TruncatedGaussian", 2.5), ("TruncatedGaussian", 1.5), ("StudentsT", 3.0), ("Gaussian", 0)] for b in (2, 3, 4, 6, 8)]
    for no in ("AF", "RF", "Row"):
        confs += rng.sample([c for c in allc if c[0] == no], n // 3)
    lev = levels(ck, [c[1:] for c in confs])
    groups = []
    a1, a2 = [0, 0, 0, 1, 1, 2], [1, 2, 3, 2, 3, 3]
    npol, nch, nblk = 2, 4, 96
    data = []
    for i, (no, d, p, b) in enumerate(confs):
        g = []
        vis = []
        base = [rng.gauss(0, 1) for _ in range(6 * npol * nch * 2)]
        same = i % 2 == 0   # every block the same values, or every block other values
        for _ in range(nblk): vis += base if same else [rng.gauss(0, 1) for _ in base]
        f = rw.floats("d%d.f" % i, vis)
        data.append(rw.read("d%d.f" % i))
        for run in range(2):
            g.append("w path=%s cols=1,4 a1=%s a2=%s nblk=%d npol=%d nch=%d norm=%s dist=%s db=%d trunc=%g nu=%g d1=%s d4=%s" % (
                rw.path("t%d_%d" % (i, run)), ",".join(map(str, a1)), ",".join(map(str, a2)), nblk, npol, nch, no, d, b, p, p or 1, f, f))
        groups.append(g)
    st = rw.run(groups)
    evs, scripts = {}, {}
    for i, (no, d, p, b) in enumerate(confs):
        L = lev[(d, p, b)]
        bins = [[0, 0, 0.0] for _ in range(10)]
        lags = {}
        other = 0
        pats = {}
        ind = {}
        if any(st[i * 1000 + r]["res"] != "ok" for r in range(2)):
            ck.violation("writing a table failed: %s" % st[i * 1000], {"config": confs[i]}); continue
        for run in range(2):
            path = dyfile.find(rw.path("t%d_%d" % (i, run)))
            if path is None: raise InfraError("storage file not found")
            F = dyfile.DyFile(path, [False, False], npol, nch)
            for col in range(2):
                for blk in range(nblk):
                    meta, sy = F.chunk(blk, col)
                    v = data[i]
                    pat, k = [], 0
                    o = blk * len(sy)
                    for r in range(6):
                        for ch in range(nch):
                            for q in range(npol):
                                fac = F.factor(meta, r, ch, q, a1[r], a2[r])
                                for c in range(2):
                                    x = v[o + k] / fac
                                    s = sy[k]; k += 1
                                    j = bisect.bisect_right(L, x) - 1
                                    if j < 0 or j >= len(L) - 1:
                                        pat.append(None); continue
                                    fr = (x - L[j]) / (L[j + 1] - L[j])
                                    if s != j and s != j + 1:
                                        if 0.01 < fr < 0.99 or not (j - 1 <= s <= j + 2): other += 1
                                        pat.append(None); continue
                                    if not 0.01 < fr < 0.99:
                                        pat.append(None); continue
                                    u = int(s == j + 1)
                                    t = bins[int(fr * 10)]
                                    t[0] += u; t[1] += 1; t[2] += fr
                                    pat.append((u, fr))
                    ind[(run, col, blk)] = pat
        def pair(key, A, B):
            t = lags.setdefault(key, [0, 0, 0.0])
            for x, y in zip(A, B):
                if x and y and 0.2 < x[1] < 0.8 and 0.2 < y[1] < 0.8 and t[1] < 30000:
                    t[0] += x[0] == y[0]; t[1] += 1; t[2] += x[1] * y[1] + (1 - x[1]) * (1 - y[1])
        full = [ind[(0, 0, k)] for k in range(nblk)]
        flat = [x for q in full for x in q]
        for lag in (1, 2, 3, 4, 8, 16, 48): pair("lag%d" % lag, flat, flat[lag:])
        for lag in (1, 2, 3, 4, 5, 6, 7, 8, 9, 16): pair("block%d" % lag, [x for q in full[:-lag] for x in q], [x for q in full[lag:] for x in q])
        pair("column", flat, [x for k in range(nblk) for x in ind[(0, 1, k)]])
        pair("run", flat, [x for k in range(nblk) for x in ind[(1, 0, k)]])
        pair("runcolumn", flat, [x for k in range(nblk) for x in ind[(1, 1, k)]])
        # no two blocks have the same outcomes
        dup = 0
        if i % 2 == 0 and sum(1 for x in full[0] if x and 0.2 < x[1] < 0.8) >= 50:
            seen = {}
            for kk, q in ind.items():
                key = tuple(x[0] if x else -1 for x in q)
                dup += key in seen
                seen[key] = kk
        rows = [(t[0], t[1], round(500 * t[2] / t[1])) for t in bins if t[1]] + [(t[0], t[1], round(500 * t[2] / t[1])) for t in lags.values() if t[1]]
        cap = [(c if m <= 30000 else round(c * 30000 / m), min(m, 30000), q) for c, m, q in rows]
        evs[i] = {"e": "stat", "id": i, "res": "ok", "count": [r[0] for r in cap], "n": [r[1] for r in cap], "num": [r[2] for r in cap], "den": [500] * len(cap), "other": [other, dup], "lags": sorted(lags), "config": list(map(str, confs[i]))}
        scripts[i] = groups[i]
        ck.cov["evaluations"] += sum(t[1] for t in bins)
    ck.note("%d samples in %d tables" % (sum(sum(e["n"][:10]) for e in evs.values()), len(evs)))
    judge(ck, evs, "dithering of tables", chunk=50, script=scripts)
    ck.assumptions.append("statistics of tables are judged at 7 standard deviations")
