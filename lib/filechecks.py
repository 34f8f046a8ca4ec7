"""Checks of the file layout (C06, C07)."""
from vf import *
import json, math, struct, statistics
from rw import RW
import dyfile

GEN = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
"""
NaN, None_ = 2143289344, 2143289345
GOLD = None


def order(x):
    k = struct.unpack("<i", struct.pack("<f", x))[0]
    return k if k >= 0 else -(k & 0x7fffffff)


def orders(a):
    """floats (array) to integers in the order of the numbers; NaN to one number"""
    b = struct.unpack("<%di" % len(a), a.tobytes())
    return [NaN if (k & 0x7fffffff) > 0x7f800000 else k if k >= 0 else -(k & 0x7fffffff) for k in b]


def f32(k):
    return struct.unpack("<f", struct.pack("<i", k if k >= 0 else (-k) | -0x80000000))[0]


def par_of(s):
    return s["par"] / 10 if s["dist"] == "TruncatedGaussian" else s["par"]


def level16(dist, par, i):
    n = 65535
    j = min(i, n - 1 - i)
    if 2 * j + 1 == n: return 0.0
    v = (j + 0.5) / n
    nd = statistics.NormalDist()
    if dist == "Uniform": x = math.sqrt(3) * (2 * v - 1)
    elif dist == "Gaussian": x = math.sqrt(3) * nd.inv_cdf(v)
    else:
        c = nd.cdf(-par); x = nd.inv_cdf(v * (1 - 2 * c) + c)
    return x if i == j else -x


def levels(s, syms):
    """Levels and gaps next to them, as ordered integers: sequences, or for 16 bits by symbol."""
    global GOLD
    if GOLD is None: GOLD = json.load(open(os.path.join(ROOT, "golden", "levels.json")))
    g = GOLD["%s %g %d" % (s["dist"], par_of(s), s["db"])]
    if s["db"] < 16:
        v = [f32(k) for k in g]
        return g, [order(max((v[i] - v[i - 1]) if i else 0, (v[i + 1] - v[i]) if i + 1 < len(v) else 0)) for i in range(len(v))]
    if s["kind"] == "f": return g, {}
    L = lambda i: level16(s["dist"], par_of(s), i)
    lv, gp = {}, {}
    for i in syms:
        if i == 65535: continue
        lv[str(i)] = order(L(i)); gp[str(i)] = order(max(L(i) - L(i - 1) if i else 0, L(i + 1) - L(i) if i < 65534 else 0))
    return lv, gp


def gen_values(rng, s, nrow):
    """Values per column: a strength per antenna and channel, some non-finite samples and zeros"""
    out = []
    for c in s["cols"]:
        if c == 3:
            out.append([round(abs(rng.gauss(1, 0.6)), 4) if rng.random() > 0.05 else 0.0 for _ in range(nrow * s["np"] * s["nc"])]); continue
        gain = [2.0 ** rng.randint(-4, 4) for _ in range(600)]
        bp = [2.0 ** rng.randint(-3, 3) for _ in range(s["np"] * s["nc"])]
        v = []
        for r in range(nrow):
            a, b = s["base"][r % s["rpb"]]
            for i in range(s["np"] * s["nc"]):
                z = [rng.gauss(0, 1) * gain[a] * gain[b] * bp[i] for _ in range(2)]
                if rng.random() < 0.02: z = rng.choice([[math.nan, math.nan], [math.nan, z[0]], [z[0], math.nan], [0.0, 0.0], [0.0, z[1]]])
                v += z
        out.append(v)
    return out


def wanted(s, vals):
    """The values as ordered integers, None_ where nothing but non-finiteness is demanded"""
    out = []
    for c, v in zip(s["cols"], vals):
        if c == 3:
            w = []
            for i in range(0, len(v), s["np"]): w += [order(min(v[i:i + s["np"]]))] * s["np"]
            out.append(w)
        else:
            w = []
            for i in range(0, len(v), 2):
                bad = any(x != x for x in v[i:i + 2])
                w += [NaN if x != x else None_ if bad else order(x) for x in v[i:i + 2]]
            out.append(w)
    return out


def cfgline(s, path, extra=""):
    name = "".join("%02x" % c for c in s["name"]) or "4473"
    return "w path=%s cols=%s a1=%s a2=%s npol=%d nch=%d norm=%s dist=%s db=%d wb=%d trunc=%g nu=%g namehex=%s %s" % (
        path, ",".join(map(str, s["cols"])), ",".join(str(b[0]) for b in s["base"]), ",".join(str(b[1]) for b in s["base"]), s["np"], s["nc"],
        s["norm"], s["dist"], s["db"], s["wb"], par_of(s) or 2.5, par_of(s) or 5, name if s["kind"] == "w" else "4473", extra)


def readline(s, path, tag, rw, extra=""):
    return "r path=%s cols=%s %s %s" % (path, ",".join(map(str, s["cols"])), " ".join("o%d=%s" % (c, rw.path("%s.o%d" % (tag, c))) for c in s["cols"]), extra)


def get(rw, s, tag):
    out = []
    for c in s["cols"]:
        a = rw.read("%s.o%d" % (tag, c))
        if a is None: return None
        out.append(orders(a)); os.unlink(rw.path("%s.o%d" % (tag, c)))
    return out


def scenarios(ck, n, rnd, seed=7717):
    jobs = [("FileGen", GEN, n, 7, SEED * seed + 100 * rnd + j) for j in range(8)]
    sc = [s for v in ck.generate(jobs) for s in v]
    for s in sc:
        if s["db"] == 16 and s["kind"] == "w" and s["dist"] in ("StudentsT", "Gaussian"): s["db"] = 12
        if s["kind"] == "w" and not s["name"]: s["name"] = [68, 115]
    return sc


def file_check(ck):
    """C06"""
    ck.build("rw")
    ck.model_check("FileFormatMC", "FileFormatMC.cfg")
    rounds = 1 if not ck.thorough() else 15
    rw = RW(ck)
    for rnd in range(rounds):
        sc = scenarios(ck, 60, rnd)
        ck.note("generated %d files" % len(sc))
        lay(ck, rw, sc, rnd)
        if ck.violations: return
    far(ck, rw)


def lay(ck, rw, sc, rnd, old=False):
    groups, vals = [], {}
    for i, s in enumerate(sc):
        p = rw.path("f%d.tab" % i)
        if s["kind"] == "w":
            nrow = s["nb"] * s["rpb"]
            vals[i] = gen_values(ck.rng, s, nrow)
            d = " ".join("d%d=%s" % (c, rw.floats("f%d.d%d" % (i, c), v)) for c, v in zip(s["cols"], vals[i]))
            g = [cfgline(s, p, "nblk=%d %s%s" % (s["nb"], d, " order=rev" if s["rev"] and s["nb"] > 2 else ""))]
        else:
            nrow = max(1, s["nb"] * s["rpb"] + s["rows"])
            g = [cfgline(s, p, "nodata=1 nrow=%d" % nrow)]
        s["nrow"] = nrow
        groups.append(g)
    st = rw.run(groups)
    for i, s in enumerate(sc):
        s["res"] = "ok" if st[i * 1000]["res"] == "ok" else st[i * 1000]["res"] + " " + st[i * 1000]["what"]
        if s["res"] != "ok": continue
        sf = dyfile.find(rw.path("f%d.tab" % i))
        if sf is None: s["res"] = "no storage file"; continue
        s["sf"] = sf
        if s["kind"] == "f": open(sf, "wb").write(bytes(s["f"]))
        else: s["f"] = list(open(sf, "rb").read())
    g2, upd = [], {}
    for i, s in enumerate(sc):
        p = rw.path("f%d.tab" % i)
        g = []
        if s["res"] == "ok":
            g = [readline(s, p, "f%da" % i, rw), readline(s, p, "f%db" % i, rw, "order=rev rw=1"), "cp path=%s to=%s" % (p, p + "1")]
            j = ck.rng.randrange(len(s["cols"])); row = ck.rng.randrange(s["nrow"]); c = s["cols"][j]
            upd[i] = dict(j=j + 1, row=row)
            g += ["u path=%s c=%d row=%d n=1 npol=%d nch=%d v=%g" % (p, c, row, s["np"], s["nc"], ck.rng.choice([0, 1, 3, 0.25])), readline(s, p, "f%dc" % i, rw)]
        g2.append(g)
    st = rw.run(g2)
    ck.note("stored and read them")
    runs, scripts = {}, {}
    keys = ("kind", "cols", "np", "nc", "norm", "dist", "nu", "trunc", "db", "wb", "rpb", "nb", "name", "nant", "base", "nrow", "f", "res")
    for i, s in enumerate(sc):
        e = {k: s[k] for k in keys if k in s}
        e["e"] = "file"
        scripts[i] = {"ops": groups[i] + g2[i], "values": vals.get(i)}
        if s["kind"] == "w":
            e["nu"], e["trunc"] = s["nu"], s["trunc"]
        for k in range(len(g2[i])):
            if st[i * 1000 + k]["res"] != "ok" and e["res"] == "ok": e["res"] = "%s: %s %s" % (g2[i][k].split()[0], st[i * 1000 + k]["res"], st[i * 1000 + k]["what"])
        if e["res"] != "ok": runs[i] = [e]; continue
        f1 = list(open(s["sf"].replace("f%d.tab" % i, "f%d.tab1" % i), "rb").read())
        f2 = list(open(s["sf"], "rb").read())
        if f1 != s["f"]: e["res"] = "reading changed the file"
        rd, rd2, rd3 = get(rw, s, "f%da" % i), get(rw, s, "f%db" % i), get(rw, s, "f%dc" % i)
        if rd is None or rd2 is None or rd3 is None: e["res"] = "nothing read"; runs[i] = [e]; continue
        syms, syms2 = set(), set()
        if s["db"] == 16 and s["kind"] == "w":
            try: syms, syms2 = allsyms(s, bytes(s["f"])), allsyms(s, bytes(f2))
            except Exception as x: e["res"] = "file can not be interpreted: %s" % x; runs[i] = [e]; continue
        e["lv"], e["gp"] = levels(s, syms | syms2)
        e["rd"], e["rd2"], e["twice"], e["wr"] = rd, rd2, True, wanted(s, vals[i]) if s["kind"] == "w" else []
        u = {k: e[k] for k in keys if k in e}
        runs[i] = [e]
        # an f-file with 16 bits is re-encoded to symbols of which the levels are not known here
        if not (s["db"] == 16 and s["kind"] == "f"):
            u.update(e="upd", u=upd[i], f2=f2, rd=rd3, lv=e["lv"], gp=[])
            runs[i].append(u)
        ck.cov["evaluations"] += sum(map(len, rd))
        for suf in ("", "1"): shutil.rmtree(rw.path("f%d.tab%s" % (i, suf)), True)
    if rnd == 0: ck.sample({"ops": scripts[0]["ops"], "file_bytes": sc[0]["f"][:80]})
    ck.validate(runs, "FileTrace", "FileTrace.cfg", scripts, chunk=20)
    ck.note_valid()


def allsyms(s, b):
    """All symbols of 16-bit data chunks"""
    p = os.path.join("/tmp", "vf-sy-%d-%d" % (os.getpid(), random.getrandbits(30)))
    open(p, "wb").write(b)
    try: F = dyfile.DyFile(p, [c == 3 for c in s["cols"]], s["np"], s["nc"])
    finally: os.unlink(p)
    out = set()
    for k in range(F.nblk):
        for j, c in enumerate(s["cols"]):
            if c != 3:
                try: out |= set(F.chunk(k, j)[1])
                except struct.error: pass
    return out


def far(ck, rw):
    """Blocks beyond 4 GB."""
    path = rw.path("far.tab")
    blocks, empty, last, nblk = [0, 1, 4095, 4110, 2050], [2, 14, 2049, 4094, 4096, 4109, 4111], 4110, 4120
    blocks2 = blocks + [4100]
    s = dict(kind="w", cols=[1], base=[[i, 16] for i in range(16)], np=4, nc=4096, norm="Row", dist="Uniform", par=0, db=16, wb=8, name=[68, 115])
    B = ",".join(map(str, blocks)); B2 = ",".join(map(str, blocks2)); EM = ",".join(map(str, empty))
    g = [cfgline(s, path, "nodata=1 nrow=%d nblk=%d" % (nblk * 16, nblk)),
         "far path=%s blocks=%s" % (path, B), "farr path=%s blocks=%s empty=%s" % (path, B, EM),
         "far path=%s blocks=4100" % path, "farr path=%s blocks=%s empty=%s" % (path, B2, EM)]
    st = rw.run([g], timeout=300)
    e = dict(e="far", res="ok", blocks=blocks2, last=last, bad=0)
    for k in range(len(g)):
        if st[k]["res"] != "ok": e["res"] = "%s: %s %s" % (g[k].split()[0], st[k]["res"], st[k]["what"]); break
        if g[k].startswith("farr"): e["bad"] += int(st[k]["extra"])
    if e["res"] == "ok":
        sf = dyfile.find(path)
        F = struct.unpack("<IIII", open(sf, "rb").read(16))
        e["hsize"] = F[0]
        h = open(sf, "rb").read(F[0])
        e["bsize"] = struct.unpack_from("<I", h, 16 + F[3] + 8)[0]
        size = os.path.getsize(sf)
        e["ext"] = [[digits(a), digits(b)] for a, b in extents(sf, F[0])]
        e["ends"] = [digits(size)]
        ck.cov["evaluations"] += 1
    shutil.rmtree(path, True)
    ck.validate({0: [e]}, "FileTrace", "FileTrace.cfg", {0: {"ops": g}})
    ck.note("blocks beyond 4 GB")


def digits(n):
    return [(n >> (15 * i)) & 32767 for i in range(4)]


def extents(path, start):
    """Stretches [a, b] of non-zero bytes behind start, joined when less than 4096 zeros are between them."""
    out = []
    fd = os.open(path, os.O_RDONLY)
    size = os.fstat(fd).st_size
    p = start
    zero = bytes(65536)
    try:
        while p < size:
            try: p = max(p, os.lseek(fd, p, os.SEEK_DATA))
            except OSError: break
            end = min(size, os.lseek(fd, p, os.SEEK_HOLE))
            while p < end:
                b = os.pread(fd, min(65536, end - p), p)
                if not b: break
                if b != zero[:len(b)]:
                    a, z = p + len(b) - len(b.lstrip(b"\0")), p + len(b.rstrip(b"\0"))
                    if out and a - out[-1][1] < 131072: out[-1][1] = z
                    else: out.append([a, z])
                p += len(b)
    finally: os.close(fd)
    return out


def refuse_check(ck):
    """C07"""
    ck.build("rw")
    ck.model_check("FileFormatMC", "FileFormatMC.cfg")
    rw = RW(ck)
    sc = scenarios(ck, 12 if not ck.thorough() else 60, 0, 9311)
    sc = [s for s in sc if s["kind"] == "f"][:24 if not ck.thorough() else 200]
    groups = []
    for i, s in enumerate(sc):
        groups.append([cfgline(s, rw.path("x%d.tab" % i), "nodata=1 nrow=%d" % (s["nb"] * s["rpb"]))])
    st = rw.run(groups)
    g2, evs = [], {}
    for i, s in enumerate(sc):
        p = rw.path("x%d.tab" % i)
        if st[i * 1000]["res"] != "ok":
            ck.violation("a table can not be created: %s" % st[i * 1000], {"op": groups[i]}); return
        sf = dyfile.find(p)
        ops = []
        bp = rw.path("x%d.bytes" % i)
        f = s["f"]
        open(bp, "wb").write(bytes(f))
        n = len(s["name"]); fix = 16 + n
        coff = f[4] + 256 * f[5]
        size = f[0] + 256 * f[1]
        subend = coff + len(s["cols"]) * (12 + s["pad1"])
        mut = [("whole", {}, "")]
        for k in range(0, min(subend, len(f))): mut.append(("cut", {"cut": k}, "cut=%d" % k))
        for maj, mi in [(0, 0), (0, 1), (1, 1), (1, 2), (2, 0), (1, 255), (2, 1), (255, 0)]:
            mut.append(("version", {fix + 12: maj, fix + 14: mi}, "e1=%d:%d e2=%d:%d" % (fix + 12, maj, fix + 14, mi)))
        mut.append(("version", {fix + 13: 1}, "e1=%d:1" % (fix + 13))); mut.append(("version", {fix + 15: 1}, "e1=%d:1" % (fix + 15))); mut.append(("version", {fix + 15: 128}, "e1=%d:128" % (fix + 15)))
        for k in list(range(0, 7)) + [128, 255]: mut.append(("columns", {8: k}, "e1=8:%d" % k))
        for k in (9, 10, 11): mut.append(("columns", {k: 1}, "e1=%d:1" % k))
        for k in (4, 5, 17, 128, 255): mut.append(("distribution", {fix + 18: k}, "e1=%d:%d" % (fix + 18, k)))
        for k in (3, 4, 128, 255): mut.append(("normalization", {fix + 19: k}, "e1=%d:%d" % (fix + 19, k)))
        for k in (0, 1, 5, 7, 9, 11, 13, 14, 15, 17, 32, 255):
            if any(c != 3 for c in s["cols"]): mut.append(("data bits", {fix + 16: k}, "e1=%d:%d" % (fix + 16, k)))
            if 3 in s["cols"]: mut.append(("weight bits", {fix + 17: k}, "e1=%d:%d" % (fix + 17, k)))
        # (the number of bits a file does not use)
        mut.append(("missing", None, ""))
        lines = []
        for kind, m, txt in mut:
            lines.append((kind, m, "x path=%s sf=%s bytes=%s rw=%d read=%d %s" % (p, sf, bp if m is not None else "none", ck.rng.randrange(2), next((c for c in s["cols"] if c != 3), 0) if kind != "whole" else 0, txt)))
        ck.rng.shuffle(lines)
        lines = [("whole", {}, "x path=%s sf=%s bytes=%s rw=0" % (p, sf, bp))] + lines[:999]
        g2.append([x[2] for x in lines]); evs[i] = lines
    st = rw.run(g2)
    ck.note("opened %d files" % sum(map(len, g2)))
    runs = {}
    scripts = {}
    for i, s in enumerate(sc):
        out = []
        for k, (kind, m, line) in enumerate(evs[i]):
            r = st[i * 1000 + k]
            f = list(s["f"])[:400]
            full = len(s["f"])
            if m is not None:
                for o, v in m.items():
                    if o == "cut": f = f[:v]
                    else: f[o] = v
            out.append(dict(e="open", kind=kind, exists=m is not None, f=f if m is not None else [], cols=s["cols"], same=r.get("extra") in ("same", None) and r["res"] in ("ok", "exception"), res=r["res"], what=r["what"], line=line))
        ck.cov["evaluations"] += len(out)
        for k in range(0, len(out), 40):
            runs[i * 1000 + k] = out[k:k + 40]; scripts[i * 1000 + k] = [groups[i][0]] + [e["line"] for e in out[k:k + 40]] + [{"bytes": s["f"][:400]}]
    ck.sample({"op": g2[0][1], "result": runs[0][1]["res"], "what": runs[0][1]["what"]})
    ck.validate(runs, "FileTrace", "FileTrace.cfg", scripts, chunk=400)
    ck.note_valid()
