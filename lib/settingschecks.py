"""Checks of settings (C08, C21)."""
from vf import *
import filechecks
from rw import RW
import struct

# parameters: 0..7 of Student's T, 10..17 of the truncated Gaussian (not all are exact in single precision)
PAR = {0: 1.0, 1: 1.3, 2: 2.0, 3: 3.3, 4: 10.000000000000002, 5: 1.1, 6: 100.0, 7: 5.25,
       10: 2.5, 11: 1.5, 12: 1.7, 13: 2.2, 14: 3.3000000000000003, 15: 4.0, 16: 0.5, 17: 1.9999999999999998}
COLS = {1: "DATA:Complex:direct:2x3", 2: "DATA:Complex:direct:1x1,WEIGHT_SPECTRUM:Float:direct:1x1", 3: "WEIGHT_SPECTRUM:Float:direct:4x2",
        4: "WEIGHT_SPECTRUM:Float:direct:3x2,DATA:Complex:direct:3x2", 5: "DATA:Complex:direct:2x1,CORRECTED_DATA:Complex:direct:2x1", 6: "MODEL_DATA:Complex:direct:1x4"}


def dhex(ix): return bytes(ix).hex() if isinstance(ix, list) else struct.pack("<d", PAR[ix]).hex()
def nhex(n): return bytes(n).hex()
def colspec(cols): return ",".join("%s:%s:%s:%s" % (c["name"], c["type"], c["kind"], "x".join(map(str, c["shape"]))) for c in cols)


def line(o):
    op = o["op"]
    if op == "new": return "new m=%d db=%d wb=%d name=%s" % (o["m"], o["db"], o["wb"], nhex(o["name"]))
    if op == "rec": return "rec m=%d db=%d wb=%d name=%s dist=%s norm=%s trunc=%s%s" % (o["m"], o["db"], o["wb"], nhex(o["name"]), o["dist"].encode().hex(), o["norm"].encode().hex(), dhex(o["trunc"]), "" if o["nu"] == -1 else " nu=" + dhex(o["nu"]))
    if op == "dist": return "dist m=%d dist=%s par=%s" % (o["m"], o["dist"], dhex(o["par"]))
    if op == "norm": return "norm m=%d norm=%s" % (o["m"], o["norm"])
    if op == "spec": return "spec m=%d name=%s %s" % (o["m"], nhex(o["name"]), "from=%d" % o["from"] if "from" in o else "fromt=%d" % o["fromt"])
    if op == "mk": return "mk t=%d m=%d cols=%s" % (o["t"], o["m"], COLS[o["cl"]] if "cl" in o else colspec(o["cols"]))
    if op == "add": return "add t=%d col=%s type=%s kind=%s shape=%s%s" % (o["t"], o["cols"][0]["name"], o["cols"][0]["type"], o["cols"][0]["kind"], "x".join(map(str, o["cols"][0]["shape"])), " m=%d" % o["m"] if o["m"] else "")
    return op + "".join(" %s=%s" % (k, o[k]) for k in ("m", "t", "from", "with", "shift", "rw") if k in o)


def unhexl(h): return list(bytes.fromhex(h))
def parse_cols(s):
    out = []
    for c in s.split(","):
        n, t, k, sh = c.split(":")
        out.append(dict(name=n, type=t, kind=k, shape=[int(x) for x in sh.split("x")]))
    return out


def event(e):
    """Brings a recorded event in the form of the specification."""
    a = {k[2:]: e.pop(k) for k in list(e) if k.startswith("a_")}
    for k in ("m", "t", "from", "with", "shift", "db", "wb", "fromt"):
        if k in a: e[k] = int(a[k])
    k = e["e"]
    if k in ("new", "rec", "spec"): e["name"] = unhexl(a["name"])
    if k == "rec":
        e["dist"], e["norm"] = bytes.fromhex(a["dist"]).decode(), bytes.fromhex(a["norm"]).decode()
        e["trunc"], e["nu"] = unhexl(a["trunc"]), unhexl(a.get("nu", "00" * 8))
    if k == "dist": e["dist"], e["par"] = a["dist"], unhexl(a["par"])
    if k == "norm": e["norm"] = a["norm"]
    if k == "spec": e.setdefault("from", 0); e.setdefault("fromt", 0)
    if k == "mk": e["cols"] = parse_cols(a["cols"])
    if k == "add": e["cols"] = [dict(name=a["col"], type=a["type"], kind=a["kind"], shape=[int(x) for x in a["shape"].split("x")])]; e.setdefault("m", 0)
    if k in ("rep", "rept", "info") and e.get("ok") and "dataBitCount" in e:
        e["r"] = dict(name=unhexl(e.pop("name")), type=e.pop("type"), db=e.pop("dataBitCount"), wb=e.pop("weightBitCount"), dist=e.pop("distribution"), norm=e.pop("normalization"),
                      nu=unhexl(e.pop("studentTNu")), trunc=unhexl(e.pop("distributionTruncation")))
    elif k in ("rep", "rept", "info"): e["ok"] = 0
    if k == "hdr" and e.get("ok"): e["f"] = unhexl(e.get("f", ""))
    return e


def replay(ck, hists, tag, chunk=1500):
    scripts = [["run %d" % i] + [line(o) for o in h] for i, h in enumerate(hists)]
    runs = ck.run_store(scripts, binary="settings", timeout=120)
    if len(runs) != len(scripts): raise InfraError("driver lost runs")
    ck.note("ran %d %s" % (len(scripts), tag))
    runs = {k: [event(dict(e)) for e in v] for k, v in runs.items()}
    ck.cov["evaluations"] += len(scripts)
    ck.sample({"script": scripts[0], "events": runs[0][-2:]})
    ck.validate(runs, "SettingsTrace", "SettingsTrace.cfg", dict(enumerate(scripts)), chunk=chunk)
    ck.note_valid()
    return runs


def finish_hist(h):
    """Closes, reopens and looks at everything at the end."""
    st = {}
    for o in h:
        t = o.get("t")
        if o["op"] in ("mk",): st[t] = dict(open=True, wr=0, sh=0)
        elif o["op"] == "deep": st[t] = dict(open=True, wr=2, sh=st[o["from"]]["sh"])
        elif o["op"] == "wr": st[t]["wr"] += 1; st[t]["sh"] = o["shift"]
        elif o["op"] == "close": st[t]["open"] = False
        elif o["op"] == "open": st[t]["open"] = True
    out = list(h)
    for t, s in sorted(st.items()):
        if s["open"]:
            if s["wr"]: out.append(dict(op="dev", t=t, shift=s["sh"]))
            out.append(dict(op="close", t=t))
        out += [dict(op="hdr", t=t), dict(op="open", t=t, rw=1), dict(op="rept", t=t)]
        if s["wr"]: out.append(dict(op="dev", t=t, shift=s["sh"]))
        out += [dict(op="wr", t=t, shift=1), dict(op="close", t=t), dict(op="hdr", t=t), dict(op="open", t=t, rw=0), dict(op="rept", t=t), dict(op="dev", t=t, shift=1), dict(op="close", t=t)]
    return out


def persist_check(ck):
    """C08"""
    ck.build("settings rw")
    ck.model_check("SettingsMC", "SettingsMC.cfg")
    rw = RW(ck)
    for rnd in range(1 if not ck.thorough() else 12):
        jobs = [("SettingsGen", "SPECIFICATION Spec\nCONSTANT Len1 = %d\nCHECK_DEADLOCK FALSE\n" % (14 + 6 * (j % 3)), 110, 60, SEED * 5171 + 100 * rnd + j) for j in range(8)]
        hists = [finish_hist(h) for v in ck.generate(jobs) for h in v]
        replay(ck, hists, "histories")
        if ck.violations: return
        # the settings in a file are those that are used to decode it, and to write in it after reopening
        filechecks.lay(ck, rw, filechecks.scenarios(ck, 24, rnd, 5209), rnd)
        if ck.violations: return


def refuse_check(ck):
    """C21"""
    ck.build("settings")
    ck.model_check("SettingsMC", "SettingsMC.cfg")
    for part in ("bits", "names", "cols", "all"):
        hists = ck.enumerate("SettingsEnum", 'SPECIFICATION Spec\nCONSTANT Part = "%s"\nCHECK_DEADLOCK FALSE\n' % part)
        if part == "all" and not ck.thorough():
            # Gaussian and Student's T levels of 16 bits take long to calculate: a part of those combinations
            slow = lambda h: any(o.get("db") == 16 for o in h) and any(o.get("dist") in ("Gaussian", "StudentsT", "TruncatedGaussian") for o in h)
            hists = [h for i, h in enumerate(hists) if not slow(h) or i % 6 == SEED % 6]
        replay(ck, [h + USE_IF for h in hists], part)
        if ck.violations: return


# what is done with a table, if it was made (operations on a table that was not made are not recorded)
USE_IF = [dict(op="wr", t=1, shift=0), dict(op="dev", t=1, shift=0), dict(op="close", t=1), dict(op="open", t=1, rw=0), dict(op="rept", t=1), dict(op="dev", t=1, shift=0), dict(op="cols", t=1), dict(op="close", t=1)]
