"""Common machinery of the checks: building the drivers from /repo, running TLC,
replaying generated histories on the real code and validating recorded traces."""
import atexit, concurrent.futures, json, os, random, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, "spec")
REPO = os.environ.get("VF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
CPUS = min(8, os.cpu_count() or 1)
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class InfraError(Exception):
    """The machinery failed (not a verdict)."""


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="vf-%s-" % pid)
        os.chmod(self.work, 0o755)  # some drivers open tables as another user
        atexit.register(shutil.rmtree, self.work, True)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "evaluations": 0, "samples": []}
        self.assumptions = []
        self.violations = []
        self.known = []
        self.ntlc = 0
        self.bins = os.path.join(self.work, "bin")
        self.rng = random.Random(SEED * 1000003 + int(re.sub(r"\D", "", pid)))
        self.log = []

    def thorough(self):
        return self.tier == "thorough"

    def note(self, s):
        print("[%s %6.1fs] %s" % (self.pid, time.time() - self.t0, s), flush=True)

    # ---------------------------------------------------------------- build
    def build(self, targets="store", extra=""):
        env = dict(os.environ, VF_REPO=REPO, VF_EXTRA=extra)
        r = subprocess.run(["bash", os.path.join(ROOT, "harness", "build.sh"), self.bins, targets], env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise InfraError("build failed:\n" + r.stdout[-3000:])
        self.note("built " + targets)

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, args=(), env=None, timeout=800, xmx="2g", workers=1, name=None):
        """Runs TLC on spec/<module>.tla; cfg is the text of a configuration or the name of one in spec/."""
        self.ntlc += 1
        d = os.path.join(self.work, "tlc%d" % self.ntlc + (name or ""))
        os.makedirs(d)
        if "\n" in cfg:
            path = os.path.join(d, "model.cfg")
            open(path, "w").write(cfg)
        else:
            path = os.path.join(SPEC, cfg)
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + xmx, "-Xss16m", "-Djava.io.tmpdir=" + d, "-DTLA-Library=" + SPEC, "-cp", JAR, "tlc2.TLC",
               "-noGenerateSpecTE", "-config", path, "-metadir", os.path.join(d, "meta"), "-workers", str(workers)] + list(args) + [os.path.join(SPEC, module + ".tla")]
        try:
            r = subprocess.run(cmd, cwd=d, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
            out = r.stdout
            rc = r.returncode
        except subprocess.TimeoutExpired as e:
            raise InfraError("TLC timed out on " + module)
        shutil.rmtree(os.path.join(d, "meta"), True)
        return rc, out

    @staticmethod
    def counts(out):
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if not m:
            return 0, 0
        g, d = m[-1]
        return int(g.replace(",", "")), int(d.replace(",", ""))

    def model_check(self, module, cfg, expect_ok=True, timeout=800, workers=CPUS, xmx="6g", args=()):
        """Exhaustive check of a specification. A failure here is an error of the specification, not of the code."""
        rc, out = self.tlc(module, cfg, args=args, timeout=timeout, workers=workers, xmx=xmx)
        gen, dist = self.counts(out)
        ok = rc == 0 and "No error has been found" in out
        if ok != expect_ok:
            raise InfraError("TLC on %s: rc=%d\n%s" % (module, rc, out[-3000:]))
        self.cov["states"] += dist
        self.cov["transitions"] += gen
        self.note("TLC %s: %d states, %d transitions" % (module, dist, gen))
        return out

    def generate(self, jobs, timeout=300):
        """jobs: list of (module, cfg text, num, depth, seed). Returns the printed JSON values (@@ lines), deduplicated, in order."""
        def one(j):
            module, cfg, num, depth, seed = j
            rc, out = self.tlc(module, cfg, args=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)], timeout=timeout, name="gen")
            m = re.findall(r"The number of states generated: (\d+)", out)
            if not m:
                raise InfraError("TLC simulation of %s failed:\n%s" % (module, out[-3000:]))
            vals = []
            seen = set()
            for line in out.splitlines():
                if line.startswith('"@@'):
                    if line not in seen:
                        seen.add(line)
                        vals.append(json.loads(json.loads(line)[2:]))
            return int(m[-1]), vals
        res = []
        with concurrent.futures.ThreadPoolExecutor(CPUS) as ex:
            for n, v in ex.map(one, jobs):
                self.cov["transitions"] += n
                res.append(v)
        return res

    def enumerate(self, module, cfg, timeout=600, workers=1, xmx="4g", args=()):
        """Exhaustive TLC run that prints JSON values (@@ lines)."""
        rc, out = self.tlc(module, cfg, args=args, timeout=timeout, workers=workers, xmx=xmx, name="enum")
        if rc != 0:
            raise InfraError("TLC enumeration of %s failed:\n%s" % (module, out[-3000:]))
        gen, dist = self.counts(out)
        self.cov["states"] += dist
        self.cov["transitions"] += gen
        seen, vals = set(), []
        for line in out.splitlines():
            if line.startswith('"@@') and line not in seen:
                seen.add(line)
                vals.append(json.loads(json.loads(line)[2:]))
        return vals

    # --------------------------------------------------------------- driver
    def run_store(self, scripts, timeout=60, env=None, binary="store"):
        """scripts: list of lists of lines (first 'run <id> ...'). Returns dict run id -> list of events.
        A run that did not end in time is done again with more time: only one that does not end then either counts."""
        res = self._run_store(scripts, timeout, env, binary)
        hung = lambda i: any(e["e"] == "hang" for e in res.get(i, []))
        again = [s for s in scripts if hung(int(s[0].split()[1]))]
        while again:
            part, again = again[:CPUS], again[CPUS:]
            ids = [int(s[0].split()[1]) for s in part]
            self.note("runs %s did not end in time; once more" % ids)
            for s in part if os.environ.get("VF_KEEP") else []:
                open("/tmp/hang-%s.txt" % s[0].split()[1], "w").write("\n".join(s + ["end", ""]))
            new = self._run_store(part, 2 * timeout, env, binary)
            for i in ids:
                res[i] = new.get(i, [])
            if any(hung(i) for i in ids):
                break      # it is not for lack of time
        return res

    def _run_store(self, scripts, timeout, env, binary):
        parts = [[] for _ in range(CPUS)]
        for i, s in enumerate(scripts):
            parts[i % CPUS].append(s)
        procs = []
        for i, part in enumerate(parts):
            if not part:
                continue
            sp, op = os.path.join(self.work, "s%d.txt" % i), os.path.join(self.work, "o%d.ndjson" % i)
            with open(sp, "w") as f:
                for s in part:
                    f.write("\n".join(s) + "\nend\n")
            scratch = os.path.join(self.work, "scratch%d" % i)
            os.makedirs(scratch, exist_ok=True)
            procs.append((subprocess.Popen([os.path.join(self.bins, binary), sp, op, scratch, str(timeout)], env=dict(os.environ, **(env or {})),
                                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL), op, scratch))
        res = {}
        for p, op, scratch in procs:
            p.wait()
            shutil.rmtree(scratch, True)
            if p.returncode != 0:
                raise InfraError("driver ended with %d" % p.returncode)
            cur = None
            for line in open(op, errors="replace"):
                line = line.strip()
                if not line:
                    continue
                try:
                    e = json.loads(line)
                except ValueError:
                    if cur is not None:
                        cur.append({"e": "garbled"})
                    continue
                if e["e"] == "run":
                    cur = res.setdefault(e["run"], [])
                cur.append(e)
            os.unlink(op)
        return res

    # ----------------------------------------------------------- validation
    def _validate_file(self, module, cfg, events, tag, env=None):
        path = os.path.join(self.work, "trace-%s-%d.ndjson" % (tag, random.getrandbits(40)))
        with open(path, "w") as f:
            for e in events:
                f.write(json.dumps(e) + "\n")
        rc, out = self.tlc(module, cfg, env=dict(env or {}, TRACE=path), timeout=800, name="val")
        gen, dist = self.counts(out)
        os.unlink(path)
        if rc == 0 and "No error has been found" in out:
            return None, gen, dist, out
        m = re.search(r"The depth of the complete state graph search is (\d+)", out)
        if "ostcondition" in out and m:
            return int(m.group(1)) - 1, gen, dist, out   # number of accepted events
        # a trace that does not even have the form that the specification evaluates is rejected too
        if re.search(r"Attempted to|Cannot cast|evaluating (an|the) ", out) and not re.search(r"OutOfMemory|StackOverflow|Parsing or semantic", out):
            m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct", out)
            return max(0, int(m.group(2).replace(",", "")) - 1) if m else 0, gen, dist, out
        raise InfraError("TLC failed on a trace (%s):\n%s" % (module, out[-3000:]))

    def validate(self, runs, module, cfg, scripts=None, chunk=4000, env=None, limit=3):
        """runs: dict id -> events. Every run has to be a behaviour of the trace specification."""
        chunks, cur, ids = [], [], []
        for rid in sorted(runs):
            if cur and len(cur) + len(runs[rid]) > chunk:
                chunks.append((cur, ids)); cur, ids = [], []
            cur = cur + runs[rid]; ids = ids + [rid]
        if cur:
            chunks.append((cur, ids))
        bad = []

        def one(c):
            evs, rids = c
            out = []
            rids = list(rids)
            while rids:
                evs = [e for r in rids for e in runs[r]]
                k, gen, dist, txt = self._validate_file(module, cfg, evs, self.pid, env)
                if k is None:
                    return out, gen, dist, len(rids)
                # which run does the first rejected event belong to?
                n = 0
                for i, r in enumerate(rids):
                    if n + len(runs[r]) > k:
                        break
                    n += len(runs[r])
                k2, _, _, txt2 = self._validate_file(module, cfg, runs[r], self.pid, env)
                if k2 is None:
                    raise InfraError("a rejected trace was accepted when validated again")
                out.append((r, k2, txt2))
                if len(out) >= limit:
                    return out, gen, dist, i
                rids = rids[i + 1:]
            return out, 0, 0, 0
        with concurrent.futures.ThreadPoolExecutor(CPUS) as ex:
            for b, gen, dist, n in ex.map(one, chunks):
                bad += b
                self.cov["states"] += dist
                self.cov["transitions"] += gen
                self.cov["traces_validated_against_impl"] += n
        for r, k, txt in bad:
            ev = runs[r][k] if k < len(runs[r]) else None
            self.violation("the recorded execution is not a behaviour of %s: event %d %s" % (module, k, json.dumps(ev)[:400]),
                           {"run": r, "script": (scripts or {}).get(r), "trace": runs[r][:k + 1], "module": module, "tlc": txt[-1500:]})
        return bad

    # --------------------------------------------------------------- report
    def note_valid(self):
        self.note("validated %d traces" % self.cov["traces_validated_against_impl"])

    def violation(self, what, data):
        self.violations.append((what, data))

    def sample(self, x):
        if len(self.cov["samples"]) < 4:
            self.cov["samples"].append(x)

    def finish(self, level="model_checking"):
        ev = os.path.join(ROOT, "evidence")
        os.makedirs(ev, exist_ok=True)
        cov = {k: v for k, v in self.cov.items() if v not in (0, [], None) or k in ("states", "transitions", "traces_validated_against_impl", "samples")}
        json.dump({"property": self.pid, "tier": self.tier, "seed": SEED, "level": level, "coverage": cov, "assumptions": self.assumptions,
                   "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)},
                  open(os.path.join(ev, self.pid + ".json"), "w"), indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        if self.violations:
            for i, (what, data) in enumerate(self.violations[:5]):
                path = os.path.join(ev, "replay-%s-%d.json" % (self.pid, i))
                json.dump({"property": self.pid, "what": what, "seed": SEED, "tier": self.tier, "data": data}, open(path, "w"), indent=1, default=str)
                print("  " + what)
                print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)
            return 1
        self.note("held: %s" % json.dumps({k: v for k, v in cov.items() if k != "samples"}))
        return 0
