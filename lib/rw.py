"""Runs harness/rw: writing and reading whole tables with given numbers."""
from vf import *
import struct, array

class RW:
    def __init__(self, ck):
        self.ck, self.n, self.jobs = ck, 0, []
        self.dir = os.path.join(ck.work, "rw"); os.makedirs(self.dir, exist_ok=True)
        self.env = {}

    def path(self, name):
        return os.path.join(self.dir, name)

    def floats(self, name, vals):
        p = self.path(name)
        with open(p, "wb") as f: array.array("f", vals).tofile(f)
        return p

    def read(self, name):
        p = self.path(name)
        a = array.array("f")
        if not os.path.exists(p): return None
        with open(p, "rb") as f: a.frombytes(f.read())
        return a

    def run(self, groups, timeout=120, env=None):
        """groups: list of lists of op lines; the lines of a group run in order. Returns id -> status (ids are the index of the group * 1000 + line)."""
        parts = [[] for _ in range(CPUS)]
        for gi, g in enumerate(groups):
            for li, l in enumerate(g): parts[gi % CPUS].append("%s id=%d" % (l, gi * 1000 + li))
        procs = []
        for i, part in enumerate(parts):
            if not part: continue
            self.n += 1
            sp, op = self.path("ops%d.txt" % self.n), self.path("ops%d.out" % self.n)
            open(sp, "w").write("\n".join(part) + "\n")
            procs.append((subprocess.Popen([os.path.join(self.ck.bins, "rw"), sp, op, str(timeout)], env=dict(os.environ, **(env or {})), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL), op, part))
        res = {}
        for p, op, part in procs:
            p.wait()
            if p.returncode != 0: raise InfraError("rw ended with %d" % p.returncode)
            evs = [json.loads(l) for l in open(op)]
            if len(evs) != len(part): raise InfraError("rw lost operations")
            for e, l in zip(evs, part):   # a crashed operation does not know its id
                e["id"] = int(re.search(r"id=(\d+)", l).group(1)); res[e["id"]] = e
        return res
