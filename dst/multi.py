"""Several simulations in one simulated program (one set of processes), their steps in a scripted order."""
import hashlib, json, os, random, shutil
from . import abm, core, mpi
from .abm import Driver, Res, collect, prepare_dir, scratch, snap
from .core import Chooser, Env, World


class Part(Driver):
    """one simulation of a program; every step can be given its own random state, so that the draws of one
    simulation do not depend on how many the other one makes"""

    def __init__(self, case, rank, cwd):
        Driver.__init__(self, case, rank)
        self.cwd = cwd

    def seed(self, what):
        mode = self.case.get("seeding", "op")
        if mode == "op" or what == "build":
            h = hashlib.sha256(("%s/%s/%s" % (self.case["seeds"][self.rank % len(self.case["seeds"])], self.rank, what)).encode()).digest()
            random.seed(int.from_bytes(h[:6], "big"))
            core.np.random.seed(int.from_bytes(h[6:10], "big"))

    def step(self, node, k):
        os.chdir(self.cwd)
        self.seed("build" if k < 0 else k)
        if k < 0:
            self.build()
        else:
            self.opi = k
            self.rets.append(self.do(self.case["ops"][k]))
            self.progress = k + 1
        self.snaps.append(snap(self.e, self.par))
        node.world.log("snap", hashlib.sha1(json.dumps(self.snaps[-1], sort_keys=True, default=str).encode()).hexdigest()[:16])


class Program:
    def __init__(self, bundle, rank, dirs):
        self.script = bundle["script"]
        self.parts = [Part(c, rank, d) for c, d in zip(bundle["parts"], dirs)]

    def main(self, node):
        self.parts[0].imports()
        for p in self.parts[1:]:
            p.flee, p.SS, p.spawning = self.parts[0].flee, self.parts[0].SS, self.parts[0].spawning
        for which, k in self.script:
            node.op = [which, k]
            node.world.log("op", (which, k))
            self.parts[which].step(node, k)
        return True


def run(bundle, chooser=None):
    """bundle: parts (cases), script [[part, operation or -1 for the creation]...], par, clock, fs, leftovers.
    Returns one Res per part (same form as abm.run)"""
    root = scratch()
    P = bundle.get("par") or 0
    out = [Res() for _ in bundle["parts"]]
    try:
        w = World(chooser or Chooser(replay=[]), root=root, faults=bundle.get("faults", ()), fs_cfg=bundle.get("fs", {}), step_cap=bundle.get("step_cap", 300000))
        if "clock" in bundle:
            w.now = w.clock0 = bundle["clock"]
        dirs = []
        for i, c in enumerate(bundle["parts"]):
            dirs.append(prepare_dir(root, c, "run%d" % i))
            for name, text in (bundle.get("leftovers") or {}).items():
                with core._real_open("%s/%s" % (dirs[-1], name), "w") as f:
                    f.write(text)
        shared = mpi.Shared(w, P) if P else None
        progs = []
        for r in range(P or 1):
            env = Env(seed=bundle.get("seed0", 1) + r, cwd=dirs[0])
            if P:
                mpi.make_modules(env, shared, r)
            pr = Program(bundle, r, dirs)
            w.spawn("rank%d" % r if P else "serial", pr.main, env)
            progs.append(pr)
        outcome = w.run()
        world = {"steps": w.steps, "switches": w.switches, "digest": w.digest(), "fired": dict(w.fired), "simtime": w.now - w.clock0,
                 "taken": list(w.chooser.taken), "events": w.events[-60:], "ncoll": shared.ncoll if shared else 0,
                 "leftover": sum(1 for x in shared.slots.values() if len(x["in"]) < P) if shared else 0}
        for i, res in enumerate(out):
            res.outcome, res.world, res.faults = outcome, world, w.faults
            for n, pr in zip(w.nodes, progs):
                p = pr.parts[i]
                res.nodes.append({"name": n.name, "snaps": p.snaps, "rets": p.rets, "error": n.error, "status": n.status, "op": n.op, "progress": p.progress})
                p.e = p.lm = p.d = None
            res.files = collect(dirs[i])
        for n in w.nodes:
            n.env.modules = {}
            n.env = n.fn = None
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return out


def simulate(bundle, ctx):
    rs = run(bundle, ctx.chooser(max(1, bundle.get("par") or 1)))
    ctx.world(rs[0].world)
    return rs


def alone(case, **kw):
    b = {"parts": [case], "script": [[0, k] for k in range(-1, len(case["ops"]))], "par": case.get("par") or 0, "fs": case.get("fs", {})}
    b.update(kw)
    return b


def diff(a, b, path="", depth=0):
    """first difference between two JSON-like values, as text, or None"""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if k not in a or k not in b:
                return "%s/%s only in the %s" % (path, k, "first" if k in a else "second")
            d = diff(a[k], b[k], "%s/%s" % (path, k))
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, "%s/%d" % (path, i))
            if d:
                return d
        return None if len(a) == len(b) else "%s: %d and %d entries" % (path, len(a), len(b))
    if a == b or (a != a and b != b):
        return None
    return "%s: %s and %s" % (path, repr(a)[:80], repr(b)[:80])


def compare(a, b, case, skip_files=()):
    """first difference between two runs of one case: (class, text) or None"""
    for x, y in zip(a.nodes, b.nodes):
        if (x["error"] or None) and not y["error"] or (y["error"] and not x["error"]):
            n = x if x["error"] else y
            return ("error", "%s fails in only one of the runs: %s" % (n["name"], str(n["error"][:2])[:200]))
        for k in range(min(len(x["snaps"]), len(y["snaps"]))):
            if k and x["rets"][k - 1] != y["rets"][k - 1]:
                return ("result", "operation %d %s on %s returned %s and %s" % (k - 1, json.dumps(case["ops"][k - 1])[:60], x["name"], x["rets"][k - 1], y["rets"][k - 1]))
            if json.dumps(x["snaps"][k], default=str) != json.dumps(y["snaps"][k], default=str):
                d = diff(x["snaps"][k], y["snaps"][k])
                if d:
                    where = "after creation" if k == 0 else "after operation %d %s" % (k - 1, json.dumps(case["ops"][k - 1])[:60])
                    return ("state", "%s on %s: %s" % (where, x["name"], d))
        if len(x["snaps"]) != len(y["snaps"]):
            return ("steps", "%s completed %d and %d operations" % (x["name"], len(x["snaps"]), len(y["snaps"])))
    for f in a.files:
        if f in skip_files:
            continue
        if f not in b.files:
            return ("file", "only one run wrote %s" % f)
        if a.files[f] != b.files[f]:
            la, lb = a.files[f].split(b"\n"), b.files[f].split(b"\n")
            k = [i for i, (p, q) in enumerate(zip(la, lb)) if p != q] or [min(len(la), len(lb))]
            return ("file", "%s differs at line %d: %r and %r" % (f, k[0] + 1, la[k[0]:k[0] + 1], lb[k[0]:k[0] + 1]))
    return None
