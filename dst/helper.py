"""A second interpreter with another hash seed that executes the same simulated runs."""
import json, os, select, subprocess, sys

_procs = {}


def _res(r):
    return {"nodes": [{k: n[k] for k in ("name", "snaps", "rets", "error", "progress")} for n in r.nodes],
            "files": {k: v.decode("latin-1") for k, v in r.files.items()}, "outcome": r.outcome, "world": r.world}


class Far:
    """a result that came from the other interpreter"""

    def __init__(self, d):
        self.nodes, self.outcome, self.world = d["nodes"], d["outcome"], d["world"]
        self.files = {k: v.encode("latin-1") for k, v in d["files"].items()}


def simulate(bundle, ctx, hashseed):
    from .core import HarnessError
    k = ctx.n
    n = max(1, bundle.get("par") or 1)
    ch = ctx.chooser(n)
    how = {"choices": ctx.choices[k] if k < len(ctx.choices) else []} if ctx.choices is not None else {"rng": "%s/%d" % (ctx.sched_seed, k), "n": n}
    key = (os.getpid(), hashseed)
    p = _procs.get(key)
    if p is None or p.poll() is not None:
        for o in [o for o in _procs if o[0] != os.getpid()]:
            del _procs[o]
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        p = _procs[key] = subprocess.Popen([sys.executable, "-B", "-m", "dst.helper"], cwd=here, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                           env=dict(os.environ, PYTHONHASHSEED=str(hashseed)))
    p.stdin.write(json.dumps({"bundle": bundle, "how": how}).encode() + b"\n")
    p.stdin.flush()
    if not select.select([p.stdout], [], [], 240)[0]:
        p.kill()
        raise HarnessError("the second interpreter did not answer")
    line = p.stdout.readline()
    if not line:
        raise HarnessError("the second interpreter died (%s)" % p.poll())
    d = json.loads(line)
    if "harness" in d:
        raise HarnessError(d["harness"])
    rs = [Far(x) for x in d["parts"]]
    ch.taken = list(rs[0].world["taken"])
    ctx.world(rs[0].world)
    return rs


def main():
    import random, traceback, warnings
    warnings.filterwarnings("ignore")
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    from . import multi, runner
    from .core import Chooser
    runner._limits()
    for line in sys.stdin:
        d = json.loads(line)
        h = d["how"]
        ch = Chooser(replay=h["choices"]) if "choices" in h else Chooser(rng=random.Random(h["rng"]), n_nodes=h["n"])
        try:
            ans = {"parts": [_res(r) for r in multi.run(d["bundle"], ch)]}
        except BaseException:
            ans = {"harness": traceback.format_exc(limit=-6)}
        out.write(json.dumps(ans, default=str) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
