"""C24: a failed write is reported, never silently lost."""
from .. import abm, coupled, model
from ..runner import Prop
from . import c16, c22, c23


class Check(Prop):
    id = "C24"
    rule = "an injected disk error (no space or I/O error, at a chosen byte) hit a log or exchange file"
    runs = {"quick": 1300, "thorough": 26000}
    components = {"real": c16.REAL + ["flee/Diagnostics.py"], "stub": c16.STUB}
    assumptions = ["after a reported failure the model stops; the others of a parallel or coupled run may wait for it",
                   "a transient error may be repaired by trying again: then the file has to be complete"]

    def gen(self, rng, i, tier):
        kind = rng.choice(["enospc", "eio"])
        f = {"on": rng.choice(["write"] * 5 + ["open"]), "k": rng.choice([0, 0, 1, 1, 2, 3, 4]), "kind": kind, "bytes": rng.choice([0, 1, 5, 30]), "sticky": rng.random() < 0.75}
        if rng.random() < 0.35:
            cc = coupled.gen(rng, ctype="file", faults=False, log=rng.random() < 0.5, days=rng.randint(1, 3))
            f["node"] = rng.choice(coupled.node_names(cc))
            f["path"] = rng.choice(["coupled", "coupled", "log_exchange"]) if cc["log"] else "coupled"
            f["k"] = rng.randint(0, 2)
            cc["faults"] = [f]
            cc["fs"] = {"write_chunk": rng.choice([0, 0, 2]), "chunk_path": "/out/"}
            cc["step_cap"], cc["fair_cap"] = 2500, 2500
            cc["what"] = "coupling"
            return cc
        what = rng.choice(["agents", "links"])
        case = (c22.Check() if what == "agents" else c23.Check()).gen(rng, i, tier)
        case["what"] = what
        case.pop("files", None)
        f["node"] = "rank%d" % rng.randrange(case["par"]) if case["par"] else "serial"
        f["path"] = "agents.out" if what == "agents" else "links.out"
        case["faults"] = [f]
        return case

    def evaluate(self, case, ctx):
        if case["what"] == "coupling":
            return self.coupling(case, ctx)
        res = model.simulate(case, ctx, keep_files=True)
        hit = [f for f in res.faults if "op" in f]
        err = [n for n in res.nodes if n["error"]]
        for f in hit:
            ctx.probe("%s on a %s log" % (f["kind"], case["what"]))
            ctx.nontrivial()
        if not hit:
            return model.finished(res) or self.complete(case, res, ctx, False)
        f = hit[0]
        n = [x for x in res.nodes if x["name"] == f["node"]][0]
        if n["error"]:
            if n["op"] != f["op"]:
                return [("late", "the failed write of operation %s was only reported in operation %s: %s" % (f["op"], n["op"], n["error"][:2]))]
            ctx.probe("reported")
        elif err:
            return [("elsewhere", "the write failed on %s but %s reports %s" % (n["name"], err[0]["name"], err[0]["error"][:2]))]
        elif res.outcome[0] != "done":
            return [("stuck", "the write failed on %s; nothing was reported and the run does not end" % n["name"])]
        return self.complete(case, res, ctx, bool(n["error"]))

    def complete(self, case, res, ctx, failed):
        """finished steps are in the files, whether or not the run failed later"""
        v = c22.Check().logs(case, res, ctx, failed) if case["what"] == "agents" else c23.Check().logs(case, res, ctx, failed)
        return [("lost", "a write failed unreported: %s" % m) for _, m in v] if not failed else [("damaged", "rows of steps before the failed one are missing: %s" % m) for _, m in v]

    def coupling(self, case, ctx):
        res = coupled.simulate(case, ctx, keep_files=True)
        hit = [f for f in res.faults if "op" in f]
        for f in hit:
            ctx.probe("%s on a coupling file" % f["kind"])
            ctx.nontrivial()
        v = coupled.intake_violations(res, case, ctx)
        if v:
            return [("taken-in", "after a failed write: " + v[0][1])]
        if not hit:
            # (the step limit is small here, because the peers of a failed model wait for it for ever)
            return coupled.finished(res) if res.outcome[0] != "no-progress" else []
        f = hit[0]
        parts = f["node"].split(".")
        side = "macro" if f["node"].startswith("macro") else "micro"
        inst, rank = int(parts[0][5:]), int(parts[1]) if len(parts) > 1 else 0
        m = res.models[(side, inst, rank)]
        others = [e for e in res.errors if e[0] != f["node"]]
        if others:
            return [("elsewhere", "the write failed on %s but %s reports %s" % (f["node"], others[0][0], others[0][1][:2]))]
        if m.error:
            ctx.probe("reported")
            if isinstance(f["op"], int) and m.days != f["op"]:
                return [("late", "the failed write of day %d was reported after %d days" % (f["op"], m.days))]
            if isinstance(f["op"], int):
                for s in coupled.SIDES:
                    for i in range(case["n"]):
                        o = res.models[(s, i, 0)]
                        if s != side and f["op"] in o.post:
                            return [("taken-in", "%s %d finished the exchange of day %d although %s could not write its data" % (s, i, f["op"], f["node"]))]
            return []
        if f.get("sticky", True):
            return [("lost", "the write of %s failed for good at %s, and nothing was reported" % (f.get("hits"), f["op"]))]
        return coupled.finished(res)
