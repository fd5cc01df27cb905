"""C36: observing a simulation (logs, queries, reports) does not change its course."""
import copy
from .. import coupled, model, multi
from ..runner import Prop, generic_shrinks
from . import c16, c25

QUERIES = ("idps", "numagents", "print", "graph")


class Check(Prop):
    id = "C36"
    rule = "agents moved, and at least two kinds of logs or queries were on in only one of the runs"
    runs = {"quick": 1500, "thorough": 24000}
    components = {"real": model.REAL_PAR + ["flee/Diagnostics.py", "flee/InputGeography.py", "flee/datamanager"], "stub": c16.STUB}
    assumptions = ["the user seeds random and numpy.random of every process before the simulation is created",
                   "what only the logs are made of (journey lengths, places visited, arrival statistics) is not compared"]

    def gen(self, rng, i, tier):
        if rng.random() < 0.15:
            cc = coupled.gen(rng, faults=False, log=False)
            cc["what"] = "coupled"
            return cc
        t = c25.scenario(rng, i, tier)
        t["seeding"] = "build"
        for k in ("faults", "fs"):
            t.pop(k, None)
        t["ops"] = [o for o in t["ops"] if o[0] not in QUERIES]
        t["settings"]["log_levels"] = {}
        logs = {}
        for k, vs in (("agent", [1, 2, 3]), ("link", [1, 2]), ("camp", [1]), ("conflict", [1]), ("init", [1]), ("idp_totals", [1])):
            if rng.random() < 0.5:
                logs[k] = rng.choice(vs)
        if rng.random() < 0.3:
            logs["granularity"] = "region"
        ask = []
        for k in range(len(t["ops"]) + 1):
            for _ in range(rng.choice([0, 0, 1, 2])):
                ask.append([k, [rng.choice(QUERIES)]])
        if rng.random() < 0.3:
            ask = []
        return {"target": t, "logs": logs, "ask": ask}

    def evaluate(self, case, ctx):
        if case.get("what") == "coupled":
            return self.coupled(case, ctx)
        t, ask = case["target"], sorted(case["ask"])
        P = t.get("par") or 0
        n = len(t["ops"])
        a = self.go(t, ctx)
        v = model.finished(a)
        if v:
            # that legal scenarios complete is C15
            ctx.probe("scenarios that do not complete")
            return []
        o = copy.deepcopy(t)
        o["settings"]["log_levels"] = case["logs"]
        ops, keep = [], [0]
        for k in range(n + 1):
            ops += [q for j, q in ask if min(j, n) == k]
            if k < n:
                ops.append(t["ops"][k])
                keep.append(len(ops))
        o["ops"] = ops
        b = self.go(o, ctx)
        for nd in b.nodes:
            if nd["error"]:
                return [("error", "with logs %s and queries the run fails on %s: %s" % (case["logs"], nd["name"], str(nd["error"][:2])[:300]))]
        v = model.finished(b)
        if v:
            return [("outcome", "with logs %s and queries: %s" % (case["logs"], v[0][1]))]
        for k, q in ((x, ops[x]) for x in range(len(ops)) if ops[x][0] in QUERIES):
            # a query changes nothing by itself, either
            for nd in b.nodes:
                d = multi.diff(nd["snaps"][k], nd["snaps"][k + 1])
                if d:
                    return [("query", "the query %s on %s changed the state: %s" % (q, nd["name"], d))]
        for nd in b.nodes:
            nd["rets"] = [nd["rets"][x - 1] for x in keep[1:]]
            nd["snaps"] = [nd["snaps"][x] for x in keep]
        for x in (a, b):
            for nd in x.nodes:
                for s in nd["snaps"]:
                    s.pop("arr", None)
                    s.pop("dur", None)
                    for g in s["agents"]:
                        g.pop("dist")
                        g.pop("visited")
        moved = any(x["places"] or x["pos"] and x["pos"][0] == "link" for q in a.nodes for x in q["snaps"][-1]["agents"])
        ctx.nontrivial(moved and len([k for k in case["logs"] if k != "granularity"]) + bool(ask) > 1)
        for k in case["logs"]:
            ctx.probe("log " + k)
        ctx.probe("queries", len(ask))
        a.files, b.files = {}, {}
        d = multi.compare(c25.json_like(a), c25.json_like(b), t)
        if d:
            return [(d[0], "with logs %s%s the run differs: %s" % (case["logs"], " and queries" if ask else "", d[1]))]
        return []

    def coupled(self, case, ctx):
        a = coupled.simulate(case, ctx, keep_files=True)
        if coupled.finished(a):
            return []
        b = coupled.simulate(dict(case, log=True), ctx, keep_files=True)
        v = coupled.finished(b)
        if v:
            return v
        ctx.probe("coupled, exchanges logged in one run only")
        for key, m in a.models.items():
            o = b.models[key]
            for what in ("pre", "post"):
                d = multi.diff(getattr(m, what), getattr(o, what))
                if d:
                    return [("coupled", "with the exchanges logged the coupled run differs: %s, state %s exchange: %s" % (key, "before" if what == "pre" else "after", d))]
        return []

    def go(self, t, ctx):
        return multi.simulate(multi.alone(t, par=t.get("par") or 0), ctx)[0]

    def shrinks(self, case):
        if case.get("what") == "coupled":
            return
        for k in list(case["logs"]):
            yield dict(case, logs={x: y for x, y in case["logs"].items() if x != k})
        for k in range(len(case["ask"]) - 1, -1, -1):
            yield dict(case, ask=case["ask"][:k] + case["ask"][k + 1:])
        for sh in generic_shrinks(case["target"]):
            yield dict(case, target=sh)
