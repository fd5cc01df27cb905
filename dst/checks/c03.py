"""C03: scores and fixed routes agree between processes, with the sequential code, and are fresh."""
import copy
from .. import abm, model
from ..runner import Prop


def close(a, b):
    return a == b or (a is not None and b is not None and abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b)))


class Check(Prop):
    id = "C03"
    rule = "scores of at least two locations differ, or a non-empty route table was compared"
    runs = {"quick": 1400, "thorough": 12000}
    components = {"real": model.REAL_PAR, "stub": model.STUB_MPI}
    assumptions = ["no camp capacities, so scores and route weights do not depend on where agents are"]

    def gen(self, rng, i, tier):
        big = tier == "thorough" and rng.random() < 0.3
        par = rng.choice([2, 3, 4, 5, 6] + ([9] if big else []))
        net = abm.gen_net(rng, n=rng.randint(2, 12 if big else 9))
        for l in net[0]:
            l.pop("capacity", None)
        s = abm.pick_settings(rng, move_rules={"fixed_routes": rng.random() < 0.6, "conflict_weight": rng.choice([0.25, 0.5])})
        if rng.random() < 0.3:
            s["spawn_rules"]["conflict_spawn_decay"] = rng.choice([[1.0, 0.5, 0.25], [0.2, 1.0]])
        case = abm.base_case(rng, par=par, steps=rng.randint(2, 10 if big else 6), net=net, settings=s)
        names = [l["name"] for l in net[0]]
        ops = []
        for op in case["ops"]:
            if rng.random() < 0.25:
                ops.append(rng.choice([["type", rng.choice(names), rng.choice(["town", "camp", "idpcamp", "conflict_zone", "forwarding_hub"])],
                                       ["conflict", rng.choice(names), rng.choice([0.0, 0.4, 1.0])]]))
            ops.append(op)
        case["ops"] = model.plain_add(rng, ops, case["locs"])
        return case

    def evaluate(self, case, ctx):
        res = model.simulate(case, ctx)
        v = model.finished(res)
        ser = copy.deepcopy(case)
        ser["par"] = 0
        ser["ops"] = [["recount"] if o[0] in ("insert", "add", "inserts", "clear") else o for o in case["ops"]]
        sres = model.simulate(ser, ctx)
        v += model.finished(sres, "sequential run")
        K = min(model.steps_done(res), model.steps_done(sres))
        for k in range(1, K):
            if case["ops"][k - 1][0] != "evolve":
                continue
            ref = sres.nodes[0]["snaps"][k]["locs"]
            where = model.opname(case, k)
            if len({l["score"] for l in ref.values()}) > 1 or any(l["routes"] for l in ref.values()):
                ctx.nontrivial()
            for r, n in enumerate(res.nodes):
                for name, l in n["snaps"][k]["locs"].items():
                    o = ref[name]
                    if not close(l["score"], o["score"]):
                        v.append(("score", "%s: process %d has score %r for %s, sequentially %r" % (where, r, l["score"], name, o["score"])))
                    a, b = l["routes"], o["routes"]
                    if sorted(a) != sorted(b):
                        v.append(("routes", "%s: process %d has routes from %s to %s, sequentially to %s" % (where, r, name, sorted(a), sorted(b))))
                    else:
                        ctx.probe("routes compared", len(a))
                        for d in a:
                            if a[d][1] != b[d][1] or a[d][2] != b[d][2] or not close(a[d][0], b[d][0]):
                                v.append(("routes", "%s: process %d has route %s from %s, sequentially %s" % (where, r, a[d], name, b[d])))
                if v:
                    return v
        return v
