"""C10: no agent travels further in a day than its speed allows."""
from .. import abm, model
from ..runner import Prop


class Check(Prop):
    id = "C10"
    rule = "an agent covered a road over more than one day or passed several roads in one day"
    runs = {"quick": 4000, "thorough": 50000}
    components = {"real": model.REAL_PAR, "stub": model.STUB_MPI}
    assumptions = ["a road closed under an agent counts with its length when the agent is turned back, as recorded", "with a walk probability between 0 and 1 either speed is accepted"]

    def gen(self, rng, i, tier):
        return model.journey_case(rng, tier, par=rng.choice([0, 0, 0, 0, 2, 3]), closures=rng.random() < 0.5, loglevel=rng.choice([2, 2, 2, 1, 0]))

    def known(self, viol, case):
        if viol[0] == "multi-hop-budget":
            return "multi-hop-budget"

    def evaluate(self, case, ctx):
        res = model.simulate(case, ctx)
        v = model.finished(res)
        K = model.steps_done(res)
        attrs = model.link_attrs(case)
        for k in range(1, K):
            if case["ops"][k - 1][0] != "evolve":
                continue
            where = model.opname(case, k)
            for n in res.nodes:
                a, b = n["snaps"][k - 1], n["snaps"][k]
                roads = model.open_roads(a)
                for x, y in zip(a["agents"], b["agents"]):
                    j = model.Journey(a, x, y, case["settings"], roads)
                    for c, m in j.err:
                        v.append(("journey", "%s: agent %s: %s" % (where, x["aid"], m)))
                    if not j.known or j.err:
                        continue
                    total, done_len, places = 0.0, 0.0, x["places"]
                    limit = 0.0
                    prev = None
                    for h in j.hops:
                        vmax = model.speed_limit(case, (h[0], h[1]), places, attrs)
                        part = h[4] - h[3]
                        if prev is not None and total >= prev + 1e-9:
                            v.append(("went-on", "%s: agent %s entered %s-%s after covering %.3f km of %.3f km that day" % (where, x["aid"], h[0], h[1], total, prev)))
                        if part > vmax + 1e-9:
                            v.append(("speed", "%s: agent %s covered %.3f km on %s-%s in a day, at most %.3f km are allowed" % (where, x["aid"], part, h[0], h[1], vmax)))
                        total += part
                        limit = max(limit, vmax)
                        if h[5]:
                            done_len += h[2]
                            places += 1
                        prev = vmax
                    if len(j.hops) > 1 or any(h[3] > 0 for h in j.hops):
                        ctx.nontrivial()
                    ctx.probe("agent days with several roads", len(j.hops) > 1)
                    if total > limit + 1e-9:
                        v.append(("multi-hop-budget" if len(j.hops) > 1 else "speed", "%s: agent %s covered %.3f km over %d roads in one day, the limit is %.3f km" % (where, x["aid"], total, len(j.hops), limit)))
                    if x["dist"] is not None and abs((y["dist"] - x["dist"]) - done_len) > 1e-6:
                        v.append(("recorded", "%s: agent %s records %.3f km more, the roads it completed are %.3f km long" % (where, x["aid"], y["dist"] - x["dist"], done_len)))
                if any(z[0] != "multi-hop-budget" for z in v):
                    return v
        return v
