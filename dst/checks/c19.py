"""C19: ensemble coupling uses the mean over all instances in any order."""
from .. import coupled
from ..runner import Prop
from .c16 import REAL, STUB


class Check(Prop):
    id = "C19"
    rule = "instances of a side handed over different numbers"
    runs = {"quick": 420, "thorough": 7000}
    components = {"real": REAL, "stub": STUB}
    assumptions = ["a mean that ends in exactly one half may be rounded either way"]

    def gen(self, rng, i, tier):
        cc = coupled.gen(rng, n=rng.choice([2, 2, 3] + ([4, 5] if tier == "thorough" else [])), tier=tier, ctype=rng.choice(["file", "file", "muscle3"]),
                         days=rng.randint(1, 4))
        cc["order2"] = rng.randrange(1000)
        return cc

    def evaluate(self, case, ctx):
        res = coupled.simulate(case, ctx)
        v = coupled.finished(res) or coupled.intake_violations(res, case, ctx)
        if v:
            return v
        for t in coupled.exchange_days(case):
            for s in coupled.SIDES:
                allgot = [g for i in range(case["n"]) for g in coupled.intake(res, case, s, i, t)]
                if any(g != allgot[0] for g in allgot):
                    return [("differ", "day %d: the instances of the %s model took in different numbers: %s" % (t, s, allgot))]
        # the same ensemble in another start order, under another schedule, without faults
        c2 = dict(case, order=case["order2"], faults=[], fs={}, delays=[0.0])
        res2 = coupled.simulate(c2, ctx)
        v = coupled.finished(res2, "second schedule")
        if v:
            return v
        for k in sorted(res.models):
            a, b = res.models[k], res2.models[k]
            for t in range(case["days"]):
                if a.post[t] != b.post[t]:
                    return [("order", "%s %d (process %d) is in another state after the exchange of day %d when the instances run in another order" % (k + (t,)))]
        ctx.nontrivial(ctx.stats["probes"].get("exchanges with differing instances", 0) > 0)
        return []
