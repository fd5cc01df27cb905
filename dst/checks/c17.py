"""C17: agents are conserved across a coupled pair."""
from .. import coupled, model
from ..runner import Prop
from .c16 import REAL, STUB


class Check(Prop):
    id = "C17"
    rule = "agents changed model in both directions or through a one-way coupling"
    runs = {"quick": 1100, "thorough": 16000}
    components = {"real": REAL, "stub": STUB}
    assumptions = ["both models couple the same identifiers with matching directions (inout/inout, out/in)", "camps as sinks are not used in coupled models"]

    def gen(self, rng, i, tier):
        cc = coupled.gen(rng, n=1, tier=tier, restart=0.15, ctype=rng.choice(["file", "file", "muscle3"]))
        return cc

    def evaluate(self, case, ctx):
        res = coupled.simulate(case, ctx)
        v = coupled.finished(res) or coupled.exchange_violations(res, case)
        if v:
            return v
        ex = coupled.exchange_days(case)
        moved = 0

        def total(snaps):
            return sum(len(s["agents"]) for s in snaps)
        spawned = 0
        for t in range(case["days"]):
            pre = {s: [m.pre[t] for m in coupled.ranks(res, case, s, 0)] for s in coupled.SIDES}
            post = {s: [m.post[t] for m in coupled.ranks(res, case, s, 0)] for s in coupled.SIDES}
            for s in coupled.SIDES:
                spawned += sum(op[2] for op in case["sides"][s]["daily"][0][t] if op[0] == "insert")
            a, b = sum(total(pre[s]) for s in pre), sum(total(post[s]) for s in post)
            if a != spawned:
                v.append(("spawned", "day %d: %d agents in both models before the exchange, %d were spawned" % (t, a, spawned)))
            elif a != b:
                v.append(("lost", "the exchange of day %d turned %d agents in both models into %d" % (t, a, b)))
            for s in coupled.SIDES:
                for r, sn in enumerate(post[s]):
                    if sn["total"] != total(post[s]):
                        v.append(("total", "day %d: %s (process %d) reports %d agents, it has %d" % (t, s, r, sn["total"], total(post[s]))))
            if t in ex:
                for s in coupled.SIDES:
                    out = coupled.sent(res, case, s, 0, t)
                    for r, got in enumerate(coupled.intake(res, case, coupled.OTHER[s], 0, t)):
                        for c, n in out.items():
                            moved += n
                            if c in got and got[c] != n:
                                v.append(("moved", "day %d: %d agents left %s through %s, %d arrived in the other model" % (t, n, s, c, got[c])))
            if v:
                return v[:2]
        ctx.probe("agents that changed model", moved)
        ctx.nontrivial(moved > 0)
        return v
