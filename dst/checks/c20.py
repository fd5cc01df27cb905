"""C20: MUSCLE3 managers aggregate and broadcast faithfully."""
from .. import coupled
from ..runner import Prop
from .c16 import REAL, STUB


class Check(Prop):
    id = "C20"
    rule = "agents were exchanged through managers with delayed messages or several instances"
    runs = {"quick": 700, "thorough": 12000}
    components = {"real": REAL, "stub": STUB}
    assumptions = ["a conduit delivers its messages in order, delays differ between conduits", "a mean that ends in exactly one half may be rounded either way"]

    def gen(self, rng, i, tier):
        return coupled.gen(rng, tier=tier, ctype="muscle3", n=rng.choice([1, 2, 2, 3] + ([4] if tier == "thorough" else [])))

    def evaluate(self, case, ctx):
        res = coupled.simulate(case, ctx)
        v = coupled.finished(res) or coupled.day_violations(res, case)
        if v:
            return v
        for s, m in res.managers.items():
            if m.days != case["days"]:
                return [("manager", "the %s manager finished %d of %d days" % (s, m.days, case["days"]))]
        if res.bus.leftover():
            return [("unread", "%d messages were never received" % res.bus.leftover())]
        ex = coupled.exchange_days(case)
        n = case["n"]
        for s in coupled.SIDES:
            man = s + "_manager"
            for what, lst in (("received", res.bus.got), ("sent", res.bus.sent)):
                mine = [x for x in lst if x[0] == man]
                for slot in range(n):
                    ts = [x[4] for x in mine if x[3] == slot]
                    if ts != ex:
                        return [("messages", "the %s manager %s messages for days %s on slot %d, exchanges were on days %s" % (s, what, ts, slot, ex))]
            for i in range(n):
                for what, lst in (("received", res.bus.got), ("sent", res.bus.sent)):
                    mine = [x for x in lst if x[0] == s and x[1] == i]
                    if [x[4] for x in mine] != ex or any(x[2] for x in mine):
                        return [("messages", "%s %d %s messages for days %s (by processes %s), exchanges were on days %s" % (
                            s, i, what, [x[4] for x in mine], sorted({x[2] for x in mine}), ex))]
            for t in ex:
                data = {repr(x[5]) for x in res.bus.sent if x[0] == man and x[4] == t}
                if len(data) != 1:
                    return [("broadcast", "the %s manager sent different data to its instances on day %d" % (s, t))]
        v = coupled.intake_violations(res, case, ctx) or coupled.exchange_violations(res, case) or coupled.lockstep_violations(res, case)
        ctx.nontrivial(ctx.stats["probes"].get("exchanges of agents", 0) > 0 and (n > 1 or bool(res.world["fired"])))
        return v
