"""C18: coupled models advance in lockstep and never stall."""
from .. import coupled
from ..runner import Prop
from .c16 import REAL, STUB


class Check(Prop):
    id = "C18"
    rule = "a stall, clock jump, late file, message delay or short write was active in a run with at least two exchanges"
    runs = {"quick": 650, "thorough": 14000}
    components = {"real": REAL, "stub": STUB}
    assumptions = ["a process that can run is scheduled at least once in %d scheduling steps" % 60,
                   "bounded: a wait ends at most %d polls after the data of the other side is visible" % coupled.POLLS]

    def gen(self, rng, i, tier):
        return coupled.gen(rng, tier=tier, ctype=rng.choice(["file"] * 4 + ["muscle3"]), days=rng.randint(2, 10 if tier == "thorough" else 6))

    def evaluate(self, case, ctx):
        res = coupled.simulate(case, ctx)
        v = coupled.finished(res) or coupled.day_violations(res, case) or coupled.lockstep_violations(res, case)
        if not v and case["ctype"] == "file":
            v = coupled.poll_violations(res, case, ctx)
        ctx.nontrivial(bool(res.world["fired"]) and len(coupled.exchange_days(case)) > 1)
        return v
