"""C16: file coupling delivers each exchange exactly once and complete."""
from .. import coupled, model
from ..runner import Prop

REAL = model.REAL_PAR + ["flee/coupling.py", "flee/pmicro_flee.py", "flee/micro_InputGeography.py", "flee/InputGeography.py"]
STUB = model.STUB_MPI + ["libmuscle, ymmsl: simulated instances and conduits (dst/muscle.py)", "file system and clock: seams over real scratch files (dst/seams.py)"]


class Check(Prop):
    id = "C16"
    rule = "agents were exchanged while a fault was active (crash with restart, short write, late visibility, stall or clock jump)"
    runs = {"quick": 600, "thorough": 12000}
    components = {"real": REAL, "stub": STUB}
    assumptions = ["a killed model is started again from the beginning with the same inputs and seed",
                   "both models couple the same identifiers with matching directions", "a mean that ends in exactly one half may be rounded either way"]

    def gen(self, rng, i, tier):
        return coupled.gen(rng, tier=tier, restart=0.6)

    def evaluate(self, case, ctx):
        res = coupled.simulate(case, ctx)
        v = coupled.finished(res) or coupled.intake_violations(res, case, ctx) or coupled.exchange_violations(res, case)
        ctx.probe("restarts", res.rec.restarts)
        ctx.nontrivial(bool(res.world["fired"]) and ctx.stats["probes"].get("exchanges of agents", 0) > 0)
        return v
