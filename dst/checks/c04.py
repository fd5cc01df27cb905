"""C04: no deadlock, no mismatched collective, no failure on a legal parallel workload."""
from .. import abm, model
from ..runner import Prop


class Check(Prop):
    id = "C04"
    rule = "at least ten collectives and at least two context switches per process"
    runs = {"quick": 1400, "thorough": 12000}
    components = {"real": model.REAL_PAR + ["flee/Diagnostics.py", "flee/datamanager/*.py"], "stub": model.STUB_MPI}
    assumptions = ["a collective completes on a process as soon as the MPI standard allows it to (roots of broadcasts and senders to a root do not wait)"]

    def gen(self, rng, i, tier):
        big = tier == "thorough" and rng.random() < 0.3
        par = rng.choice([1, 2, 2, 3, 4, 5, 7, 9])
        if rng.random() < 0.5:
            case = model.spawn_case(rng, par, tier)
        else:
            case = abm.base_case(rng, par=par, steps=rng.randint(1, 12 if big else 5), net=abm.gen_net(rng, n=rng.randint(1, 9), caps=rng.random() < 0.4))
            model.plain_add(rng, case["ops"], case["locs"])
        s = case["settings"]
        s["log_levels"] = {"agent": rng.choice([0, 0, 1, 2]), "link": rng.choice([0, 0, 1, 2]), "camp": rng.choice([0, 1]), "init": rng.choice([0, 1]),
                           "conflict": rng.choice([0, 1]), "idp_totals": rng.choice([0, 1]), "granularity": "location"}
        if rng.random() < 0.3:
            s["spawn_rules"]["camps_are_sinks"] = True
            for l in case["locs"]:
                if "camp" in l["location_type"]:
                    l["attributes"] = {"deactivation_probability": rng.choice([1.0, 0.5, 0.0])}
        if rng.random() < 0.5:
            ops = []
            for op in case["ops"]:
                ops.append(op)
                if rng.random() < 0.3:
                    ops.append(rng.choice([["idps"], ["numagents"], ["print"], ["recount"]]))
            case["ops"] = ops
        return case

    def evaluate(self, case, ctx):
        res = model.simulate(case, ctx)
        ctx.nontrivial(res.world["ncoll"] >= 10 and res.world["switches"] >= 2 * case["par"])
        v = model.finished(res)
        for n in res.nodes:
            if not v and n["progress"] != len(case["ops"]):
                v.append(("unfinished", "%s did %d of %d operations" % (n["name"], n["progress"], len(case["ops"]))))
        return v
