"""C28: camp arrival statistics match the arrivals that happened."""
from .. import abm, model
from ..runner import Prop
from .c27 import IdDriver


class Check(Prop):
    id = "C28"
    rule = "at least one agent reached a camp"
    runs = {"quick": 4500, "thorough": 60000}
    components = {"real": model.REAL_PAR, "stub": model.STUB_MPI}
    assumptions = ["an agent that is turned back by a closed road has not arrived anywhere",
                   "an agent departs when it is created"]

    def gen(self, rng, i, tier):
        par = rng.choice([0, 0, 2, 3, 4])
        case = model.journey_case(rng, tier, par=par, loglevel=2) if rng.random() < 0.75 else model.spawn_case(rng, par, tier)
        case["settings"]["log_levels"].update(agent=2, camp=1)
        camps = rng.choice([0.2, 0.5, 0.9])
        if "table" not in case:
            for l in case["locs"][1:]:
                if rng.random() < camps and "camp" not in l["location_type"]:
                    l.update(location_type=rng.choice(["camp", "camp", "idpcamp"]), pop=0)
            if rng.random() < 0.5:
                case["settings"]["move_rules"]["camp_movechance"] = rng.choice([0.3, 1.0])
            model.plain_add(rng, case["ops"], case["locs"])
        if rng.random() < 0.3:
            case["settings"]["spawn_rules"]["camps_are_sinks"] = True
            for l in case["locs"]:
                l.setdefault("attributes", {})["deactivation_probability"] = rng.choice([0.0, 0.5, 1.0])
        return case

    def evaluate(self, case, ctx):
        res = model.simulate(case, ctx, driver=IdDriver)
        v = model.finished(res)
        if v:
            return v
        births = [dict() for _ in res.nodes]
        step = 0
        hist = []
        for k in range(model.steps_done(res)):
            op = case["ops"][k - 1][0] if k else "build"
            if op == "evolve":
                days = []
                for n, born in zip(res.nodes, births):
                    a, b = n["snaps"][k - 1], n["snaps"][k]
                    camps = {x for x, l in a["locs"].items() if l["camp"]}
                    after = {x["uid"]: x for x in b["agents"]}
                    for x in a["agents"]:
                        y = after.get(x["uid"])
                        if y is None:
                            return [("lost", "%s: an agent disappeared" % model.opname(case, k))]
                        for end in self.arrivals(x, y, camps):
                            if end in camps:
                                days.append(step - born[x["uid"]])
                                if y["places"] - x["places"] > 1:
                                    ctx.probe("arrivals on days with several stops")
                step += 1
                hist.append((len(days), sum(days) / float(len(days)) if days else 0.0))
                if days:
                    ctx.probe("arrivals", len(days))
                    ctx.nontrivial()
                    if any(days):
                        ctx.probe("arrivals after more than a day", sum(1 for d in days if d))
            for n, born in zip(res.nodes, births):
                s = n["snaps"][k]
                for x in s["agents"]:
                    born.setdefault(x["uid"], step)
                where = "%s on %s" % (model.opname(case, k), n["name"])
                if len(s["arr"]) != step or len(s["dur"]) != step:
                    return [("length", "%s: %d steps done, statistics of %d and %d steps" % (where, step, len(s["arr"]), len(s["dur"])))]
                for t, (m, d) in enumerate(hist):
                    if s["arr"][t] != m:
                        return [("arrivals", "%s: %d arrivals at camps happened in step %d, %d are recorded" % (where, m, t, s["arr"][t]))]
                    if abs(s["dur"][t] - d) > 1e-9 * max(1.0, d):
                        return [("duration", "%s: the mean travel duration of the %d arrivals in step %d is %s days, recorded is %s" % (where, m, t, d, s["dur"][t]))]
        return []

    def arrivals(self, a, b, camps):
        """the places the agent reached in a step"""
        p, q = a["pos"], b["pos"]
        if p is None:
            return []
        done = b["places"] - a["places"]
        if done <= 0 or p[0] == "link" and p[4]:
            return []
        ends = [v[1] for v in b["visited"]]
        if len(ends) < done:
            if q is None:
                ends.append(next(iter(camps), None))       # deactivated: it was at a camp
            elif q[0] == "loc":
                ends.append(q[1])
            else:
                ends.append(q[1])
        return ends[:done]
