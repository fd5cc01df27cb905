"""C35: with fixed_routes all agents travel the best route from one place to another, and choose between the places within
their awareness with the documented probabilities."""
from .. import model
from ..runner import Prop
from . import c34


class Ref(c34.Ref):
    def paths(self, start):
        """{destination: [(length, route)]} over open roads, up to awareness_level stops that are not markers"""
        if ("paths", start) in self.memo:
            return self.memo[("paths", start)]
        out = {}

        def rec(path, length, step):
            n = path[-1]
            l = self.s["locs"][n]
            if l["marker"]:
                step -= 1
            else:
                out.setdefault(n, []).append((length, path[1:]))
            if self.mr["awareness_level"] > step:
                for k in l["links"]:
                    if k[0] not in path:
                        rec(path + (k[0],), length + k[1], step + 1)
        for k in self.s["locs"][start]["links"]:
            rec((start, k[0]), k[1], 1)
        self.memo[("paths", start)] = out
        return out

    def choice(self, start, home):
        """{destination or None: probability} for an agent that leaves start; only for neutral scores"""
        m = self.mr
        w = {}
        for n, ps in self.paths(start).items():
            x = ((m.get("weight_softening", 0.0) + 1.0) / (m["softening"] + min(ps)[0]) ** m["distance_power"]) ** m["weight_power"]
            if m.get("stay_close_to_home"):
                x *= 1.0 / max(1.0, c34.km(self.loc[n], self.loc[home])) ** m["home_distance_power"]
            if m.get("use_pop_for_loc_weight") and not self.s["locs"][n]["camp"]:
                x *= max(1.0, float(self.s["locs"][n]["pop"])) ** m["pop_power_for_loc_weight"]
            w[n] = x * self.room(n) ** m["weight_power"]
            self.edge = self.edge or 0.0 < self.room(n) < 0.51
        if not w:
            return {None: 1.0}
        tot = sum(w.values())
        p = {}
        for n, x in w.items():
            e = None if self.s["locs"][n]["camp"] and self.full(n) else n
            p[e] = p.get(e, 0.0) + (x / tot if tot > 0 else 1.0 / len(w))
        return p


class Check(c34.Check):
    id = "C35"
    rule = "agents chose between two or more destinations, one of which can be reached by several routes or through a marker"
    runs = {"quick": 4000, "thorough": 60000}
    components = {"real": model.REAL_PAR, "stub": model.STUB_MPI}
    assumptions = ["roads are at least as long as a day's journey, so that the route of every decision is seen at the end of a day",
                   "probabilities are compared only where all scores are 1 (the documents do not say how often a score counts); routes and destinations always",
                   "a cell fails when its exact binomial tail is below 1e-11"]

    def gen(self, rng, i, tier):
        case = self.gen_choice(rng, tier)
        mr = case["settings"]["move_rules"]
        mr.update(fixed_routes=True, pruning_threshold=1.0, awareness_level=rng.choice([1, 2, 2, 3]))
        neutral = case["neutral"] = rng.random() < 0.6
        if neutral:
            mr.update(foreign_weight=1.0, camp_weight=1.0, conflict_weight=1.0)
            if "flood_rules" in mr:
                mr["flood_rules"]["flood_loc_weights"][1:] = [1.0] * 3
            if mr.get("stay_close_to_home") or mr.get("use_pop_for_loc_weight"):
                mr.update(weight_softening=0.0, weight_power=1.0)
        starts = {o[1] for o in case["ops"] if o[0] == "insert"} | {o[1] for o in case["ops"] if o[0] in ("type", "conflict")}
        for l in case["locs"]:
            if l["name"] not in starts and l["location_type"] == "town" and rng.random() < 0.4:
                l["location_type"] = "marker"
        typed = {o[1] for o in case["ops"] if o[0] == "type"}
        case["ops"] = [o for o in case["ops"] if o[0] != "conflict" or o[1] not in typed]
        case["ops"] = [o for o in case["ops"] if o[0] != "pop" or {l["name"]: l for l in case["locs"]}[o[1]]["location_type"] != "marker"]
        return case

    def evaluate(self, case, ctx):
        res = model.simulate(case, ctx)
        v = model.finished(res)
        if v:
            return v
        mr = case["settings"]["move_rules"]
        strict = mr["distance_power"] > 0 and mr["weight_power"] > 0
        out = []
        for k in range(1, model.steps_done(res)):
            if case["ops"][k - 1][0] != "evolve":
                continue
            where = model.opname(case, k)
            ref = Ref(case, res.nodes[0]["snaps"][k - 1])
            taken, cells = {}, {}
            for nd in res.nodes:
                for x, y in zip(nd["snaps"][k - 1]["agents"], nd["snaps"][k]["agents"]):
                    p, q = x["pos"], y["pos"]
                    if p is None or q is None or x["route"]:
                        continue
                    boarded = q[0] == "link" and (p[0] == "loc" and p[1] == q[1] or p[0] == "link" and p[2] == q[1] and y["places"] > x["places"])
                    dest = None
                    if boarded:
                        r = (q[2],) + tuple(y["route"])
                        dest = r[-1]
                        taken.setdefault((q[1], dest), {}).setdefault(r, y)
                    if p[0] == "loc" and not x["attr"].get("full") and (boarded or q == p):
                        c = cells.setdefault((p[1], x["home"]), {})
                        c[dest] = c.get(dest, 0) + 1
            for (start, dest), rs in sorted(taken.items()):
                ps = ref.paths(start)
                have = ps.get(dest, [])
                ctx.probe("routes compared")
                for r in rs:
                    if r not in [z for _, z in have]:
                        return [("unknown", "%s: an agent leaves %s on the route %s, which is no way to a place within awareness level %d over open roads" % (where, start, r, mr["awareness_level"]))]
                    mine = [d for d, z in have if z == r][0]
                    if strict and mine > min(have)[0] + 1e-6:
                        return [("longer", "%s: an agent leaves %s for %s on the route %s of %.2f km, there is one of %.2f km: %s" % (where, start, dest, r, mine, min(have)[0], min(have)[1]))]
                if len(rs) > 1:
                    return [("several", "%s: agents leaving %s for %s on the same day take different routes: %s" % (where, start, dest, sorted(rs)))]
            if not case["neutral"]:
                continue
            for (start, home), c in sorted(cells.items()):
                ref.edge = False
                ch = ref.choice(start, home)
                if ref.edge:
                    continue
                m = ref.move(start)
                want = {None: 1.0 - m}
                for e, x in ch.items():
                    want[e] = want.get(e, 0.0) + m * x
                n = sum(c.values())
                ps = ref.paths(start)
                if n >= 100 and len([1 for x in want.values() if x > 0.02]) > 1:
                    ctx.nontrivial(any(len(z) > 1 or len(z[0][1]) > 1 for z in ps.values()))
                for e in sorted(set(c) | set(want), key=str):
                    self.cell(ctx, out, where, "from %s (home %s) %s" % (start, home, "stay there" if e is None else "leave for " + e), n, c.get(e, 0), want.get(e, 0.0))
                if out:
                    return [("choice", out[0])]
        return []
