"""C15: every legal scenario runs to completion."""
from .. import abm, model
from ..runner import Prop


class Check(Prop):
    id = "C15"
    rule = "agents moved under at least one optional rule (flood, pruning, fixed routes, ethnicity, age, population, markers, awareness 0 or 3)"
    runs = {"quick": 4000, "thorough": 40000}
    components = {"real": model.REAL_PAR + ["flee/InputGeography.py", "flee/Diagnostics.py", "flee/datamanager/*.py"], "stub": model.STUB_MPI}
    assumptions = ["bounded time means %d s of processor time for a whole run of at most 30 steps" % Prop.hang_s,
                   "legal: populations are large enough for the agents spawned from them, rules that read an attribute are used with agents or places that have it"]

    def gen(self, rng, i, tier):
        big = tier == "thorough" and rng.random() < 0.3
        par = rng.choice([0, 0, 0, 0, 2, 3])
        n = rng.choice([1, 2, 2, 3, 4, 5, 6, 7, 8] + ([10, 13] if big else []))
        if rng.random() < 0.03:
            n = rng.randint(15, 40)
        locs, links = abm.gen_net(rng, n=n, caps=rng.random() < 0.5, dmin=rng.choice([0.5, 5.0]), dmax=rng.choice([3.0, 60.0, 400.0, 2000.0]))
        feats = []
        if n > 2 and rng.random() < 0.35:
            feats.append("markers")
            for l in rng.sample(locs[1:], rng.randint(1, min(3, n - 2))):
                l.update(location_type="marker")
                l.pop("capacity", None)
        m = {}

        def opt(key, vals, p=0.25, feat=None):
            if rng.random() < p:
                m[key] = rng.choice(vals)
                if feat:
                    feats.append(feat)
        m["awareness_level"] = rng.choice([0, 0, 1, 1, 2, 3])
        if m["awareness_level"] in (0, 3):
            feats.append("awareness %d" % m["awareness_level"])
        opt("fixed_routes", [True], 0.35, "fixed routes")
        opt("pruning_threshold", [1.0, 1.2, 2.0, 10.0, 0.5], 0.4, "pruning")
        opt("use_v1_rules", [True], 0.1)
        opt("weight_softening", [0.0, 0.1, 1.0])
        opt("weight_power", [0.0, 0.5, 3.0])
        opt("distance_power", [0.0, 2.0])
        opt("home_distance_power", [0.5, 1.0, 2.0])
        opt("stay_close_to_home", [True])
        opt("use_pop_for_loc_weight", [True], 0.3, "population weights")
        opt("pop_power_for_loc_weight", [0.05, 0.1, 1.0])
        opt("movechance_pop_scale_factor", [0.5, 1.0, -0.3], 0.3, "population move chances")
        opt("movechance_pop_base", [1000.0, 10000.0])
        opt("softening", [0.0, 10.0, 100.0])
        opt("capacity_buffer", [0.0, 0.5, 0.9, 1.0])
        opt("capacity_scaling", [0.0, 0.1, 1.0, 100.0])
        opt("max_move_speed", [1.0, 35.0, 200.0, 360.0, 2000.0])
        opt("max_walk_speed", [1.0, 35.0])
        opt("conflict_weight", [0.0, 0.25, 1.0])
        opt("camp_weight", [0.0, 1.0, 10.0])
        opt("foreign_weight", [0.0, 1.0, 3.0])
        opt("conflict_movechance", [0.0, 1.0])
        opt("default_movechance", [0.01, 1.0])
        opt("camp_movechance", [0.0, 0.001, 1.0])
        logs = {"agent": rng.choice([0, 0, 1, 2, 3]), "link": rng.choice([0, 0, 1, 2]), "camp": rng.choice([0, 1]), "init": rng.choice([0, 0, 1]),
                "conflict": rng.choice([0, 0, 1]), "idp_totals": rng.choice([0, 1]), "granularity": rng.choice(["location", "region"])}
        sr = {"take_from_population": rng.random() < 0.5}
        days = rng.randint(1, 20 if big else 7)
        names = [l["name"] for l in locs]
        attrs = {}
        csv = not par and rng.random() < 0.4
        files = {}
        flood = rng.random() < 0.2
        match = []
        if not flood and rng.random() < 0.25:
            match = [a for a in (["MatchTownEthnicity", "MatchConflictEthnicity"] + ([] if csv else ["MatchCampEthnicity"])) if rng.random() < 0.6]
            if match:
                feats.append("ethnicity")
                attrs["ethnicity"] = ["east", "west"]
                for a in match:
                    m[a] = True
                for l in locs:
                    l["attributes"] = {"east": rng.choice([10, 300, "50"]), "west": rng.choice([0, 100, "20"])}
                    if not l.get("pop"):
                        l["pop"] = 100
                        if csv and "camp" in l["location_type"]:
                            l["pop"] = 0
        if rng.random() < 0.2:
            feats.append("age and gender")
            m["ChildrenAvoidHazards"] = True
            if rng.random() < 0.6:
                m["BoysTakeRisk"] = True
            attrs["age"] = [2, 14, 16, 30, 70]
            attrs["gender"] = ["male", "female"]
        case_extra = {}
        if flood:
            feats.append("flood rules")
            csv = not par or csv
            lv = 2
            m["flood_rules"] = {"max_flood_level": lv, "flood_movechances": [0.0, rng.choice([0.0, 0.5]), 1.0], "flood_loc_weights": [1.0, rng.choice([0.5, 0.0]), 0.0],
                                "flood_link_weights": [1.0, 1.0, 1.0]}
            sr.update(take_from_population=True, conflict_zone_spawning_only=False, flood_zone_spawning_only=True,
                      flood_driven_spawning={"spawn_mode": "constant", "displaced_per_flood_day": [0, 2, 5]})
            csv = True
            for l in locs:
                if l["location_type"] == "conflict_zone" and rng.random() < 0.8:
                    l["location_type"] = "flood_zone"
            zones = [l["name"] for l in locs if l.get("pop", 0) > 0 and "camp" not in l["location_type"]]
            for l in locs:
                if l["name"] in zones:
                    l["pop"] = 5000
            if not zones:
                zones = [names[0]]
                locs[0].update(pop=5000, location_type="town")
            ft = {z: [rng.choice([0, 0, 1, 2]) for _ in range(days + 2)] for z in zones if rng.random() < 0.7} or {zones[0]: [1] * (days + 2)}
            files["flood_level.csv"] = "#Day," + ",".join(ft) + "\n" + "".join("%d,%s\n" % (d, ",".join(str(ft[z][d]) for z in ft)) for d in range(days + 2))
            case_extra["flood_file"] = "flood_level.csv"
            if rng.random() < 0.5:
                feats.append("flood forecaster")
                attrs["floodawareness"] = [0, 1, 2]
                m["flood_rules"].update(flood_forecaster=True, flood_forecaster_timescale=rng.choice([2, 3, 5]), flood_forecaster_end_time=days,
                                        flood_forecaster_weights=[1.0, 0.9, 0.8, 0.7, 0.6, 0.5] + [0.3] * (days + 2), flood_awareness_weights=[0.0, 0.5, 1.0])
        settings = {"log_levels": logs, "spawn_rules": sr, "move_rules": m}
        if rng.random() < 0.2:
            sr["camps_are_sinks"] = True
            if not match:
                for l in locs:
                    l["attributes"] = {"deactivation_probability": rng.choice(["0.0", "0.5", "1.0"])}
        if rng.random() < 0.5:
            # the full set of usual settings around the special ones
            full = abm.pick_settings(rng)["move_rules"]
            full.update(m)
            settings["move_rules"] = full
        # a move chance close to zero turns any place into a camp
        ops = []
        hist = abm.gen_ops(rng, locs, links, days, par=bool(par), max_agents=30, clears=True, types=not match, conflicts=not match)

        def attr_of():
            return {k: rng.choice(v) for k, v in attrs.items()}
        for op in hist:
            if op[0] in ("insert", "add"):
                if attrs:
                    left = op[2]
                    while left:
                        c = rng.randint(1, left)
                        ops.append([op[0], op[1], c, attr_of()])
                        left -= c
                else:
                    ops.append(op)
            elif match and csv and op[0] in ("camp_close", "camp_open", "type"):
                pass
            elif op[0] == "evolve":
                if csv:
                    ops.append(["zones"])
                if flood and not attrs and rng.random() < 0.5:
                    ops.append(["spawn"])
                if rng.random() < 0.3:
                    ops.append(["sched"])
                if rng.random() < 0.1:
                    ops.append(rng.choice([["numagents"], ["idps"], ["print"], ["recount"], ["weights"]]))
                ops.append(op)
            else:
                ops.append(op)
        if sr["take_from_population"]:
            # adding takes from the population, which has to have it
            pops = {l["name"]: l.get("pop", 0) if not (csv and "camp" in l["location_type"]) else 0 for l in locs}
            for k, op in enumerate(ops):
                if op[0] == "add":
                    if pops[op[1]] < 100:
                        ops[k] = ["insert"] + op[1:]
        if not flood:
            model.plain_add(rng, ops, locs)
        case = abm.base_case(rng, par=par, net=(locs, links), settings=settings, ops=ops)
        cl = []
        for _ in range(rng.choice([0, 0, 1, 3])):
            kind = rng.choice(["country", "location", "link", "camp", "idpcamp"])
            if match and csv and "camp" in kind:
                kind = "location"       # a closed camp is a town without population: no ethnic shares there
            a, b = ("", "")
            if kind == "country":
                a, b = rng.sample(abm.COUNTRIES, 2)
            elif kind == "link":
                if not links:
                    continue
                a, b = rng.choice(links)[:2]
            else:
                a = rng.choice(names)
            s0 = rng.randint(0, days)
            cl.append([kind, a, b, s0, rng.randint(s0, days + 2)])
        case["closures"] = cl
        case.update(case_extra)
        case["files"] = files
        if csv:
            if attrs and rng.random() < 0.5:
                cols = list(attrs)
                ok = [l["name"] for l in locs if not sr["take_from_population"] or (l.get("pop", 0) >= 100 and "camp" not in l["location_type"])] or [None]
                rows = [] if ok == [None] else [[rng.choice(ok)] + [str(rng.choice(attrs[c])) for c in cols] for _ in range(rng.randint(1, 6))]
                files["input_csv/agents.csv"] = "location," + ",".join(cols) + "\n" + "".join(",".join(r) + "\n" for r in rows)
                case["ops"].insert(0, ["agents_csv", "input_csv/agents.csv"])
            model.geo_csv(case, rng)
        if flood:
            case["table"] = {"start": "2020-01-10", "scale": 1}
            f, _ = model.table_files(rng, [l["name"] for l in locs if "camp" in l["location_type"]], days)
            case["files"].update(f)
        case["feats"] = feats
        return case

    def evaluate(self, case, ctx):
        res = model.simulate(case, ctx)
        v = model.finished(res)
        moved = False
        for n in res.nodes:
            if not v and n["progress"] != len(case["ops"]):
                v.append(("unfinished", "%s did %d of %d operations" % (n["name"], n["progress"], len(case["ops"]))))
            t = 0
            for k, s in enumerate(n["snaps"]):
                if k and case["ops"][k - 1][0] == "evolve":
                    t += 1
                    moved = moved or any(a["trav"] or a["places"] > 1 for a in s["agents"])
                if s["time"] != t:
                    v.append(("time", "%s: the time is %s, not %d" % (model.opname(case, k), s["time"], t)))
                    break
        ctx.nontrivial(bool(case["feats"]) and moved)
        for f in case["feats"]:
            ctx.probe("runs with " + f, moved)
        return v
