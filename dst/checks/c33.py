"""C33: leaving a setting out is the same as giving its documented default."""
import copy, json
from .. import abm, model, multi
from ..runner import Prop, generic_shrinks
from . import c25

# the documented defaults (docs/Simulation_settings_*.md)
DEFAULTS = {
    "log_levels": {"agent": 0, "link": 0, "camp": 0, "conflict": 0, "init": 0, "idp_totals": 0, "granularity": "location"},
    "spawn_rules": {"take_from_population": False, "insert_day0": True, "empty_camps_on_day0": False, "conflict_zone_spawning_only": True, "flood_zone_spawning_only": False,
                    "camps_are_sinks": False, "read_from_agents_csv_file": False, "sum_from_camps": True, "conflict_spawn_decay_interval": 30},
    "move_rules": {"max_move_speed": 360.0, "max_walk_speed": 35.0, "max_crossing_speed": 20.0, "foreign_weight": 1.0, "camp_weight": 1.0, "conflict_movechance": 1.0, "camp_movechance": 0.001,
                   "idpcamp_movechance": 0.1, "default_movechance": 0.3, "awareness_level": 1, "capacity_buffer": 0.9, "capacity_scaling": 1.0, "avoid_short_stints": False, "start_on_foot": False,
                   "softening": 10.0, "weight_softening": 0.0, "weight_power": 1.0, "distance_power": 1.0, "stay_close_to_home": False, "home_distance_power": 0.5, "use_pop_for_loc_weight": False,
                   "pop_power_for_loc_weight": 0.1, "movechance_pop_base": 10000, "movechance_pop_scale_factor": 0.0, "pruning_threshold": 1.0, "fixed_routes": False,
                   "ChildrenAvoidHazards": False, "BoysTakeRisk": False, "MatchCampEthnicity": False, "MatchTownEthnicity": False, "MatchConflictEthnicity": False},
    "optimisations": {"hasten": 1},
}
KEEP = {"flood_zone_spawning_only", "conflict_zone_spawning_only", "take_from_population", "read_from_agents_csv_file", "awareness_level"}
FLOOD = ("max_flood_level", "flood_movechances", "flood_loc_weights", "flood_link_weights", "flood_forecaster", "flood_forecaster_timescale", "flood_forecaster_weights", "flood_forecaster_end_time",
         "flood_awareness_weights")


class Check(Prop):
    id = "C33"
    rule = "agents moved, and the second settings file left out settings that the first one gives"
    runs = {"quick": 1500, "thorough": 24000}
    components = {"real": model.REAL_PAR + ["flee/SimulationSettings.py", "flee/Diagnostics.py", "flee/InputGeography.py", "flee/datamanager"], "stub": model.STUB_MPI}
    assumptions = ["conflict_weight is always given (the documents and the program name different defaults)",
                   "what each setting does is judged by the other properties; here two spellings of the same settings are compared"]

    def gen(self, rng, i, tier):
        t = self.long(rng) if rng.random() < 0.04 else c25.scenario(rng, i, tier)
        t["seeding"] = "build"
        t["faults"] = []
        P = t.get("par") or 0
        s = t["settings"]
        flood = "flood_rules" in s["move_rules"]
        s["move_rules"].setdefault("conflict_weight", 0.25)
        # settings whose defaults show
        m = s["move_rules"]
        if rng.random() < 0.2:
            m["stay_close_to_home"] = True
        if rng.random() < 0.2:
            m["use_pop_for_loc_weight"] = True
        if rng.random() < 0.2:
            m["movechance_pop_scale_factor"] = rng.choice([0.3, 0.1])
        if rng.random() < 0.2:
            s["log_levels"].update(agent=rng.choice([1, 2]))
        if rng.random() < 0.2:
            m["start_on_foot"] = True
        for sec in DEFAULTS:
            s.setdefault(sec, {})
            for k, d in DEFAULTS[sec].items():
                if k not in s[sec]:
                    s[sec][k] = d
                elif k not in KEEP and rng.random() < 0.3:
                    s[sec][k] = d
        brief = copy.deepcopy(s)
        out = []
        for sec in DEFAULTS:
            for k, d in DEFAULTS[sec].items():
                if brief[sec][k] == d and rng.random() < 0.6:
                    del brief[sec][k]
                    out.append(k)
        if brief["spawn_rules"].get("conflict_spawn_decay") is None and rng.random() < 0.3:
            s["spawn_rules"]["conflict_spawn_decay"] = [1.0]
        neutral = self.neutral(rng, t, s, brief, flood) if rng.random() < 0.4 else []
        if flood and rng.random() < 0.5:
            # the places the documents name
            f = brief["move_rules"].pop("flood_rules")
            brief["move_rules"].update(f)
        if "flood_driven_spawning" in brief["spawn_rules"] and rng.random() < 0.5:
            f = brief["spawn_rules"]["flood_driven_spawning"]
            f["flood_spawn_mode"] = f.pop("spawn_mode")
        case = {"target": t, "text": spell(rng, brief), "out": out, "neutral": neutral, "par": P, "prelude": None, "fs": {"read_chunk": rng.choice([0, 0, 0, 1, 7]), "chunk_path": "simsetting"}, "faults": []}
        if rng.random() < 0.4:
            case["prelude"] = c25.scenario(rng, i, tier, P)
            case["prelude"]["seeding"] = "build"
            case["prelude"]["ops"] = case["prelude"]["ops"][:rng.randint(0, 3)]
            case["prelude"]["faults"] = []
        elif rng.random() < 0.1:
            case["faults"] = [{"on": "read", "node": "rank%d" % rng.randrange(P) if P else "serial", "path": "simsetting", "k": 0}]
        return case

    def neutral(self, rng, t, s, brief, flood):
        """settings whose value cannot matter"""
        m, b, done = s["move_rules"], brief["move_rules"], []

        def put(what, sec=b, **kw):
            if rng.random() < 0.5:
                sec.update(kw)
                done.append(what)
        if not m["stay_close_to_home"]:
            put("stay_close_to_home with home_distance_power 0", stay_close_to_home=True, home_distance_power=0.0)
            if "stay_close_to_home" not in b or not b["stay_close_to_home"]:
                put("home_distance_power without stay_close_to_home", home_distance_power=3.0)
        if not m["use_pop_for_loc_weight"]:
            put("use_pop_for_loc_weight with pop_power_for_loc_weight 0", use_pop_for_loc_weight=True, pop_power_for_loc_weight=0.0)
            if not b.get("use_pop_for_loc_weight"):
                put("pop_power_for_loc_weight without use_pop_for_loc_weight", pop_power_for_loc_weight=2.0)
        if not m["movechance_pop_scale_factor"]:
            put("movechance_pop_base with scale factor 0", movechance_pop_base=rng.choice([1.0, 77.0]))
        walks = m["start_on_foot"] or any((k[3] if len(k) > 3 and k[3] else {}).get("walk_probability") for k in t["links"])
        if not walks:
            put("max_walk_speed when nobody walks", max_walk_speed=rng.choice([1.0, 200.0]))
        if s["spawn_rules"].get("conflict_spawn_decay") is None:
            put("conflict_spawn_decay_interval without decay", brief["spawn_rules"], conflict_spawn_decay_interval=rng.choice([1, 2, 90]))
        if flood and not m["flood_rules"].get("flood_forecaster"):
            if rng.random() < 0.5:
                b["flood_rules"].update(flood_forecaster=True, flood_forecaster_timescale=0, flood_forecaster_end_time=rng.choice([0, 5]),
                                        flood_forecaster_weights=[0.5] * 12, flood_awareness_weights=[0.0, 0.5, 1.0])
                done.append("a flood forecast of zero days")
        if not flood and "flood_driven_spawning" not in s["spawn_rules"] and not any(o[0] == "zones" for o in t["ops"]) and "flood" not in json.dumps([t["locs"], t["ops"], t["links"]]):
            put("flood rules without floods", flood_rules={"max_flood_level": 1, "flood_movechances": [0.0, 1.0], "flood_loc_weights": [1.0, 0.1], "flood_link_weights": [1.0, 0.1]})
        return done

    def long(self, rng):
        """conflicts that grow older than the default interval of their decay"""
        s = abm.pick_settings(rng, spawn_rules={"conflict_spawn_decay": [1.0, 0.2], "take_from_population": rng.random() < 0.5})
        net = abm.gen_net(rng, n=3)
        for l in net[0][:2]:
            l.update(location_type="conflict_zone" if l is net[0][0] else "town", pop=5000)
        ops = []
        late = rng.randint(3, 12)
        for d in range(33):
            if d == late:
                ops.append(["conflict", net[0][1]["name"], 1.0])
            if d > 24:
                ops.append(["weights"])
                ops.append(["insert", net[0][0]["name"], 1])
            ops.append(["evolve"])
        return abm.base_case(rng, par=rng.choice([0, 0, 2]), net=net, settings=s, ops=ops)

    def evaluate(self, case, ctx):
        t = case["target"]
        P = case["par"]
        a = multi.simulate(multi.alone(t, par=P), ctx)[0]
        if model.finished(a):
            # not every combination suits every scenario; that legal ones complete is C15
            ctx.probe("scenarios that do not fit the settings")
            return []
        other = dict(copy.deepcopy(t), settings_text=case["text"])
        b = {"parts": [other], "script": [[0, k] for k in range(-1, len(t["ops"]))], "par": P, "fs": case["fs"], "faults": case["faults"]}
        pre = case["prelude"]
        if pre:
            b["parts"].append(pre)
            b["script"] = [[1, k] for k in range(-1, len(pre["ops"]))] + b["script"]
            ctx.probe("other settings read before in the same process")
        r = multi.simulate(b, ctx)[0]
        hit = [f for f in r.faults if f.get("hits")]
        if hit:
            n = [x for x in r.nodes if x["name"] == hit[0]["node"]][0]
            ctx.probe("settings file not readable")
            if not n["error"] or n["snaps"]:
                return [("unreported", "the settings file could not be read on %s, which went on" % n["name"])]
            return []
        if pre and model.finished(r) and not r.nodes[0]["snaps"]:
            ctx.probe("earlier simulation failed")
            return []
        for k in case["out"]:
            ctx.probe("left out: " + k)
        for k in case["neutral"]:
            ctx.probe("neutral: " + k)
        ctx.nontrivial(bool(case["out"]) and any(x["places"] or x["pos"] and x["pos"][0] == "link" for q in a.nodes for x in q["snaps"][-1]["agents"]))
        for x in (a, r):
            # the forecast is at hand, though not looked at
            for n in x.nodes:
                for q in n["snaps"]:
                    for l in q["locs"].values():
                        l.pop("ffl", None)
        d = multi.compare(c25.json_like(a), c25.json_like(r), t, skip_files=("simsetting.yml",))
        if d:
            return [(d[0], "with documented defaults left out of the settings file (%s)%s%s the run differs: %s" % (", ".join(case["out"]), " and neutral settings in it (%s)" % ", ".join(case["neutral"]) if case["neutral"] else "", " after another simulation" if pre else "", d[1]))]
        extra = [f for f in r.files if f not in a.files]
        if extra:
            return [("file", "with documented defaults left out %s is written" % extra[0])]
        return []

    def shrinks(self, case):
        for k, z in (("prelude", None), ("fs", {}), ("faults", [])):
            if case[k] != z:
                yield dict(case, **{k: z})
        for sh in generic_shrinks(case["target"]):
            if sh.get("settings") == case["target"]["settings"]:
                yield dict(case, target=sh)
        # put settings back in, one after the other
        try:
            d = json.loads(case["text"])
        except ValueError:
            import yaml
            d = yaml.safe_load(case["text"]) or {}
        for k in case["out"]:
            n = copy.deepcopy(d)
            for sec in DEFAULTS:
                if k in DEFAULTS[sec]:
                    n[sec] = n.get(sec) or {}
                    n[sec][k] = DEFAULTS[sec][k]
            yield dict(case, text=json.dumps(n), out=[x for x in case["out"] if x != k])


def spell(rng, s):
    """the settings as a user may write them"""
    s = copy.deepcopy(s)
    lines = []
    secs = list(s)
    rng.shuffle(secs)
    if rng.random() < 0.3:
        lines.append("# settings")
    for sec in secs:
        d = s[sec]
        if not d:
            if rng.random() < 0.5:
                lines.append(sec + ":")
            continue
        lines.append(sec + ":")
        keys = list(d)
        rng.shuffle(keys)
        for k in keys:
            lines += entry(rng, k, d[k], "  ")
            if rng.random() < 0.05:
                lines.append("  # " + k)
    return "\n".join(lines) + rng.choice(["\n", "", "\n\n"])


def entry(rng, k, v, pad):
    if isinstance(v, dict):
        if rng.random() < 0.3:
            return ["%s%s: %s" % (pad, k, json.dumps(v))]
        out = ["%s%s:" % (pad, k)]
        for q in v:
            out += entry(rng, q, v[q], pad + "  ")
        return out
    if v is None:
        return ["%s%s: %s" % (pad, k, rng.choice(["null", "~", ""]))]
    if isinstance(v, bool):
        return ["%s%s: %s" % (pad, k, rng.choice(["True", "true", "yes", "on"] if v else ["False", "false", "no", "off"]))]
    if isinstance(v, float) and v == int(v) and rng.random() < 0.5:
        return ["%s%s: %d" % (pad, k, int(v))]
    if isinstance(v, list) and rng.random() < 0.3:
        return ["%s%s:" % (pad, k)] + ["%s  - %s" % (pad, json.dumps(x)) for x in v]
    return ["%s%s: %s" % (pad, k, json.dumps(v))]
