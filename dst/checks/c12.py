"""C12: conflict, flood and location-type schedules are applied on the right day."""
import math
from .. import abm, model
from ..runner import Prop

EPS = 0.000001


class Ref:
    """reference model of location states driven by the input tables"""

    def __init__(self, case):
        self.case = case
        s = case["settings"]
        m, self.sr, self.mr = s["move_rules"], s["spawn_rules"], s["move_rules"]
        self.mc = {"default": m["default_movechance"], "camp": m["camp_movechance"], "idp": m["idpcamp_movechance"], "conflict": m["conflict_movechance"]}
        self.flood = "flood_rules" in m
        self.st = {}
        for l in case["locs"]:
            t = l["location_type"]
            if t == "conflict_zone" and case["cdates"].get(l["name"], 0) > 0:
                t = "town"
            self.st[l["name"]] = self.of_type(t, l)
        self.home = case["locs"][0]["country"]
        self.loc = {l["name"]: l for l in case["locs"]}
        self.levels = {}

    def of_type(self, t, l, toc=-1):
        d = {"camp": False, "idp": False, "town": False, "fwd": False, "marker": False, "flood": False, "conflict": -1.0, "mc": self.mc["default"], "toc": toc}
        if t in ("camp", "idpcamp"):
            d.update(camp=True, idp=t == "idpcamp", mc=self.mc["idp" if t == "idpcamp" else "camp"])
        elif t == "conflict_zone":
            d.update(conflict=float(l["attributes"].get("conflict_intensity", 1.0)), mc=self.mc["conflict"])
        elif t == "forwarding_hub":
            d.update(fwd=True, mc=1.0)
        elif t == "marker":
            d.update(marker=True, mc=1.0)
        elif t == "flood_zone":
            d.update(flood=True)
        else:
            d.update(town=True)
        return d

    def zones(self, t):
        c = self.case
        for name, typ, day in c["changes"]:
            if day == t and name in self.st:
                old = self.st[name]
                self.st[name] = self.of_type(typ, self.loc[name], t if typ == "conflict_zone" else old["toc"])
        if self.flood:
            for n in self.st:
                self.levels[n] = c["flood_table"][n][t] if n in c["flood_table"] else 0
        elif c["conflict_file"]:
            for n, vals in c["conflict_table"].items():
                now, before = vals[t], vals[t - 1] if t > 0 else 0.0
                if now > EPS:
                    self.st[n]["conflict"] = now
                    if before <= EPS:
                        self.st[n].update(toc=t, town=False, mc=self.mc["conflict"])
                elif before > EPS:
                    self.st[n].update(conflict=-1.0, town=True, mc=self.mc["default"])
        else:
            for n, day in c["cdates"].items():
                if day == t and self.loc[n]["location_type"] == "conflict_zone":
                    self.st[n].update(conflict=float(self.loc[n]["attributes"].get("conflict_intensity", 1.0)), toc=t, town=False, mc=self.mc["conflict"])

    def decay(self, n, t):
        tab = self.sr.get("conflict_spawn_decay")
        if tab is None:
            return 1.0
        i = min(int((t - self.st[n]["toc"]) / self.sr["conflict_spawn_decay_interval"]), len(tab) - 1)
        return float(tab[i])

    def weight(self, n, t, pop):
        s = self.st[n]
        if "conflict_driven_spawning" in self.sr or s["conflict"] <= 0:
            return 0.0
        return pop * s["conflict"] * self.decay(n, t)

    def score(self, n, t):
        s = self.st[n]
        x = 1.0
        if self.loc[n]["country"] != self.home:
            x *= self.mr["foreign_weight"]
        if s["camp"]:
            x *= self.mr["camp_weight"]
        if s["conflict"] > 0:
            x *= self.mr["conflict_weight"] ** (self.decay(n, t) * s["conflict"])
        return x


FLAGS = ("camp", "idp", "town", "fwd", "marker", "flood", "conflict", "mc", "toc")


class Check(Prop):
    id = "C12"
    rule = "a conflict, flood level or location type changed after day 0"
    runs = {"quick": 3600, "thorough": 40000}
    components = {"real": model.REAL_PAR + ["flee/InputGeography.py"], "stub": model.STUB_MPI}
    assumptions = ["the schedules are read once per day, as the run scripts do", "a place has either a conflict schedule or type changes, not both", "the flood forecaster is off"]

    def gen(self, rng, i, tier):
        big = tier == "thorough" and rng.random() < 0.3
        locs, links = abm.gen_net(rng, n=abm.size(rng, 2, 12 if big else 8))
        days = rng.randint(2, 16 if big else 8)
        mode = rng.choice(["dates", "table", "table", "flood"])
        table = rng.random() < 0.4
        intens = rng.random() < 0.4
        names = [l["name"] for l in locs]
        for l in locs:
            if "camp" not in l["location_type"] and rng.random() < 0.2:
                l["location_type"] = "flood_zone" if mode == "flood" else "conflict_zone" if mode == "dates" else "town"
            if mode == "flood" and l["location_type"] == "conflict_zone":
                l["location_type"] = "flood_zone"
            if l["location_type"] == "conflict_zone" and mode == "table":
                l["location_type"] = "town"
            if intens:
                l["attributes"]["conflict_intensity"] = rng.choice(["1.0", "0.5", "0.25"])
        sr = {"take_from_population": rng.random() < 0.5, "conflict_zone_spawning_only": rng.random() < 0.8, "insert_day0": False, "sum_from_camps": rng.random() < 0.5}
        mr = {}
        if mode == "flood":
            sr.update(take_from_population=True, conflict_zone_spawning_only=False, flood_zone_spawning_only=True,
                      flood_driven_spawning={"spawn_mode": "constant", "displaced_per_flood_day": [0, 1, 2, 0]})
            mr["flood_rules"] = {"max_flood_level": 3, "flood_movechances": [0.0, 0.5, 1.0, 0.2], "flood_loc_weights": [1.0, 0.6, 0.2, 0.0], "flood_link_weights": [1.0] * 4}
        else:
            if rng.random() < 0.6:
                sr["conflict_spawn_decay"] = rng.choice([[1.0, 0.5, 0.25], [1.0, 0.01 if table else 0.0], [0.2, 1.0, 0.5]])
                sr["conflict_spawn_decay_interval"] = rng.choice([1, 2, 3])
            if rng.random() < 0.15:
                sr["conflict_driven_spawning"] = {"spawn_mode": "constant", "displaced_per_conflict_day": 2}
        # spawning needs somewhere to spawn
        anchor = locs[0]["name"] if table and mode != "flood" else None
        if anchor:
            locs[0]["location_type"] = "town" if mode == "table" else "conflict_zone"
        for l in locs:
            if "camp" not in l["location_type"]:
                l["pop"] = rng.choice([500, 3000, 40000])
        par = rng.choice([0, 0, 0, 0, 2, 3])
        s = abm.pick_settings(rng, spawn_rules=sr, move_rules=mr)
        case = abm.base_case(rng, par=par, steps=1, net=(locs, links), settings=s, ops=[])
        cd = {l["name"]: rng.choice([0, 0, rng.randint(0, days), 999]) if mode == "dates" else 0 for l in locs if l["location_type"] == "conflict_zone"}
        if anchor and anchor in cd:
            cd[anchor] = 0
        case["cdates"] = cd
        files = {}
        busy = set(cd)
        case["conflict_file"] = ""
        rows = days + rng.choice([0, 0, 1])   # the last one may be the one of the last day
        if mode == "table":
            tab = {}
            for n in rng.sample(names, rng.randint(1, len(names))):
                if "camp" in [l for l in locs if l["name"] == n][0]["location_type"] and (table or rng.random() < 0.8):
                    continue
                row, cur = [], 0.0
                for _ in range(rows):
                    if rng.random() < 0.4:
                        cur = rng.choice([0.0, 0.0, 1.0, 0.5, 0.1])
                    row.append(cur)
                tab[n] = row
            if not tab:
                tab[names[0]] = [1.0] * (rows)
            if anchor:
                tab[anchor] = [rng.choice([1.0, 0.5])] * (rows)
            case["conflict_file"] = "conflicts.csv"
            case["conflict_table"] = tab
            busy |= set(tab)
            cols = list(tab)
            sep = rng.choice([",", ", "])
            files["conflicts.csv"] = "#Day" + "".join(sep + c for c in cols) + "\n" + "".join(
                str(d) + "".join(sep + str(tab[c][d]) for c in cols) + "\n" for d in range(rows))
            # the run script reads it when reading the locations
        if mode == "flood":
            ft = {}
            for n in rng.sample(names, rng.randint(1, len(names))):
                if table and "camp" in [l for l in locs if l["name"] == n][0]["location_type"]:
                    continue   # nobody lives there
                ft[n] = [rng.choice([0, 0, 1, 2, 3]) for _ in range(rows)]
            if not ft:
                ft[names[0]] = [0] * (rows)
            case["flood_file"] = "flood_level.csv"
            case["flood_table"] = ft
            cols = list(ft)
            files["flood_level.csv"] = "#Day" + "".join("," + c for c in cols) + "\n" + "".join(
                str(d) + "".join("," + str(ft[c][d]) for c in cols) + "\n" for d in range(rows))
        ch = []
        kinds = ["town", "camp", "idpcamp", "forwarding_hub", "marker"] + (["flood_zone", "flood_zone"] if mode == "flood" else ["conflict_zone", "conflict_zone"])
        for n in names:
            if n not in busy and rng.random() < 0.4:
                for d in sorted(rng.sample(range(days + 1), rng.randint(1, min(3, days)))):
                    typ = rng.choice(kinds)
                    if typ == "conflict_zone" and table and "camp" in [l for l in locs if l["name"] == n][0]["location_type"]:
                        typ = "town"   # nobody lives there
                    ch.append([n, typ, d])
        rng.shuffle(ch)
        if ch and rng.random() < 0.05:
            ch.append(["Nowhere", "town", 1])
        case["changes"] = ch
        if table:
            camps = [l["name"] for l in locs if "camp" in l["location_type"]]
            if camps:
                f, data = model.table_files(rng, camps, days, mx=6)
                files.update(f)
                case["table"] = {"start": "2020-01-10", "scale": 1}
            else:
                table = False
        case["files"] = files
        model.geo_csv(case, rng, cdates=cd, changes=ch if ch or rng.random() < 0.5 else None)
        ops = []
        for t in range(days):
            ops.append(["zones"])
            if rng.random() < 0.2:
                ops.append(["inserts", rng.choice(names), 2])
            if table:
                ops.append(["spawn"])
            if rng.random() < 0.5:
                ops.append(["weights"])
            ops.append(["evolve"])
        case["ops"] = ops
        return case

    def evaluate(self, case, ctx):
        res = model.simulate(case, ctx)
        v = model.finished(res)
        if not res.nodes or not res.nodes[0]["snaps"]:
            return v
        ref = Ref(case)
        sr = case["settings"]["spawn_rules"]
        K = model.steps_done(res)
        for k in range(K):
            where = model.opname(case, k)
            op = case["ops"][k - 1] if k else ["build"]
            t = res.nodes[0]["snaps"][max(0, k - 1)]["time"]
            if op[0] == "zones":
                old = {n: (d["conflict"], d["camp"], d["town"], ref.levels.get(n)) for n, d in ref.st.items()}
                ref.zones(t)
                ch = sum(1 for n, d in ref.st.items() if old[n] != (d["conflict"], d["camp"], d["town"], ref.levels.get(n)))
                ctx.nontrivial(t > 0 and ch > 0)
                ctx.probe("scheduled changes", ch)
            for r, node in enumerate(res.nodes):
                s = node["snaps"][k]
                for n, d in ref.st.items():
                    g = s["locs"][n]
                    for f in FLAGS:
                        if f == "toc" and d["conflict"] <= 0:
                            continue
                        if g[f] != d[f]:
                            v.append((f, "%s on day %d: %s has %s=%s, the input gives %s" % (where, t, n, f, g[f], d[f])))
                    if n in ref.levels and g["fl"] != ref.levels[n]:
                        v.append(("flood-level", "%s on day %d: flood level of %s is %s, the table gives %s" % (where, t, n, g["fl"], ref.levels[n])))
                    if op[0] in ("weights", "evolve", "zones") or (op[0] == "spawn" and not ("conflict_driven_spawning" in sr or "flood_driven_spawning" in sr)):
                        w = s["w"][s["order"].index(n)]
                        # on the zones operation the population is the current one, the decay may still be that of the change
                        want = ref.weight(n, t, g["pop"])
                        if op[0] == "zones" and sr.get("conflict_spawn_decay"):
                            continue
                        if op[0] == "spawn" and sr["take_from_population"]:
                            if w > 0 and want == 0 and g["pop"] > 0 or w == 0 and want > 0:
                                v.append(("weight", "%s on day %d: spawn weight of %s is %s, the values of the day give %s" % (where, t, n, w, want)))
                            continue
                        if not math.isclose(w, want, rel_tol=1e-9, abs_tol=1e-9):
                            v.append(("weight", "%s on day %d: spawn weight of %s is %s, the values of the day give %s" % (where, t, n, w, want)))
                    if op[0] == "evolve":
                        want = ref.score(n, t)
                        if not math.isclose(g["score"], want, rel_tol=1e-9, abs_tol=1e-12):
                            v.append(("score", "%s on day %d: score of %s is %s, the values of the day give %s" % (where, t, n, g["score"], want)))
                if op[0] == "spawn" and "flood_driven_spawning" not in sr:
                    before = node["snaps"][k - 1]
                    for a in s["agents"][len(before["agents"]):]:
                        h = a["home"]
                        if "conflict_driven_spawning" in sr:
                            bad = ref.st[h]["conflict"] <= 0
                        else:
                            bad = ref.weight(h, t, before["locs"][h]["pop"]) <= 0
                        if bad:
                            v.append(("spawned", "%s on day %d: an agent starts in %s, which has no spawn weight that day" % (where, t, h)))
                if v:
                    return v
        return v
