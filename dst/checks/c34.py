"""C34: chance decisions follow the documented probabilities.

Many agents face the same decision in one simulated run; the share of them that stays, takes each road, starts in each
place, walks or is deactivated is compared with the probability that a reference implementation of the documented
formulas gives for the state of the simulation on that day."""
import math
from .. import abm, model
from ..runner import Prop

TAIL = 1e-11     # a cell whose exact binomial tail is below this is a violation


def tail(n, k, p):
    """two-sided binomial tail probability (twice the smaller side, at most 1)"""
    if p <= 0.0:
        return 1.0 if k == 0 else 0.0
    if p >= 1.0:
        return 1.0 if k == n else 0.0
    sd = math.sqrt(n * p * (1 - p))
    if abs(k - n * p) < 3.0 * sd:
        return 1.0
    lp, lq = math.log(p), math.log1p(-p)

    def pmf(j):
        return math.exp(math.lgamma(n + 1) - math.lgamma(j + 1) - math.lgamma(n - j + 1) + j * lp + (n - j) * lq)
    rng = range(k, n + 1) if k > n * p else range(0, k + 1)
    return min(1.0, 2.0 * sum(pmf(j) for j in rng))


def poisson_tail(k, mu):
    if abs(k - mu) < 3.0 * math.sqrt(mu):
        return 1.0

    def pmf(j):
        return math.exp(j * math.log(mu) - mu - math.lgamma(j + 1))
    if k > mu:
        return min(1.0, 2.0 * sum(pmf(j) for j in range(k, k + 2000)))
    return min(1.0, 2.0 * sum(pmf(j) for j in range(0, k + 1)))


def km(a, b):
    """great-circle distance of two locations"""
    la, lb = math.radians(a["y"]), math.radians(b["y"])
    dl, do = lb - la, math.radians(b["x"] - a["x"])
    h = math.sin(dl / 2) ** 2 + math.cos(la) * math.cos(lb) * math.sin(do / 2) ** 2
    return 6371.0 * 2 * math.atan2(math.sqrt(h), math.sqrt(1 - h))


class Ref:
    """the documented decision rules on one day; s: snapshot at the start of the day"""

    def __init__(self, case, s):
        self.case, self.s, self.t = case, s, s["time"]
        self.mr, self.sr = case["settings"]["move_rules"], case["settings"]["spawn_rules"]
        self.loc = {l["name"]: l for l in case["locs"]}
        self.memo = {}
        self.edge = False

    def decay(self, n):
        tab = self.sr.get("conflict_spawn_decay")
        if tab is None:
            return 1.0
        i = min(int((self.t - self.s["locs"][n]["toc"]) / self.sr["conflict_spawn_decay_interval"]), len(tab) - 1)
        return float(tab[i])

    def level(self, n):
        return int(self.s["locs"][n]["fl"] or 0) if "flood_rules" in self.mr else 0

    def score(self, n, who, home):
        m, l = self.mr, self.s["locs"][n]
        x = 1.0
        if l["foreign"]:
            x *= m["foreign_weight"]
        if l["camp"]:
            x *= m["camp_weight"]
        if l["conflict"] > 0:
            x *= m["conflict_weight"] ** (self.decay(n) * l["conflict"])
        if m.get("ChildrenAvoidHazards") and who and float(who["age"]) < 19:
            x *= x
        if m.get("stay_close_to_home"):
            x *= 1.0 / max(1.0, km(self.loc[n], self.loc[home])) ** m["home_distance_power"]
        if self.level(n) > 0:
            x *= m["flood_rules"]["flood_loc_weights"][self.level(n)]
        if m.get("use_pop_for_loc_weight") and not l["camp"]:
            x *= max(1.0, float(l["pop"])) ** m["pop_power_for_loc_weight"]
        return x

    def room(self, n):
        """the factor by which a place that is nearly full is less attractive"""
        l = self.s["locs"][n]
        cap, buf = l["cap"] * self.mr["capacity_scaling"], self.mr["capacity_buffer"]
        if cap < 1 or l["n"] < cap and l["n"] <= buf * cap:
            return 1.0
        return 0.0 if l["n"] >= cap else 1.0 - (l["n"] - buf * cap) / (cap * (1.0 - buf))

    def full(self, n):
        return self.room(n) == 0.0

    def move(self, n):
        m, l = self.mr, self.s["locs"][n]
        if self.level(n) > 0:
            return m["flood_rules"]["flood_movechances"][self.level(n)]
        x = self.mc(l)
        f = m.get("movechance_pop_scale_factor", 0.0)
        if f:
            y = float(max(l["pop"], l["cap"])) / m["movechance_pop_base"]
            x = x * y ** f if y > 0 or f > 0 else math.ceil(x)
        return min(1.0, x)

    def mc(self, l):
        m = self.mr
        if l["camp"]:
            return m["idpcamp_movechance"] if l["idp"] else m["camp_movechance"]
        if l["conflict"] > 0:
            return m["conflict_movechance"]
        if l["fwd"] or l["marker"]:
            return 1.0
        return m["default_movechance"]

    def routes(self, start, who, home):
        """[(probability, route)] for a fresh decision at start, the route as a tuple of names"""
        key = (start, repr(who), home)
        if key in self.memo:
            return self.memo[key]
        m = self.mr
        out = []

        def rec(path, length, step):
            n = path[-1]
            l = self.s["locs"][n]
            if not l["marker"]:
                w = (m.get("weight_softening", 0.0) + self.score(n, who, home)) / (m["softening"] + length) ** m["distance_power"]
                w *= self.room(n)
                # whether journeys to a camp that is nearly full are begun is not documented
                self.edge = self.edge or 0.0 < self.room(n) < 0.51
                out.append((w ** m["weight_power"], path[1:]))
            else:
                step -= 1
            if m["awareness_level"] > step:
                for k in l["links"]:
                    if k[0] not in path:
                        rec(path + (k[0],), length + k[1], step + 1)
        for k in self.s["locs"][start]["links"]:
            rec((start, k[0]), k[1], 1)
        th = m.get("pruning_threshold", 1.0)
        if th >= 1.001 and out:
            top = max(w for w, _ in out)
            # a route at the very threshold may fall on either side by rounding
            self.edge = self.edge or any(abs(w - top / th) < 1e-9 * top for w, _ in out)
            out = [(w, r) for w, r in out if w >= top / th]
        tot = sum(w for w, _ in out)
        res = [(w / tot if tot > 0 else 1.0 / len(out), r) for w, r in out]
        self.memo[key] = res
        return res

    def first(self, start, who, home, m=None):
        """{road end or None: probability} of an agent's day at start"""
        m = self.move(start) if m is None else m
        p = {None: 1.0 - m}
        rs = self.routes(start, who, home)
        if not rs:
            return {None: 1.0}
        for q, r in rs:
            e = None if self.s["locs"][r[-1]]["camp"] and self.full(r[-1]) else r[0]
            p[e] = p.get(e, 0.0) + m * q
        return p

    def second(self, start, mid, who, home):
        """{road end: probability} of the road taken from mid by agents whose first road was start-mid"""
        rs = [(q, r) for q, r in self.routes(start, who, home) if r[0] == mid and not (self.s["locs"][r[-1]]["camp"] and self.full(r[-1]))]
        tot = sum(q for q, _ in rs)
        p = {}
        fresh = None
        for q, r in rs:
            if len(r) > 1:
                p[r[1]] = p.get(r[1], 0.0) + q / tot
            else:
                if fresh is None:
                    f = self.first(mid, who, home, 1.0)
                    go = sum(v for k, v in f.items() if k is not None)
                    fresh = {k: v / go for k, v in f.items() if k is not None} if go > 0 else {}
                for k, v in fresh.items():
                    p[k] = p.get(k, 0.0) + v * q / tot
        return p


class Check(Prop):
    id = "C34"
    rule = "at least 100 agents faced the same decision with at least two outcomes of non-zero probability"
    runs = {"quick": 4000, "thorough": 60000}
    components = {"real": model.REAL_PAR + ["flee/datamanager/*.py"], "stub": model.STUB_MPI}
    assumptions = ["roads are at least as long as a day's journey, so that every road taken is seen at the end of a day",
                   "a cell fails when its exact binomial (Poisson) tail is below 1e-11",
                   "weights with fixed routes, awareness levels below 1, ethnicity ratios and the flood forecaster are not documented precisely enough and left out"]

    # ------------------------------------------------------------------------------------------ generation
    def gen(self, rng, i, tier):
        kind = rng.choice(["choice"] * 7 + ["spawn"] * 2 + ["poisson", "sink", "stint"])
        return getattr(self, "gen_" + kind)(rng, tier)

    def gen_choice(self, rng, tier):
        speed = rng.choice([100.0, 200.0])
        aw = rng.choice([1, 1, 1, 2, 2, 3])
        locs, links = abm.gen_net(rng, n=rng.randint(3, 5 if aw == 3 else 7), dmin=speed + 1.0, dmax=rng.choice([speed * 1.5, 900.0]))
        for _ in range(rng.randint(0, 3)):
            x, y = rng.sample(locs, 2)
            if not any({x["name"], y["name"]} == set(k[:2]) for k in links):
                links.append([x["name"], y["name"], round(rng.uniform(speed + 1.0, speed * 3), 2)])
        for k in links:
            k[2] = max(k[2], speed + 1.0)
        if rng.random() < 0.2:
            # all over the world
            for l in locs:
                l["x"], l["y"] = round(rng.uniform(-60, 60), 2), round(rng.uniform(-40, 70), 2)
        mr = {"max_move_speed": speed, "max_walk_speed": rng.choice([10.0, 35.0]), "start_on_foot": False, "awareness_level": aw, "fixed_routes": False,
              "foreign_weight": rng.choice([1.0, 0.2, 4.0]), "camp_weight": rng.choice([1.0, 3.0, 0.5]), "conflict_weight": rng.choice([0.1, 0.25, 0.7]),
              "default_movechance": rng.choice([0.3, 0.6, 1.0]), "conflict_movechance": rng.choice([1.0, 0.5]), "camp_movechance": rng.choice([0.0, 0.0, 0.4]),
              "idpcamp_movechance": rng.choice([0.0, 0.5]), "softening": rng.choice([0.0, 10.0, 300.0]), "weight_softening": rng.choice([0.0, 0.0, 1.0]),
              "weight_power": rng.choice([1.0, 1.0, 2.0, 0.5, 0.0]), "distance_power": rng.choice([1.0, 0.5, 2.0, 0.0]),
              "stay_close_to_home": rng.random() < (0.25 if abs(locs[0]["y"]) <= 3.0 else 0.8), "home_distance_power": rng.choice([0.5, 1.0, 2.0]),
              "pruning_threshold": rng.choice([1.0, 1.0, 1.0, 1.5, 3.0]), "capacity_buffer": 0.9, "capacity_scaling": rng.choice([1.0, 0.5])}
        sr = {}
        ops = []
        if rng.random() < 0.2:
            mr.update(use_pop_for_loc_weight=True, pop_power_for_loc_weight=rng.choice([0.1, 0.3]))
        if rng.random() < 0.2:
            mr.update(movechance_pop_base=rng.choice([1000.0, 10000.0]), movechance_pop_scale_factor=rng.choice([0.2, 0.5, -0.2]))
        children = rng.random() < 0.15
        if children:
            mr["ChildrenAvoidHazards"] = True
        decay = rng.random() < 0.2
        if decay:
            sr.update(conflict_spawn_decay=rng.choice([[1.0, 0.3, 0.0], [0.5, 2.0]]), conflict_spawn_decay_interval=rng.choice([1, 2]))
        flood = rng.random() < 0.2
        for j, l in enumerate(locs):
            t = l["location_type"]
            if "camp" in t:
                l.pop("capacity", None)
                if rng.random() < 0.4:
                    l["capacity"] = 60000
                l["pop"] = rng.choice([0, 500])
            else:
                l["pop"] = rng.choice([0, 100, 2000, 50000]) if t != "conflict_zone" else rng.choice([100, 2000, 50000])
                if j and rng.random() < 0.12:
                    l["location_type"] = "marker"
                elif flood and j and rng.random() < 0.5:
                    l["location_type"] = "flood_zone"
                if t == "conflict_zone" and rng.random() < 0.5:
                    l["attributes"]["conflict_intensity"] = rng.choice([0.5, 2.0])
        if flood:
            mr["flood_rules"] = {"max_flood_level": 3, "flood_movechances": [0.0, 0.5, 1.0, 0.2], "flood_loc_weights": [rng.choice([1.0, 0.0]), 0.5, 0.1, 0.0], "flood_link_weights": [1.0] * 4}
            for l in locs:
                if "camp" not in l["location_type"] and rng.random() < 0.6:
                    ops.append(["attr", l["name"], "flood_level", rng.choice([0, 1, 1, 2, 3])])
        walk = rng.random() < 0.3
        if walk:
            for k in links:
                if rng.random() < 0.6:
                    k.append({"walk_probability": rng.choice([0.5, 0.2, 1.0, "0.7"])})
        case = {"settings": abm.pick_settings(rng, spawn_rules=sr, move_rules=mr), "locs": locs, "links": links}
        names = [l["name"] for l in locs]
        camps = [l["name"] for l in locs if "camp" in l["location_type"]]
        full = [c for c in camps if rng.random() < 0.25]
        mr["capacity_buffer"] = case["settings"]["move_rules"]["capacity_buffer"] = rng.choice([0.9, 0.9, 0.5, 0.0, 1.0])
        for l in locs:
            if l["name"] in full:
                l["capacity"] = rng.choice([4, 10, 100, 1000])
                mr["idpcamp_movechance"] = mr["camp_movechance"] = 0.0
        case["settings"]["move_rules"].update(mr)
        almost = mr["capacity_buffer"] == 0.0
        for c in full:
            cap = [l["capacity"] for l in locs if l["name"] == c][0]
            if cap > 10:
                buf = mr["capacity_buffer"]
                part = rng.choice([0.7 * buf, buf + 0.2 * (1.0 - buf), buf + 0.4 * (1.0 - buf), buf + 0.4 * (1.0 - buf), 1.0])
                almost = almost or part < 1.0
                cap = max(1, round(cap * mr["capacity_scaling"] * part))
            ops.append(["insert", c, cap, {"age": 30, "full": True}])
        leave = mr["idpcamp_movechance"] + mr["camp_movechance"] > 0
        starts = [l["name"] for l in locs if l["location_type"] != "marker" and ("camp" not in l["location_type"] or leave and rng.random() < 0.5)]
        deg = {x: sum(x in k[:2] for k in links) for x in names}
        branching = [x for x in starts if deg[x] > 1]
        starts = branching if branching and rng.random() < 0.9 else starts
        starts = rng.sample(starts, min(len(starts), rng.choice([1, 1, 2])))
        n = {1: 500, 2: 300, 3: 150}[aw] * (3 if almost else 1)
        for s in starts:
            for age in ([rng.choice([8, 18]), rng.choice([19, 40])] if children else [30]):
                ops.append(["insert", s, n // len(starts), {"age": age}])
        static = rng.random() < 0.5
        days = rng.randint(2, 4) if not static else rng.randint(4, 7)
        case["static"] = static and not decay and not almost
        ops.append(["recount"])
        for d in range(days):
            if d and not static and rng.random() < 0.7:
                x = rng.random()
                l = rng.choice(locs)
                if x < 0.35 and l["location_type"] in ("town", "conflict_zone", "flood_zone"):
                    ops.append(["conflict", l["name"], rng.choice([0.0, 0.5, 1.0])])
                elif x < 0.6 and links:
                    k = rng.choice(links)
                    ops.append(["close_link", k[0], k[1], rng.random() < 0.5])
                elif x < 0.75 and "camp" not in l["location_type"]:
                    ops.append(["pop", l["name"], rng.choice([300, 9000])])
                elif x < 0.9 and flood and "camp" not in l["location_type"]:
                    ops.append(["attr", l["name"], "flood_level", rng.choice([0, 1, 2])])
                elif l["name"] not in full and "camp" not in l["location_type"] and l["name"] not in starts and l["location_type"] != "marker":
                    ops.append(["type", l["name"], rng.choice(["camp", "town", "conflict_zone"])])
            ops.append(["evolve"])
        case["ops"] = ops
        if rng.random() < 0.3:
            # a small world: every kilometre of a road counts
            f = rng.choice([50.0, 25.0])
            m = case["settings"]["move_rules"]
            for key in ("max_move_speed", "max_walk_speed"):
                m[key] = m[key] / f
            m["softening"] = rng.choice([0.0, 0.0, 1.0])
            m["distance_power"] = rng.choice([1.0, 2.0])
            for k in links:
                k[2] = max(round(k[2] / f, 2), m["max_move_speed"] + 0.02)
        return self.finish(rng, case, "choice")

    def gen_spawn(self, rng, tier):
        locs, links = abm.gen_net(rng, n=rng.randint(3, 7))
        take = rng.random() < 0.5
        for l in locs:
            if "camp" not in l["location_type"]:
                l["pop"] = rng.choice([3000, 8000, 30000])
                if rng.random() < 0.6:
                    l["location_type"] = "conflict_zone"
                if rng.random() < 0.5:
                    l["attributes"]["conflict_intensity"] = rng.choice([0.3, 2.0])
        sr = {"take_from_population": take, "insert_day0": False, "empty_camps_on_day0": True, "sum_from_camps": False, "conflict_zone_spawning_only": rng.random() < 0.8}
        if rng.random() < 0.5:
            sr.update(conflict_spawn_decay=rng.choice([[1.0, 0.3, 0.05], [0.5, 2.0]]), conflict_spawn_decay_interval=rng.choice([1, 2]))
        case = {"settings": abm.pick_settings(rng, spawn_rules=sr), "locs": locs, "links": links}
        days = 4
        n = rng.choice([200, 400])
        import datetime
        d0 = datetime.date(2020, 1, 10)
        case["files"] = {"source_data/data_layout.csv": "total,refugees.csv\n",
                         "source_data/refugees.csv": "".join("%s,%d\n" % ((d0 + datetime.timedelta(days=d)).isoformat(), n * d) for d in range(days + 2))}
        case["table"] = {"start": "2020-01-10", "scale": 1}
        zones = [l["name"] for l in locs if l["location_type"] == "conflict_zone"]
        ops = []
        for t in range(days):
            if t and rng.random() < 0.5 and len(zones) > 1:
                ops.append(["conflict", rng.choice(zones[1:]), rng.choice([0.0, 0.4, 1.0])])
            ops += [["spawn"], ["evolve"]]
        case["ops"] = ops
        return self.finish(rng, case, "spawn")

    def gen_poisson(self, rng, tier):
        locs, links = abm.gen_net(rng, n=rng.randint(2, 6))
        flood = rng.random() < 0.3
        mr, sr = {}, {"take_from_population": False, "insert_day0": False}
        rate = rng.choice([3, 20, 60])
        ops = []
        if flood:
            sr.update(take_from_population=True, conflict_zone_spawning_only=False, flood_zone_spawning_only=True,
                      flood_driven_spawning={"spawn_mode": "poisson", "displaced_per_flood_day": [rng.choice([0, rate]), rate, 2 * rate]})
            mr["flood_rules"] = {"max_flood_level": 2, "flood_movechances": [0.0, 0.5, 1.0], "flood_loc_weights": [1.0, 0.6, 0.2], "flood_link_weights": [1.0, 1.0, 1.0]}
        else:
            sr["conflict_driven_spawning"] = {"spawn_mode": "poisson", "displaced_per_conflict_day": rate}
        for l in locs:
            if "camp" not in l["location_type"]:
                l["pop"] = 30000
                if flood and rng.random() < 0.7:
                    ops.append(["attr", l["name"], "flood_level", rng.choice([1, 2])])
                if rng.random() < 0.4:
                    l["attributes"]["conflict_intensity"] = rng.choice([0.5, 2.0])
        case = {"settings": abm.pick_settings(rng, spawn_rules=sr, move_rules=mr), "locs": locs, "links": links}
        case["files"] = {"source_data/data_layout.csv": "total,refugees.csv\n", "source_data/refugees.csv": "2020-01-10,0\n2020-01-20,0\n"}
        case["table"] = {"start": "2020-01-10", "scale": 1}
        case["ops"] = ops + [["spawn"], ["evolve"]] * 3
        return self.finish(rng, case, "poisson")

    def gen_sink(self, rng, tier):
        locs, links = abm.gen_net(rng, n=rng.randint(2, 5))
        p = rng.choice([0.1, 0.3, 0.5, 0.8, "0.4"])
        locs[-1].update(location_type="camp", pop=0, attributes={"deactivation_probability": p})
        locs[-1].pop("capacity", None)
        mr = {"camp_movechance": rng.choice([0.0, 0.3])}
        case = {"settings": abm.pick_settings(rng, spawn_rules={"camps_are_sinks": True}, move_rules=mr), "locs": locs, "links": links}
        case["p"], case["sink"] = float(p), locs[-1]["name"]
        case["ops"] = [["insert", locs[-1]["name"], 300]] + [["insert", locs[0]["name"], 100]] + [["evolve"]] * 4
        return self.finish(rng, case, "sink")

    def gen_stint(self, rng, tier):
        """everybody leaves A for B, less than a day away; all other roads are longer than a day's journey"""
        speed = rng.choice([100.0, 200.0])
        zone = {"name": "A", "location_type": "conflict_zone", "country": "X", "x": 0.0, "y": 0.0, "pop": 1000, "attributes": {}}
        b = dict(zone, name="B", location_type=rng.choice(["town", "town", "town", "conflict_zone", "camp", "idpcamp", "marker", "flood_zone"]), country=rng.choice("XY"),
                 x=0.3, pop=rng.choice([0, 100, 5000]), attributes={})
        locs, links = [zone, b], [["A", "B", round(rng.uniform(1.0, speed - 1.0), 2)]]
        two = rng.random() < 0.3
        if two:
            # more than a day and a half away: a full day's distance within two days by any reading of the documentation
            links[0][2] = round(rng.uniform(1.52, 1.95) * speed, 2)
        if "camp" in b["location_type"] and rng.random() < 0.5:
            b["capacity"] = 90000
        for n in "CDE"[:rng.randint(1, 3)]:
            locs.append(dict(zone, name=n, location_type=rng.choice(["town", "camp", "conflict_zone"]), country=rng.choice("XY"), x=1.0 + len(locs), pop=rng.choice([0, 300]), attributes={}))
            links.append(["B", n, round(rng.uniform(speed + 1.0, speed * 3), 2)])
        mr = {"max_move_speed": speed, "max_walk_speed": 35.0, "start_on_foot": False, "awareness_level": rng.choice([0, 1, 1, 2]), "fixed_routes": False,
              "conflict_movechance": 1.0, "default_movechance": rng.choice([0.1, 0.3, 0.6]), "camp_movechance": rng.choice([0.0, 0.4]), "idpcamp_movechance": rng.choice([0.0, 0.5]),
              "avoid_short_stints": rng.random() < 0.6, "pruning_threshold": 1.0}
        if rng.random() < 0.25:
            # (A keeps the chance 1)
            mr.update(movechance_pop_base=1000.0, movechance_pop_scale_factor=rng.choice([0.2, 0.5]))
        flood = rng.random() < 0.3
        if flood:
            mr["flood_rules"] = {"max_flood_level": 2, "flood_movechances": [0.0, 0.5, 0.2], "flood_loc_weights": [1.0, 1.0, 0.5], "flood_link_weights": [1.0] * 3}
        case = {"settings": abm.pick_settings(rng, spawn_rules={"camps_are_sinks": False}, move_rules=mr), "locs": locs, "links": links}
        case["settings"]["move_rules"].update(mr)
        ops = []
        now = b["location_type"]
        for _ in range(rng.randint(1, 3) + (1 if two else 0)):
            x = rng.random()
            if x < 0.3 and now in ("town", "conflict_zone", "flood_zone"):
                ops.append(["conflict", "B", rng.choice([0.0, 0.5, 1.0])])
            elif x < 0.5 and flood and now in ("town", "conflict_zone", "flood_zone"):
                ops.append(["attr", "B", "flood_level", rng.choice([0, 1, 2])])
            elif x < 0.7 and now in ("town", "camp", "conflict_zone"):
                now = rng.choice(["town", "camp", "conflict_zone"])
                ops.append(["type", "B", now])
            elif x < 0.8:
                ops.append(["pop", "B", rng.choice([300, 9000])])
            ops += [["insert", "A", 150], ["evolve"]]
        case["ops"] = ops
        return self.finish(rng, case, "stint")

    def finish(self, rng, case, mode):
        case["kind"] = "abm"
        case["mode"] = mode
        case["par"] = rng.choice([0, 0, 0, 2, 3])
        if case["par"]:
            case["pmode"] = rng.choice(["loc-par", "classic"])
            case["lmode"] = rng.choice(["high_latency", "low_latency"])
        case["settings"]["log_levels"] = {"agent": 0}
        case["seeds"] = [rng.randrange(2 ** 31) for _ in range(max(1, case["par"]))]
        return case

    # ------------------------------------------------------------------------------------------ evaluation
    def cell(self, ctx, out, where, what, n, k, p):
        ctx.probe("decisions compared")
        if n >= 100 and 0.02 < p < 0.98:
            ctx.nontrivial()
        q = tail(n, k, min(1.0, max(0.0, p if abs(p) > 1e-12 else 0.0)) if abs(p - 1.0) > 1e-12 else 1.0)
        if q < TAIL:
            out.append("%s: %d of %d agents %s, the documented probability is %.4f" % (where, k, n, what, p))

    def evaluate(self, case, ctx):
        res = model.simulate(case, ctx)
        v = model.finished(res)
        if v:
            return v
        K = model.steps_done(res)
        if case["mode"] == "choice":
            return self.eval_choice(case, ctx, res, K)
        out = []
        if case["mode"] == "poisson":
            mu = k_all = 0
            ref0 = None
            for k in range(1, K):
                if case["ops"][k - 1][0] != "spawn":
                    continue
                s = res.nodes[0]["snaps"][k - 1]
                sr = case["settings"]["spawn_rules"]
                for n, l in s["locs"].items():
                    if "flood_driven_spawning" in sr:
                        mu += sr["flood_driven_spawning"]["displaced_per_flood_day"][int(l["fl"])] if l["fl"] else 0
                    elif l["conflict"] > 0:
                        mu += sr["conflict_driven_spawning"]["displaced_per_conflict_day"] * l["conflict"]
                k_all += res.nodes[0]["rets"][k - 1][0]
            ctx.nontrivial(mu > 100)
            ctx.probe("Poisson totals compared", mu > 0)
            if (mu == 0 and k_all) or (mu > 0 and poisson_tail(k_all, mu) < TAIL):
                v.append(("poisson", "%d agents were displaced over the run, the expected number is %.1f" % (k_all, mu)))
            return v
        for k in range(1, K):
            op = case["ops"][k - 1]
            where = model.opname(case, k)
            if case["mode"] == "spawn" and op[0] == "spawn":
                s = res.nodes[0]["snaps"][k - 1]
                ref = Ref(case, s)
                w = {n: l["pop"] * l["conflict"] * ref.decay(n) if l["conflict"] > 0 else 0.0 for n, l in s["locs"].items()}
                tot = sum(w.values())
                new = {}
                for n in res.nodes:
                    for x in n["snaps"][k]["agents"][len(n["snaps"][k - 1]["agents"]):]:
                        new[x["home"]] = new.get(x["home"], 0) + 1
                cnt = sum(new.values())
                if tot > 0:
                    for n in w:
                        self.cell(ctx, out, where, "start in " + n, cnt, new.get(n, 0), w[n] / tot)
                if out:
                    return [("start", out[0])]
            if case["mode"] == "stint" and op[0] == "evolve" and case["links"] and case["links"][0][:2] == ["A", "B"]:
                s = res.nodes[0]["snaps"][k - 1]
                p = Ref(case, s).move("B")
                if s["locs"]["B"]["town"] and case["settings"]["move_rules"]["avoid_short_stints"] and case["links"][0][2] < case["settings"]["move_rules"]["max_move_speed"]:
                    p = 1.0
                n = on = 0
                for nd in res.nodes:
                    for x, y in zip(nd["snaps"][k - 1]["agents"], nd["snaps"][k]["agents"]):
                        far = case["links"][0][2] > case["settings"]["move_rules"]["max_move_speed"]
                        if x["places"] == 1 and (x["pos"][0] == "link" if far else x["pos"] == ["loc", "A"]):
                            n += 1
                            on += y["places"] > 2 or y["pos"][0] == "link" and y["pos"][1] == "B"
                            if y["places"] == 1:
                                return [("stint", "%s: an agent of A did not reach B, %s km away: %s" % (where, case["links"][0][2], y))]
                self.cell(ctx, out, where, "that came from A to B on the same day go on from there", n, on, p)
                ctx.probe("further moves on the day of a short journey", n)
                if out:
                    return [("stint", out[0])]
            if case["mode"] == "sink" and op[0] == "evolve":
                n = gone = 0
                for nd in res.nodes:
                    for x, y in zip(nd["snaps"][k - 1]["agents"], nd["snaps"][k]["agents"]):
                        if x["pos"] is None:
                            continue
                        if y["pos"] is None:
                            n += 1
                            gone += 1
                        elif y["pos"] == ["loc", case["sink"]]:
                            n += 1
                self.cell(ctx, out, where, "in the camp are deactivated", n, gone, case["p"])
                if out:
                    return [("deactivation", out[0])]
        return v

    def eval_choice(self, case, ctx, res, K):
        mr = case["settings"]["move_rules"]
        speed, foot = mr["max_move_speed"], mr["max_walk_speed"]
        walk = {}
        for l in case["links"]:
            p = float((l[3] if len(l) > 3 and l[3] else {}).get("walk_probability", 0.0))
            walk[(l[0], l[1])] = walk[(l[1], l[0])] = p
        out = []
        hist = {}       # (process, index) -> roads taken so far
        second = {}     # (home, age, first road) -> {end: count}
        ref = None
        for k in range(1, K):
            if case["ops"][k - 1][0] != "evolve":
                continue
            where = model.opname(case, k)
            ref = Ref(case, res.nodes[0]["snaps"][k - 1])
            cells, prog = {}, {}
            for r, nd in enumerate(res.nodes):
                for i, (x, y) in enumerate(zip(nd["snaps"][k - 1]["agents"], nd["snaps"][k]["agents"])):
                    if x["attr"].get("full"):
                        continue
                    p, q = x["pos"], y["pos"]
                    boarded = q[0] == "link" and (p[0] == "loc" or y["places"] > x["places"])
                    cls = (x["home"], x["attr"]["age"])
                    if x["places"] == 1 and p == ["loc", x["home"]]:
                        c = cells.setdefault(cls, {})
                        e = q[2] if q[0] == "link" else None
                        c[e] = c.get(e, 0) + 1
                        if q[0] == "link":
                            g = prog.setdefault((q[1], q[2]), {})
                            g[q[3]] = g.get(q[3], 0) + 1
                    if boarded:
                        h = hist.setdefault((r, i), [])
                        h.append((q[1], q[2]))
                        if len(h) == 2 and h[0][0] == x["home"] and h[0][1] == h[1][0]:
                            c = second.setdefault(cls + (h[0][1],), {})
                            c[q[2]] = c.get(q[2], 0) + 1
            for (home, age), c in cells.items():
                want = ref.first(home, {"age": age}, home)
                if ref.edge:
                    continue
                n = sum(c.values())
                for e in sorted(set(c) | set(want), key=str):
                    self.cell(ctx, out, where, ("from %s (age %s) " % (home, age)) + ("stay there" if e is None else "take the road to " + e), n, c.get(e, 0), want.get(e, 0.0))
                if out:
                    return [("choice" if None not in want or not out[0].count("stay there") else "leave", out[0])]
            for road, g in prog.items():
                n = sum(g.values())
                if set(g) - {speed, foot}:
                    out.append("%s: agents are %s km along the road %s-%s after their first day" % (where, sorted(g), road[0], road[1]))
                self.cell(ctx, out, where, "on %s-%s walk" % road, n, g.get(foot, 0), walk[road])
                if out:
                    return [("walk", out[0])]
        if case["static"] and ref is not None:
            for (home, age, mid), c in second.items():
                want = ref.second(home, mid, {"age": age}, home)
                if ref.edge:
                    continue
                n = sum(c.values())
                ctx.probe("second roads compared", n)
                for e in sorted(set(c) | set(want)):
                    self.cell(ctx, out, "whole run", "from %s (age %s) that first came to %s go on to %s" % (home, age, mid, e), n, c.get(e, 0), want.get(e, 0.0))
                if out:
                    return [("second", out[0])]
        return []
