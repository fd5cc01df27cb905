"""C14: nobody sets out for a camp that is full."""
from .. import abm, model
from ..runner import Prop


class Check(Prop):
    id = "C14"
    rule = "a camp was full while agents were choosing where to go"
    runs = {"quick": 3400, "thorough": 40000}
    components = {"real": model.REAL_PAR, "stub": model.STUB_MPI}
    assumptions = ["a camp counts as full during a whole step when it is full at its start even without all who leave it in that step, and as having room when it has room at its start even with all who enter it in that step; departures in between are not judged",
                   "the destination of a longer route is known while the agent is on its way"]

    def gen(self, rng, i, tier):
        if rng.random() < 0.2:
            return self.spawned(rng, tier)
        big = tier == "thorough" and rng.random() < 0.3
        style = rng.random()
        locs, links = abm.gen_net(rng, n=abm.size(rng, 2, 9 if big else 7), caps=True, style=rng.choice(["line", "star", "star", "tree", "graph", "ring"]),
                                  dmax=60.0 if style < 0.4 else 400.0)
        for k, l in enumerate(locs):
            if "camp" not in l["location_type"] and k and rng.random() < 0.35:
                l.update(location_type="camp", pop=0)
            if "camp" in l["location_type"]:
                l["capacity"] = rng.choice([1, 2, 3, 5, 8, 10, 20, -1, 0, 1000])
            elif rng.random() < 0.1:
                l["capacity"] = rng.choice([1, 5])
        s = abm.pick_settings(rng, move_rules={"capacity_buffer": rng.choice([0.9, 0.5, 0.75, 0.0, 1.0, 0.99]), "capacity_scaling": rng.choice([1.0, 1.0, 0.5, 2.0, 0.3]),
                                               "conflict_movechance": rng.choice([1.0, 1.0, 0.8]), "default_movechance": rng.choice([1.0, 1.0, 0.6]),
                                               "camp_movechance": rng.choice([0.001, 0.001, 0.2])}, log_levels={"agent": 2})
        par = rng.choice([0, 0, 0, 2, 3])
        case = abm.base_case(rng, par=par, net=(locs, links), settings=s, steps=1)
        ops = []
        names = [l["name"] for l in locs]
        camps = [l for l in locs if "camp" in l["location_type"]]
        src = [l["name"] for l in locs if "camp" not in l["location_type"]] or names
        for t in range(rng.randint(2, 12 if big else 7)):
            for _ in range(rng.choice([1, 1, 2])):
                if camps and rng.random() < 0.5:
                    # fill a camp up to just below, exactly at or above its limit
                    c = rng.choice(camps)
                    lim = c["capacity"] * s["move_rules"]["capacity_scaling"]
                    n = int(lim) + rng.choice([-1, 0, 0, 1])
                    if 0 < n <= 25:
                        ops.append(["insert", c["name"], n if rng.random() < 0.7 else rng.randint(1, n)])
                ops.append([rng.choice(["insert", "add"]), rng.choice(src), rng.randint(1, 6)])
            if rng.random() < 0.15:
                ops.append(["clear", [rng.choice(names)]])
            if rng.random() < 0.1:
                ops.append(rng.choice([["camp_close", rng.choice(names), False], ["camp_open", rng.choice(names), False], ["type", rng.choice(names), rng.choice(["camp", "town", "idpcamp"])]]))
            if rng.random() < 0.1 and links:
                q = rng.choice(links)
                ops.append(rng.choice([["close_link", q[0], q[1], False], ["reopen_link", q[0], q[1], True]]))
            ops.append(["evolve"])
        model.plain_add(rng, ops, locs)
        case["ops"] = ops
        return case

    def spawned(self, rng, tier):
        """camps with a capacity that are filled from the displacement data, on day 0 as well"""
        case = model.spawn_case(rng, rng.choice([0, 0, 2, 3]), tier, modes=("table",))
        sr = case["settings"]["spawn_rules"]
        sr["insert_day0"] = rng.random() < 0.8
        sr["empty_camps_on_day0"] = rng.random() < 0.3
        case["settings"]["move_rules"].update({"capacity_buffer": rng.choice([0.9, 0.5, 1.0]), "capacity_scaling": rng.choice([1.0, 1.0, 0.5, 2.0]), "camp_movechance": rng.choice([0.001, 0.2])})
        case["settings"]["log_levels"]["agent"] = 2
        for l in case["locs"]:
            if "camp" in l["location_type"]:
                d0 = case["series"][l["name"]][0][1] // case["table"]["scale"]
                l["capacity"] = rng.choice([-1, d0 + 1, d0 + rng.randint(1, 8), 2 * d0 + 1, max(1, d0), max(1, d0 - 3), 500])
        if rng.random() < 0.7 and ["initial"] not in case["ops"]:
            case["ops"].insert(0, ["initial"])
        return case

    def capacities(self, case, K):
        """name -> capacity after day 0, as in the input"""
        caps = {l["name"]: l.get("capacity", -1) for l in case["locs"]}
        sr = case["settings"]["spawn_rules"]
        if "series" in case and sr["insert_day0"] and sr["empty_camps_on_day0"]:
            # those who are in the camps on day 0 are not simulated, but take up room
            for n, c in caps.items():
                if c > 0 and n in case["series"]:
                    caps[n] = c - int(model.field([(d, x / float(case["table"]["scale"])) for d, x in case["series"][n]], 0))
        return caps

    def evaluate(self, case, ctx):
        res = model.simulate(case, ctx)
        v = model.finished(res)
        m = case["settings"]["move_rules"]
        buf, scale, aware, fixed = m["capacity_buffer"], m["capacity_scaling"], m["awareness_level"], m["fixed_routes"]
        K = model.steps_done(res)
        caps = self.capacities(case, K)
        for k in range(1, K):
            if case["ops"][k - 1][0] != "evolve":
                continue
            where = model.opname(case, k)
            for n in res.nodes:
                for name, l in n["snaps"][k]["locs"].items():
                    if l["cap"] != caps[name]:
                        v.append(("capacity", "%s: %s has capacity %s, in the input it is %s" % (where, name, l["cap"], caps[name])))
            if v:
                return v
            js = []
            for n in res.nodes:
                a, b = n["snaps"][k - 1], n["snaps"][k]
                roads = model.open_roads(a)
                for x, y in zip(a["agents"], b["agents"]):
                    js.append((n, x, y, model.Journey(a, x, y, case["settings"], roads)))
            if any(j.err or not j.known for _, _, _, j in js):
                ctx.probe("steps skipped: a journey is not known")
                continue
            base = res.nodes[0]["snaps"][k - 1]
            true_n = {}
            for _, x, _, _ in js:
                if x["pos"] and x["pos"][0] == "loc":
                    true_n[x["pos"][1]] = true_n.get(x["pos"][1], 0) + 1
            out, inn = {}, {}
            for _, x, y, j in js:
                for h in j.hops:
                    if h[3] == 0.0:
                        out[h[0]] = out.get(h[0], 0) + 1
                    if h[5]:
                        # an agent turned back by a closure enters the start of the road
                        inn[h[0] if h[6] else h[1]] = inn.get(h[0] if h[6] else h[1], 0) + 1
            full, room = {}, {}
            for name, l in base["locs"].items():
                cap = l["cap"] * float(scale)
                known = [n["snaps"][k - 1]["locs"][name]["n"] for n in res.nodes] + [true_n.get(name, 0)]
                full[name] = l["camp"] and cap >= 1 and min(known) - out.get(name, 0) >= cap
                room[name] = not l["camp"] or cap < 1 or (max(known) + inn.get(name, 0) <= buf * cap and max(known) + inn.get(name, 0) < cap)
            ctx.nontrivial(any(full.values()))
            ctx.probe("full camps", sum(1 for q in full.values() if q))
            ctx.probe("camps filled to the exact limit", sum(1 for name, q in full.items() if q and true_n.get(name, 0) == int(base["locs"][name]["cap"] * scale)))
            for n, x, y, j in js:
                for i, h in enumerate(j.hops):
                    if h[3] > 0.0 or (x["pos"][0] == "link" and i == 0):
                        continue
                    last = i == len(j.hops) - 1
                    if last and not h[5]:
                        dest = y["route"][-1] if y["route"] else h[1]
                    elif aware <= 1 and not base["locs"][h[1]]["marker"] and not fixed:
                        dest = h[1]
                    else:
                        continue
                    ctx.probe("departures judged")
                    if full.get(dest):
                        l = base["locs"][dest]
                        v.append(("full", "%s: agent %s sets out on %s-%s for %s, which holds %d refugees (capacity %s x %s)" % (where, x["aid"], h[0], h[1], dest, true_n.get(dest, 0), l["cap"], scale)))
                if not j.hops and x["pos"] and x["pos"][0] == "loc" and aware <= 1 and not fixed and m["softening"] + 1 > 0:
                    l = base["locs"][x["pos"][1]]
                    if l["mc"] < 1.0 or len(l["links"]) != 1 or x["route"]:
                        continue
                    e = l["links"][0][0]
                    d = base["locs"][e]
                    if d["marker"] or l["marker"]:
                        continue
                    ctx.probe("refusals judged", not room[e])
                    if room[e]:
                        v.append(("refused", "%s: agent %s stays in %s although its only destination %s has room (%d refugees, capacity %s x %s, buffer %s)" % (
                            where, x["aid"], x["pos"][1], e, true_n.get(e, 0), d["cap"], scale, buf)))
            if v:
                return v
        return v
