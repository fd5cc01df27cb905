"""C07: daily displacement accounts for every refugee in the data."""
from .. import abm, model
from ..runner import Prop


def fld(pts, day, scale):
    return model.field([(d, v / float(scale)) for d, v in pts], day)


class Check(Prop):
    id = "C07"
    rule = "agents were spawned by a rule on at least one day"
    runs = {"quick": 2200, "thorough": 20000}
    components = {"real": model.REAL_PAR + ["flee/datamanager/*.py"], "stub": model.STUB_MPI}
    assumptions = ["populations are large enough for the agents spawned", "the number drawn in Poisson mode is checked for consistency only, not for its distribution"]

    def gen(self, rng, i, tier):
        case = model.spawn_case(rng, rng.choice([0, 0, 0, 2, 3]), tier)
        if ["initial"] in case["ops"] and rng.random() < 0.3:
            for L in case["locs"]:
                if "camp" in L["location_type"] and rng.random() < 0.5:
                    L.setdefault("attributes", {})["initial_idps"] = str(rng.randint(0, 6))
        return case

    def known(self, viol, case):
        if viol[0] == "day0-total":
            return "day0-total"

    def evaluate(self, case, ctx):
        res = model.simulate(case, ctx)
        v = model.finished(res)
        K = model.steps_done(res)
        sr = case["settings"]["spawn_rules"]
        take = sr.get("take_from_population", False)
        scale = case["table"]["scale"]
        ser = {k: [tuple(x) for x in y] for k, y in case["series"].items()}
        camps = [c for c in ser if c != "total"]
        sumc, empty, ins = sr.get("sum_from_camps", True), sr.get("empty_camps_on_day0", False), sr.get("insert_day0", True)
        raw = debt = 0
        total_spawned = 0
        day0 = 0
        flood = {}
        for k in range(1, K):
            op = case["ops"][k - 1]
            where = model.opname(case, k)
            if op[0] == "attr":
                flood[op[1]] = op[3]
            if op[0] == "initial":
                got = {}
                for nd in res.nodes:
                    for x in nd["snaps"][k]["agents"][len(nd["snaps"][k - 1]["agents"]):]:
                        got[(x["home"], tuple(x["pos"]))] = got.get((x["home"], tuple(x["pos"])), 0) + 1
                want = {}
                for L in case["locs"]:
                    if "camp" in L["location_type"] and not empty:
                        c = (fld(ser[L["name"]], 0, scale) if ins and L["name"] in ser else 0) + int(L.get("attributes", {}).get("initial_idps", 0))
                        if c:
                            want[(L["name"], ("loc", L["name"]))] = c
                ctx.probe("agents of day 0", sum(want.values()))
                if got != want:
                    v.append(("initial", "%s: placed in the camps: %s, the data of day 0 give %s" % (where, sorted(got.items()), sorted(want.items()))))
                    return v
            if op[0] != "spawn":
                continue
            a0 = res.nodes[0]["snaps"][k - 1]
            t = a0["time"]
            ret = res.nodes[0]["rets"][k - 1]
            new = {}
            for n in res.nodes:
                a, b = n["snaps"][k - 1], n["snaps"][k]
                for x in b["agents"][len(a["agents"]):]:
                    new[x["home"]] = new.get(x["home"], 0) + 1
                    if x["pos"] != ["loc", x["home"]]:
                        v.append(("placed", "%s: new agent of %s is at %s" % (where, x["home"], x["pos"])))
            cnt = sum(new.values())
            ctx.nontrivial(cnt > 0)
            ctx.probe("agents spawned, mode " + case["mode"], cnt)
            if ret[0] != cnt:
                v.append(("count", "%s: reports %d new agents, created %d" % (where, ret[0], cnt)))
            if case["mode"] == "table":
                def diff(with_total):
                    if t == 0:
                        d = sum(fld(ser[c], 0, scale) for c in camps) + (fld(ser["total"], 0, scale) if with_total else 0) if sumc else fld(ser["total"], 0, scale)
                        return 0 if empty else d
                    if sumc:
                        return sum(fld(ser[c], t, scale) - fld(ser[c], t - 1, scale) for c in camps)
                    return fld(ser["total"], t, scale) - fld(ser["total"], t - 1, scale)

                def step(d):
                    n = d - debt
                    if ins and t == 0:
                        n = 0
                    return (max(n, 0), raw + d, max(-n, 0))
                want = step(diff(False))
                if tuple(ret) != want:
                    alt = step(diff(True))
                    if t == 0 and sumc and tuple(ret) == alt:
                        v.append(("day0-total", "%s: (new, raw, debt) = %s, the data give %s" % (where, ret, want)))
                    else:
                        v.append(("data", "%s on day %d: (new, raw, debt) = %s, the data give %s" % (where, t, ret, want)))
                    if v[-1][0] == "data":
                        return v
                debt, raw = ret[2], ret[1]
                if t == 0 and ins:
                    day0 = raw
                total_spawned += cnt
                ctx.probe("days with debt", debt > 0)
                if debt < 0 or total_spawned - debt != raw - day0:
                    v.append(("balance", "%s: spawned so far %d, owed %d, data so far %d" % (where, total_spawned, debt, raw - day0)))
                for n in new:
                    if a0["locs"][n]["conflict"] <= 0:
                        v.append(("zone", "%s: agents start in %s, which is no conflict zone" % (where, n)))
            elif case["mode"] == "flood":
                f = sr["flood_driven_spawning"]
                for n, l in a0["locs"].items():
                    lev = flood.get(n, 0)
                    if f["spawn_mode"] == "constant":
                        want = int(f["displaced_per_flood_day"][lev]) if lev > 0 else 0
                    elif f["spawn_mode"] == "pop_ratio":
                        want = int(f["displaced_per_flood_day"][lev] * l["pop"]) if lev > 0 else 0
                    else:
                        want = new.get(n, 0) if lev > 0 else 0
                    if new.get(n, 0) != want:
                        v.append(("number", "%s: %d agents start in %s at flood level %s, expected %d" % (where, new.get(n, 0), n, lev, want)))
            else:
                f = sr["conflict_driven_spawning"]
                for n, l in a0["locs"].items():
                    c = l["conflict"]
                    if c <= 0:
                        want = 0
                    elif f["spawn_mode"] == "constant":
                        want = int(f["displaced_per_conflict_day"] * c)
                    elif f["spawn_mode"] == "pop_ratio":
                        want = int(f["displaced_per_conflict_day"] * l["pop"] * c)
                    else:
                        want = new.get(n, 0)
                    if new.get(n, 0) != want:
                        v.append(("number", "%s: %d agents start in %s with conflict %s, expected %d" % (where, new.get(n, 0), n, c, want)))
            for r, n in enumerate(res.nodes):
                a, b = n["snaps"][k - 1], n["snaps"][k]
                for name in b["locs"]:
                    p, q = a["locs"][name]["pop"], b["locs"][name]["pop"]
                    if q != p - (new.get(name, 0) if take else 0) or q < 0:
                        v.append(("population", "%s: population of %s goes from %d to %d while %d agents start there" % (where, name, p, q, new.get(name, 0))))
            if any(x[0] != "day0-total" for x in v):
                break
        return v
