"""C05: chance-free scenarios run identically in parallel and sequentially."""
import copy
from .. import abm, model
from ..runner import Prop


def chance_free(rng, par, tier, spawn=True):
    n = rng.randint(2, 9)
    names = abm.NAMES[:n]
    s = abm.pick_settings(rng, move_rules={"camp_movechance": 0.0, "idpcamp_movechance": rng.choice([0.0, 1.0]), "default_movechance": rng.choice([1.0, 1.0, 0.0]),
                                           "conflict_movechance": 1.0, "stay_close_to_home": False})
    change = rng.random() < 0.5
    if change:
        s["move_rules"]["awareness_level"] = rng.choice([0, 1])
    else:
        s["move_rules"]["awareness_level"] = rng.choice([0, 1, 2, 3])
    locs = []
    for i, nm in enumerate(names):
        t = "conflict_zone" if i == 0 else rng.choice(["town", "town", "town", "camp", "idpcamp", "forwarding_hub"])
        locs.append({"name": nm, "x": 0.1 * i, "y": 0.0, "country": abm.COUNTRIES[0], "region": "north", "location_type": t,
                     "pop": 0 if "camp" in t else 50000, "attributes": {}})
    links, ops = [], []
    for i in range(1, n):
        # road from i's parent to i; only this direction stays open: chains, never two ways out of a place
        pass
    order = list(range(n))
    if rng.random() < 0.5:
        tail = order[1:]
        rng.shuffle(tail)
        order = [0] + tail
    used = set()
    for k in range(n - 1):
        # functional graph: each place leads to one later place in the order (or, sometimes, back)
        a = order[k]
        b = order[rng.randint(k + 1, n - 1)] if rng.random() < 0.6 else order[k + 1]
        if frozenset((a, b)) in used:
            continue
        used.add(frozenset((a, b)))
        at = {}
        if rng.random() < 0.2:
            at["max_move_speed"] = rng.choice([30.0, 80.0])
        if rng.random() < 0.2:
            at["walk_probability"] = rng.choice([0.0, 1.0])
        links.append([names[a], names[b], round(rng.uniform(3, 300), 2) if rng.random() < 0.6 else round(rng.uniform(3, 60), 2), at])
        ops.append(["close_link", names[b], names[a], False])
    total = 0
    case = abm.base_case(rng, par=par, net=(locs, links), settings=s, ops=[])
    sp = rng.random()
    if sp < 0.5 and spawn:
        if sp < 0.25:
            s["spawn_rules"].update(conflict_driven_spawning={"spawn_mode": "constant", "displaced_per_conflict_day": rng.choice([1, 4])}, take_from_population=rng.random() < 0.5)
        else:
            s["spawn_rules"].update(insert_day0=rng.random() < 0.5, sum_from_camps=False)
        camps = [l["name"] for l in locs if "camp" in l["location_type"]]
        case["files"], _ = model.table_files(rng, camps, 12, mx=6)
        case["table"] = {"start": "2020-01-10"}
        if s["spawn_rules"].get("insert_day0") and s["move_rules"]["default_movechance"] > 0:
            ops.append(["initial"])
    for t in range(rng.randint(2, 12 if tier == "thorough" else 7)):
        for _ in range(rng.choice([0, 1, 2])):
            r = rng.random()
            if r < 0.5 or not links or not change:
                k = rng.randint(1, 5)
                if total + k < 50:
                    total += k
                    ops.append(["insert", rng.choice(names), k])
            elif r < 0.65:
                k = rng.choice(links)
                ops.append([rng.choice(["close_link", "reopen_link"]), k[0], k[1], False])
            elif r < 0.75:
                ops.append(["clear", [rng.choice(names)]])
            elif r < 0.85:
                ops.append(["type", rng.choice(names[1:]), rng.choice(["town", "camp", "idpcamp", "forwarding_hub"])])
            else:
                ops.append(["close_loc", rng.choice(names), True])
        if sp < 0.5 and spawn:
            ops.append(["spawn"])
        ops.append(["evolve"])
    case["ops"] = ops
    return case


class Check(Prop):
    id = "C05"
    rule = "an agent moved in the sequential run and at least two processes held agents"
    runs = {"quick": 1000, "thorough": 9000}
    components = {"real": model.REAL_PAR, "stub": model.STUB_MPI}
    assumptions = ["chance-free: at most one open road leaves each place, move and walk chances are 0 or 1, one conflict zone, no capacities; roads change only with awareness 0 or 1, because at higher levels the planned route length is drawn"]

    def gen(self, rng, i, tier):
        return chance_free(rng, rng.choice([1, 2, 2, 3, 4, 5, 7]), tier)

    def evaluate(self, case, ctx):
        res = model.simulate(case, ctx)
        v = model.finished(res)
        ser = copy.deepcopy(case)
        ser["par"] = 0
        sres = model.simulate(ser, ctx)
        v += model.finished(sres, "sequential run")
        K = min(model.steps_done(res), model.steps_done(sres))
        for k in range(1, K):
            op = case["ops"][k - 1]
            a = sres.nodes[0]["snaps"][k]
            where = model.opname(case, k)
            if op[0] == "spawn":
                for n in res.nodes:
                    if n["rets"][k - 1] != sres.nodes[0]["rets"][k - 1]:
                        v.append(("spawned", "%s: %s spawned %s, sequentially %s" % (where, n["name"], n["rets"][k - 1], sres.nodes[0]["rets"][k - 1])))
            if op[0] == "evolve":
                if any(x["pos"] and (x["pos"][0] == "link" or x["places"] > 1) for x in a["agents"]) and sum(1 for n in res.nodes if n["snaps"][k]["agents"]) > 1:
                    ctx.nontrivial()
                for n in res.nodes:
                    b = n["snaps"][k]
                    if a["total"] != b["total"]:
                        v.append(("total", "%s: %s has %d agents, sequentially %d" % (where, n["name"], b["total"], a["total"])))
                    for name, l in b["locs"].items():
                        o = a["locs"][name]
                        if l["n"] != o["n"]:
                            v.append(("location", "%s: %s has %d agents at %s, sequentially %d" % (where, n["name"], l["n"], name, o["n"])))
                        x = {(q[0]): q[2] for q in l["links"]}
                        y = {(q[0]): q[2] for q in o["links"]}
                        if x != y:
                            v.append(("road", "%s: %s has %s on the roads from %s, sequentially %s" % (where, n["name"], x, name, y)))
                # travellers with their progress, whichever process holds them
                f = lambda snaps: sorted(repr((q["pos"], q["home"], q["places"], round(q["recent"], 9))) for s in snaps for q in s["agents"])
                p, q = f([n["snaps"][k] for n in res.nodes]), f([a])
                if not v and p != q:
                    v.append(("agents", "%s: agents differ: only in parallel %s, only sequentially %s" % (where, [z for z in p if z not in q][:2], [z for z in q if z not in p][:2])))
            if v:
                break
        return v
