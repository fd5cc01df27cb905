"""C13: deactivated agents leave the active simulation for good."""
from .. import abm, model
from ..runner import Prop


class Check(Prop):
    id = "C13"
    rule = "an agent was deactivated and the run went on"
    runs = {"quick": 3000, "thorough": 30000}
    components = {"real": model.REAL_PAR + ["flee/Diagnostics.py"], "stub": model.STUB_MPI}
    assumptions = ["where an agent ended its day is read from the agent log, written just before the deactivation"]

    def gen(self, rng, i, tier):
        big = tier == "thorough" and rng.random() < 0.3
        locs, links = abm.gen_net(rng, n=abm.size(rng, 2, 10 if big else 7), dmax=rng.choice([60.0, 400.0]))
        camps = 0
        for k, l in enumerate(locs):
            if "camp" not in l["location_type"] and (rng.random() < 0.3 or (k == len(locs) - 1 and not camps)):
                l.update(location_type=rng.choice(["camp", "idpcamp"]), pop=0)
            if rng.random() < 0.8:
                p = rng.choice([0.0, "0.0", "0", 1.0, "1.0", "1", 0.5, "0.5", 0.1, "0.9"])
                l["attributes"] = {"deactivation_probability": p}
                camps += "camp" in l["location_type"]
        par = rng.choice([0, 0, 0, 2, 3])
        case = abm.base_case(rng, par=par, net=(locs, links), steps=rng.randint(3, 14 if big else 8))
        case["settings"]["spawn_rules"]["camps_are_sinks"] = rng.random() < 0.85
        lv = rng.choice([1, 1, 2, 3, 0])
        case["settings"]["log_levels"] = {"agent": lv}
        if rng.random() < 0.3:
            case["settings"]["log_levels"]["camp"] = 1
        if rng.random() < 0.3:
            case["settings"]["log_levels"]["link"] = 1
        # many agents so that camps see some; no anonymous ones
        ops = [o for o in case["ops"] if o[0] != "inserts"]
        if camps and rng.random() < 0.7:
            ops.insert(0, ["insert", rng.choice([l["name"] for l in locs if "camp" in l["location_type"]]), rng.randint(1, 6)])
        for _ in range(rng.randint(0, 3)):
            ops.insert(rng.randint(0, len(ops)), rng.choice([["idps"], ["numagents"], ["print"], ["recount"]]))
        case["ops"] = ops
        return case

    def evaluate(self, case, ctx):
        res = model.simulate(case, ctx, keep_files=True)
        v = model.finished(res)
        if v:
            return v
        sinks = case["settings"]["spawn_rules"].get("camps_are_sinks", False)
        prob = {l["name"]: float((l.get("attributes") or {}).get("deactivation_probability", 0.0)) for l in case["locs"]}
        logs = case["settings"]["log_levels"].get("agent", 0) > 0
        K = model.steps_done(res)
        for r, n in enumerate(res.nodes):
            rows = {}
            if logs:
                txt = res.files.get("agents.out.%d" % r, b"").decode()
                for line in txt.splitlines():
                    f = line.split(",")
                    if line.startswith("#") or "-" in f[0]:
                        continue
                    rows.setdefault((int(f[0]), int(f[1].split("-")[1])), []).append((f[3], f[6] == "True"))
            gone = set()
            for k in range(K):
                a = n["snaps"][k - 1] if k else None
                b = n["snaps"][k]
                where = model.opname(case, k)
                op = case["ops"][k - 1] if k else ["build"]
                for idx, x in enumerate(b["agents"]):
                    if x["aid"] in gone:
                        if x["pos"] is not None:
                            v.append(("reactivated", "%s: agent %s was deactivated and is at %s again" % (where, x["aid"], x["pos"])))
                        if op[0] == "evolve" and logs and (a["time"], idx) in rows:
                            v.append(("logged", "%s: the agent log of day %d has agent %s, which was deactivated before" % (where, a["time"], x["aid"])))
                        continue
                    if x["pos"] is None:
                        gone.add(x["aid"])
                        ctx.nontrivial(k + 1 < K)
                        ctx.probe("agents deactivated")
                        if op[0] != "evolve":
                            v.append(("when", "%s: agent %s was deactivated outside a time step" % (where, x["aid"])))
                        if not sinks:
                            v.append(("sinks", "%s: agent %s was deactivated although camps are no sinks" % (where, x["aid"])))
                        if x["trav"]:
                            v.append(("travelling", "%s: agent %s was deactivated while travelling" % (where, x["aid"])))
                        if op[0] == "evolve" and logs:
                            q = rows.get((a["time"], idx))
                            if q and sinks:
                                name, trav = q[0]
                                loc = b["locs"].get(name)
                                if loc is None or not loc["camp"] or prob[name] <= 0:
                                    v.append(("place", "%s: agent %s was deactivated in %s, which is no camp with a deactivation probability" % (where, x["aid"], name)))
                                ctx.probe("deactivation places checked")
                    elif op[0] == "evolve" and sinks and x["pos"][0] == "loc" and b["locs"][x["pos"][1]]["camp"] and prob[x["pos"][1]] >= 1.0:
                        v.append(("always", "%s: agent %s is still active in %s, where the deactivation probability is 1" % (where, x["aid"], x["pos"][1])))
                if op[0] != "clear" and a is not None:
                    was = {x["aid"] for x in a["agents"]}
                    now = {x["aid"] for x in b["agents"]}
                    if was - now:
                        v.append(("lost", "%s: agents %s vanished" % (where, sorted(was - now)[:10])))
                if op[0] == "clear":
                    # a deactivated agent is in no location, so clearing does not touch the rest of the active agents
                    for x in a["agents"]:
                        if x["pos"] and not (x["pos"][0] == "loc" and x["pos"][1] in op[1]) and x["aid"] not in {y["aid"] for y in b["agents"]}:
                            v.append(("cleared", "%s: agent %s at %s was removed too" % (where, x["aid"], x["pos"])))
                if v:
                    return v
        return v
