"""C06: spawning is replicated consistently."""
from .. import abm, model
from ..runner import Prop


class Check(Prop):
    id = "C06"
    rule = "agents were spawned by a spawn rule in a run of at least two processes"
    runs = {"quick": 1000, "thorough": 10000}
    components = {"real": model.REAL_PAR + ["flee/datamanager/*.py"], "stub": model.STUB_MPI}
    assumptions = ["populations are large enough for the agents spawned", "spawned totals are compared after the time step that synchronises them"]

    def gen(self, rng, i, tier):
        case = model.spawn_case(rng, rng.choice([2, 2, 3, 4, 5, 7]), tier)
        pops = [l["name"] for l in case["locs"] if l.get("pop", 0) >= 100]
        # the first conflict zone stays one, so that there is somewhere to spawn
        first = [l["name"] for l in case["locs"] if l["location_type"] == "conflict_zone"][:1]
        retype = [n for n in pops if n not in first] if rng.random() < 0.4 and case["mode"] != "flood" else []
        ops = []
        for op in case["ops"]:
            if op[0] == "spawn" and rng.random() < 0.3:
                ops.append(["add", rng.choice(pops), rng.randint(1, 5)])
            ops.append(op)
            if op[0] == "evolve" and retype and rng.random() < 0.3:
                ops.append(["type", rng.choice(retype), rng.choice(["town", "camp", "camp", "idpcamp", "forwarding_hub"])])
        case["ops"] = ops
        return case

    def evaluate(self, case, ctx):
        res = model.simulate(case, ctx)
        v = model.finished(res)
        K = model.steps_done(res)
        take = case["settings"]["spawn_rules"].get("take_from_population", False)
        spawned = {l["name"]: 0 for l in case["locs"]}
        for k in range(1, K):
            op = case["ops"][k - 1]
            where = model.opname(case, k)
            snaps = [n["snaps"][k] for n in res.nodes]
            prev = [n["snaps"][k - 1] for n in res.nodes]
            if op[0] == "spawn":
                rets = {tuple(n["rets"][k - 1]) for n in res.nodes}
                if len(rets) > 1:
                    v.append(("returns", "%s: processes report (new, raw, debt) %s" % (where, sorted(rets))))
                ctx.nontrivial(max(r[0] for r in rets) > 0)
                ctx.probe("spawned in mode " + case["mode"], max(r[0] for r in rets))
            if op[0] in ("spawn", "add"):
                new = {}
                for a, b in zip(prev, snaps):
                    if b["agents"][:len(a["agents"])] != a["agents"]:
                        v.append(("agents", "%s: spawning changed existing agents" % where))
                    for x in b["agents"][len(a["agents"]):]:
                        if x["pos"] != ["loc", x["home"]]:
                            v.append(("placed", "%s: new agent of %s is at %s" % (where, x["home"], x["pos"])))
                        new[x["home"]] = new.get(x["home"], 0) + 1
                cnt = sum(new.values())
                if op[0] == "add":
                    if new != {op[1]: op[2]}:
                        v.append(("count", "%s: created %s" % (where, new)))
                elif not v and cnt != res.nodes[0]["rets"][k - 1][0]:
                    v.append(("count", "%s: %d new agents reported, %d created" % (where, res.nodes[0]["rets"][k - 1][0], cnt)))
                for n, c in new.items():
                    spawned[n] += c
                for r, (a, b) in enumerate(zip(prev, snaps)):
                    for n in b["locs"]:
                        want = a["locs"][n]["pop"] - (new.get(n, 0) if take else 0)
                        if b["locs"][n]["pop"] != want:
                            v.append(("population", "%s: process %d has population %d at %s, expected %d" % (where, r, b["locs"][n]["pop"], n, want)))
                    if b["total"] != a["total"] + cnt:
                        v.append(("total", "%s: process %d total %d, expected %d" % (where, r, b["total"], a["total"] + cnt)))
            pops = [{n: l["pop"] for n, l in s["locs"].items()} for s in snaps]
            if any(p != pops[0] for p in pops):
                v.append(("population", "%s: populations differ between processes: %s" % (where, pops)))
            ws = [s["w"] for s in snaps]
            if any(w != ws[0] for w in ws):
                v.append(("weights", "%s: spawn weights differ between processes: %s" % (where, ws)))
            if op[0] in ("evolve", "spawn", "add") and take:
                for r, s in enumerate(snaps):
                    for n, l in s["locs"].items():
                        if l["sp"] != spawned[n]:
                            v.append(("spawned-total", "%s: process %d reports %d spawned at %s, %d were" % (where, r, l["sp"], n, spawned[n])))
            if v:
                break
        return v
