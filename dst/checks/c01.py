"""C01: parallel runs neither lose nor duplicate agents."""
from .. import abm, model
from ..runner import Prop


class Check(Prop):
    id = "C01"
    rule = "at least one agent travelled and at least two processes held agents"
    runs = {"quick": 1400, "thorough": 12000}
    components = {"real": model.REAL_PAR, "stub": model.STUB_MPI}
    assumptions = ["roads removed for good (remove_link) keep the agents that travel on them", "node failure of an MPI process aborts the whole job (MPI default), so crashes are not injected here"]

    def gen(self, rng, i, tier):
        big = tier == "thorough" and rng.random() < 0.3
        par = rng.choice([2, 2, 3, 3, 4, 5, 7] + ([8, 11] if big else []))
        net = abm.gen_net(rng, n=abm.size(rng, 2, 12 if big else 8), caps=rng.random() < 0.3)
        case = abm.base_case(rng, par=par, steps=rng.randint(2, 14 if big else 7), net=net,
                             settings=abm.pick_settings(rng, spawn_rules={"camps_are_sinks": rng.random() < 0.25}))
        if case["settings"]["spawn_rules"]["camps_are_sinks"]:
            for l in case["locs"]:
                if "camp" in l["location_type"]:
                    l["attributes"] = {"deactivation_probability": rng.choice([1.0, 0.5])}
        names = [l["name"] for l in case["locs"]]
        for op in case["ops"]:
            if op[0] in ("insert", "add") and rng.random() < 0.6:
                op.append({rng.choice(["age", "gender", "k"]): rng.choice([1, "f", 3.5])})
        if rng.random() < 0.4:
            case["ops"].insert(rng.randrange(len(case["ops"])), ["inserts", rng.choice(names), rng.randint(1, 9)])
        if rng.random() < 0.3:
            case["ops"].insert(rng.randrange(len(case["ops"])), ["recount"])
        model.plain_add(rng, case["ops"], case["locs"])
        return case

    def evaluate(self, case, ctx):
        res = model.simulate(case, ctx)
        v = model.finished(res)
        K = model.steps_done(res)
        exp = model.expected_aids(case, res, K)
        given = model.attrs_given(case)
        for k in range(K):
            where = model.opname(case, k)
            snaps = [n["snaps"][k] for n in res.nodes]
            seen = {}
            anon = 0
            for r, s in enumerate(snaps):
                for a in s["agents"]:
                    if a["aid"] is None:
                        anon += 1
                        continue
                    if a["aid"] in seen:
                        v.append(("duplicated", "%s: agent %d is held by processes %d and %d" % (where, a["aid"], seen[a["aid"]], r)))
                    seen[a["aid"]] = r
                    if a["attr"] != given[a["aid"]][0]:
                        v.append(("attributes", "%s: agent %d has attributes %r, given %r" % (where, a["aid"], a["attr"], given[a["aid"]][0])))
                    if a["pos"] and a["pos"][0] == "link":
                        ctx.nontrivial(sum(1 for x in snaps if x["agents"]) > 1)
            want, wanon = exp[k]
            if set(seen) != want:
                lost, extra = sorted(want - set(seen)), sorted(set(seen) - want)
                v.append(("lost" if lost else "revived", "%s: agents missing %s, agents that should be gone %s" % (where, lost, extra)))
            if anon != wanon:
                v.append(("lost", "%s: %d agents without attributes, expected %d" % (where, anon, wanon)))
            tot = {s["total"] for s in snaps}
            if tot != {len(want) + wanon}:
                v.append(("total", "%s: processes report totals %s, %d agents were added and not cleared" % (where, sorted(tot), len(want) + wanon)))
            if v:
                break
        ctx.probe("closed-road travellers", sum(1 for n in res.nodes for s in n["snaps"] for a in s["agents"] if a["pos"] and a["pos"][0] == "link" and a["pos"][4]))
        ctx.probe("clears", sum(1 for o in case["ops"] if o[0] == "clear"))
        return v
