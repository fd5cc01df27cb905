"""C08: head counts always match where the agents are (sequential)."""
from .. import abm, model
from ..runner import Prop


class Check(Prop):
    id = "C08"
    rule = "an agent was on a road while a road or location was closed, cleared or changed"
    runs = {"quick": 5000, "thorough": 60000}
    components = {"real": model.REAL_SERIAL, "stub": []}
    assumptions = ["no camp sinks (covered by C13)", "agents on roads removed for good are no longer part of any reported road count"]

    def gen(self, rng, i, tier):
        big = tier == "thorough" and rng.random() < 0.3
        if rng.random() < 0.25:
            case = model.spawn_case(rng, 0, tier)
        else:
            net = abm.gen_net(rng, n=abm.size(rng, 1, 14 if big else 9), caps=rng.random() < 0.4)
            case = abm.base_case(rng, steps=rng.randint(2, 20 if big else 8), net=net)
            model.plain_add(rng, case["ops"], case["locs"])
            if rng.random() < 0.3:
                case["settings"]["log_levels"] = {"agent": rng.choice([1, 2]), "link": rng.choice([0, 1, 2]), "camp": rng.choice([0, 1])}
        return case

    def evaluate(self, case, ctx):
        res = model.simulate(case, ctx)
        v = model.finished(res)
        K = model.steps_done(res)
        spawn_ops = any(o[0] in ("spawn", "initial", "draw") for o in case["ops"])
        exp = None if spawn_ops else model.expected_aids(case, res, K)
        prev_total = 0
        for k in range(K):
            s = res.nodes[0]["snaps"][k]
            where = model.opname(case, k)
            v += model.count_violations([s], where)
            if len(s["agents"]) != s["total"]:
                v.append(("total", "%s: reports %d agents, holds %d" % (where, s["total"], len(s["agents"]))))
            if exp is not None:
                aids = [a["aid"] for a in s["agents"] if a["aid"] is not None]
                if len(set(aids)) != len(aids):
                    v.append(("duplicated", "%s: an agent exists twice" % where))
                if set(aids) != exp[k][0] or len(s["agents"]) - len(aids) != exp[k][1]:
                    v.append(("lost", "%s: agents %s expected, %s found" % (where, sorted(exp[k][0])[:20], sorted(aids)[:20])))
            elif k:
                op = case["ops"][k - 1]
                p = res.nodes[0]["snaps"][k - 1]
                want = prev_total
                if op[0] == "clear":
                    want -= sum(1 for a in p["agents"] if a["pos"] and a["pos"][0] == "loc" and a["pos"][1] in op[1])
                elif op[0] == "spawn":
                    want += res.nodes[0]["rets"][k - 1][0]
                elif op[0] == "initial":
                    want = s["total"]
                if s["total"] != want:
                    v.append(("lost", "%s: %d agents, expected %d" % (where, s["total"], want)))
            prev_total = s["total"]
            if k and case["ops"][k - 1][0] in ("close_link", "reopen_link", "remove_link", "close_loc", "reopen_loc", "close_border", "clear", "type") and any(a["pos"] and a["pos"][0] == "link" for a in s["agents"]):
                ctx.nontrivial()
            if v:
                break
        return v
