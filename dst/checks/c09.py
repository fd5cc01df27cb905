"""C09: agents only travel along open roads, without teleporting."""
from .. import abm, model
from ..runner import Prop

CHANGE = ("close_link", "reopen_link", "close_loc", "reopen_loc", "close_border", "reopen_border", "remove_link", "sched")


class Check(Prop):
    id = "C09"
    rule = "an agent travelled on a day after a closure or reopening, or passed at least two roads in a day"
    runs = {"quick": 4000, "thorough": 50000}
    components = {"real": model.REAL_PAR, "stub": model.STUB_MPI}
    assumptions = ["the roads an agent used within a day are taken from its list of visited places (agent log level 2); at lower levels days with several intermediate roads are skipped"]

    def gen(self, rng, i, tier):
        return model.journey_case(rng, tier, par=rng.choice([0, 0, 0, 0, 2, 3]))

    def evaluate(self, case, ctx):
        res = model.simulate(case, ctx)
        v = model.finished(res)
        K = model.steps_done(res)
        closures = 0
        doomed = [{} for _ in res.nodes]     # per process: agents whose road closed under them, from the history of open roads
        changed = [{} for _ in res.nodes]    # ... and those during whose journey anything was closed or opened
        for k in range(1, K):
            op = case["ops"][k - 1]
            if op[0] in ("close_link", "reopen_link", "close_loc", "reopen_loc", "close_border", "reopen_border", "remove_link"):
                closures += 1
            where = model.opname(case, k)
            for r, n in enumerate(res.nodes):
                a, b = n["snaps"][k - 1], n["snaps"][k]
                if op[0] == "clear":
                    doomed[r] = {i: x["pos"][4] for i, x in enumerate(b["agents"]) if x["pos"] and x["pos"][0] == "link"}
                    changed[r] = dict.fromkeys(doomed[r], True)
                if op[0] != "evolve":
                    # nothing else moves agents
                    pos = {id_: x["pos"][:4] for id_, x in enumerate(a["agents"])}
                    if op[0] not in ("clear",):
                        for i, x in enumerate(b["agents"][:len(a["agents"])]):
                            if x["pos"][:4] != pos[i]:
                                v.append(("moved-outside-step", "%s: agent moved from %s to %s" % (where, pos[i], x["pos"])))
                        now = model.open_roads(b)
                        same = now == model.open_roads(a) and op[0] not in CHANGE
                        for i, x in enumerate(b["agents"]):
                            if x["pos"] and x["pos"][0] == "link":
                                if tuple(x["pos"][1:3]) not in now and any(c[0] == x["pos"][2] for c in b["locs"][x["pos"][1]]["closed"]):
                                    doomed[r][i] = True
                                if not same:
                                    changed[r][i] = True
                    continue
                roads = model.open_roads(a)
                if len(a["agents"]) != len(b["agents"]):
                    v.append(("lost", "%s: %d agents before, %d after the step" % (where, len(a["agents"]), len(b["agents"]))))
                    break
                for i, (x, y) in enumerate(zip(a["agents"], b["agents"])):
                    if x["pos"] and x["pos"][0] == "link":
                        if x["pos"][4] and not doomed[r].get(i) and not changed[r].get(i):
                            v.append(("closed-without-closure", "%s: agent %s is on %s-%s, which is marked closed although nothing was closed since it set out" % (where, x["aid"], x["pos"][1], x["pos"][2])))
                        if doomed[r].get(i) and not x["pos"][4]:
                            x = dict(x, pos=x["pos"][:4] + [True] + x["pos"][5:])
                    if y["places"] != x["places"] or not y["pos"] or y["pos"][0] != "link":
                        doomed[r].pop(i, None)
                        changed[r].pop(i, None)
                    j = model.Journey(a, x, y, case["settings"], roads)
                    for c, m in j.err:
                        v.append((c, "%s: agent %s: %s" % (where, x["aid"], m)))
                    if not j.known:
                        ctx.probe("days not reconstructed")
                        continue
                    if len(j.hops) > 1 or (j.hops and closures):
                        ctx.nontrivial()
                    ctx.probe("hops", len(j.hops))
                    for h in j.hops:
                        ctx.probe("returns on closed roads", h[6] and h[5])
                        if not h[5]:
                            if h[4] > h[2] + 1e-9:
                                v.append(("overrun", "%s: agent %s is %.3f km along the %.3f km road %s-%s and has not arrived" % (where, x["aid"], h[4], h[2], h[0], h[1])))
                            if h[4] <= h[3]:
                                v.append(("no-progress", "%s: agent %s made no progress on %s-%s" % (where, x["aid"], h[0], h[1])))
                    if x["pos"] and x["pos"][0] == "loc" and not a["locs"][x["pos"][1]]["links"] and j.hops:
                        v.append(("no-road", "%s: agent %s left %s, which has no open road" % (where, x["aid"], x["pos"][1])))
            if v:
                break
        return v
