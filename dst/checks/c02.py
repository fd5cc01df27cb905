"""C02: parallel head counts."""
from .. import abm, model
from ..runner import Prop


class Check(Prop):
    id = "C02"
    rule = "agents on a road at a compared step, in a run with at least two processes holding agents"
    runs = {"quick": 1400, "thorough": 12000}
    components = {"real": model.REAL_PAR, "stub": model.STUB_MPI}
    assumptions = ["compared after time steps, clears and explicit recounts, as the property says; not between an insertion and the next count"]

    def gen(self, rng, i, tier):
        big = tier == "thorough" and rng.random() < 0.3
        par = rng.choice([2, 3, 4, 5, 6] + ([9] if big else []))
        net = abm.gen_net(rng, n=abm.size(rng, 2, 12 if big else 8), caps=rng.random() < 0.3)
        case = abm.base_case(rng, par=par, steps=rng.randint(2, 14 if big else 7), net=net)
        ops = []
        for op in case["ops"]:
            ops.append(op)
            if op[0] == "evolve" and rng.random() < 0.4:
                ops.append(["idps"])
            if op[0] in ("evolve", "insert", "add", "close_link", "reopen_link") and rng.random() < 0.2:
                ops.append(["recount"])
        case["ops"] = model.plain_add(rng, ops, case["locs"])
        return case

    def evaluate(self, case, ctx):
        res = model.simulate(case, ctx)
        v = model.finished(res)
        K = model.steps_done(res)
        for k in range(1, K):
            op = case["ops"][k - 1]
            snaps = [n["snaps"][k] for n in res.nodes]
            if op[0] in ("evolve", "clear", "recount"):
                v += model.count_violations(snaps, model.opname(case, k))
                if any(a["pos"] and a["pos"][0] == "link" for s in snaps for a in s["agents"]) and sum(1 for s in snaps if s["agents"]) > 1:
                    ctx.nontrivial()
            if op[0] == "idps":
                idp = {n for n, l in snaps[0]["locs"].items() if l["idp"]}
                cnt, _ = model.true_counts(snaps)
                want = sum(cnt.get(n, 0) for n in idp)
                got = {n["rets"][k - 1] for n in res.nodes}
                ctx.probe("idp counts above zero", want > 0)
                if got != {want}:
                    v.append(("idps", "%s: processes report %s IDPs, %d are in IDP camps" % (model.opname(case, k), sorted(got), want)))
            if v:
                break
        return v
