"""C23: link logs count every entry onto every road."""
import collections
from .. import abm, model
from ..runner import Prop


class Check(Prop):
    id = "C23"
    rule = "agents entered roads in a run with closures and reopenings, several processes or attribute counts"
    runs = {"quick": 3000, "thorough": 26000}
    components = {"real": model.REAL_PAR + ["flee/Diagnostics.py"], "stub": model.STUB_MPI + ["file system: seams over real scratch files"]}
    assumptions = ["entries are counted from the reconstructed journeys of the agents (agent log level 2)"]

    def gen(self, rng, i, tier):
        par = rng.choice([0, 0, 0, 2, 3])
        case = model.journey_case(rng, tier, par=par, loglevel=2)
        lg = case["settings"]["log_levels"]
        lg["link"] = rng.choice([1, 2, 2])
        lg["granularity"] = rng.choice(["location", "location", "region"])
        if rng.random() < 0.6 and lg["link"] > 1:
            for op in case["ops"]:
                if op[0] in ("insert", "add"):
                    op.append({"kind": rng.choice(["x", "y", 3])})
        if rng.random() < 0.2:
            case["files"] = {"links.out.%d" % r: "left over from an earlier run\n" for r in range(max(1, par))}
        case["fs"] = {"buffer": rng.choice([64, 8192]), "write_chunk": rng.choice([0, 0, 50])}
        if not par:
            model.plain_add(rng, case["ops"], case["locs"])
        if rng.random() < 0.3:
            ks = [k for k, o in enumerate(case["ops"]) if o[0] == "evolve"]
            if case["links"] and len(ks) > 1:
                l = rng.choice(case["links"])
                k1 = rng.choice(ks[:-1])
                case["ops"].insert(k1, ["close_link", l[0], l[1], True])
                case["ops"].insert(rng.randint(k1 + 2, len(case["ops"])), ["reopen_link", l[0], l[1], True])
        return case

    def evaluate(self, case, ctx):
        res = model.simulate(case, ctx, keep_files=True)
        v = model.finished(res)
        if v:
            return v
        return self.logs(case, res, ctx)

    def logs(self, case, res, ctx, crashed=False):
        lg = case["settings"]["log_levels"]
        region = lg["granularity"] == "region"
        reg = {l["name"]: l["region"] for l in case["locs"]}
        entries = 0
        for n in res.nodes:
            rank = int(n["name"][4:]) if case["par"] else 0
            f = "links.out.%d" % rank
            evs = [k for k, op in enumerate(case["ops"]) if op[0] == "evolve" and k + 1 < len(n["snaps"])]
            if not evs:
                continue
            raw = res.files.get(f, b"").decode()
            if not crashed and not raw.endswith("\n"):
                return [("torn", "the last line of %s is incomplete" % f)]
            lines = raw[:raw.rfind("\n") + 1].splitlines()
            if not lines or not lines[0].startswith("#time") or any(x.startswith("#") for x in lines[1:]):
                return [("header", "%s does not have exactly one header, in its first line" % f)]
            rows = {}
            last = -1
            for x in lines[1:]:
                c = x.split(",")
                if len(c) != 5 or not c[0].isdigit() or int(c[0]) < last:
                    return [("row", "%s holds the line %r after step %d" % (f, x, last))]
                last = int(c[0])
                rows.setdefault(last, []).append(c[1:])
            if set(rows) - set(range(len(evs) + (1 if crashed else 0))):
                return [("extra", "%s has rows for steps %s, only %d steps were run" % (f, sorted(rows)[-1], len(evs)))]
            cum = collections.Counter()
            by = collections.defaultdict(collections.Counter)
            for d, k in enumerate(evs):
                a, b = n["snaps"][k], n["snaps"][k + 1]
                roads = model.open_roads(a)
                for x, y in zip(a["agents"], b["agents"]):
                    j = model.Journey(a, x, y, case["settings"], roads)
                    if j.err or not j.known:
                        return []
                    for h in j.hops:
                        # progress 0 before the day: the road was entered today
                        if h[3] == 0.0 and not (x["pos"][0] == "link" and h is j.hops[0]):
                            cum[(h[0], h[1])] += 1
                            entries += 1
                            for q, val in x["attr"].items():
                                by[(h[0], h[1])]["%s:%s" % (q, val)] += 1
                want = collections.Counter()
                for (s, e) in roads:
                    nm = (reg[s], reg[e]) if region else (s, e)
                    want[nm + (str(cum[(s, e)]), "total")] += 1
                    if lg["link"] > 1:
                        for q, m in by[(s, e)].items():
                            want[nm + (str(m), q)] += 1
                got = collections.Counter(tuple(c) for c in rows.get(d, []))
                if got != want:
                    miss, more = want - got, got - want
                    return [("counts", "%s, step %d: %s" % (f, d, "; ".join(
                        (["missing rows %s" % sorted(miss.elements())[:3]] if miss else []) + (["wrong rows %s" % sorted(more.elements())[:3]] if more else []))))]
                ctx.probe("rows checked", sum(got.values()))
        closed = any(op[0].startswith(("close", "remove")) for op in case["ops"])
        ctx.probe("road entries", entries)
        ctx.nontrivial(entries > 0 and (closed or case["par"] or lg["link"] > 1))
        return []
