"""C21: coupled-run logs and summed output reflect the run."""
import csv, io
from .. import coupled
from ..runner import Prop
from .c16 import REAL, STUB


def table(b):
    return list(csv.reader(io.StringIO(b.decode())))


class Check(Prop):
    id = "C21"
    rule = "several exchange days with agents at coupled locations"
    runs = {"quick": 550, "thorough": 9000}
    components = {"real": REAL, "stub": STUB}
    assumptions = ["without the plots of the run script, the combined output is computed once all instances have finished", "where a process is killed is the matter of C16; here all instances run to their end", "a mean that ends in exactly one half may be rounded either way"]

    def gen(self, rng, i, tier):
        cc = coupled.gen(rng, tier=tier, ctype=rng.choice(["file", "file", "muscle3"]), log=True)
        cc["rows"] = rng.random() < 0.8
        cc["script_end"] = rng.random() < 0.25
        if cc["script_end"] and rng.random() < 0.5:
            cc["days"] = rng.choice([1, 1, 2, 3])
            # logs that reach the disk in pieces
            cc["fs"] = {"write_chunk": rng.choice([0, 40, 200]), "chunk_path": "/out/"}
        return cc

    def evaluate(self, case, ctx):
        res = coupled.simulate(case, ctx, keep_files=True)
        v = coupled.finished(res)
        if v:
            return v
        ex = coupled.exchange_days(case)
        T = case["ctype"]
        some = 0
        for s in coupled.SIDES:
            cp = coupled.couplings(case, s)
            outs = [c for c in self.order(case, s, cp) if "out" in cp[c][1]]
            for i in range(case["n"]):
                m = res.models[(s, i, 0)]
                want = {"logTotalAgents": [["day", "total_agents"]] + [[t, m.pre[t]["total"]] for t in ex],
                        "logNewRefugees": [["day", "new_refs"]] + [list(x) for x in m.newrefs]}
                for name, rows in want.items():
                    f = "%s/log_exchange_data/%s_%s[%d].csv" % (T, name, s, i)
                    if f not in res.files:
                        return [("missing", "%s was not written" % f)]
                    got = table(res.files[f])
                    if got != [[str(x) for x in r] for r in rows]:
                        return [("log", "%s holds %s, the run had %s" % (f, got[:6], rows[:6]))]
                f = "%s/log_exchange_data/logLocationsNumAgents_%s[%d].csv" % (T, s, i)
                if f not in res.files:
                    return [("missing", "%s was not written" % f)]
                got = table(res.files[f])
                if not got or sorted(got[0][1:]) != sorted(outs) or got[0][0] != "day":
                    return [("log", "the header of %s is %s, coupled locations are %s" % (f, got[:1], outs))]
                rows = [[t] + [m.pre[t]["locs"][cp[c][0]]["n"] for c in got[0][1:]] for t in ex]
                some += sum(sum(r[1:]) for r in rows)
                if got[1:] != [[str(x) for x in r] for r in rows]:
                    return [("log", "%s holds %s, the run had %s" % (f, got[1:6], rows[:5]))]
            if case.get("rows"):
                v = self.combined(case, res, s, T)
                if v:
                    return v
        ctx.probe("agents in exchange logs", some)
        ctx.nontrivial(some > 0 and len(ex) > 1)
        return []

    def order(self, case, s, cp):
        return [c for _, c, _ in case["sides"][s]["coupled"]] + [c for c in cp if c not in {x[1] for x in case["sides"][s]["coupled"]}]

    def combined(self, case, res, s, T):
        f = "%s/%s/out.csv" % (T, s)
        if f not in res.files:
            return [("missing", "%s was not written" % f)]
        got = table(res.files[f])
        head = table(res.files["%s/%s/out[0].csv" % (T, s)])[0]
        if not got or sorted(got[0]) != sorted(head):
            return [("combined", "%s has columns %s, the instances wrote %s" % (f, got[:1], head))]
        rows = [res.rec.rows[(s, i)] for i in range(case["n"])]
        if [r[got[0].index("Day")] for r in got[1:]] != [str(t) for t in range(case["days"])]:
            return [("combined", "%s has rows for days %s" % (f, [r[got[0].index("Day")] for r in got[1:]]))]
        for t in range(case["days"]):
            for j, h in enumerate(got[0]):
                xs = [rows[i][t][head.index(h)] for i in range(case["n"])]
                mean = sum(xs) / len(xs)
                g = float(got[1 + t][j])
                tol = 1e-6 if "error" in h or h == "Day" else 0.5 + 1e-9
                if abs(g - mean) > tol or (tol >= 0.5 and g != int(g)):
                    return [("combined", "%s day %d column %s: %s, the instances had %s" % (f, t, h, got[1 + t][j], xs))]
        return []
