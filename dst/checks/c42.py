"""C42: only the days since the start date matter, not the calendar."""
import copy, datetime, re
from .. import model, multi
from . import c29, c39

DATE = re.compile(r"\b\d{4}-\d\d-\d\d\b")
STARTS = model.STARTS + ["1900-02-27", "1969-12-30", "1999-12-25", "2000-02-25", "2023-02-26", "2024-02-28", "2024-12-28", "2038-01-17", "2100-02-26", "2199-12-31"]


def moved(case, by):
    """the case with all dates of the input by days later"""
    b = copy.deepcopy(case)
    for name in b["files"]:
        if name.startswith("source_data/") or name.endswith(("sim_period.csv", "registration_corrections.csv")):
            b["files"][name] = DATE.sub(lambda m: (datetime.date.fromisoformat(m.group()) + datetime.timedelta(days=by)).isoformat(), b["files"][name])
    b["table"] = dict(b["table"], start=(datetime.date.fromisoformat(b["table"]["start"]) + datetime.timedelta(days=by)).isoformat())
    return b


class Check(c39.Check):
    id = "C42"
    rule = "agents moved, and the calendar between the first and the last date is another one (lengths of months or year)"
    runs = {"quick": 1800, "thorough": 24000}
    assumptions = ["the user seeds random and numpy.random of every process before the simulation is created", "dates are written as YYYY-MM-DD"]

    def gen(self, rng, i, tier):
        case = c39.Check.gen(self, rng, i, tier)
        case.pop("n")
        to = rng.choice(STARTS) if rng.random() < 0.8 else "%d-%02d-%02d" % (rng.randint(1900, 2200), rng.randint(1, 12), rng.randint(1, 28))
        case["by"] = (datetime.date.fromisoformat(to) - datetime.date.fromisoformat(case["table"]["start"])).days or 366
        return case

    def evaluate(self, case, ctx):
        a, ta = self.run(case, ctx)
        if model.finished(a):
            # that legal scenarios complete is C15
            ctx.probe("scenarios that do not complete")
            return []
        by = case["by"]
        o = moved(case, by)
        b, tb = self.run(o, ctx)
        what = "starting on %s instead of %s" % (o["table"]["start"], case["table"]["start"])
        v = model.finished(b)
        if v:
            return [("outcome", "%s: %s" % (what, v[0][1]))]
        ctx.probe(case["what"])
        ctx.probe("mode " + case["mode"])
        ctx.probe("parallel", bool(case.get("par")))
        d = [datetime.date.fromisoformat(x["table"]["start"]) for x in (case, o)]
        spans = [[(x + datetime.timedelta(days=k)).day for k in range(-5, 15)] for x in d]
        ctx.nontrivial(any(x["places"] or x["pos"] and x["pos"][0] == "link" for q in a.nodes if q["snaps"] for x in q["snaps"][-1]["agents"])
                       and spans[0] != spans[1])
        ops = case["ops"] if case["what"] == "program" else [["day"]] * (case["days"] + 2)
        if not hasattr(a, "files"):
            a.files = b.files = {}
        inputs = [f for f in a.files if f.startswith(("input_csv", "source_data")) or f.endswith(".yml")]
        d = multi.compare(a, b, {"ops": ops}, skip_files=inputs)
        if d:
            return [(d[0], "%s the simulation is another: %s" % (what, d[1]))]
        for x, y in zip(ta, tb):
            x = DATE.sub(lambda m: (datetime.date.fromisoformat(m.group()) + datetime.timedelta(days=by)).isoformat(), x)
            if x != y:
                p, q = x.split("\n"), y.split("\n")
                k = [j for j, (g, h) in enumerate(zip(p, q)) if g != h] or [min(len(p), len(q))]
                return [("table", "%s line %d of the script is %r, not %r" % (what, k[0], q[k[0]:k[0] + 1], p[k[0]:k[0] + 1]))]
        return []
