"""C39: with hasten a simulation of N times as many people is the same simulation."""
import copy, csv, datetime, io, json
from .. import abm, model, multi
from ..runner import Prop
from . import c29


def rows(text):
    return list(csv.reader(io.StringIO(text)))


def join(rs):
    return "".join(",".join(r) + "\n" for r in rs)


def grown(case, n):
    """the case with n times as many people everywhere, and a hasten n times as large"""
    b = copy.deepcopy(case)
    f = b["files"]
    rs = rows(f["input_csv/locations.csv"])
    for r in rs:
        if r and not r[0].startswith("#") and int(r[7]) >= 0:
            r[7] = str(int(r[7]) * n)
    f["input_csv/locations.csv"] = join(rs)
    for name in f:
        if name.startswith("source_data/") and not name.endswith("data_layout.csv"):
            rs = rows(f[name])
            for r in rs:
                if len(r) > 1 and not r[0].startswith("#"):
                    r[1] = str(int(r[1]) * n)
            f[name] = join(rs)
    b["table"] = dict(b["table"], scale=b["table"].get("scale", 1) * n)
    b["settings"].setdefault("optimisations", {})["hasten"] = b["table"]["scale"]
    return b


class Check(Prop):
    id = "C39"
    rule = "agents moved, and there were numbers in the registration data or capacities to scale"
    runs = {"quick": 1500, "thorough": 24000}
    components = {"real": model.REAL_PAR + ["flee/InputGeography.py", "flee/datamanager", "runscripts/run.py", "runscripts/run_par.py"], "stub": model.STUB_MPI}
    assumptions = ["the user seeds random and numpy.random of every process before the simulation is created", "rates given as agents per day and initial_idps are numbers of agents, not of people, and stay as they are"]

    def gen(self, rng, i, tier):
        if rng.random() < 0.6:
            case = c29.Check().gen(rng, i, tier)
            case["what"] = "script"
            if rng.random() < 0.25 and case["series"]:
                cor = []
                d0 = datetime.date.fromisoformat(case["table"]["start"])
                for c in sorted(case["series"]):
                    q = sorted(case["series"][c])
                    s = [y for x, y in zip(q, q[1:]) if x[1] >= 2 * case["table"]["scale"]]
                    if c != "total" and s:
                        cor.append("%s,%s\n" % (c, (d0 + datetime.timedelta(days=rng.choice(s)[0])).isoformat()))
                case["files"]["input_csv/registration_corrections.csv"] = "".join(cor)
        else:
            case = model.spawn_case(rng, rng.choice([0, 0, 2, 3]), tier, modes=("table", "table", "constant", "pop_ratio", "poisson"))
            for l in case["locs"]:
                if "camp" in l["location_type"] and rng.random() < 0.5:
                    l["capacity"] = rng.choice([3, 40, 200, 5000])
            model.geo_csv(case, rng)
            case["settings"]["optimisations"] = {"hasten": case["table"]["scale"]}
            case["what"] = "program"
        if rng.random() < 0.25:
            # a column that is the sum of two files
            rs = rows(case["files"]["source_data/data_layout.csv"])
            r = rng.choice([r for r in rs if len(r) > 1 and not r[0].startswith("#")])
            k = case["table"]["scale"]
            case["files"]["source_data/more.csv"] = join([[q[0], str(k * rng.randint(0, 9) + rng.choice([0, 0, 1]))] for q in rows(case["files"]["source_data/" + r[1]]) if len(q) > 1 and not q[0].startswith("#")])
            r.append("more.csv")
            case["files"]["source_data/data_layout.csv"] = join(rs)
        case["faults"] = []
        case["n"] = rng.choice([2, 2, 3, 7, 10, 100, 1000])
        return case

    def run(self, case, ctx):
        if case["what"] == "program":
            return model.simulate(dict(case, closures=[]), ctx, keep_files=True), ""
        res = model.simulate(dict(case, closures=[]), ctx, driver=c29.ScriptDriver, keep_files="drv")
        text = [getattr(n["drv"], "text", "") for n in res.nodes]
        for n in res.nodes:
            n["drv"] = None
        return res, text

    def evaluate(self, case, ctx):
        a, ta = self.run(case, ctx)
        if model.finished(a):
            # that legal scenarios complete is C15
            ctx.probe("scenarios that do not complete")
            return []
        b, tb = self.run(grown(case, case["n"]), ctx)
        v = model.finished(b)
        what = "with %d times the people and hasten %s instead of %s" % (case["n"], case["table"]["scale"] * case["n"], case["table"]["scale"])
        if v:
            return [("outcome", "%s: %s" % (what, v[0][1]))]
        ctx.probe(case["what"])
        ctx.probe("mode " + case["mode"])
        ctx.probe("parallel", bool(case.get("par")))
        ctx.nontrivial(any(x["places"] or x["pos"] and x["pos"][0] == "link" for q in a.nodes if q["snaps"] for x in q["snaps"][-1]["agents"]))
        ctx.probe("no day simulated", not a.nodes[0]["snaps"])
        ops = case["ops"] if case["what"] == "program" else [["day"]] * (case["days"] + 2)
        inputs = [f for f in getattr(a, "files", {}) if f.startswith(("input_csv", "source_data")) or f.endswith(".yml")]
        if not hasattr(a, "files"):
            a.files = b.files = {}
        d = multi.compare(a, b, {"ops": ops}, skip_files=inputs)
        if d:
            return [(d[0], "%s the simulation is another: %s" % (what, d[1]))]
        for x, y in zip(ta, tb):
            if x != y:
                p, q = x.split("\n"), y.split("\n")
                k = [j for j, (g, h) in enumerate(zip(p, q)) if g != h] or [min(len(p), len(q))]
                return [("table", "%s line %d of the script is %r, not %r" % (what, k[0], q[k[0]:k[0] + 1], p[k[0]:k[0] + 1]))]
        return []
