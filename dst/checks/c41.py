"""C41: distances matter only in proportion to speeds."""
import copy
from .. import model, multi
from ..runner import Prop, generic_shrinks
from . import c16, c25, c29, c40


class Check(Prop):
    id = "C41"
    rule = "agents moved"
    runs = {"quick": 1800, "thorough": 22000}
    components = {"real": model.REAL_PAR + ["flee/Diagnostics.py", "flee/InputGeography.py", "flee/datamanager", "runscripts/run.py", "runscripts/run_par.py"], "stub": c16.STUB}
    assumptions = ["the user seeds random and numpy.random of every process before the simulation is created", "stay_close_to_home is off (it uses coordinates), and use_v1_rules, which sets the speeds itself",
                   "the factor is a power of 4, so that no rounding differs"]

    def gen(self, rng, i, tier):
        if rng.random() < 0.3:
            t = c29.Check().gen(rng, i, tier)
            what = "script"
            t["faults"] = []
        else:
            t = c25.scenario(rng, i, tier)
            what = "program"
            t.pop("faults", None)
            t["seeding"] = "build"
        mr = t["settings"].setdefault("move_rules", {})
        mr["stay_close_to_home"] = False
        mr.pop("use_v1_rules", None)
        mr.setdefault("max_move_speed", 200.0)
        mr.setdefault("max_walk_speed", 35.0)
        mr.setdefault("softening", 10.0)
        return {"what": what, "target": t, "factor": rng.choice([4.0, 4.0, 16.0, 64.0, 0.25, 0.015625])}

    run = c40.Check.run

    def evaluate(self, case, ctx):
        t, f = case["target"], case["factor"]
        a, ta = self.run(case, t, ctx)
        if model.finished(a):
            # that legal scenarios complete is C15
            ctx.probe("scenarios that do not complete")
            return []
        b, tb = self.run(case, scaled(t, f), ctx)
        what = "with all distances and speeds %g times as large" % f
        for nd in b.nodes:
            if nd["error"]:
                return [("error", "%s the run fails on %s: %s" % (what, nd["name"], str(nd["error"][:2])[:300]))]
        v = model.finished(b)
        if v:
            return [("outcome", "%s: %s" % (what, v[0][1]))]
        c25.json_like(a)
        c25.json_like(b)
        ops = t["ops"] if case["what"] == "program" else [["day"]] * (t.get("days", 0) + 2)
        for r, g in ((a, 1.0), (b, f)):
            for nd in r.nodes:
                for s in nd["snaps"]:
                    reduce(s, g)
                for k, op in enumerate(ops):
                    if op[0] == "graph" and k < len(nd["rets"]) and isinstance(nd["rets"][k], dict):
                        nd["rets"][k]["roads"] = [[x, y, z / g] for x, y, z in nd["rets"][k]["roads"]]
            r.files = {n: columns(x) if "agents.out" in n else x for n, x in (getattr(r, "files", None) or {}).items()}
        inputs = [n for n in a.files if n.startswith(("input_csv", "source_data", "location_changes")) or n.endswith(".yml")]
        ctx.nontrivial(any(x["places"] or x["pos"] and x["pos"][0] == "link" for q in a.nodes if q["snaps"] for x in q["snaps"][-1]["agents"]))
        ctx.probe(case["what"] + " " + str(t.get("gen") or ""))
        ctx.probe("parallel", bool(t.get("par")))
        ctx.probe("files compared", len(a.files) - len(inputs))
        d = multi.compare(a, b, {"ops": ops}, skip_files=inputs)
        if d:
            return [(d[0], "%s the run differs: %s" % (what, d[1]))]
        for x, y in zip(ta, tb):
            if x != y:
                p, q = x.split("\n"), y.split("\n")
                k = [j for j, (g, h) in enumerate(zip(p, q)) if g != h] or [min(len(p), len(q))]
                return [("table", "%s line %d of the script is %r, not %r" % (what, k[0], q[k[0]:k[0] + 1], p[k[0]:k[0] + 1]))]
        return []

    def shrinks(self, case):
        if case["what"] == "program":
            for s in generic_shrinks(case["target"]):
                yield dict(case, target=s)


def times(x, f):
    """f times the number, in the form it had"""
    return str(float(x) * f) if isinstance(x, str) else float(x) * f


def scaled(t, f):
    o = copy.deepcopy(t)
    mr = o["settings"]["move_rules"]
    for k in ("max_move_speed", "max_walk_speed", "softening"):
        mr[k] = mr[k] * f
    for k in o["links"]:
        k[2] = k[2] * f
        if len(k) > 3 and k[3] and "max_move_speed" in k[3]:
            k[3]["max_move_speed"] = times(k[3]["max_move_speed"], f)
    files = o.get("files") or {}
    name = (o.get("csv") or "input_csv") + "/routes.csv"
    if name in files:
        rs = c40.rows(files[name])
        speed = rs[0].index("max_move_speed") if "max_move_speed" in rs[0] else None
        for r in rs[1:]:
            if len(r) > 2 and not r[0].startswith("#"):
                r[2] = times(r[2], f)
                if speed is not None and speed < len(r) and r[speed]:
                    r[speed] = times(r[speed], f)
        files[name] = c40.join(rs)
    return o


def reduce(s, g):
    """the snapshot with distances divided by g; weights of routes are left out (they are divided by a power of it)"""
    for L in s["locs"].values():
        for w in ("links", "closed"):
            for k in L[w]:
                k[1] /= g
        for k in L["lattr"]:
            k[1].pop("max_move_speed", None)
        L["lattr"].sort(key=lambda q: q[0])
        if isinstance(L["routes"], dict):
            for v in L["routes"].values():
                v[0] = 0.0
    for a in s["agents"]:
        if a["pos"] and a["pos"][0] == "link":
            a["pos"][3] /= g
            a["pos"][5] /= g
        a["moved"] /= g
        if a["dist"] is not None:
            a["dist"] /= g
        for v in a["visited"] or []:
            if len(v) == 3:
                v[2] /= g


def columns(x):
    """an agent log without the columns that are distances"""
    lines = [q.split(b",") for q in x.split(b"\n")]
    drop = [k for k, h in enumerate(lines[0]) if h.startswith(b"distance")] if lines else []
    return b"\n".join(b",".join(c for k, c in enumerate(r) if k not in drop) for r in lines)
