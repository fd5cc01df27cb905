"""C25: runs with the same inputs and seeds are reproducible."""
import copy, hashlib, json, random
from .. import abm, coupled, helper, model, multi
from ..runner import Prop
from . import c05, c11, c12, c15, c16, c22, c23


def scenario(rng, i, tier, par=None):
    """a varied legal scenario; par: None or the wanted number of processes"""
    for _ in range(50):
        g = rng.choice(["any", "any", "spawn", "spawn", "journey", "schedule", "closures", "log", "linklog"])
        p = par if par is not None else rng.choice([0, 0, 2, 3])
        if g == "spawn":
            case = model.spawn_case(rng, p, tier)
            case["settings"]["log_levels"].update(agent=rng.choice([0, 1]), camp=rng.choice([0, 1]))
        elif g == "journey":
            case = model.journey_case(rng, tier, par=p)
            case["settings"]["log_levels"]["link"] = rng.choice([0, 1])
        else:
            case = {"any": c15, "schedule": c12, "closures": c11, "log": c22, "linklog": c23}[g].Check().gen(rng, i, tier)
            if par is not None and (case.get("par") or 0) != par:
                continue
        case["faults"] = [f for f in case.get("faults", []) if f["kind"] == "stall"]
        case.pop("fs", None)
        case["gen"] = g
        return json.loads(json.dumps(case))
    return scenario(rng, i, tier, par)


class Check(Prop):
    id = "C25"
    rule = "agents moved, and the second run differed in schedule, hash seed, earlier work of the process, left-over files, listing order or clock"
    runs = {"quick": 1500, "thorough": 24000}
    components = {"real": model.REAL_PAR + ["flee/Diagnostics.py", "flee/InputGeography.py", "flee/datamanager", "flee/coupling.py"], "stub": c16.STUB}
    assumptions = ["the user seeds random and numpy.random of every process before the simulation is created"]

    def gen(self, rng, i, tier):
        if rng.random() < 0.15:
            cc = coupled.gen(rng, faults=False, log=rng.random() < 0.5)
            cc["what"] = "coupled"
            return cc
        t = scenario(rng, i, tier)
        t["seeding"] = "build"
        P = t.get("par") or 0
        v = {"what": "program", "target": t, "hashseed": rng.choice([0, 1, 77, 4242]), "clock": rng.choice([1.6e9, 0.0, 4.1e9, 946684799.5]), "fs": {"listing": rng.choice([0, 1, 5])},
             "leftovers": {}, "prelude": None}
        if rng.random() < 0.5:
            q = rng.random()
            v["prelude"] = copy.deepcopy(t) if q < 0.25 else scenario(rng, i, tier, P)
            v["prelude"]["seeding"] = rng.choice(["build", "op"])
            if q > 0.6:
                v["prelude"]["ops"] = v["prelude"]["ops"][:rng.randint(0, len(v["prelude"]["ops"]))]
        if rng.random() < 0.3:
            for r in range(max(1, P)):
                v["leftovers"]["agents.out.%d" % r] = "#time,old\n5,%d-0,x\n" % r
                v["leftovers"]["links.out.%d" % r] = "#time,old\n"
        return v

    def evaluate(self, case, ctx):
        if case["what"] == "coupled":
            return self.coupled(case, ctx)
        t = case["target"]
        P = t.get("par") or 0
        n = len(t["ops"])
        a = multi.simulate(multi.alone(t, par=P, faults=t.get("faults", [])), ctx)[0]
        v = model.finished(a)
        if v:
            return v
        pre = case["prelude"]
        b = {"parts": [t], "script": [[0, k] for k in range(-1, n)], "par": P, "clock": case["clock"], "fs": case["fs"], "leftovers": case["leftovers"], "seed0": 99}
        if pre:
            b["parts"] = [t, pre]
            b["script"] = [[1, k] for k in range(-1, len(pre["ops"]))] + b["script"]
            ctx.probe("earlier simulation in the same process")
        if case["hashseed"]:
            r = helper.simulate(b, ctx, case["hashseed"])[0]
            ctx.probe("other hash seed")
        else:
            r = multi.simulate(b, ctx)[0]
        for k in ("leftovers",):
            if case[k]:
                ctx.probe(k)
        if P:
            ctx.probe("parallel")
        if case["fs"].get("listing"):
            ctx.probe("other listing order")
        ctx.nontrivial(any(x["places"] or x["pos"] and x["pos"][0] == "link" for q in a.nodes for x in q["snaps"][-1]["agents"])
                       and bool(P or pre or case["hashseed"] or case["leftovers"] or case["fs"].get("listing") or case["clock"] != 1.6e9))
        d = multi.compare(json_like(a), r, t)
        if not d and not case["leftovers"]:
            extra = [f for f in r.files if f not in a.files]
            if extra:
                d = ("file", "only the second run wrote %s" % extra[0])
        return [(d[0], "two runs with the same inputs and seeds differ: " + d[1])] if d else []

    def coupled(self, case, ctx):
        a = coupled.simulate(case, ctx, keep_files=True)
        v = coupled.finished(a)
        if v:
            return v
        b = coupled.simulate(case, ctx, keep_files=True)
        ctx.probe("coupled (%s)" % case["ctype"])
        ctx.nontrivial()
        for key, m in a.models.items():
            o = b.models[key]
            for what in ("pre", "post"):
                x, y = getattr(m, what), getattr(o, what)
                d = multi.diff(x, y)
                if d:
                    return [("coupled", "two coupled runs with the same inputs and seeds differ: %s %s, %s: %s" % (key, what, "state before/after exchange", d))]
        return []

    def shrinks(self, case):
        if case["what"] != "program":
            return
        for k, z in (("prelude", None), ("leftovers", {}), ("hashseed", 0), ("fs", {"listing": 0}), ("clock", 1.6e9)):
            if case[k] != z:
                c = copy.deepcopy(case)
                c[k] = z
                yield c
        from ..runner import generic_shrinks
        for part in ("target", "prelude"):
            if case[part]:
                for s in generic_shrinks(case[part]):
                    c = copy.deepcopy(case)
                    c[part] = s
                    yield c


def json_like(r):
    """same form as a result from the other interpreter"""
    for n in r.nodes:
        n["snaps"] = json.loads(json.dumps(n["snaps"], default=str))
        n["rets"] = json.loads(json.dumps(n["rets"], default=str))
    return r
