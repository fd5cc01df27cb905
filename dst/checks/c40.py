"""C40: places that nobody can come to do not influence anything."""
import copy, csv, io, json
from .. import abm, model, multi
from ..runner import Prop, generic_shrinks
from . import c16, c25, c29

FAR = ["Zz far", "Atoll", "Islet", "Outpost", "Reef"]


def rows(text):
    return list(csv.reader(io.StringIO(text)))


def join(rs):
    return "".join(",".join(r) + "\n" for r in rs)


class Check(Prop):
    id = "C40"
    rule = "agents moved, and at least one place that nobody can come to was added"
    runs = {"quick": 1400, "thorough": 22000}
    components = {"real": model.REAL_PAR + ["flee/Diagnostics.py", "flee/InputGeography.py", "flee/datamanager", "runscripts/run.py", "runscripts/run_par.py"], "stub": c16.STUB}
    assumptions = ["the user seeds random and numpy.random of every process before the simulation is created", "nobody is or is spawned in the added places, and they are in none of the other input files",
                   "parallel: in mode classic (in mode loc-par which scores are outdated depends on how the places are shared between the processes)"]

    def gen(self, rng, i, tier):
        if rng.random() < 0.35:
            t = c29.Check().gen(rng, i, tier)
            what = "script"
            t["faults"] = []
        else:
            t = c25.scenario(rng, i, tier)
            what = "program"
            t.pop("faults", None)
            t["seeding"] = "build"
        t["pmode"] = "classic"
        ops = {op[0] for op in t["ops"]}
        camps = not t.get("table") and not ops & {"initial"}
        only = bool(((t.get("settings") or {}).get("spawn_rules") or {}).get("conflict_zone_spawning_only", True))
        have = {l["name"] for l in t["locs"]}
        cols = sorted({k for l in t["locs"] for k in (l.get("attributes") or {})})
        countries = [l.get("country") for l in t["locs"] if l.get("country")] or ["unknown"]
        add = []
        for nm in rng.sample([x for x in FAR if x not in have], rng.randint(1, 4)):
            ty = rng.choice(["town", "town", "marker", "forwarding_hub", "town"] + (["camp", "idpcamp"] if camps else []))
            L = {"name": nm, "x": round(rng.uniform(0, 3), 3), "y": round(rng.uniform(0, 3), 3), "country": rng.choice(countries + ["Nowhere"]), "region": rng.choice(abm.REGIONS),
                 "location_type": ty, "pop": rng.choice([0, 0, 700]) if ty == "town" and only else 0}
            if ty in ("camp", "idpcamp"):
                L["capacity"] = rng.choice([-1, 5])
            like = rng.choice(t["locs"])
            if "attributes" in like or cols:
                L["attributes"] = copy.deepcopy(like.get("attributes") or {})
            L["at"] = rng.randint(0, len(t["locs"]))
            if L["at"] == 0:
                # the first country in locations.csv is the one that is not foreign
                L["country"] = t["locs"][0].get("country") or "unknown"
            add.append(L)
        roads = []
        if len(add) > 1 and rng.random() < 0.7:
            for k in range(1, len(add)):
                a, b = add[k]["name"], add[rng.randrange(k)]["name"]
                if rng.random() < 0.5:
                    a, b = b, a
                roads.append([a, b, round(rng.uniform(1, 300), 2), rng.randint(0, len(t["links"]))])
        return {"what": what, "target": t, "add": add, "roads": roads}

    def run(self, case, t, ctx):
        if case["what"] == "script":
            res = model.simulate(dict(t, closures=[]), ctx, driver=c29.ScriptDriver, keep_files="drv")
            text = [getattr(n["drv"], "text", "") for n in res.nodes]
            for n in res.nodes:
                n["drv"] = None
            return res, text
        return multi.simulate(multi.alone(t, par=t.get("par") or 0), ctx)[0], []

    def evaluate(self, case, ctx):
        t = case["target"]
        P = t.get("par") or 0
        a, ta = self.run(case, t, ctx)
        if model.finished(a):
            # that legal scenarios complete is C15
            ctx.probe("scenarios that do not complete")
            return []
        o = wider(t, case["add"], case["roads"])
        b, tb = self.run(case, o, ctx)
        names = {L["name"] for L in case["add"]}
        for nd in b.nodes:
            if nd["error"]:
                return [("error", "with the places %s added the run fails on %s: %s" % (sorted(names), nd["name"], str(nd["error"][:2])[:300]))]
        v = model.finished(b)
        if v:
            return [("outcome", "with the places %s added: %s" % (sorted(names), v[0][1]))]
        c25.json_like(a)
        c25.json_like(b)
        ops = t["ops"] if case["what"] == "program" else [["day"]] * (t.get("days", 0) + 2)
        for y in b.nodes:
            for s in y["snaps"]:
                keep = [n not in names for n in s["order"]]
                for n in names:
                    L = s["locs"].pop(n, None)
                    if L is None:
                        return [("missing", "the added place %s is not in the simulation" % n)]
                    if L["n"] or L["arr"] if "arr" in L else L["n"]:
                        return [("inhabited", "somebody is in %s, where nobody can come to" % n)]
                s["w"] = [w for w, k in zip(s["w"], keep) if k]
                s["order"] = [w for w, k in zip(s["order"], keep) if k]
            for k, op in enumerate(ops):
                if op[0] == "graph" and k < len(y["rets"]) and isinstance(y["rets"][k], dict):
                    r = y["rets"][k]
                    y["rets"][k] = {"places": [p for p in r["places"] if p not in names], "roads": [q for q in r["roads"] if q[0] not in names and q[1] not in names],
                                    "camps": [p for p in r["camps"] if p not in names]}
        files = [getattr(r, "files", None) or {} for r in (a, b)]
        inputs = [f for f in files[0] if f.startswith(("input_csv", "source_data", "location_changes")) or f.endswith(".yml")]
        region = ((t.get("settings") or {}).get("log_levels") or {}).get("granularity") == "region"
        for f in list(files[1]):
            if "links.out" in f:
                if region:
                    inputs.append(f)
                else:
                    files[1][f] = b"".join(q for q in files[1][f].splitlines(True) if not set(q.decode("utf-8", "replace").split(",")[1:3]) & names)
        a.files, b.files = files
        ctx.nontrivial(bool(case["add"]) and any(x["places"] or x["pos"] and x["pos"][0] == "link" for q in a.nodes if q["snaps"] for x in q["snaps"][-1]["agents"]))
        ctx.probe(case["what"] + " " + str(t.get("gen") or ""))
        ctx.probe("parallel", bool(P))
        ctx.probe("roads between the added places", bool(case["roads"]))
        ctx.probe("files compared", len(a.files) - len(inputs))
        d = multi.compare(a, b, {"ops": ops}, skip_files=inputs)
        if d:
            return [(d[0], "the run differs with the places %s added: %s" % (sorted(names), d[1]))]
        for x, y in zip(ta, tb):
            if x != y:
                p, q = x.split("\n"), y.split("\n")
                k = [j for j, (g, h) in enumerate(zip(p, q)) if g != h] or [min(len(p), len(q))]
                return [("table", "with the places %s added line %d of the script is %r, not %r" % (sorted(names), k[0], q[k[0]:k[0] + 1], p[k[0]:k[0] + 1]))]
        return []

    def shrinks(self, case):
        for k in range(len(case["add"])):
            nm = case["add"][k]["name"]
            if len(case["add"]) > 1:
                yield dict(case, add=case["add"][:k] + case["add"][k + 1:], roads=[r for r in case["roads"] if nm not in r[:2]])
        for k in range(len(case["roads"])):
            yield dict(case, roads=case["roads"][:k] + case["roads"][k + 1:])
        if case["what"] == "program":
            for s in generic_shrinks(case["target"]):
                yield dict(case, target=s)


def wider(t, add, roads):
    """the case with the added places and roads"""
    o = copy.deepcopy(t)
    f = o.get("files") or {}
    loc, rt = [o["csv"] + "/%s.csv" % x for x in ("locations", "routes")] if o.get("csv") else ["input_csv/%s.csv" % x for x in ("locations", "routes")]
    if loc in f:
        rs = rows(f[loc])
        head, data = [r for r in rs[:1]], rs[1:]
        for L in add:
            like = next((r for r in data if len(r) > 7), None)
            at = L.get("attributes") or {}
            pc = L.get("capacity", -1) if "camp" in L["location_type"] else L["pop"]
            r = [L["name"], L["region"], L["country"], str(L["x"]), str(L["y"]), L["location_type"], "0", str(pc)]
            r += [str(at.get(c, "0")) for c in head[0][8:]]
            data.insert(min(L["at"], len(data)), r)
        f[loc] = join(head + data)
        rs = rows(f[rt])
        head, data = rs[:1], rs[1:]
        for a, b, d, k in roads:
            like = data[0] if data else []
            data.insert(min(k, len(data)), [a, b, str(d), "0"] + like[4:] + [""] * (len(head[0]) - 4 - len(like[4:])))
        f[rt] = join(head + data)
    for L in add:
        q = {k: v for k, v in L.items() if k != "at"}
        q["foreign"] = False
        o["locs"].insert(min(L["at"], len(o["locs"])), q)
    for a, b, d, k in roads:
        like = next((x for x in o["links"] if len(x) > 3 and x[3]), None)
        o["links"].insert(min(k, len(o["links"])), [a, b, d] + ([copy.deepcopy(like[3])] if like else []))
    return o
