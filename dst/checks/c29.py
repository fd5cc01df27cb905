"""C29: the run scripts report the simulation they ran."""
import copy, datetime, importlib, io, os, sys
from .. import abm, core, model
from ..core import CodeCache, HarnessError
from ..runner import Prop
from .c11 import Roads


class Out(io.TextIOBase):
    def __init__(self):
        self.text = []

    def write(self, s):
        self.text.append(s)
        return len(s)

    def writable(self):
        return True


class ScriptDriver(abm.Driver):
    """runs a run script as a user does, and watches the simulation it creates"""

    def main(self, node):
        c = self.case
        self.out = sys.stdout = Out()
        name = "run_par.py" if self.par else "run.py"
        flee = importlib.import_module("flee.pflee" if self.par else "flee.flee")
        sp = importlib.import_module("flee.spawning")
        real_evolve, real_spawn = flee.Ecosystem.evolve, sp.spawn_daily_displaced

        def evolve(e, *a, **kw):
            r = real_evolve(e, *a, **kw)
            self.snaps.append(abm.snap(e, self.par))
            node.world.log("day", len(self.snaps))
            return r

        def spawn(*a, **kw):
            r = real_spawn(*a, **kw)
            self.rets.append([int(x) for x in r])
            return r
        flee.Ecosystem.evolve, sp.spawn_daily_displaced = evolve, spawn
        sys.argv = [name] + c["argv"]
        try:
            exec(CodeCache.get(os.path.join(core.REPO, "runscripts", name)), {"__name__": "__main__", "__file__": name})
        except SystemExit as e:
            if e.code not in (None, 0):
                raise RuntimeError("the script ended with %r" % (e.code,))
        self.text = "".join(self.out.text)
        return True


class Check(Prop):
    id = "C29"
    rule = "the scripts reported several days with agents in the simulation"
    runs = {"quick": 2600, "thorough": 24000}
    components = {"real": model.REAL_PAR + ["runscripts/run.py", "runscripts/run_par.py", "flee/InputGeography.py", "flee/datamanager", "flee/postprocessing/analysis.py"], "stub": model.STUB_MPI + ["standard output: captured per process; as the buffers of different processes are merged in any order, only one process may print"]}
    assumptions = ["one data series per camp and one for the total", "chance-free inputs: as in C05, with closed inputs (no place has two possible continuations)"]

    def gen(self, rng, i, tier):
        free = rng.random() < 0.35
        par = rng.choice([1, 2, 3, 4]) if free else rng.choice([0, 0, 2, 3])
        days = rng.randint(1, 12 if tier == "thorough" else 7)
        case = self.free(rng, par, days) if free else model.spawn_case(rng, par, tier, days=days)
        case["free"] = free
        files = case["files"]
        if not free and rng.random() < 0.15:
            case["settings"]["spawn_rules"]["camps_are_sinks"] = True
            for l in case["locs"]:
                l["attributes"] = {"deactivation_probability": rng.choice([0.0, 0.5, 1.0])}
        zones = [l["name"] for l in case["locs"] if l["location_type"] == "conflict_zone"]
        rows = days + rng.choice([0, 0, 1])   # the last one may be the one of the last day
        if case["mode"] == "flood":
            files["input_csv/flood_level.csv"] = "#Day" + "".join("," + l["name"] for l in case["locs"] if l["pop"] >= 400) + "\n" + "".join(
                str(d) + "".join("," + str(rng.choice([0, 0, 1, 2])) for l in case["locs"] if l["pop"] >= 400) + "\n" for d in range(rows))
        fights = [[1.0 if k == 0 or free else rng.choice([0.0, 1.0, 1.0, 0.5]) for k, z in enumerate(zones)] for d in range(rows)]
        if case["mode"] != "flood":
            # a place that conflicts.csv makes a conflict zone need not be one in locations.csv
            for l in case["locs"]:
                if l["name"] in zones and (fights[0][zones.index(l["name"])] == 0.0 or not free and rng.random() < 0.3):
                    l["location_type"] = "town"
        case["fights"] = {z: [f[k] for f in fights] for k, z in enumerate(zones)} if case["mode"] != "flood" else {}
        files["input_csv/conflicts.csv"] = "#Day" + "".join("," + z for z in zones) + "\n" + "".join(
            str(d) + "".join("," + str(x) for x in f) + "\n" for d, f in enumerate(fights))
        case["settings"]["optimisations"] = {"hasten": case["table"]["scale"]}
        case["settings"]["log_levels"]["idp_totals"] = rng.choice([0, 1])
        case["settings"]["log_levels"]["camp"] = rng.choice([0, 1])
        if not free:
            case["closures"] = []
            for _ in range(rng.choice([0, 0, 1, 2])):
                if case["links"]:
                    k = rng.choice(case["links"])
                    s = rng.randint(0, days)
                    a, b = rng.sample(k[:2], 2)
                    kinds = [["link", a, b], ["link", a, b], ["location", a, ""], ["country", abm.COUNTRIES[0], abm.COUNTRIES[1]]]
                    kinds += [[l["location_type"], l["name"], ""] for l in case["locs"] if l["location_type"] in ("camp", "idpcamp")]
                    case["closures"].append(rng.choice(kinds)
                                            + [s, rng.choice([s + 1, s + 3, 0])])
        if rng.random() < 0.3:
            people = [l["name"] for l in case["locs"] if l["pop"] >= 400]
            case["settings"]["spawn_rules"]["read_from_agents_csv_file"] = True
            if not [k for k in files if "demographics" in k]:
                files["input_csv/agents.csv"] = "location\n" + "".join(rng.choice(zones if free else people) + "\n" for _ in range(rng.randint(1, 9)))
            else:
                case["settings"]["spawn_rules"]["read_from_agents_csv_file"] = False
        model.geo_csv(case, rng)
        case.pop("csv")
        length = days if rng.random() < 0.5 else days + 5
        files = case["files"]
        files["input_csv/sim_period.csv"] = "StartDate,%s\nLength,%d\n" % (case["table"]["start"], length)
        case["argv"] = ["input_csv", "source_data", "0" if length == days and rng.random() < 0.7 else str(days)] + (["simsetting.yml"] if rng.random() < 0.5 else [])
        case["days"] = days
        case["ops"] = []
        case["shut"] = case.get("closures", [])
        return case

    def free(self, rng, par, days):
        """chains from conflict zones over towns to camps; conflict zones are never chosen as destinations"""
        locs, links = [], []
        n = rng.randint(1, 3)
        for c in range(n):
            k = rng.randint(2, 5)
            names = ["%s-%d" % (abm.NAMES[c], j) for j in range(k)]
            for j, nm in enumerate(names):
                t = "conflict_zone" if j == 0 else "camp" if j == k - 1 else "town"
                if t == "camp" and rng.random() < 0.3:
                    t = "idpcamp"
                if j == 1 and k > 3 and rng.random() < 0.3:
                    t = "conflict_zone"
                locs.append({"name": nm, "x": float(c), "y": float(j), "country": abm.COUNTRIES[0], "region": "north", "location_type": t, "pop": 0 if "camp" in t else 40000, "attributes": {}})
            for j in range(k - 1):
                at = {}
                if rng.random() < 0.2:
                    at["max_move_speed"] = rng.choice([30.0, 80.0])
                if rng.random() < 0.2:
                    at["walk_probability"] = rng.choice([0.0, 1.0])
                links.append([names[j], names[j + 1], round(rng.uniform(5, 400), 2) if rng.random() < 0.6 else round(rng.uniform(5, 60), 2), at])
        for k in links:
            if any(x[3] for x in links):
                k[3] = {"max_move_speed": k[3].get("max_move_speed", 200.0), "walk_probability": k[3].get("walk_probability", 0.0)}
        s = abm.pick_settings(rng, move_rules={"camp_movechance": 0.0, "idpcamp_movechance": 0.0, "default_movechance": 1.0, "conflict_movechance": 1.0, "conflict_weight": 0.0,
                                               "awareness_level": 1, "stay_close_to_home": False, "pruning_threshold": 1.0, "fixed_routes": False})
        case = abm.base_case(rng, par=par, net=(locs, links), settings=s, ops=[])
        # towns with two conflict-free neighbours would be a chance: the town behind a town leads on only
        bad = False
        for l in locs:
            if l["location_type"] == "town":
                nb = [x[1] if x[0] == l["name"] else x[0] for x in links if l["name"] in x[:2]]
                bad |= sum(1 for q in locs if q["name"] in nb and q["location_type"] != "conflict_zone") > 1
            if l["location_type"] == "conflict_zone":
                nb = [x[1] if x[0] == l["name"] else x[0] for x in links if l["name"] in x[:2]]
                bad |= sum(1 for q in locs if q["name"] in nb and q["location_type"] != "conflict_zone") != 1
        if bad:
            return self.free(rng, par, days)
        sr = s["spawn_rules"]
        if n == 1 and sum(1 for l in locs if l["location_type"] == "conflict_zone") == 1 and rng.random() < 0.6:
            case["mode"] = "table"
            sr.update(sum_from_camps=rng.random() < 0.5, insert_day0=rng.random() < 0.5, empty_camps_on_day0=rng.random() < 0.3, take_from_population=rng.random() < 0.5)
        else:
            case["mode"] = "constant"
            sr.update(conflict_driven_spawning={"spawn_mode": "constant", "displaced_per_conflict_day": rng.choice([1, 3])}, take_from_population=rng.random() < 0.5, insert_day0=rng.random() < 0.5)
        files, data = model.table_files(rng, [l["name"] for l in locs if "camp" in l["location_type"]], days, decreasing=rng.random() < 0.5, mx=10)
        case["files"], case["series"] = files, {k: [list(x) for x in v] for k, v in data.items()}
        case["table"] = {"start": "2020-01-10", "scale": 1}
        model.move_dates(case, rng)
        return case

    def evaluate(self, case, ctx):
        res, text, v = self.script(case, ctx, "parallel" if case["par"] else "sequential")
        if v or not case["free"]:
            return v
        ser = copy.deepcopy(case)
        ser["par"] = 0
        _, other, v = self.script(ser, ctx, "sequential")
        if not v and text != other:
            a, b = text.split("\n"), other.split("\n")
            k = [j for j, (x, y) in enumerate(zip(a, b)) if x != y] or [min(len(a), len(b))]
            v.append(("scripts", "line %d of the parallel script is %r, of the sequential one %r" % (k[0], a[k[0]:k[0] + 1], b[k[0]:k[0] + 1])))
        ctx.probe("tables of both scripts compared")
        return v

    def script(self, case, ctx, what):
        case = dict(case, closures=[])
        res = model.simulate(case, ctx, driver=ScriptDriver, keep_files="drv")
        v = model.finished(res, what + " script")
        texts = [n["drv"].text for n in res.nodes if hasattr(n["drv"], "text")]
        for n in res.nodes:
            n["drv"] = None
        if v:
            return res, "", v
        talk = [t for t in texts if t.strip()]
        if len(talk) != 1:
            return res, "", [("output", "%d processes wrote to the standard output of the %s script" % (len(talk), what))]
        return res, talk[0], self.table(case, talk[0], res, what, ctx)

    def table(self, case, text, res, what, ctx):
        if not text.endswith("\n"):
            return [("output", "the last line is incomplete")]
        lines = text[:-1].split("\n")
        head = lines[0].split(",")
        camps = [l["name"] for l in case["locs"] if "camp" in l["location_type"]]
        sinks = case["settings"]["spawn_rules"].get("camps_are_sinks")
        want = ["Day", "Date"] + [c + s for c in camps for s in (" sim", " data", " error")] + [
            "Total error", "refugees in camps (UNHCR)", "total refugees (simulation)", "raw UNHCR refugee count", "refugees in camps (simulation)", "refugee_debt"]
        if case["settings"]["log_levels"].get("idp_totals"):
            want.append("total IDPs")
        if sorted(head) != sorted(want) or head[:2] != want[:2]:
            return [("header", "the %s script's header is %s" % (what, lines[0]))]
        if len(lines) - 1 != case["days"]:
            return [("rows", "%d rows for %d days" % (len(lines) - 1, case["days"]))]
        empty = 1 if case["settings"]["spawn_rules"].get("empty_camps_on_day0") else 0
        scale = case["table"]["scale"]
        data = lambda c, t: model.field([(d, x / float(scale)) for d, x in case["series"][c]], t)
        if any(len(n["snaps"]) != case["days"] or len(n["rets"]) != case["days"] for n in res.nodes):
            return [("days", "the %s script reports %d days; the simulation made %s steps, people were displaced %s times" % (what, case["days"], [len(n["snaps"]) for n in res.nodes], [len(n["rets"]) for n in res.nodes]))]
        roads = Roads(case)
        roads.flags = {l["name"]: {"camp": "camp" in l["location_type"], "idp": l["location_type"] == "idpcamp"} for l in case["locs"]}
        d0 = date = datetime.date.fromisoformat(case["table"]["start"])
        for t, line in enumerate(lines[1:]):
            row = line.split(",")
            where = "the %s script's row of day %d" % (what, t)
            if len(row) != len(head):
                return [("columns", "%s has %d columns, the header %d: %s" % (where, len(row), len(head), line))]
            r = dict(zip(head, row))
            if r["Day"] != str(t) or r["Date"] != (d0 + datetime.timedelta(days=t)).isoformat():
                return [("day", "%s starts with %s" % (where, row[:2]))]
            snaps = [n["snaps"][t] for n in res.nodes]
            cnt, _ = model.true_counts(snaps)
            s = snaps[0]
            if not sinks and any(l["n"] != cnt.get(x, 0) for x, l in s["locs"].items()):
                return [("count", "%s: head counts %s, agents are at %s" % (where, {x: l["n"] for x, l in s["locs"].items()}, cnt))]
            for z, f in case["fights"].items():
                if abs(max(0.0, s["locs"][z]["conflict"]) - f[t]) > 1e-9:
                    return [("conflict", "%s: conflicts.csv has %s for %s, in the simulation it is %s" % (where, f[t], z, s["locs"][z]["conflict"]))]
            roads.sched(case["shut"], t, True)
            for (a, b), road in roads.road.items():
                st = [w for w in ("links", "closed") if any(k[0] == b for k in s["locs"][a][w])]
                if st != ["links" if road["state"] == "open" else "closed"]:
                    return [("closure", "%s: by closures.csv the road %s-%s is %s, in the simulation it is in %s" % (where, a, b, road["state"], st))]
            for n, f in roads.flags.items():
                if bool(s["locs"][n]["camp"]) != f["camp"]:
                    return [("closure", "%s: by closures.csv %s is %s camp" % (where, n, "a" if f["camp"] else "no"))]
            if t and not sinks and s["total"] - res.nodes[0]["snaps"][t - 1]["total"] != res.nodes[0]["rets"][t][0]:
                return [("displaced", "%s: %s people were displaced, the total went from %s to %s" % (where, res.nodes[0]["rets"][t][0], res.nodes[0]["snaps"][t - 1]["total"], s["total"]))]
            exp = {}
            for c in camps:
                exp[c + " sim"] = s["locs"][c]["n"]
                if "series" in case:
                    exp[c + " data"] = d = data(c, t) - (data(c, 0) * empty)
                    exp[c + " error"] = 0.0 if d < 0.00001 else abs(s["locs"][c]["n"] / float(d) - 1)
            exp["total refugees (simulation)"] = s["total"]
            exp["refugees in camps (simulation)"] = sum(s["locs"][c]["n"] for c in camps)
            exp["refugees in camps (UNHCR)"] = sum(exp[c + " data"] for c in camps)
            if res.nodes[0]["rets"]:
                new, raw, debt = res.nodes[0]["rets"][t]
                exp["raw UNHCR refugee count"], exp["refugee_debt"] = raw, debt
                exp["Total error"] = 0.0 if raw <= 0 else sum(abs(exp[c + " sim"] - exp[c + " data"]) for c in camps) / float(raw)
                ctx.probe("days with debt", debt > 0)
                ctx.probe("days without refugees in the data", raw <= 0)
            if "total IDPs" in r:
                exp["total IDPs"] = sum(s["locs"][n]["n"] for n, l in s["locs"].items() if l["idp"])
            for k, w in exp.items():
                try:
                    g = float(r[k])
                except ValueError:
                    return [("value", "%s: %s is %r" % (where, k, r[k]))]
                if abs(g - w) > (6e-4 if "error" in k else 1e-9):
                    return [("value", "%s: %s is %s, in the simulation and data it is %s" % (where, k, r[k], w))]
            if s["total"] and t > 1:
                ctx.nontrivial()
            ctx.probe("rows")
        return []
