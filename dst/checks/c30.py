"""C30: the simulated network is the one the input files describe, and stays so."""
import csv, importlib, io
from .. import abm, core, model
from ..runner import Prop

NAMES = ["Alpha", "Bravo town", "Charlie-1", "Delta, west", "Echo's", "Fóxtrot", "Golf (old)", "Hotel", "India", "Juliett", "Kilo", "Lima", "Mi\"ke", "N", "Alpha2", "alpha", "42", "Kilo "]
TYPES = ["conflict", "conflict_zone", "town", "camp", "idpcamp", "town", "marker", "forward", "flood_zone", "default", "Camp", "camp"]
KIND = {"conflict": "conflict", "conflict_zone": "conflict", "town": "town", "default": "town", "camp": "camp", "Camp": "camp", "idpcamp": "idpcamp", "marker": "marker", "forward": "forward", "flood_zone": "flood_zone"}


class NetDriver(abm.Driver):
    def imports(self):
        super().imports()
        if self.case.get("micro"):
            self.flee = importlib.import_module("flee.pmicro_flee")

    def build_csv(self):
        if not self.case.get("micro"):
            return super().build_csv()
        self.ig = importlib.import_module("flee.micro_InputGeography").InputGeography()
        self.ig.ReadLocationsFromCSV("input_csv/locations.csv")
        self.ig.ReadLinksFromCSV("input_csv/routes.csv")
        self.ig.ReadClosuresFromCSV("input_csv/closures.csv")
        self.e, self.lm = self.ig.StoreInputGeographyInEcosystem(self.e)

    def do(self, op):
        if op[0] == "zones" and self.case.get("micro"):
            return None
        return super().do(op)

    def snap(self):
        e = self.e
        kind = lambda l: "idpcamp" if l.idpcamp else "camp" if l.camp else "conflict" if l.conflict > 0 else "marker" if l.marker else "forward" if l.forward else "flood_zone" if l.flood_zone else "town" if l.town else "?"
        s = {"time": int(e.time), "closures": [list(c) for c in getattr(e, "closures", [])],
             "locs": [[l.name, l.region, l.country, float(l.x), float(l.y), int(l.pop), int(l.capacity), bool(l.foreign), {k: v for k, v in l.attributes.items()}, kind(l)] for l in e.locations],
             "roads": [], "map": sorted(self.lm), "ends": True, "major": {l.name: [list(r) for r in l.major_routes] for l in e.locations if getattr(l, "major_routes", None)}}
        at = {id(l) for l in e.locations}
        s["ends"] = all(self.lm.get(l.name) is l for l in e.locations)
        for l in e.locations:
            for k in list(l.links) + list(l.closed_links):
                s["ends"] &= k.startpoint is l and id(k.endpoint) in at
                s["roads"].append([k.startpoint.name, k.endpoint.name, float(k.get_distance()), bool(k.forced_redirection), dict(k.attributes), getattr(k, "link_type", None)])
        s["shut"] = sum(len(l.closed_links) for l in e.locations)
        return s


def write(rng, rows, width=0):
    """a CSV file as users and their tools write it"""
    f = io.StringIO()
    q = rng.choice([csv.QUOTE_MINIMAL, csv.QUOTE_MINIMAL, csv.QUOTE_ALL])
    w = csv.writer(f, quoting=q, lineterminator=rng.choice(["\n", "\n", "\r\n"]))
    n = csv.writer(f, quoting=csv.QUOTE_MINIMAL, lineterminator="\n")
    for k, r in enumerate(rows):
        (n if k == 0 else w).writerow(r)
        if width and rng.random() < 0.15:
            n.writerow(rng.choice([["# roads of the north"], [], ["#"], ["# x", "y"]]))
    t = f.getvalue()
    return t.rstrip("\r\n") if rng.random() < 0.3 else t


class Check(Prop):
    id = "C30"
    rule = "the files held several locations, roads with a forced direction or custom attributes, and closures"
    runs = {"quick": 4000, "thorough": 40000}
    components = {"real": model.REAL_PAR + ["flee/InputGeography.py", "flee/micro_InputGeography.py", "flee/pmicro_flee.py"], "stub": model.STUB_MPI}
    assumptions = ["names occur once in locations.csv, a pair of places at most once in routes.csv, both refer to declared names", "micro models: as their reader documents it, without custom columns, blank fields and blank lines"]

    def gen(self, rng, i, tier):
        micro = rng.random() < 0.25
        n = rng.randint(1, 16 if tier == "thorough" else 9)
        names = rng.sample(NAMES, n)
        countries = rng.sample(["Aland", "Borduria", "", "Côte"], 3) if not micro else ["Aland", "Borduria", "Cascara"]
        cols = [] if micro else rng.choice([[], [], ["gdp"], ["conflict_intensity"], ["gdp", "hub, main", "conflict_intensity"]])
        scale = rng.choice([1, 1, 2, 10, 7, 100])
        rows = [["#name", "region", "country", "lat", "lon", "location_type", "conflict_date", "pop/cap"] + cols]
        locs = []
        home = None
        for nm in names:
            t = rng.choice(TYPES)
            reg, ctry = rng.choice(["north", "south", "" if not micro else "x"]), rng.choice(countries)
            x, y = round(rng.uniform(-90, 90), 3), rng.choice([0.0, 12, round(rng.uniform(-90, 90), 5)])
            gap = not micro and rng.random() < 0.15
            pc = rng.choice([0, 1, 99, 1000, 123456, -1 if scale == 1 and "camp" in t.lower() else 5])
            cd = rng.choice([0, 0, 1, 2, 5]) if "conflict" in t else rng.choice(["", 0])
            at = {c: ("%.2f" % rng.uniform(0.1, 1)) if c == "conflict_intensity" else rng.choice(["1", "0.5", "", "rich", "a b", "7e3"]) for c in cols}
            gpc = not micro and rng.random() < 0.1
            rows.append([nm, reg, ctry, "" if gap else x, "" if gap else y, t, cd, "" if gpc else pc] + [at[c] for c in cols])
            if home is None:
                home = ctry or "unknown"
            kind = KIND[t]
            if kind == "conflict" and cd > 0:
                kind = "town"
            pc = 0 if gpc else pc // scale
            camp = "camp" in kind
            locs.append([nm, reg or "unknown", ctry or "unknown", 0.0 if gap else float(x), 0.0 if gap else float(y), 0 if camp else pc, pc if camp else -1,
                         None if micro else (ctry or "unknown") != home, at, kind])
        lcols = [] if micro else rng.choice([[], [], ["surface"], ["surface", "toll"], ["max_move_speed"]])
        lrows = [["#name1", "name2", "distance", "forced_redirection"] + (["link_type"] if micro else lcols)]
        roads = []
        pairs = [(a, b) for k, a in enumerate(names) for b in names[k + 1:]]
        short = rng.random() < 0.15 and not micro and not lcols
        for a, b in rng.sample(pairs, min(len(pairs), rng.randint(0, 2 * n))):
            if rng.random() < 0.5:
                a, b = b, a
            dist = rng.choice([1, 35, round(rng.uniform(0.5, 900), 2), "1e2", 20.0])
            fr = rng.choice([0, 0, 0, 1, 2, "" if not micro else 0])
            at = {c: rng.choice(["20.0", "55"]) if c == "max_move_speed" else rng.choice(["paved", "0", "x y"]) for c in lcols}
            lt = rng.choice(["drive", "walk", "crossing"]) if micro else None
            if short:
                fr = 0
                lrows.append([a, b, dist])
            else:
                lrows.append([a, b, dist, fr] + ([lt] if micro else [at[c] for c in lcols]))
            roads.append([a, b, float(dist), fr == 1, at, lt])
            roads.append([b, a, float(dist), fr == 2, at, lt])
        bad = rng.random() < 0.06
        if bad:
            row = [rng.choice(names), "No such place", 10] + ([] if short else [0] + (["drive"] if micro else ["20.0" for _ in lcols]))
            if rng.random() < 0.5:
                row[:2] = row[1::-1]
            lrows.insert(rng.randint(1, len(lrows)), row)
        crows, closures = [["#closure_type", "name1", "name2", "closure_start", "closure_end"]], []
        for _ in range(rng.choice([0, 0, 1, 2, 5])):
            t = rng.choice(["link", "location", "country", "link", "camp", "idpcamp", "remove_forced_redirection"])
            live = [c for c in countries if c]
            if t == "link" and pairs:
                a, b = rng.choice(pairs)
            elif t == "location":
                a, b = rng.choice(names), "-"
            elif t == "country":
                a, b = rng.choice(live), rng.choice(live)
            elif t == "remove_forced_redirection" and any(r[3] for r in roads):
                a, b = rng.choice([r for r in roads if r[3]])[:2]
            else:
                continue
            st = rng.randint(0, 4)
            crows.append([t, a, b, st, rng.choice([0, st + 1, st + 3])])
            closures.append([t, a, b, st, crows[-1][-1]])
        files = {"input_csv/locations.csv": write(rng, rows, 0 if micro else 1), "input_csv/routes.csv": write(rng, lrows, 0 if micro else 1), "input_csv/closures.csv": write(rng, crows, 1)}
        mrows, major = [], {}
        if not micro and n > 1 and rng.random() < 0.4:
            for _ in range(rng.choice([0, 1, 2, 4])):
                r = rng.sample(names, rng.randint(2, min(n, 5)))
                if len(r) > 2 and rng.random() < 0.15:
                    r = r + r[:1]
                mrows.append(r + [""] * rng.choice([0, 0, 0, 1, 3]))
                major.setdefault(r[0], []).append(r[1:])
                major.setdefault(r[-1], []).append(r[-2::-1])
            if rng.random() < 0.5:
                mrows.insert(0, ["#name1", "name2"])
            files["input_csv/major_routes.csv"] = write(rng, mrows, 1)
        par = rng.choice([1, 2, 3]) if micro or rng.random() < 0.4 else 0
        s = abm.pick_settings(rng, optimisations={"hasten": scale}, move_rules={"default_movechance": rng.choice([0.3, 1.0]), "conflict_movechance": 1.0})
        if major:
            # (a major route along a road that does not exist or is closed ends the run)
            s["move_rules"]["fixed_routes"] = False
        ops = []
        for _ in range(0 if micro else rng.randint(0, 5)):
            ops += [["zones"], ["sched"]]
            if rng.random() < 0.6:
                live = [l[0] for l in locs if l[9] in ("conflict", "town")]
                if live:
                    ops.append(["insert", rng.choice(live), rng.randint(1, 4)])
            ops.append(["evolve"])
        case = abm.base_case(rng, par=par, net=([], []), settings=s, ops=ops)
        case.update(files=files, csv="input_csv", micro=micro, want={"locs": locs, "roads": roads, "closures": closures, "major": major})
        case["fs"] = {"read_chunk": rng.choice([0, 0, 0, 5, 1]), "chunk_path": "input_csv"}
        case["bad"] = bad
        if not bad and rng.random() < 0.2:
            case["faults"] = [{"on": "read", "node": "rank%d" % rng.randrange(par) if par else "serial", "path": rng.choice(sorted(files)), "k": rng.choice([0, 0, 1, 3])}]
        return case

    def shrinks(self, case):
        for k in range(len(case["ops"]) - 1, -1, -1):
            yield dict(case, ops=case["ops"][:k] + case["ops"][k + 1:])
        for key in ("faults", "fs"):
            if case.get(key):
                yield dict(case, **{key: [] if key == "faults" else {}})

    def evaluate(self, case, ctx):
        res = model.simulate(case, ctx, driver=NetDriver)
        hit = [f for f in res.faults if f.get("hits")]
        if hit:
            ctx.probe("read errors")
            n = [x for x in res.nodes if x["name"] == hit[0]["node"]][0]
            if not n["error"] or n["snaps"]:
                return [("unreported", "reading %s failed on %s, which went on with %s" % (hit[0]["hits"][0], n["name"], "a network of %d locations" % len(n["snaps"][0]["locs"]) if n["snaps"] else "no report"))]
            return []
        if case.get("bad"):
            ctx.probe("roads to unknown places")
            for n in res.nodes:
                if not n["error"] or n["snaps"]:
                    return [("unknown", "routes.csv names a place that is not in locations.csv, and %s went on" % n["name"])]
            return []
        v = model.finished(res)
        if v:
            return v
        w = case["want"]
        micro = case["micro"]
        for n in res.nodes:
            for k, s in enumerate(n["snaps"]):
                where = "after reading" if k == 0 else model.opname(case, k)
                if k == 0:
                    if s["closures"] != w["closures"]:
                        return [("closures", "scheduled closures are %s, the file has %s" % (s["closures"], w["closures"]))]
                    if s["map"] != sorted(l[0] for l in w["locs"]):
                        return [("names", "the name table has %s" % s["map"])]
                if s["major"] != w["major"]:
                    return [("major", "%s: the major routes are %s, the file has %s" % (where, s["major"], w["major"]))]
                if not s["ends"]:
                    return [("ends", "%s: a road does not start or end at a location of the simulation" % where)]
                a, b = sorted(w["locs"]), sorted(s["locs"])
                if k or micro:
                    a = [x[:9] for x in a]
                    b = [x[:9] for x in b]
                if micro:
                    a = [x[:7] for x in a]
                    b = [x[:7] for x in b]
                if a != b:
                    return [("locations", "%s: %s" % (where, self.diff(a, b)))]
                key = lambda r: (r[0], r[1], r[2], r[3], str(r[4]), str(r[5]))
                a, b = sorted(w["roads"], key=key), sorted(s["roads"], key=key)
                if k:
                    # removing a forced redirection is what some closures are for
                    if any(c[0].startswith("remove") for c in w["closures"]):
                        a = [r[:3] + r[4:] for r in a]
                        b = [r[:3] + r[4:] for r in b]
                if a != b:
                    return [("roads", "%s: %s" % (where, self.diff(a, b)))]
                ctx.probe("roads closed meanwhile", s["shut"] > 0)
        if len(w["locs"]) > 2 and any(r[3] or r[4] or r[5] for r in w["roads"]) and w["closures"]:
            ctx.nontrivial()
        ctx.probe("networks")
        ctx.probe("micro networks", micro)
        ctx.probe("major routes", len(w["major"]))
        return []

    def diff(self, a, b):
        miss, extra = [x for x in a if x not in b], [x for x in b if x not in a]
        if not miss and not extra:
            return "duplicates among %s" % ([x for x in b if b.count(x) != a.count(x)][:2],)
        return "the files describe %s, the simulation has %s" % (miss[:2], extra[:2])
