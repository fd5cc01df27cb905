"""Agent-based-model scenarios: generation of networks / operation histories, the driver that executes them on
the real code (sequential flee or parallel pflee on simulated MPI) and the snapshot observer."""
import hashlib, importlib, json, os, random, shutil, sys, tempfile
from . import core, mpi
from .core import Chooser, Env, World

SHM = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()


class Res:
    """result of one simulated run"""

    def __init__(self):
        self.outcome = None
        self.nodes = []      # per node: {"snaps": [...], "error":..., ...}
        self.files = {}
        self.world = None

    @property
    def errors(self):
        return [(n["name"], n["error"]) for n in self.nodes if n["error"]]


def scratch():
    return tempfile.mkdtemp(prefix="dst", dir=SHM)


# ------------------------------------------------------------------------------------------ observer

def loc_state(l, par):
    d = {
        "n": int(l.numAgents), "pop": l.pop, "cap": l.capacity, "sp": int(l.numAgentsSpawned), "conflict": float(l.conflict),
        "camp": bool(l.camp), "idp": bool(l.idpcamp), "town": bool(l.town), "fwd": bool(l.forward), "marker": bool(l.marker), "flood": bool(l.flood_zone),
        "mc": float(l.movechance), "foreign": bool(l.foreign), "country": l.country, "toc": l.time_of_conflict,
        "links": [(k.endpoint.name, float(k.get_distance()), int(k.numAgents), bool(k.closed), bool(k.forced_redirection), int(k.cumNumAgents), k.startpoint.name) for k in l.links],
        "closed": [(k.endpoint.name, float(k.get_distance()), int(k.numAgents), bool(k.closed), bool(k.forced_redirection), int(k.cumNumAgents), k.startpoint.name) for k in l.closed_links],
    }
    d["lattr"] = sorted([[k.endpoint.name, dict(k.attributes)] for k in list(l.links) + list(l.closed_links)], key=lambda x: x[0])
    d["fl"] = l.attributes.get("flood_level")
    d["ffl"] = l.attributes.get("forecast_flood_levels")
    try:
        d["score"] = float(l.getScore(1))
    except Exception:
        d["score"] = None
    d["routes"] = {k: [float(v[0]), list(v[1]), v[2].name] for k, v in (l.routes or {}).items()} if isinstance(l.routes, dict) else repr(l.routes)
    return d


def agent_state(a):
    L = a.location
    if L is None:
        pos = None
    elif hasattr(L, "endpoint"):
        pos = ["link", L.startpoint.name, L.endpoint.name, float(a.distance_travelled_on_link), bool(L.closed), float(L.get_distance())]
    else:
        pos = ["loc", L.name]
    d = {
        "aid": a.attributes.get("aid") if isinstance(a.attributes, dict) else None,
        "attr": dict(a.attributes), "pos": pos, "home": a.home_location.name, "trav": bool(a.travelling),
        "places": a.places_travelled, "tsd": a.timesteps_since_departure, "moved": float(a.distance_moved_this_timestep),
        "recent": float(a.recent_travel_distance), "route": list(a.route) if a.route else [],
    }
    dt = getattr(a, "distance_travelled", None)
    d["dist"] = float(dt) if dt is not None else None
    lv = getattr(a, "locations_visited", None)
    d["visited"] = [(v.startpoint.name, v.endpoint.name, float(v.get_distance())) if hasattr(v, "endpoint") else (v.name,) for v in lv] if lv is not None else None
    return d


def snap(e, par, what="full"):
    s = {"time": int(e.time), "total": int(e.numAgents())}
    s["locs"] = {l.name: loc_state(l, par) for l in e.locations}
    s["order"] = [l.name for l in e.locations]
    s["agents"] = [agent_state(a) for a in e.agents]
    s["w"] = [float(x) for x in e.spawn_weights]
    if hasattr(e, "num_arrivals"):
        s["arr"] = [int(x) for x in e.num_arrivals]
        s["dur"] = [float(x) for x in e.travel_durations]
    return s


# ------------------------------------------------------------------------------------------ driver

def make_settings(case):
    return case.get("settings_text") or json.dumps(case.get("settings") or {})


class Driver:
    """executes a case's operations on one node"""

    def __init__(self, case, rank=0):
        self.case = case
        self.rank = rank
        self.par = bool(case.get("par"))
        self.snaps = []
        self.rets = []
        self.aid = 0
        self.opi = -1
        self.progress = 0

    def imports(self):
        im = importlib.import_module
        self.flee = im("flee.pflee" if self.par else "flee.flee")
        self.SS = im("flee.SimulationSettings").SimulationSettings
        self.spawning = im("flee.spawning")

    def build(self):
        case = self.case
        if not os.path.exists("simsetting.yml"):
            with core._real_open("simsetting.yml", "w") as f:
                f.write(make_settings(case))
        self.SS.ReadFromYML("simsetting.yml")
        self.SS.ConflictInputFile = case.get("conflict_file", "")
        self.SS.FloodLevelInputFile = case.get("flood_file", "")
        self.e = e = self.flee.Ecosystem()
        if self.par:
            e.parallel_mode = case.get("pmode", "loc-par")
            e.latency_mode = case.get("lmode", "high_latency")
        self.lm = {}
        if case.get("csv"):
            self.build_csv()
        else:
            for L in case["locs"]:
                kw = dict(L)
                name = kw.pop("name")
                self.lm[name] = e.addLocation(name=name, **kw)
            for k in case["links"]:
                kw = {}
                if len(k) > 3 and k[3]:
                    kw["attributes"] = dict(k[3])
                if len(k) > 4 and k[4]:
                    kw["forced_redirection"] = True
                e.linkUp(endpoint1=k[0], endpoint2=k[1], distance=float(k[2]), **kw)
            e.closures = [list(c) for c in case.get("closures", [])]

    def build_csv(self):
        im = importlib.import_module
        self.ig = im("flee.InputGeography").InputGeography()
        d = self.case["csv"]
        self.ig.ReadLocationsFromCSV(d + "/locations.csv")
        self.ig.ReadLinksFromCSV(d + "/routes.csv")
        self.ig.ReadClosuresFromCSV(d + "/closures.csv")
        self.e, self.lm = self.ig.StoreInputGeographyInEcosystem(self.e)

    def table(self):
        if getattr(self, "d", None) is None:
            im = importlib.import_module
            H = im("flee.datamanager.handle_refugee_data")
            c = self.case["table"]
            self.d = H.RefugeeTable(csvformat="generic", data_directory=c.get("dir", "source_data"), start_date=c["start"],
                                    data_layout="data_layout.csv", population_scaledown_factor=c.get("scale", 1),
                                    start_empty=self.SS.spawn_rules["EmptyCampsOnDay0"])
        return self.d

    def do(self, op):
        e, k = self.e, op[0]
        a = op[1:]
        if k == "insert":
            for _ in range(a[1]):
                self.aid += 1
                attr = {"aid": self.aid}
                if len(a) > 2:
                    attr.update(a[2])
                e.insertAgent(location=self.lm[a[0]], attributes=attr)
        elif k == "add":
            for _ in range(a[1]):
                self.aid += 1
                attr = {"aid": self.aid}
                if len(a) > 2:
                    attr.update(a[2])
                e.addAgent(location=self.lm[a[0]], attributes=attr)
        elif k == "shared":
            # one attribute dictionary, reused by the caller for all the agents and changed afterwards
            attr = {}
            for _ in range(a[1]):
                self.aid += 1
                attr["aid"] = self.aid
                attr.update(a[2])
                (e.addAgent if a[3] else e.insertAgent)(location=self.lm[a[0]], attributes=attr)
            attr.clear()
        elif k == "inserts":
            e.insertAgents(location=self.lm[a[0]], number=a[1])
        elif k == "clear":
            e.clearLocationsFromAgents(location_names=list(a[0]))
        elif k == "close_link":
            return e.close_link(startpoint=a[0], endpoint=a[1], twoway=a[2])
        elif k == "remove_link":
            return e.remove_link(startpoint=a[0], endpoint=a[1], twoway=a[2])
        elif k == "reopen_link":
            return e.reopen_link(startpoint=a[0], endpoint=a[1], twoway=a[2])
        elif k == "close_loc":
            return e.close_location(location_name=a[0], twoway=a[1])
        elif k == "reopen_loc":
            return e.reopen_location(location_name=a[0], twoway=a[1])
        elif k == "close_border":
            return e.close_border(source_country=a[0], dest_country=a[1], twoway=a[2])
        elif k == "reopen_border":
            return e.reopen_border(source_country=a[0], dest_country=a[1], twoway=a[2])
        elif k == "camp_close":
            e.close_camp(a[0], IDP=a[1])
        elif k == "camp_open":
            e.open_camp(a[0], IDP=a[1])
        elif k == "redir":
            e.set_forced_redirection(a[0], a[1], a[2])
        elif k == "type":
            e.change_location_type(a[0], a[1])
        elif k == "conflict":
            e.set_conflict_intensity(name=a[0], conflict_intensity=a[1])
        elif k == "attr":
            self.lm[a[0]].setAttribute(a[1], a[2])
        elif k == "pop":
            self.lm[a[0]].pop = a[1]
        elif k == "sched":
            e.enact_border_closures(e.time, **({"twoway": a[0]} if a else {}))
        elif k == "zones":
            self.ig.AddNewConflictZones(e, e.time)
        elif k == "spawn":
            r = self.spawning.spawn_daily_displaced(e, e.time, self.table())
            return [int(x) for x in r]
        elif k == "initial":
            for c in e.get_camp_names():
                self.spawning.add_initial_refugees(e, self.table(), self.lm[c])
        elif k == "agents_csv":
            ig = getattr(self, "ig", None) or importlib.import_module("flee.InputGeography").InputGeography()
            ig.ReadAgentsFromCSV(e, a[0])
        elif k == "demographics":
            self.spawning.read_demographics(e)
        elif k == "draw":
            attr = self.spawning.draw_samples(e, self.lm[a[0]])
            e.addAgent(location=self.lm[a[0]], attributes=attr)
        elif k == "draws":
            for _ in range(a[1]):
                e.insertAgent(location=self.lm[a[0]], attributes=self.spawning.draw_samples(e, self.lm[a[0]]))
        elif k == "weights":
            self.spawning.refresh_spawn_weights(e)
        elif k == "recount":
            if self.par:
                e.updateNumAgents(log=False)
        elif k == "graph":
            vs, es = e.export_graph()
            return {"places": list(vs), "roads": [[x, y, float(z)] for x, y, z in es], "camps": list(e.get_camp_names())}
        elif k == "idps":
            return int(e.numIDPs())
        elif k == "numagents":
            return int(e.numAgents())
        elif k == "evolve":
            e.evolve()
        elif k == "print":
            e.printComplete()
        else:
            raise core.HarnessError("unknown op %r" % (op,))
        return None

    def snap(self):
        return snap(self.e, self.par)

    def main(self, node):
        w = node.world
        self.imports()
        self.build()
        w.log("built")
        self.snaps.append(self.snap())
        for i, op in enumerate(self.case["ops"]):
            self.opi = node.op = i
            w.log("op", (i, op[0]))
            r = self.do(op)
            self.rets.append(r)
            s = self.snap()
            self.snaps.append(s)
            self.progress = i + 1
            w.log("snap", hashlib.sha1(json.dumps(s, sort_keys=True, default=str).encode()).hexdigest()[:16])
        return True


def prepare_dir(root, case, sub):
    d = os.path.join(root, sub)
    os.makedirs(d, exist_ok=True)
    for name, text in (case.get("files") or {}).items():
        p = os.path.join(d, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with core._real_open(p, "w", encoding="utf-8", newline="") as f:
            f.write(text)
    with core._real_open(os.path.join(d, "simsetting.yml"), "w") as f:
        f.write(make_settings(case))
    return d


def collect(root, skip=()):
    out = {}
    for dp, dn, fn in os.walk(root):
        for f in fn:
            p = os.path.join(dp, f)
            with core._real_open(p, "rb") as fh:
                out[os.path.relpath(p, root)] = fh.read()
    return out


def run(case, chooser=None, driver=Driver, keep_files=False, faults=None, fs_cfg=None):
    """run a case: sequential when case['par'] is 0, else on that many simulated processes"""
    res = Res()
    root = scratch()
    try:
        P = case.get("par") or 0
        w = World(chooser or Chooser(replay=[]), root=root, faults=case.get("faults", ()) if faults is None else faults,
                  fs_cfg=fs_cfg or case.get("fs", {}), step_cap=case.get("step_cap", 300000))
        seeds = case.get("seeds") or [1]
        drivers = []
        d = prepare_dir(root, case, "run")
        shared = mpi.Shared(w, P) if P else None
        for r in range(P or 1):
            drv = driver(case, r)
            env = Env(seed=seeds[r % len(seeds)] + (0 if r < len(seeds) else 1000 * r), cwd=d)
            if P:
                mpi.make_modules(env, shared, r)
            w.spawn("rank%d" % r if P else "serial", drv.main, env)
            drivers.append(drv)
        res.outcome = w.run()
        for n, drv in zip(w.nodes, drivers):
            res.nodes.append({"name": n.name, "snaps": drv.snaps, "rets": drv.rets, "error": n.error, "status": n.status,
                              "op": drv.opi, "progress": drv.progress, "drv": drv if keep_files == "drv" else None})
            drv.e = drv.lm = drv.d = None
            n.env.modules = {}
            n.env = None
            n.fn = None
        res.faults = w.faults
        res.world = {"steps": w.steps, "switches": w.switches, "digest": w.digest(), "fired": dict(w.fired),
                     "simtime": w.now - w.clock0, "taken": list(w.chooser.taken), "events": w.events[-60:],
                     "ncoll": shared.ncoll if shared else 0,
                     "leftover": sum(1 for x in shared.slots.values() if len(x["in"]) < P) if shared else 0}
        if keep_files:
            res.files = collect(d)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return res


# ------------------------------------------------------------------------------------------ generators

NAMES = ["Alpha", "Bravo town", "Charlie-1", "Delta", "Echo", "Foxtrot", "Golf", "Hotel", "India", "Juliett", "Kilo", "Lima", "Mike", "November"] + ["Place %d" % k for k in range(15, 41)]
COUNTRIES = ["Aland", "Borduria", "Cascara"]
REGIONS = ["north", "south", "east"]


def pick_settings(rng, **over):
    mr = {
        "max_move_speed": rng.choice([360.0, 200.0, 100.0, 420.0]),
        "max_walk_speed": rng.choice([35.0, 50.0]),
        "foreign_weight": rng.choice([1.0, 2.0]),
        "camp_weight": rng.choice([1.0, 2.0, 4.0]),
        "conflict_weight": rng.choice([0.25, 0.33, 0.5]),
        "conflict_movechance": rng.choice([1.0, 0.8]),
        "camp_movechance": rng.choice([0.001, 0.05]),
        "idpcamp_movechance": 0.1,
        "default_movechance": rng.choice([0.3, 0.6, 1.0]),
        "awareness_level": rng.choice([1, 1, 2, 2, 3]),
        "capacity_buffer": rng.choice([0.9, 0.5, 0.75]),
        "capacity_scaling": rng.choice([1.0, 1.0, 0.5, 2.0]),
        "avoid_short_stints": rng.random() < 0.4,
        "start_on_foot": rng.random() < 0.4,
        "softening": rng.choice([10.0, 0.0, 1.0]),
        "weight_power": rng.choice([1.0, 1.0, 2.0]),
        "distance_power": rng.choice([1.0, 0.5]),
        "fixed_routes": rng.random() < 0.3,
        "stay_close_to_home": rng.random() < 0.2,
        "pruning_threshold": rng.choice([1.0, 1.0, 1.5, 4.0]),
    }
    s = {"log_levels": {}, "spawn_rules": {}, "move_rules": mr}
    for k, v in over.items():
        if isinstance(v, dict):
            s.setdefault(k, {}).update(v)
    return s


def size(rng, lo, hi):
    """number of places: mostly small, some networks are large"""
    return rng.randint(15, 40) if rng.random() < 0.03 else rng.randint(lo, hi)


def gen_net(rng, n=None, dmin=5.0, dmax=400.0, style=None, camps=True, conflict=True, caps=False, pops=True):
    """returns (locations as addLocation kwargs, links)"""
    n = n or rng.randint(2, 8)
    names = NAMES[:n]
    style = style or rng.choice(["line", "star", "ring", "tree", "graph", "graph", "islands"])
    locs = []
    for i, nm in enumerate(names):
        L = {"name": nm, "x": round(rng.uniform(0, 3), 3), "y": round(rng.uniform(0, 3), 3),
             "country": COUNTRIES[rng.randrange(3) if rng.random() < 0.5 else 0], "region": rng.choice(REGIONS)}
        L["foreign"] = L["country"] != COUNTRIES[0]
        t = rng.random()
        if i == 0 and conflict:
            L["location_type"] = "conflict_zone"
        elif t < 0.3 and camps:
            L["location_type"] = rng.choice(["camp", "camp", "idpcamp"])
        elif t < 0.4 and conflict:
            L["location_type"] = "conflict_zone"
        elif t < 0.48:
            L["location_type"] = "forwarding_hub"
        else:
            L["location_type"] = "town"
        if pops:
            L["pop"] = rng.choice([100, 500, 1000, 20000])
        if "camp" in L["location_type"]:
            L["pop"] = 0
            if caps and rng.random() < 0.8:
                L["capacity"] = rng.choice([1, 2, 3, 5, 8, 10, 20])
            elif rng.random() < 0.5:
                L["capacity"] = rng.choice([50, 1000])
        L["attributes"] = {}
        locs.append(L)
    pairs = []

    def dist():
        r = rng.random()
        if r < 0.4:
            return round(rng.uniform(dmin, min(60.0, dmax)), 2)
        return round(rng.uniform(dmin, dmax), 2)
    if style == "line":
        pairs = [(i, i + 1) for i in range(n - 1)]
    elif style == "star":
        pairs = [(0, i) for i in range(1, n)]
    elif style == "ring":
        pairs = [(i, (i + 1) % n) for i in range(n)] if n > 2 else [(0, 1)]
    elif style == "tree":
        pairs = [(rng.randrange(i), i) for i in range(1, n)]
    elif style == "islands":
        pairs = [(i, i + 1) for i in range(n - 1) if rng.random() < 0.6]
    else:
        s = {(rng.randrange(i), i) for i in range(1, n)}
        for _ in range(rng.randint(0, n)):
            a, b = rng.randrange(n), rng.randrange(n)
            if a != b:
                s.add((min(a, b), max(a, b)))
        pairs = sorted(s)
    links = []
    if n == 1:
        pairs = []
    for a, b in pairs:
        if rng.random() < 0.5:
            a, b = b, a
        links.append([names[a], names[b], dist()])
    return locs, links


def gen_ops(rng, locs, links, steps, inserts=True, closures=True, clears=True, par=False, max_agents=40, types=True, conflicts=True):
    ops = []
    names = [l["name"] for l in locs]
    total = 0

    def ins(n):
        nonlocal total
        n = min(n, max_agents - total)
        if n > 0:
            total += n
            ops.append([rng.choice(["insert", "insert", "add"]), rng.choice(names[:max(1, len(names) // 2)]), n])
    ins(rng.randint(1, 12))
    for t in range(steps):
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            r = rng.random()
            if r < 0.4 and inserts:
                ins(rng.randint(1, 6))
            elif r < 0.7 and closures and links:
                k = rng.choice(links)
                a, b = (k[0], k[1]) if rng.random() < 0.5 else (k[1], k[0])
                q = rng.random()
                if q < 0.25:
                    ops.append(["close_link", a, b, rng.random() < 0.5])
                elif q < 0.45:
                    ops.append(["reopen_link", a, b, rng.random() < 0.5])
                elif q < 0.6:
                    ops.append(["close_loc", rng.choice(names), rng.random() < 0.7])
                elif q < 0.75:
                    ops.append(["reopen_loc", rng.choice(names), rng.random() < 0.7])
                elif q < 0.87:
                    c = rng.sample(COUNTRIES, 2)
                    ops.append(["close_border", c[0], c[1], rng.random() < 0.5])
                elif q < 0.97:
                    c = rng.sample(COUNTRIES, 2)
                    ops.append(["reopen_border", c[0], c[1], rng.random() < 0.5])
                else:
                    ops.append(["remove_link", a, b, rng.random() < 0.5])
            elif r < 0.8 and clears:
                ops.append(["clear", rng.sample(names, rng.randint(1, min(2, len(names))))])
            elif r < 0.87 and types:
                ops.append(["type", rng.choice(names), rng.choice(["town", "camp", "idpcamp", "conflict_zone", "forwarding_hub"])])
            elif r < 0.94 and conflicts:
                ops.append(["conflict", rng.choice(names), rng.choice([0.0, 0.5, 1.0])])
            elif r < 0.97:
                ops.append([rng.choice(["camp_close", "camp_open"]), rng.choice(names), rng.random() < 0.3])
        ops.append(["evolve"])
    return ops


def base_case(rng, par=0, steps=None, net=None, settings=None, ops=None, **kw):
    locs, links = net or gen_net(rng)
    case = {"kind": "abm", "par": par, "settings": settings or pick_settings(rng), "locs": locs, "links": links,
            "seeds": [rng.randrange(1 << 31) for _ in range(max(1, par))]}
    case["ops"] = ops if ops is not None else gen_ops(rng, locs, links, steps or rng.randint(2, 8), par=bool(par))
    if par:
        case["pmode"] = rng.choice(["loc-par", "loc-par", "classic"])
        case["lmode"] = rng.choice(["high_latency", "low_latency"])
        if rng.random() < 0.4:
            case["faults"] = [{"on": "point", "node": "rank%d" % rng.randrange(par), "k": rng.randint(1, 400), "kind": "stall", "dt": rng.choice([1.0, 60.0, 3600.0])}
                              for _ in range(rng.randint(1, 3))]
    case.update(kw)
    return case
