"""Coupled macro/micro ensembles: generation, driver on the real flee.coupling.CouplingInterface, simulated MUSCLE3 or
file exchange, and the oracles shared by C16-C21 and C24."""
import collections, importlib, json, os, random, shutil, sys
import matplotlib, matplotlib.pyplot, pandas, seaborn      # noqa: shared by all nodes, as shared libraries are
from . import abm, core, mpi, muscle
from .core import Env, World

SIDES = ("macro", "micro")
OTHER = {"macro": "micro", "micro": "macro"}
CHANNEL = {"micro": ("out", "in"), "macro": ("in", "out")}    # (written, read), as in multiscale/run_mscale.py


class Model(abm.Driver):
    """one process of one instance of one side, or a manager"""

    def __init__(self, cc, side, inst, rank, rec):
        sc = dict(cc["sides"][side])
        sc["ops"] = []
        super().__init__(sc, rank)
        self.par = sc["flavour"] != "flee"
        self.cc, self.side, self.inst, self.rec = cc, side, inst, rec
        self.submodel = side
        self.aid = 1000000 * (SIDES.index(side) + 1) + 1000 * inst
        self.pre, self.post, self.days = {}, {}, 0
        self.newrefs = []

    def imports(self):
        super().imports()
        fl = self.case["flavour"]
        if fl != "flee":
            self.flee = importlib.import_module("flee." + {"pflee": "pflee", "pmicro": "pmicro_flee"}[fl])

    def build(self):
        if self.case["flavour"] == "pmicro":
            case, e = self.case, None
            self.SS.ReadFromYML("simsetting.yml")
            self.SS.ConflictInputFile, self.SS.FloodLevelInputFile = case.get("conflict_file", ""), ""
            self.e = self.flee.Ecosystem()
            self.e.parallel_mode, self.e.latency_mode = case["pmode"], case["lmode"]
            self.lm = {}
            if case.get("csv"):
                self.build_csv()
            else:
                for L in case["locs"]:
                    kw = dict(L)
                    name = kw.pop("name")
                    self.lm[name] = self.e.addLocation(name=name, **kw)
                for i, k in enumerate(case["links"]):
                    self.e.linkUp(endpoint1=k[0], endpoint2=k[1], distance=float(k[2]), link_type=("drive", "walk", "crossing")[i % 3])
                self.e.closures = []
        else:
            super().build()

    def build_csv(self):
        mod = "flee.micro_InputGeography" if self.case["flavour"] == "pmicro" else "flee.InputGeography"
        self.ig = importlib.import_module(mod).InputGeography()
        d = self.case["csv"]
        if self.case.get("conflict_file"):
            self.ig.ReadConflictInputCSV(self.case["conflict_file"])
        self.ig.ReadLocationsFromCSV(d + "/locations.csv")
        self.ig.ReadLinksFromCSV(d + "/routes.csv")
        self.ig.ReadClosuresFromCSV(d + "/closures.csv")
        self.e, self.lm = self.ig.StoreInputGeographyInEcosystem(self.e)

    def interface(self):
        cc = self.cc
        C = importlib.import_module("flee.coupling")
        self.c = C.CouplingInterface(e=self.e, submodel=self.submodel, instance_index=self.inst, num_instances=cc["n"],
                                     coupling_type=cc["ctype"], outputdir="../out", log_exchange_data=bool(cc.get("log")))
        if cc["ctype"] == "file":
            self.c.setCouplingChannel(outputchannel=CHANNEL[self.side][0], inputchannel=CHANNEL[self.side][1])
        for loc, name, direction in self.case["coupled"]:
            self.c.addCoupledLocation(location=self.lm[loc], name=name, direction=direction, interval=cc.get("interval", 1))
        if self.case.get("ghosts"):
            if self.side == "macro":
                self.c.addGhostLocations(ig=self.ig)
            else:
                self.c.addMicroConflictLocations(ig=self.ig)

    def mark(self, w, what, t):
        self.rec.events.append((what, self.submodel, self.inst, self.rank, t, len(self.rec.events), len(w.cur.sleeps)))
        w.log(what, (self.submodel, self.inst, t))

    def main(self, node):
        w = node.world
        self.w = w
        self.imports()
        self.build()
        self.interface()
        self.mark(w, "start", -1)
        while self.c.reuse_coupling():
            for t in range(self.cc["days"]):
                ops = self.case["daily"][self.inst][t] if t < len(self.case["daily"][self.inst]) else []
                n0 = len(self.e.agents)
                for op in ops:
                    self.do(op)
                if self.par:
                    self.e.updateNumAgents(log=False)
                if self.cc.get("log"):
                    k = sum(op[2] for op in ops if op[0] == "insert") + 7 * t + self.inst
                    self.newrefs.append((t, k))
                    self.c.logNewAgents(t=t, new_refs=k)
                self.pre[t] = abm.snap(self.e, self.par)
                self.mark(w, "pre", t)
                node.op = t
                self.c.Couple(time=t)
                node.op = None
                self.mark(w, "post", t)
                self.post[t] = abm.snap(self.e, self.par)
                self.e.evolve()
                self.days = t + 1
                w.log("snap", json.dumps(self.post[t]["agents"], sort_keys=True, default=str)[-200:])
                if self.cc.get("rows") and self.rank == 0:
                    self.row(t)
            if self.cc["ctype"] == "file":
                break
        self.mark(w, "end", self.cc["days"])
        node.op = "save"
        if self.cc.get("log") and self.rank == 0:
            self.c.saveExchangeDataToFile()
            self.rec.saved.add((self.side, self.inst))
            if self.cc.get("script_end"):
                # as at the end of the multiscale run script: plots of all instances, then the combined output
                if self.inst == 0:
                    os.makedirs("../out/%s/plot_exchange_data" % self.cc["ctype"], exist_ok=True)
                    self.c.plotExchangedData()
                    self.mark(w, "plotted", self.cc["days"])
                    if self.cc.get("rows"):
                        self.c.sumOutputCSVFiles()
                    sys.modules["matplotlib.pyplot"].close("all")
            elif self.cc.get("rows") and self.inst == 0:
                # the combined output is made from finished runs
                n = self.cc["n"]
                w.block(lambda: all((self.side, i) in self.rec.saved for i in range(n)), "all instances to finish")
                self.c.sumOutputCSVFiles()
        return True

    def row(self, t):
        """one line of the instance's own output table, as the multiscale run script writes it"""
        p = "../out/%s/%s/out[%d].csv" % (self.cc["ctype"], self.side, self.inst)
        names = [l["name"] for l in self.case["locs"]]
        with open(p, "a+", encoding="utf-8") as f:
            if t == 0:
                f.write("Day," + ",".join("%s sim" % n for n in names) + ",%s error,total\n" % names[0])
            vals = [int(l.numAgents) for l in self.e.locations]
            err = round(vals[0] / 7.0, 4)
            f.write(",".join(str(x) for x in [t] + vals + [err, int(self.e.numAgents())]) + "\n")
            f.flush()
        self.rec.rows.setdefault((self.side, self.inst), []).append([t] + vals + [err, int(self.e.numAgents())])


class Manager(Model):
    """macro_manager / micro_manager of a MUSCLE3 run: built on its side's input, runs no model"""

    def __init__(self, cc, side, rec):
        super().__init__(cc, side, 0, 0, rec)
        self.submodel = side + "_manager"

    def main(self, node):
        w = node.world
        self.imports()
        self.build()
        self.interface()
        while self.c.reuse_coupling():
            for t in range(self.cc["days"]):
                self.mark(w, "pre", t)
                self.c.Couple(time=t)
                self.mark(w, "post", t)
                self.days = t + 1
        return True


class Rec:
    def __init__(self):
        self.events, self.rows, self.saved, self.restarts = [], {}, set(), 0


class Res:
    pass


def run(cc, chooser, keep_files=False):
    res = Res()
    rec = Rec()
    root = abm.scratch()
    try:
        w = World(chooser, root=root, faults=cc.get("faults", ()), fs_cfg=cc.get("fs") or {}, step_cap=cc.get("step_cap", 20000), fair_cap=cc.get("fair_cap", 150000))
        w.patience = cc.get("patience", 60)
        bus = muscle.Bus(w, cc["n"], cc.get("delays"), cc.get("dseed", 0)) if cc["ctype"] == "muscle3" else None
        for s in SIDES:
            abm.prepare_dir(root, cc["sides"][s], s)
        for d in ("coupled", "macro", "micro", "log_exchange_data"):
            os.makedirs(os.path.join(root, "out", cc["ctype"], d))
        for name, text in (cc.get("stale") or {}).items():
            with core._real_open(os.path.join(root, "out", name), "w") as f:
                f.write(text)
        models, nodes, shareds = {}, {}, []

        def start(side, inst, rank, shared):
            sc = cc["sides"][side]
            drv = Model(cc, side, inst, rank, rec)
            env = Env(seed=sc["seeds"][inst] + 7919 * rank, cwd=os.path.join(root, side))
            if shared:
                mpi.make_modules(env, shared, rank)
            muscle.make_modules(env, bus, side, inst, rank)
            P = sc["par"]
            n = w.spawn("%s%d%s" % (side, inst, ".%d" % rank if P > 1 else ""), drv.main, env)
            models[(side, inst, rank)] = drv
            nodes[n.name] = (side, inst, rank, shared)
            drv.node = n

        order = [(s, i) for s in SIDES for i in range(cc["n"])]
        random.Random(cc.get("order", 0)).shuffle(order)
        for s, i in order:
            P = cc["sides"][s]["par"]
            sh = mpi.Shared(w, max(1, P), key="%s%d" % (s, i)) if cc["sides"][s]["flavour"] != "flee" else None
            if sh:
                shareds.append(sh)
            for r in range(max(1, P)):
                start(s, i, r, sh)
        managers = {}
        if cc["ctype"] == "muscle3":
            for s in SIDES:
                drv = Manager(cc, s, rec)
                env = Env(seed=5, cwd=os.path.join(root, s))
                if cc["sides"][s]["flavour"] != "flee":
                    sh = mpi.Shared(w, 1, key=s + "_manager")
                    mpi.make_modules(env, sh, 0)
                muscle.make_modules(env, bus, s + "_manager", 0)
                drv.node = w.spawn(s + "_manager", drv.main, env)
                managers[s] = drv
        if cc.get("restart"):
            def on_crash(world, node):
                s, i, r, sh = nodes[node.name]
                rec.restarts += 1
                w.fire("restart")
                if sh:
                    shareds.remove(sh)
                    sh = mpi.Shared(w, 1, key=sh.key + "'")
                    shareds.append(sh)
                start(s, i, r, sh)
            w.on_crash = on_crash
        res.outcome = w.run()
        res.models, res.managers, res.rec, res.bus = models, managers, rec, bus
        res.errors = [(n.name, n.error) for n in w.nodes if n.error]
        res.faults = w.faults
        res.dead = [n.name for n in w.nodes if n.dead]
        res.leftover = sum(1 for sh in shareds for x in sh.slots.values() if len(x["in"]) < sh.size)
        res.world = {"steps": w.steps, "switches": w.switches, "digest": w.digest(), "fired": dict(w.fired), "simtime": w.now - w.clock0,
                     "taken": list(w.chooser.taken), "events": w.events[-60:], "ncoll": sum(s.ncoll for s in shareds)}
        res.fs = w.fs_cfg
        for drv in list(models.values()) + list(managers.values()):
            drv.status, drv.error, drv.sleeps = drv.node.status, drv.node.error, drv.node.sleeps
            drv.node = None
            drv.e = drv.lm = drv.c = drv.ig = drv.w = drv.flee = None
            drv.SS = drv.spawning = None
        for n in w.nodes:
            n.env.modules = {}
            n.env = n.fn = None
        if keep_files:
            res.files = abm.collect(os.path.join(root, "out"))
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return res


# ------------------------------------------------------------------------------------------ generation

NAMES = {"macro": ["Mac-%s" % x for x in "ABCDEFGH"], "micro": ["Mic-%s" % x for x in "ABCDEFGH"]}


def gen(rng, n=None, ctype="file", days=None, par=None, tier="quick", one_way=True, faults=True, restart=None, log=False):
    n = n or rng.choice([1, 1, 2, 3])
    days = days or rng.randint(1, 6)
    k = rng.randint(1, 3)
    # (some of the identifiers start with another one)
    cnames = ["Cpl-%d" % j for j in range(k)] if rng.random() < 0.6 else rng.sample(["Cpl", "Cpl-1", "Cpl-10", "Cpl-1 B", "pl-1"], k)
    ghosts = rng.random() < 0.3
    dirs = {}
    for c in cnames:
        d = rng.choice(["inout", "inout", "inout", "out>in", "in>out"] if one_way else ["inout"])
        dirs[c] = {"macro": {"inout": "inout", "out>in": "out", "in>out": "in"}[d], "micro": {"inout": "inout", "out>in": "in", "in>out": "out"}[d]}
    ghost = ["Gh-%d" % j for j in range(rng.randint(1, 2))] if ghosts else []
    late = {g: rng.choice([0, 1, 2, 99]) for g in ghost} if rng.random() < 0.4 else None
    cc = {"kind": "coupled", "ctype": ctype, "n": n, "days": days, "interval": rng.choice([1, 1, 1, 2]), "sides": {}, "log": bool(log),
          "order": rng.randrange(1000)}
    if ghosts:
        cc["interval"] = 1
    for side in SIDES:
        fl = rng.choice(["flee", "flee", "pflee"] + (["pmicro"] if side == "micro" else []))
        P = 0 if fl == "flee" else rng.choice([1, 1, 2] if par is None else par)
        if n > 2 and P > 1:
            P = 1
        own = NAMES[side][:rng.randint(1, 4)]
        names = own + cnames
        locs, links = abm.gen_net(rng, n=len(names), style=rng.choice(["line", "star", "ring", "tree", "graph"]), dmax=rng.choice([60.0, 400.0]))
        ren = dict(zip(abm.NAMES, rng.sample(names, len(names))))
        for l in locs:
            l["name"] = ren[l["name"]]
        links = [[ren[a], ren[b], d] for a, b, d in [x[:3] for x in links]]
        by = {l["name"]: l for l in locs}
        for c in cnames:
            if rng.random() < 0.6:
                by[c]["location_type"] = "town"
                by[c]["pop"] = 100
        rename = {}
        if not ghosts:
            # the name of a location may differ from the identifier shared with the other model
            for c in cnames:
                if rng.random() < 0.3:
                    rename[c] = c + " (%s)" % side
            for l in locs:
                l["name"] = rename.get(l["name"], l["name"])
            links = [[rename.get(a, a), rename.get(b, b), d] for a, b, d in links]
        for g in ghost:
            locs.append({"name": g, "x": 1.0, "y": 1.0, "country": abm.COUNTRIES[0], "region": "north", "foreign": False, "location_type": "conflict_zone",
                         "pop": 100, "attributes": {}})
            if side == "micro":
                links.append([g, rng.choice(names), round(rng.uniform(5, 100), 1)])
        settings = abm.pick_settings(rng)
        settings["move_rules"]["fixed_routes"] = False if rng.random() < 0.7 else settings["move_rules"]["fixed_routes"]
        if rng.random() < 0.3:
            settings["log_levels"] = {"camp": 1}
        sc = {"kind": "abm", "flavour": fl, "par": P, "settings": settings, "locs": locs, "links": links,
              "pmode": rng.choice(["loc-par", "classic"]), "lmode": rng.choice(["high_latency", "low_latency"]),
              "seeds": [rng.randrange(1 << 30) for _ in range(n)], "coupled": [[rename.get(c, c), c, dirs[c][side]] for c in cnames], "ghosts": ghosts}
        rng.shuffle(sc["coupled"])
        pool = [l["name"] for l in locs]
        allow = pool + ghost * 3 if side == "macro" else pool
        sc["daily"] = []
        for i in range(n):
            plan = []
            for t in range(days):
                ops = []
                for _ in range(rng.choice([0, 1, 1, 2])):
                    ops.append(["insert", rng.choice(allow), rng.randint(1, 9)])
                if links and rng.random() < 0.15:
                    l = rng.choice(links)
                    ops.append([rng.choice(["close_link", "reopen_link"]), l[0], l[1], True])
                plan.append(ops)
            sc["daily"].append(plan)
        if ghosts:
            from . import model
            for l in locs:
                l.pop("capacity", None) if "camp" not in l["location_type"] else None
            if late:
                # conflicts of the table, some of which break out later or never
                for l in locs:
                    if l["name"] in ghost:
                        l["location_type"] = "town"
                sc["files"] = {"input_csv/conflicts.csv": "#Day," + ",".join(ghost) + "\n" + "".join(
                    "%d,%s\n" % (t, ",".join(str(float(t >= late[g])) for g in ghost)) for t in range(days + 1))}
                sc["conflict_file"] = "input_csv/conflicts.csv"
            model.geo_csv(sc, rng)
            if fl == "pmicro":
                f = sc["files"]["input_csv/routes.csv"].splitlines()
                sc["files"]["input_csv/routes.csv"] = "\n".join([f[0] + ",link_type"] + [r + ",drive" for r in f[1:]]) + "\n"
        cc["sides"][side] = sc
    if ctype == "muscle3":
        cc["delays"] = rng.choice([[0.0], [0.0, 0.01, 1.0], [0.0, 10.0, 600.0], [5.0]])
        cc["dseed"] = rng.randrange(1000)
    fs = {}
    if faults:
        if rng.random() < 0.5:
            fs["write_chunk"] = rng.choice([1, 3, 7, 20])
        if rng.random() < 0.4:
            fs["read_chunk"] = rng.choice([1, 4, 11])
        if rng.random() < 0.5 and ctype == "file":
            fs["visibility"] = [rng.choice([0.0, 0.0, 0.3, 1.0, 4.0]) for _ in range(4)]
        fl = []
        names = node_names(cc)
        for _ in range(rng.choice([0, 1, 2, 3])):
            nm = rng.choice(names)
            fl.append(rng.choice([
                {"on": "sleep", "node": nm, "k": rng.randint(0, 8), "kind": rng.choice(["stall", "clock-jump"]), "dt": rng.choice([0.5, 2.0, 10.0, -3600.0])},
                {"on": "point", "node": nm, "k": rng.randint(1, 120), "kind": "stall", "dt": rng.choice([0.5, 2.0, 10.0])},
                {"on": "point", "node": nm, "k": rng.randint(1, 120), "kind": "clock-jump", "dt": rng.choice([3600.0, -86400.0])}]))
        for f in fl:
            if f["kind"] == "stall":
                f["dt"] = f["dt"] if f["dt"] > 0 else 10.0
        if restart and ctype == "file" and rng.random() < restart:
            single = [nm for nm in names if "." not in nm]
            if single:
                cc["restart"] = True
                for _ in range(rng.choice([1, 1, 2])):
                    nm = rng.choice(single)
                    if rng.random() < 0.7:
                        fl.append({"on": "write", "node": nm, "k": rng.randint(0, days * 2), "kind": "crash", "bytes": rng.choice([0, 1, 3, 6, 9999])})
                    else:
                        fl.append({"on": "point", "node": nm, "k": rng.randint(1, 120), "kind": "crash"})
        cc["faults"] = fl
    fs["chunk_path"] = "/out/"
    cc["fs"] = fs
    return cc


def node_names(cc):
    out = []
    for s in SIDES:
        for i in range(cc["n"]):
            P = cc["sides"][s]["par"]
            out += ["%s%d" % (s, i)] if P <= 1 else ["%s%d.%d" % (s, i, r) for r in range(P)]
    return out


# ------------------------------------------------------------------------------------------ oracles

def simulate(cc, ctx, **kw):
    n = sum(max(1, cc["sides"][s]["par"]) for s in SIDES) * cc["n"] + (2 if cc["ctype"] == "muscle3" else 0)
    r = run(cc, ctx.chooser(n, policy=kw.pop("policy", None)), **kw)
    ctx.world(r.world)
    return r


def finished(res, what="coupled run"):
    if res.errors:
        n, e = res.errors[0]
        cls = "collective-mismatch" if e[0] == "CollectiveMismatch" else "error"
        return [(cls, "%s: %s: %s: %s" % (what, n, e[0], str(e[1])[:200]))]
    if res.outcome[0] != "done":
        return [(res.outcome[0], "%s: %s: %s" % (what, res.outcome[0], str(res.outcome[1])[:300]))]
    if res.leftover:
        return [("collective-mismatch", "%s: %d collective operations not joined by all processes" % (what, res.leftover))]
    return []


def couplings(cc, side):
    """coupled name -> (location, direction), including those the ghost helpers add"""
    out = {c: (l, d) for l, c, d in cc["sides"][side]["coupled"]}
    if cc["sides"][side].get("ghosts"):
        linked = {x for k in cc["sides"][side]["links"] for x in k[:2]}
        have = {l for l, _ in out.values()}
        f = cc["sides"][side].get("conflict_file")
        table = cc["sides"][side]["files"][f].splitlines()[0].split(",")[1:] if f else None
        for l in cc["sides"][side]["locs"]:
            if (l["name"] in table if f else l["location_type"] == "conflict_zone") and l["name"] not in have:
                if side == "macro" and l["name"] not in linked:
                    out[l["name"]] = (l["name"], "out")
                if side == "micro":
                    out[l["name"]] = (l["name"], "in")
    return out


def ranks(res, cc, side, inst):
    return [res.models[(side, inst, r)] for r in range(max(1, cc["sides"][side]["par"]))]


def exchange_days(cc):
    return [t for t in range(cc["days"]) if t % cc.get("interval", 1) == 0]


def sent(res, cc, side, inst, t):
    """couple name -> number that this instance hands over on day t (its true head count)"""
    m = res.models[(side, inst, 0)]
    if t not in m.pre:
        return None
    return {c: m.pre[t]["locs"][loc]["n"] for c, (loc, d) in couplings(cc, side).items() if "out" in d}


def intake(res, cc, side, inst, t):
    """couple name -> number this instance took in on day t, per process"""
    out = []
    for m in ranks(res, cc, side, inst):
        if t not in m.post:
            return None
        d = {}
        for c, (loc, dr) in couplings(cc, side).items():
            d[c] = m.post[t]["locs"][loc]["n"] - (0 if "out" in dr else m.pre[t]["locs"][loc]["n"])
        out.append(d)
    return out


def intake_violations(res, cc, ctx=None):
    v = []
    for t in exchange_days(cc):
        for side in SIDES:
            outs = [sent(res, cc, OTHER[side], j, t) for j in range(cc["n"])]
            for i in range(cc["n"]):
                got = intake(res, cc, side, i, t)
                if got is None:
                    continue
                if any(o is None for o in outs):
                    v.append(("too-early", "%s %d finished the exchange of day %d before every instance of the other side reached it" % (side, i, t)))
                    return v
                for c, (loc, d) in couplings(cc, side).items():
                    xs = [o[c] for o in outs if c in o]
                    want = sum(xs) / len(xs) if xs and "in" in d else 0.0
                    for r, g in enumerate(got):
                        if ctx is not None and xs and sum(xs):
                            ctx.probe("exchanges of agents")
                            if len(set(xs)) > 1:
                                ctx.probe("exchanges with differing instances")
                        if abs(g[c] - want) > 0.5 + 1e-9 or (not xs or "in" not in d) and g[c] != 0:
                            v.append(("intake", "day %d: %s %d (process %d) took in %d agents at %s, the other side handed over %s" % (t, side, i, r, g[c], c, xs)))
                            return v
    return v


def key(a):
    return json.dumps(a, sort_keys=True, default=str)


def exchange_violations(res, cc):
    """an exchange changes nothing but the coupled locations"""
    v = []
    ex = exchange_days(cc)
    for side in SIDES:
        cp = couplings(cc, side)
        outlocs = {l for l, d in cp.values() if "out" in d}
        clocs = {l for l, d in cp.values()}
        for i in range(cc["n"]):
            rk = ranks(res, cc, side, i)
            for t in range(min(m.days for m in rk)):
                pre = [m.pre[t] for m in rk]
                post = [m.post[t] for m in rk]
                A = collections.Counter(key(a) for s in pre for a in s["agents"] if not (t in ex and a["pos"] and a["pos"][0] == "loc" and a["pos"][1] in outlocs))
                B = collections.Counter(key(a) for s in post for a in s["agents"])
                lost = A - B
                new = [json.loads(x) for x in (B - A).elements()]
                where = "%s %d, exchange of day %d" % (side, i, t)
                if lost:
                    v.append(("uncoupled-agents", "%s: %d agents that were not at a location coupled outwards were removed or changed, e.g. %s" % (where, sum(lost.values()), next(iter(lost))[:200])))
                    return v
                per = collections.Counter()
                for a in new:
                    if a["pos"] is None or a["pos"][0] != "loc" or a["pos"][1] not in clocs or a["trav"]:
                        v.append(("uncoupled-agents", "%s: a new agent at %s" % (where, a["pos"])))
                        return v
                    if a["tsd"] != 0 or a["home"] != a["pos"][1]:
                        v.append(("fresh-agents", "%s: an agent that was taken in at %s starts with home %s and %d days of travel" % (where, a["pos"][1], a["home"], a["tsd"])))
                        return v
                    per[a["pos"][1]] += 1
                for l in pre[0]["locs"]:
                    for r, (p, q) in enumerate(zip(pre, post)):
                        x, y = dict(p["locs"][l]), dict(q["locs"][l])
                        if l in clocs:
                            base = 0 if l in outlocs and t in ex else x["n"]
                            if y["n"] != base + per[l]:
                                v.append(("counts", "%s: %d new agents at %s but its number went from %d to %d on process %d" % (where, per[l], l, x["n"], y["n"], r)))
                                return v
                            x.pop("n"), y.pop("n")
                        for z in (x, y):
                            for q2 in ("score", "sp"):
                                z.pop(q2)
                        x.pop("routes"), y.pop("routes")
                        if x != y:
                            d = [k for k in x if x[k] != y[k]]
                            v.append(("uncoupled-state", "%s: %s of %s changed from %s to %s" % (where, d[0], l, x[d[0]], y[d[0]])))
                            return v
    return v


def lockstep_violations(res, cc):
    """nobody finishes day t before every instance of the other side has reached its exchange of day t"""
    ex = set(exchange_days(cc))
    reached = set()
    day = {}
    for what, side, inst, rank, t, _, _ in res.rec.events:
        if what == "pre":
            reached.add((side, inst, rank, t))
            day[(side, inst, rank)] = t
            if side in SIDES and cc.get("interval", 1) == 1:
                for j in range(cc["n"]):
                    if day.get((OTHER[side], j, 0), -1) < t - 1:
                        return [("apart", "%s %d reached day %d while %s %d is at day %d" % (side, inst, t, OTHER[side], j, day.get((OTHER[side], j, 0), -1)))]
        elif what == "post" and side in SIDES:
            if t in ex:
                late = [j for j in range(cc["n"]) if (OTHER[side], j, 0, t) not in reached]
                if late:
                    return [("too-early", "%s %d finished its exchange of day %d before %s %d reached that day" % (side, inst, t, OTHER[side], late[0]))]
    return []


POLLS = 3


def poll_violations(res, cc, ctx=None):
    """once the data of the other side is there, a waiting process takes it up within POLLS polls"""
    at = {}
    for what, side, inst, rank, t, _, nsleep in res.rec.events:
        at[(what, side, inst, rank, t)] = nsleep
    vis = max((res.fs or {}).get("visibility") or [0.0])
    for t in exchange_days(cc):
        for side in SIDES:
            ready = 0.0
            for j in range(cc["n"]):
                m = res.models[(OTHER[side], j, 0)]
                k = at.get(("pre", OTHER[side], j, 0, t))
                # a writer that waits itself has written before
                if k is None or k >= at.get(("post", OTHER[side], j, 0, t), 0):
                    ready = None
                    break
                ready = max(ready, m.sleeps[k][1])
            if ready is None:
                continue
            for i in range(cc["n"]):
                for m in ranks(res, cc, side, i):
                    a, b = at[("pre", side, i, m.rank, t)], at[("post", side, i, m.rank, t)]
                    late = [x for x in m.sleeps[a:b] if x[1] > ready + vis + 1e-6]
                    if ctx is not None:
                        ctx.probe("waits", 1)
                        ctx.probe("polls", b - a)
                    if len(late) > POLLS:
                        return [("slow", "%s %d still polled %d times on day %d after all data of the other side was visible" % (side, i, len(late), t))]
    return []


def day_violations(res, cc):
    for (side, i, r), m in sorted(res.models.items()):
        if m.days != cc["days"]:
            return [("unfinished", "%s %d (process %d) finished %d of %d days" % (side, i, r, m.days, cc["days"]))]
    return []
