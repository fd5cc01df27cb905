"""C22: agent logs record every active agent in every step and survive crashes."""
from .. import abm, model
from ..runner import Prop

FIXED = 10


def fnum(x):
    try:
        return float(x)
    except ValueError:
        return None


class Check(Prop):
    id = "C22"
    rule = "a crash, a camp sink, a cleared location, several stops in a day or several processes with logging on"
    runs = {"quick": 4500, "thorough": 26000}
    components = {"real": model.REAL_PAR + ["flee/Diagnostics.py"], "stub": model.STUB_MPI + ["file system: seams over real scratch files"]}
    assumptions = ["all agents of a run carry the same attribute names", "place names and attribute values contain no commas",
                   "a killed process loses its unwritten buffers; what it wrote survives"]

    def gen(self, rng, i, tier):
        par = rng.choice([0, 0, 0, 2, 3])
        case = model.journey_case(rng, tier, par=par, loglevel=rng.choice([1, 2, 2, 3, 3]))
        case["settings"]["log_levels"]["granularity"] = rng.choice(["location", "location", "region"])
        case["settings"]["log_levels"]["link"] = rng.choice([0, 0, 1])
        if rng.random() < 0.3:
            case["settings"]["spawn_rules"]["camps_are_sinks"] = True
            for l in case["locs"]:
                l["attributes"] = {"deactivation_probability": rng.choice([0.0, 0.5, 1.0])}
        if rng.random() < 0.3:
            names = [l["name"] for l in case["locs"]]
            for _ in range(2):
                case["ops"].insert(rng.randrange(len(case["ops"]) + 1), ["clear", [rng.choice(names)]])
        if rng.random() < 0.2:
            case["ops"].insert(0, ["evolve"])
        if rng.random() < 0.2:
            case["files"] = {"agents.out.%d" % r: "left over from an earlier run\n" for r in range(max(1, par))}
        extra = rng.random() < 0.5
        if extra:
            for op in case["ops"]:
                if op[0] in ("insert", "add"):
                    op.append({"kind": rng.choice(["x", "y"])})
        fl = []
        nodes = ["rank%d" % r for r in range(par)] if par else ["serial"]
        if rng.random() < 0.5:
            if rng.random() < 0.6:
                fl.append({"on": "write", "node": rng.choice(nodes), "path": "agents.out", "k": rng.randint(0, 12), "kind": "crash", "bytes": rng.choice([0, 1, 17, 200, 99999])})
            else:
                fl.append({"on": "point", "node": rng.choice(nodes), "kind": "crash", "k": rng.randint(5, 60)})
        case["faults"] = fl
        case["fs"] = {"buffer": rng.choice([64, 512, 8192]), "write_chunk": rng.choice([0, 0, 13, 100])}
        if not par:
            model.plain_add(rng, case["ops"], case["locs"])
        return case

    def evaluate(self, case, ctx):
        res = model.simulate(case, ctx, keep_files=True)
        crashed = "crash" in res.world["fired"] or "crash-during-write" in res.world["fired"]
        if not crashed:
            v = model.finished(res)
            if v:
                return v
        return self.logs(case, res, ctx, crashed)

    def logs(self, case, res, ctx, crashed):
        """violations of the agent logs; crashed: the step in progress may be incomplete"""
        par = case["par"]
        lv = case["settings"]["log_levels"]["agent"]
        region = case["settings"]["log_levels"].get("granularity") == "region"
        special = crashed or par
        where = {l["name"]: l for l in case["locs"]}
        for n in res.nodes:
            rank = int(n["name"][4:]) if par else 0
            f = "agents.out.%d" % rank
            raw = res.files.get(f, b"").decode()
            if crashed:
                # the current step may have left an incomplete last line
                cut = raw.rfind("\n") + 1
                lines = raw[:cut].splitlines()
            else:
                if raw and not raw.endswith("\n"):
                    return [("torn", "the last line of %s is incomplete" % f)]
                lines = raw.splitlines()
            evs = [k for k, op in enumerate(case["ops"]) if op[0] == "evolve"]
            done = [k for k in evs if k + 1 < len(n["snaps"])]
            if not done:
                if not crashed and not evs:
                    continue
                continue
            if not lines or not lines[0].startswith("#time"):
                return [("header", "%s does not start with the header but with %r" % (f, lines[:1]))]
            if any(x.startswith("#") for x in lines[1:]):
                return [("header", "%s has more than one header" % f)]
            rows = {}
            last = -1
            for x in lines[1:]:
                c = x.split(",")
                t = c[0].split("-")
                if fnum(t[0]) is None or len(c) < FIXED:
                    return [("row", "%s holds the line %r" % (f, x))]
                day = int(t[0])
                if day < last:
                    return [("order", "%s: a row of step %d after rows of step %d" % (f, day, last))]
                last = day
                rows.setdefault(day, []).append((int(t[1]) if len(t) > 1 else 0, c))
            for d, k in enumerate(done):
                a, b = n["snaps"][k], n["snaps"][k + 1]
                msg = self.step(case, f, d, rows.get(d, []), a, b, lv, region, where, rank, ctx)
                if msg:
                    return [msg]
                if any(x["pos"] is None for x in b["agents"]):
                    special = True
                    ctx.probe("steps with deactivated agents")
                ctx.probe("steps checked")
                if crashed:
                    ctx.probe("complete steps before a crash")
            extra = [d for d in rows if d > len(done) - (0 if crashed else 1)]
            if extra:
                return [("extra", "%s has rows for step %d, only %d steps were run" % (f, extra[0], len(done)))]
            if any(op[0] == "clear" for op in case["ops"]):
                special = True
        ctx.nontrivial(bool(special))
        return []

    def step(self, case, f, d, rows, a, b, lv, region, where, rank, ctx):
        tag = "%s, step %d" % (f, d)
        head = {}
        stops = {}
        ids = {}
        for h, c in rows:
            vals = c[FIXED:]
            key = tuple(sorted(x for x in vals if x != ""))
            if h == 0 and key not in head:
                head[key] = c
                if c[1] in ids:
                    return ("id", "%s: two agents have the id %s" % (tag, c[1]))
                ids[c[1]] = key
            else:
                if lv < 2:
                    return ("twice", "%s: more than one row for the agent with attributes %s" % (tag, key))
                if lv > 2 and h != len(stops.get(key, [])) + 1:
                    return ("hop", "%s: stop rows are numbered %s" % (tag, h))
                if ids.get(c[1]) != key:
                    return ("id", "%s: rows of one agent have different ids" % tag)
                stops.setdefault(key, []).append(c)
        roads = model.open_roads(a)
        active = 0
        for x, y in zip(a["agents"], b["agents"]):
            key = tuple(sorted(str(z) for z in x["attr"].values()))
            if x["pos"] is None:
                if key in head:
                    return ("inactive", "%s: a row for the deactivated agent %s" % (tag, key))
                continue
            active += 1
            if key not in head:
                return ("missing", "%s: no row for agent %s" % (tag, key))
            c = head[key]
            if c[2] != y["home"]:
                return ("home", "%s: home of agent %s is %s, the log says %s" % (tag, key, y["home"], c[2]))
            if fnum(c[7]) is None or abs(fnum(c[7]) - y["dist"]) > 1e-6 or c[8] != str(y["places"]):
                return ("distance", "%s: agent %s has travelled %s km to %s places, the log says %s km, %s" % (tag, key, y["dist"], y["places"], c[7], c[8]))
            if y["places"] == 1 and y["dist"]:
                return ("distance", "%s: agent %s has not completed any road, the log says it has travelled %s km" % (tag, key, c[7]))
            if not c[1].startswith("%d-" % rank):
                return ("id", "%s: the id %s is not one of process %d" % (tag, c[1], rank))
            if y["pos"] is not None:
                w = self.place(y["pos"], where, region)
                if c[3] != w[0] or abs(fnum(c[4]) - w[1]) > 1e-9 or abs(fnum(c[5]) - w[2]) > 1e-9:
                    return ("place", "%s: agent %s is at %s, the log says %s" % (tag, key, w, c[3:6]))
                if c[6] != str(y["trav"]):
                    return ("travelling", "%s: agent %s: travelling is %s, the log says %s" % (tag, key, y["trav"], c[6]))
                j = model.Journey(a, x, y, case["settings"], roads)
                if j.known and not j.err:
                    moved = sum(h[4] - h[3] for h in j.hops)
                    if abs(fnum(c[9]) - moved) > 1e-6:
                        return ("moved", "%s: agent %s moved %.4f km, the log says %s" % (tag, key, moved, c[9]))
                    if j.hops:
                        ctx.probe("rows of moving agents")
            if lv > 1:
                vis = [self.place(["link"] + list(z[:2]), where, region) for z in y["visited"]]
                got = [(z[3], fnum(z[4]), fnum(z[5])) for z in stops.get(key, [])]
                if [g[0] for g in got] != [w[0] for w in vis] or any(abs(g[1] - w[1]) + abs(g[2] - w[2]) > 1e-9 for g, w in zip(got, vis)):
                    return ("stops", "%s: agent %s stopped at %s, the log says %s" % (tag, key, vis, got))
                for z in stops.get(key, []):
                    if z[2] != c[2] or z[6:FIXED] != c[6:FIXED]:
                        return ("stops", "%s: a stop row of agent %s differs from its end-of-step row" % (tag, key))
                if vis:
                    ctx.probe("stop rows", len(vis))
                    ctx.nontrivial()
        if len(head) != active:
            return ("extra", "%s: rows for %d agents, %d are active" % (tag, len(head), active))
        return None

    def place(self, pos, where, region):
        if pos[0] == "loc":
            l = where[pos[1]]
            return (l["region"], 0.0, 0.0) if region else (l["name"], l["x"], l["y"])
        s, e = where[pos[1]], where[pos[2]]
        if region:
            return ("L:%s:%s" % (s["region"], e["region"]), 0.0, 0.0)
        return ("L:%s:%s" % (s["name"], e["name"]), (s["x"] + e["x"]) / 2.0, (s["y"] + e["y"]) / 2.0)
