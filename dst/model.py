"""Oracles shared by the checks.  They work on the snapshots and files that simulated runs leave behind, never on the
code's text."""
import json
from . import abm, core
from .core import Chooser

REAL_SERIAL = ["flee/flee.py", "flee/moving.py", "flee/scoring.py", "flee/spawning.py", "flee/crawling.py", "flee/SimulationSettings.py"]
REAL_PAR = REAL_SERIAL + ["flee/pflee.py"]
STUB_MPI = ["mpi4py: simulated communicator (dst/mpi.py), one thread-node per process"]


def simulate(case, ctx, **kw):
    ch = ctx.chooser(max(1, case.get("par") or 1), policy=kw.pop("policy", None))
    r = abm.run(case, chooser=ch, **kw)
    ctx.world(r.world)
    return r


def finished(res, what="run"):
    """[] or the violation that the run did not complete"""
    out = []
    mism = [n["error"] for n in res.nodes if n["error"] and n["error"][0] == "CollectiveMismatch"]
    errs = [(n["name"], n["op"], n["error"]) for n in res.nodes if n["error"]]
    if mism:
        out.append(("collective-mismatch", "%s: %s" % (what, mism[0][1])))
    elif errs:
        name, op, e = errs[0]
        out.append(("error", "%s: %s failed at operation %s: %s: %s" % (what, name, op, e[0], str(e[1])[:200])))
    elif res.outcome[0] != "done":
        out.append((res.outcome[0], "%s: %s: %s" % (what, res.outcome[0], res.outcome[1])))
    elif res.world.get("leftover"):
        out.append(("collective-mismatch", "%s: %d collective operations were not joined by every process" % (what, res.world["leftover"])))
    return out


def steps_done(res):
    """number of snapshots that every node has"""
    return min([len(n["snaps"]) for n in res.nodes] or [0])


def opname(case, k):
    return "after build" if k == 0 else "after operation %d %s" % (k - 1, json.dumps(case["ops"][k - 1])[:80])


def expected_aids(case, res, k_max):
    """set of identities that must exist after each snapshot, from the operations and the observed positions before a
    clear (which agents a clear hits depends on where they are)"""
    out = []
    alive = set()
    nxt = 0
    anon = 0
    out.append((set(alive), anon))
    for k in range(1, k_max):
        op = case["ops"][k - 1]
        if op[0] in ("insert", "add"):
            for _ in range(op[2]):
                nxt += 1
                alive.add(nxt)
        elif op[0] == "inserts":
            anon += op[2]
        elif op[0] == "clear":
            for n in res.nodes:
                for a in n["snaps"][k - 1]["agents"]:
                    if a["pos"] and a["pos"][0] == "loc" and a["pos"][1] in op[1]:
                        if a["aid"] is None:
                            anon -= 1
                        else:
                            alive.discard(a["aid"])
        out.append((set(alive), anon))
    return out


def attrs_given(case):
    """attributes by aid"""
    out = {}
    nxt = 0
    for op in case["ops"]:
        if op[0] in ("insert", "add"):
            for _ in range(op[2]):
                nxt += 1
                a = {"aid": nxt}
                if len(op) > 3 and op[3]:
                    a.update(op[3])
                out[nxt] = (a, op[1])
    return out


def true_counts(snaps):
    """agents per location and per link object (start, end, closed flag) over the given per-process snapshots"""
    locs, links = {}, {}
    for s in snaps:
        for a in s["agents"]:
            p = a["pos"]
            if p is None:
                continue
            if p[0] == "loc":
                locs[p[1]] = locs.get(p[1], 0) + 1
            else:
                k = (p[1], p[2], p[4])
                links[k] = links.get(k, 0) + 1
    return locs, links


def links_of(s):
    """{(start, end): (dist, n, closed, redirection, cum)} over open and closed lists, plus which list"""
    out = {}
    for name, l in s["locs"].items():
        for which in ("links", "closed"):
            for e, d, n, c, f, cum, st in l[which]:
                out.setdefault((name, e), []).append((which, d, n, c, f, cum, st))
    return out


def count_violations(snaps, where, closed_too=True):
    """reported head counts (in the first snapshot) against the agents in all of them; with several snapshots also
    equality between processes"""
    v = []
    locs, links = true_counts(snaps)
    for i, s in enumerate(snaps):
        for name, l in s["locs"].items():
            t = locs.get(name, 0)
            if l["n"] != t:
                v.append(("location-count", "%s: process %d reports %d agents at %s, %d are there" % (where, i, l["n"], name, t)))
            for e, d, n, c, f, cum, st in l["links"]:
                t = links.get((name, e, False), 0)
                if n != t:
                    v.append(("road-count", "%s: process %d reports %d agents on %s-%s, %d are there" % (where, i, n, name, e, t)))
        if v:
            break
    return v


def plain_add(rng, ops, locs):
    """'add' takes from the population; keep it to places that have one"""
    pops = {l["name"]: l.get("pop", 0) for l in locs}
    for op in ops:
        if op[0] == "add" and pops.get(op[1], 0) <= 60:
            op[0] = "insert"
    return ops


# ------------------------------------------------------------------------------------------ input tables

STARTS = ["2020-01-10", "2020-01-10", "2019-12-27", "2020-02-26", "2023-02-26", "2012-02-29", "1999-12-29", "2000-02-27", "2024-03-29", "2021-10-29"]


def move_dates(case, rng):
    """another start date, all dates of the data moved along"""
    import datetime, re
    new = datetime.date.fromisoformat(rng.choice(STARTS) if rng.random() < 0.7 else "%d-%02d-%02d" % (rng.randint(1990, 2040), rng.randint(1, 12), rng.randint(1, 28)))
    by = new - datetime.date.fromisoformat(case["table"]["start"])
    for f in case["files"]:
        if f.startswith("source_data/"):
            case["files"][f] = re.sub(r"\b\d{4}-\d\d-\d\d\b", lambda m: (datetime.date.fromisoformat(m.group()) + by).isoformat(), case["files"][f])
    case["table"]["start"] = new.isoformat()


def table_files(rng, camps, days, start="2020-01-10", decreasing=False, mx=60, total_first=True):
    """source_data files of a refugee table; returns (files, values-by-day function)"""
    import datetime
    d0 = datetime.date.fromisoformat(start)
    files = {}

    def series():
        pts, v = [], rng.choice([0, 0, rng.randint(0, mx // 2)])
        day = rng.choice([0, 0, -3])
        while day <= days + 3:
            pts.append((day, v))
            day += rng.randint(1, 5)
            if rng.random() < (0.35 if decreasing else 0.0):
                v = max(0, v - rng.randint(1, max(1, mx // 2)))
            else:
                v += rng.randint(0, mx // 2)
        return pts

    def write(name, pts):
        files["source_data/" + name] = "".join("%s,%d\n" % ((d0 + datetime.timedelta(days=d)).isoformat(), v) for d, v in pts)
    data = {"total": series()}
    write("refugees.csv", data["total"])
    lay = ["total,refugees.csv"]
    for i, c in enumerate(camps):
        data[c] = series()
        write("camp%d.csv" % i, data[c])
        lay.append("%s,camp%d.csv" % (c, i))
    files["source_data/data_layout.csv"] = "\n".join(lay) + "\n"
    return files, data


def field(pts, day):
    """documented interpolation of a series of (day, value)"""
    if day <= pts[0][0]:
        return int(pts[0][1])
    for (a, va), (b, vb) in zip(pts, pts[1:]):
        if day < b:
            return int(va + (day - a) / float(b - a) * float(vb - va))
    return int(pts[-1][1])


def demographics(rng, locs):
    """input_csv/demographics_*.csv files; returns (files, {attribute: {column: {value: weight}}})"""
    files, tab = {}, {}
    for a, vals in rng.sample([("age", [5, 17, 30, 64]), ("gender", ["f", "m"]), ("ethnicity", ["x", "y", "z"]), ("main_language", ["p", "q"])], rng.randint(1, 3)):
        cols = ["Default"] + rng.sample([l["name"] for l in locs], min(len(locs), rng.randint(0, 3)))
        w = {}
        for c in cols:
            while True:
                row = {v: rng.choice([0, 0, 1, 2.5]) for v in vals}
                if sum(row.values()) > 0:
                    break
            w[c] = row
        if rng.random() < 0.2:
            rng.shuffle(cols)
        files["input_csv/demographics_%s.csv" % a] = ",".join([a] + cols) + "\n" + "".join(
            ",".join([str(v)] + [str(w[c][v]) for c in cols]) + "\n" for v in vals)
        tab[a] = w
    return files, tab


def spawn_case(rng, par, tier, days=None, modes=("table", "table", "constant", "pop_ratio", "poisson", "flood"), tiny=None, net=None, **over):
    """a scenario in which agents are spawned daily by the rules; returns the case"""
    days = days or rng.randint(2, 10 if tier == "thorough" else 6)
    mode = rng.choice(list(modes))
    locs, links = net or abm.gen_net(rng, n=abm.size(rng, 3, 8))
    for l in locs:
        if l["location_type"] in ("town", "conflict_zone", "forwarding_hub"):
            l["pop"] = rng.choice([700, 1500, 4000] if mode in ("pop_ratio", "flood") else [2000, 5000, 30000])
    if "camp" not in locs[-1]["location_type"]:
        locs[-1].update(location_type="camp", pop=0)
    sr = {"take_from_population": rng.random() < 0.7, "insert_day0": rng.random() < 0.5, "empty_camps_on_day0": rng.random() < 0.3,
          "sum_from_camps": rng.random() < 0.5, "conflict_zone_spawning_only": rng.random() < 0.8}
    mr = {}
    if rng.random() < 0.4:
        sr["conflict_spawn_decay"] = rng.choice([[1.0, 0.5, 0.25], [1.0, 0.1]])
        sr["conflict_spawn_decay_interval"] = rng.choice([2, 3])
    if mode in ("constant", "poisson"):
        sr["conflict_driven_spawning"] = {"spawn_mode": mode, "displaced_per_conflict_day": rng.choice([1, 3, 7])}
    elif mode == "pop_ratio":
        sr["conflict_driven_spawning"] = {"spawn_mode": mode, "displaced_per_conflict_day": rng.choice([0.01, 0.002])}
    elif mode == "flood":
        fm = rng.choice(["constant", "pop_ratio", "poisson"])
        sr.update(take_from_population=True, conflict_zone_spawning_only=False, flood_zone_spawning_only=True,
                  flood_driven_spawning={"spawn_mode": fm, "displaced_per_flood_day": [0.0, 0.001, 0.004] if fm == "pop_ratio" else [0, 2, 5]})
        mr["flood_rules"] = {"max_flood_level": 2, "flood_movechances": [0.0, 0.5, 1.0], "flood_loc_weights": [1.0, 0.6, 0.2], "flood_link_weights": [1.0, 1.0, 1.0]}
    s = abm.pick_settings(rng, spawn_rules=sr, move_rules=mr)
    for k, v in over.items():
        s[k].update(v)
    case = abm.base_case(rng, par=par, steps=1, net=(locs, links), settings=s, ops=[])
    case["mode"] = mode
    camps = [l["name"] for l in locs if "camp" in l["location_type"]]
    files, data = table_files(rng, camps, days, decreasing=rng.random() < 0.5, mx=rng.choice([8, 20]))
    case["files"] = files
    case["series"] = {k: [list(x) for x in v] for k, v in data.items()}
    case["table"] = {"start": "2020-01-10", "scale": rng.choice([1, 1, 2])}
    move_dates(case, rng)
    if rng.random() < 0.5:
        f, _ = demographics(rng, locs)
        files.update(f)
    ops = []
    if rng.random() < 0.5:
        ops.append(["demographics"])
    if rng.random() < 0.6:
        ops.append(["initial"])
    names = [l["name"] for l in locs]
    zones = [l["name"] for l in locs if l["location_type"] == "conflict_zone"]
    for t in range(days):
        if mode == "flood":
            for n in [l["name"] for l in locs if l["pop"] >= 400]:
                if rng.random() < 0.4:
                    ops.append(["attr", n, "flood_level", rng.choice([0, 1, 2])])
        elif rng.random() < 0.35:
            # the first zone stays one, so that there is somewhere to spawn
            others = [l["name"] for l in locs if l.get("pop", 0) >= 400 and l["name"] not in zones[:1]]
            if others:
                ops.append(["conflict", rng.choice(others), rng.choice([0.0, 0.3, 1.0])])
        ops.append(["spawn"])
        if rng.random() < 0.2:
            ops.append(["recount"])
        ops.append(["evolve"])
        if rng.random() < 0.15:
            ops.append(["clear", [rng.choice(names)]])
    case["ops"] = ops
    return case


# ------------------------------------------------------------------------------------------ journeys

def journey_case(rng, tier, par=0, closures=True, loglevel=None):
    """scenario with varied road lengths, speed limits and closures"""
    big = tier == "thorough" and rng.random() < 0.3
    style = rng.random()
    dmin, dmax = (4.0, 60.0) if style < 0.3 else (20.0, 900.0) if style < 0.6 else (5.0, 400.0)
    locs, links = abm.gen_net(rng, n=abm.size(rng, 2, 12 if big else 8), dmin=dmin, dmax=dmax)
    for k in links:
        at = {}
        if rng.random() < 0.25:
            at["max_move_speed"] = rng.choice([20.0, 60.0, 150.0, "80.0"])
        if rng.random() < 0.25:
            at["walk_probability"] = rng.choice([1.0, 0.5, "1.0", 0.0])
        if at:
            k.append(at)
    case = abm.base_case(rng, par=par, steps=rng.randint(2, 16 if big else 7), net=(locs, links))
    lv = loglevel if loglevel is not None else rng.choice([2, 2, 2, 2, 1, 0])
    case["settings"]["log_levels"] = {"agent": lv}
    if not closures:
        case["ops"] = [o for o in case["ops"] if o[0] in ("insert", "add", "evolve", "type", "conflict")]
    plain_add(rng, case["ops"], locs)
    return case


class Journey:
    """one agent's day: the roads it used, reconstructed from the snapshots before and after a time step"""

    def __init__(self, prev, a, b, settings, open_links):
        """prev: snapshot before; a, b: agent before and after; open_links: {(start, end): length}"""
        self.err = []
        self.hops = []          # (start, end, length, progress before, completed?, returned?)
        self.known = True       # False: intermediate roads not recorded
        p, q = a["pos"], b["pos"]
        done = b["places"] - a["places"]
        vis = b["visited"]
        if p is None or q is None:
            if p is not q:
                self.err.append(("deactivated", "an agent changed between %s and %s within a step" % (p, q)))
            return
        if done < 0:
            self.err.append(("places", "number of places fell from %d to %d" % (a["places"], b["places"])))
            return
        cur = None
        if p[0] == "link":
            s, e, d0, closed, ln = p[1:6]
            if done == 0:
                if q[0] != "link" or q[1:3] != p[1:3]:
                    self.err.append(("left-road", "travelling on %s-%s without arriving, it is at %s" % (s, e, q)))
                    return
                self.hops.append((s, e, ln, d0, q[3], False, closed))
                return
            if closed:
                if q != ["loc", s] or done != 1:
                    self.err.append(("closed-road", "travelling on the closed road %s-%s, it ended at %s after %d arrivals" % (s, e, q, done)))
                    return
                self.hops.append((s, e, ln, d0, ln, True, True))
                return
            self.hops.append((s, e, ln, d0, ln, True, False))
            cur = e
            done -= 1
            if vis:
                if tuple(vis[0][:2]) != (s, e):
                    self.err.append(("recorded", "first recorded road of the day is %s, it was on %s-%s" % (vis[0], s, e)))
                    return
                vis = vis[1:]
            elif vis is not None and (done or q[0] == "link"):
                # it went on although the arrival was not recorded
                self.err.append(("recorded", "the intermediate road %s-%s is not recorded" % (s, e)))
                return
        else:
            cur = p[1]
        if vis is None and done > (1 if q[0] == "loc" else 0):
            self.known = False
            return
        for h in vis or []:
            k = tuple(h[:2])
            if k[0] != cur:
                self.err.append(("teleport", "takes the road %s-%s while being at %s" % (k[0], k[1], cur)))
                return
            if k not in open_links:
                self.err.append(("not-open", "travels %s-%s, which is not an open road that day" % k))
                return
            self.hops.append((k[0], k[1], open_links[k], 0.0, open_links[k], True, False))
            cur = k[1]
            done -= 1
        if q[0] == "loc":
            if done == 0:
                if q[1] != cur:
                    self.err.append(("teleport", "is at %s, its last road ended at %s" % (q[1], cur)))
            elif done == 1:
                k = (cur, q[1])
                if k not in open_links:
                    self.err.append(("not-open", "arrived at %s from %s without an open road" % (q[1], cur)))
                else:
                    self.hops.append((k[0], k[1], open_links[k], 0.0, open_links[k], True, False))
            else:
                self.err.append(("places", "%d arrivals are not accounted for by its roads" % done))
        else:
            k = (q[1], q[2])
            if done != 0:
                self.err.append(("places", "%d arrivals are not accounted for by its roads" % done))
            if q[1] != cur:
                self.err.append(("teleport", "is on road %s-%s but was last at %s" % (q[1], q[2], cur)))
            elif k not in open_links:
                self.err.append(("not-open", "set out on %s-%s, which is not an open road that day" % k))
            else:
                self.hops.append((k[0], k[1], open_links[k], 0.0, q[3], False, False))


def open_roads(s):
    return {(n, k[0]): k[1] for n, l in s["locs"].items() for k in l["links"]}


def link_attrs(case):
    out = {}
    for k in case["links"]:
        at = k[3] if len(k) > 3 and k[3] else {}
        out[(k[0], k[1])] = at
        out[(k[1], k[0])] = at
    return out


def speed_limit(case, road, places, attrs):
    """largest distance that may be covered on this road in a day"""
    mr = case["settings"]["move_rules"]
    at = attrs.get(road, {})
    v = float(at.get("max_move_speed", mr["max_move_speed"]))
    w = float(at.get("walk_probability", 0.0))
    if mr.get("start_on_foot") and places == 1:
        v = mr["max_walk_speed"]
    if w >= 1.0:
        v = mr["max_walk_speed"]
    elif w > 0.0:
        v = max(v, mr["max_walk_speed"])
    return v


# ------------------------------------------------------------------------------------------ input files

def geo_csv(case, rng, cdates=None, changes=None, extra=None):
    """moves the network of a case into CSV input files; the case then builds itself from them"""
    locs, links = case["locs"], case["links"]
    cols = sorted({k for l in locs for k in l.get("attributes", {})} | set(extra or ()))
    head = "#name,region,country,lat,lon,location_type,conflict_date,population" + "".join("," + c for c in cols)
    rows = [head]
    for l in locs:
        pc = l.get("capacity", -1) if "camp" in l["location_type"] else l.get("pop", 0)
        rows.append(",".join([l["name"], l["region"], l["country"], str(l["x"]), str(l["y"]), l["location_type"],
                              str((cdates or {}).get(l["name"], 0)), str(pc)] + [str(l.get("attributes", {}).get(c, "0")) for c in cols]))
    lcols = sorted({k for x in links if len(x) > 3 and x[3] for k in x[3]})
    lrows = ["#name1,name2,distance,forced_redirection" + "".join("," + c for c in lcols)]
    for x in links:
        at = (x[3] if len(x) > 3 else None) or {}
        forced = 1 if len(x) > 4 and x[4] else 0
        a, b = x[0], x[1]
        if forced and rng.random() < 0.5:
            a, b, forced = b, a, 2
        lrows.append(",".join([a, b, str(x[2]), str(forced)] + [str(at.get(c, "")) for c in lcols]))
    crows = ["#closure_type,name1,name2,closure_start,closure_end"]
    for c in case.get("closures", []):
        crows.append(",".join(str(z) for z in c))
    f = dict(case.get("files") or {})
    f["input_csv/locations.csv"] = "\n".join(rows) + "\n"
    f["input_csv/routes.csv"] = "\n".join(lrows) + "\n"
    f["input_csv/closures.csv"] = "\n".join(crows) + "\n"
    if changes is not None:
        f["location_changes.csv"] = "#name,type,date\n" + "".join("%s,%s,%d\n" % tuple(c) for c in changes)
    case["files"] = f
    case["csv"] = "input_csv"
    return case
