"""C11: closure schedules open and close exactly the scheduled roads, camps and redirections."""
from .. import abm, model
from ..runner import Prop


class Roads:
    """reference model: every directed road is open, closed or removed for good"""

    def __init__(self, case):
        self.country = {l["name"]: l["country"] for l in case["locs"]}
        self.road = {}
        for x in case["links"]:
            at = dict(x[3]) if len(x) > 3 and x[3] else {}
            forced = bool(len(x) > 4 and x[4])
            self.road[(x[0], x[1])] = {"dist": float(x[2]), "attr": at, "redir": forced, "state": "open"}
            self.road[(x[1], x[0])] = {"dist": float(x[2]), "attr": at, "redir": False, "state": "open"}
        m = case["settings"]["move_rules"]
        self.mc = {"default": m["default_movechance"], "camp": m["camp_movechance"], "idp": m["idpcamp_movechance"]}
        self.flags = {}

    def put(self, a, b, to):
        r = self.road.get((a, b))
        if r is None:
            return False
        if to == "closed" and r["state"] == "open":
            r["state"] = "closed"
        elif to == "open" and r["state"] == "closed":
            r["state"] = "open"
        elif to == "removed" and r["state"] == "open":
            r["state"] = "removed"
        else:
            return False
        return True

    def link(self, a, b, twoway, to):
        """True if any road changed"""
        done = self.put(a, b, to)
        return (twoway and self.put(b, a, to)) or done

    def loc(self, n, twoway, to):
        for a, b in list(self.road):
            if b == n or (twoway and a == n):
                self.put(a, b, to)

    def border(self, s, d, twoway, to):
        for a, b in list(self.road):
            if (self.country[a] == s and self.country[b] == d) or (twoway and self.country[a] == d and self.country[b] == s):
                self.put(a, b, to)

    def camp(self, n, idp, opened):
        f = self.flags.get(n)
        if f is None:
            return
        f.update(conflict=-1.0, fwd=False, marker=False, flood=False)
        if opened:
            f.update(camp=True, town=False, mc=self.mc["idp" if idp else "camp"])
            if idp:
                f["idp"] = True
        else:
            f.update(camp=False, idp=False, town=True, mc=self.mc["default"])

    def redir(self, a, b, val):
        r = self.road.get((a, b))
        if r is not None and r["state"] != "removed":
            r["redir"] = bool(val)

    def sched(self, closures, t, twoway):
        for c in closures:
            kind, a, b, s, e = c[0], c[1], c[2], int(c[3]), int(c[4])
            for now, close in ((s, True), (e, False)):
                if now != t:
                    continue
                to = "closed" if close else "open"
                if kind == "country":
                    self.border(a, b, twoway, to)
                elif kind == "location":
                    self.loc(a, twoway, to)
                elif kind == "link":
                    self.link(a, b, twoway, to)
                elif kind in ("camp", "idpcamp"):
                    self.camp(a, kind == "idpcamp", not close)
                elif kind == "remove_forced_redirection":
                    self.redir(a, b, not close)

    def apply(self, op, closures, t):
        k, a = op[0], op[1:]
        if k == "close_link":
            return self.link(a[0], a[1], a[2], "closed")
        elif k == "reopen_link":
            return self.link(a[0], a[1], a[2], "open")
        elif k == "remove_link":
            return self.link(a[0], a[1], a[2], "removed")
        elif k == "close_loc":
            self.loc(a[0], a[1], "closed")
        elif k == "reopen_loc":
            self.loc(a[0], a[1], "open")
        elif k == "close_border":
            self.border(a[0], a[1], a[2], "closed")
        elif k == "reopen_border":
            self.border(a[0], a[1], a[2], "open")
        elif k == "camp_close":
            self.camp(a[0], a[1], False)
        elif k == "camp_open":
            self.camp(a[0], a[1], True)
        elif k == "redir":
            self.redir(a[0], a[1], a[2])
        elif k == "sched":
            self.sched(closures, t, a[0] if a else True)


FLAGS = ("camp", "idp", "town", "fwd", "marker", "flood", "conflict", "mc")


class Check(Prop):
    id = "C11"
    rule = "two closures that share a road or camp overlapped in time"
    runs = {"quick": 4000, "thorough": 40000}
    components = {"real": model.REAL_PAR + ["flee/InputGeography.py"], "stub": model.STUB_MPI}
    assumptions = ["at most one road between two places", "the end of one closure reopens a road that another closure also covers: a schedule is a list of opening and closing events, applied in list order within a day"]

    def gen(self, rng, i, tier):
        big = tier == "thorough" and rng.random() < 0.3
        locs, links = abm.gen_net(rng, n=abm.size(rng, 2, 12 if big else 8))
        for x in links:
            if rng.random() < 0.3:
                x.append({"max_move_speed": rng.choice(["80.0", "200.0"])} if rng.random() < 0.5 else None)
                x.append(rng.random() < 0.6)
        days = rng.randint(2, 14 if big else 9)
        names = [l["name"] for l in locs]
        cl = []
        for _ in range(rng.randint(1, 10 if big else 7)):
            kind = rng.choice(["country", "location", "link", "link", "camp", "idpcamp", "remove_forced_redirection"])
            s = rng.randint(0, days)
            e = rng.choice([rng.randint(s, days + 1), s + 1, s, -1, rng.randint(0, days)])
            a = b = ""
            if kind == "country":
                a, b = rng.sample(abm.COUNTRIES, 2)
                if rng.random() < 0.1:
                    b = rng.choice([a, "Nowhere"])
            elif kind in ("location", "camp", "idpcamp"):
                a = rng.choice([l["name"] for l in locs if "camp" in l["location_type"]] or names) if kind != "location" and rng.random() < 0.8 else rng.choice(names)
                if rng.random() < 0.05:
                    a = "Nowhere"
            elif links:
                x = rng.choice(links)
                a, b = (x[0], x[1]) if rng.random() < 0.6 else (x[1], x[0])
                if rng.random() < 0.06:
                    a = rng.choice(["Nowhere", names[0]])
            else:
                continue
            cl.append([kind, a, b, s, e])
        par = rng.choice([0, 0, 0, 0, 2, 3])
        ops = []
        for n in names:
            if rng.random() < 0.3:
                ops.append(["insert", n, rng.randint(1, 3)])
        direct = rng.random() < 0.4
        once_twoway = rng.random() < 0.7
        for t in range(days):
            if rng.random() < 0.95:
                ops.append(["sched"] if once_twoway else ["sched", rng.random() < 0.5])
            if direct:
                for _ in range(rng.choice([0, 1, 1, 2])):
                    x = abm.gen_ops(rng, locs, links, 1, inserts=False, clears=False, types=False, conflicts=False)
                    ops += [o for o in x if o[0] not in ("insert", "add", "evolve")]
                    if links and rng.random() < 0.2:
                        q = rng.choice(links)
                        ops.append(["redir", q[rng.randrange(2)], q[rng.randrange(2)], rng.random() < 0.5])
                    if rng.random() < 0.05:
                        ops.append(rng.choice([["close_link", "Nowhere", names[0], True], ["close_link", names[0], "Nowhere", True], ["close_loc", "Nowhere", True],
                                               ["reopen_link", names[-1], "Nowhere", False], ["reopen_link", "Nowhere", names[0], False], ["camp_close", "Nowhere", False], ["redir", "Nowhere", names[0], True]]))
            if rng.random() < 0.15:
                ops.append(["graph"])
            ops.append(["evolve"])
        case = abm.base_case(rng, par=par, steps=1, net=(locs, links), ops=ops)
        case["closures"] = cl
        if not par and rng.random() < 0.4:
            for x in links:
                if len(x) > 3 and x[3] is None:
                    x[3] = {}
            if any(len(x) > 3 and x[3] for x in links):
                for x in links:
                    while len(x) < 4:
                        x.append({})
                    x[3] = {"max_move_speed": x[3].get("max_move_speed", "360.0")}
            model.geo_csv(case, rng)
        return case

    def evaluate(self, case, ctx):
        res = model.simulate(case, ctx)
        v = model.finished(res)
        ref = Roads(case)
        if not res.nodes or not res.nodes[0]["snaps"]:
            return v
        s0 = res.nodes[0]["snaps"][0]
        ref.flags = {n: {f: l[f] for f in FLAGS} for n, l in s0["locs"].items()}
        cov = {}
        for j, c in enumerate(case["closures"]):
            for d in range(int(c[3]), int(c[4])):
                if c[0] == "link":
                    objs = [(c[1], c[2]), (c[2], c[1])]
                elif c[0] == "location":
                    objs = [r for r in ref.road if c[1] in r]
                elif c[0] == "country":
                    objs = [r for r in ref.road if {ref.country[r[0]], ref.country[r[1]]} == {c[1], c[2]}]
                else:
                    objs = [c[1]]
                for o in objs:
                    if cov.setdefault((o, d), j) != j:
                        ctx.nontrivial()
        if any(o[0] in ("close_link", "close_loc", "close_border") for o in case["ops"]):
            ctx.nontrivial()
        K = model.steps_done(res)
        for k in range(K):
            where = model.opname(case, k)
            if k:
                op = case["ops"][k - 1]
                told = ref.apply(op, case["closures"], res.nodes[0]["snaps"][k - 1]["time"])
                for n in res.nodes:
                    g = n["rets"][k - 1]
                    if op[0] == "graph":
                        roads = sorted([a, b, r["dist"]] for (a, b), r in ref.road.items() if r["state"] == "open")
                        if sorted(g["roads"]) != roads or g["places"] != list(n["snaps"][k]["locs"]):
                            v.append(("graph", "%s: export_graph gave %s with the roads %s; the open roads are %s" % (where, g["places"], sorted(g["roads"]), roads)))
                        if sorted(g["camps"]) != sorted(x for x, f in ref.flags.items() if f["camp"]):
                            v.append(("graph", "%s: get_camp_names gave %s" % (where, g["camps"])))
                    if told is not None and bool(n["rets"][k - 1]) != told:
                        v.append(("answer", "%s: the call returned %s, but %s road changed" % (where, n["rets"][k - 1], "a" if told else "no")))
                ctx.probe("events " + op[0], op[0] not in ("insert", "evolve"))
            for n in res.nodes:
                s = n["snaps"][k]
                seen = {}
                for name, l in s["locs"].items():
                    for lst, st in ((l["links"], "open"), (l["closed"], "closed")):
                        for end, dist, _n, closed, redir, _cum, start in lst:
                            if start != name:
                                v.append(("start", "%s: a road of %s starts at %s" % (where, name, start)))
                            if (name, end) in seen:
                                v.append(("doubled", "%s: the road %s-%s exists twice" % (where, name, end)))
                            seen[(name, end)] = (st, dist, redir, closed)
                    at = {}
                    for end, a in l["lattr"]:
                        at[end] = a
                    for (a, b), r in ref.road.items():
                        if a == name and r["state"] != "removed" and b in at and at[b] != r["attr"]:
                            v.append(("attributes", "%s: the road %s-%s has attributes %s, not %s" % (where, a, b, at[b], r["attr"])))
                for key, r in ref.road.items():
                    g = seen.pop(key, None)
                    if g is None:
                        if r["state"] != "removed":
                            v.append(("lost", "%s: the road %s-%s is gone, it should be %s" % (where, key[0], key[1], r["state"])))
                        continue
                    if g[0] != r["state"]:
                        v.append(("state", "%s: the road %s-%s is %s, it should be %s" % (where, key[0], key[1], g[0], r["state"])))
                        continue
                    if g[3] != (g[0] == "closed"):
                        v.append(("flag", "%s: the road %s-%s is %s but marked closed=%s" % (where, key[0], key[1], g[0], g[3])))
                    if g[1] != r["dist"]:
                        v.append(("length", "%s: the road %s-%s is %s km long, not %s" % (where, key[0], key[1], g[1], r["dist"])))
                    if g[2] != r["redir"]:
                        v.append(("redirection", "%s: forced redirection of %s-%s is %s, it should be %s" % (where, key[0], key[1], g[2], r["redir"])))
                for key in seen:
                    v.append(("extra", "%s: there is a road %s-%s" % (where, key[0], key[1])))
                for name, f in ref.flags.items():
                    for x in FLAGS:
                        if s["locs"][name][x] != f[x]:
                            v.append(("camp", "%s: %s has %s=%s, it should be %s" % (where, name, x, s["locs"][name][x], f[x])))
                if v:
                    return v
        return v
