"""C27: agents keep their identity, and demographics follow the input tables."""
import copy
from .. import abm, model
from ..runner import Prop


class IdDriver(abm.Driver):
    """follows every agent object through the run"""
    known = None

    def snap(self):
        if self.known is None:
            self.known = {}
        s = abm.snap(self.e, self.par)
        for a, d in zip(self.e.agents, s["agents"]):
            d["uid"] = self.known.setdefault(id(a), (len(self.known), a))[0]
        return s


def same(x, y):
    if str(x) == str(y):
        return True
    try:
        return float(x) == float(y)
    except (TypeError, ValueError):
        return False


class Check(Prop):
    id = "C27"
    rule = "an agent with attributes was followed through at least two steps, or attributes were drawn from tables"
    runs = {"quick": 1800, "thorough": 30000}
    components = {"real": model.REAL_PAR + ["flee/InputGeography.py", "flee/datamanager"], "stub": model.STUB_MPI}
    assumptions = ["frequencies are compared with the weights of the table at 6.5 standard deviations",
                   "in a coupled run an agent that crosses to the other model is a new agent there"]

    def gen(self, rng, i, tier):
        par = rng.choice([0, 0, 0, 2, 3, 4])
        g = rng.random()
        if g < 0.05:
            locs, links = abm.gen_net(rng, n=rng.randint(2, 5))
            case = abm.base_case(rng, par=par, steps=1, net=(locs, links), ops=[])
            files, tab = model.demographics(rng, locs)
            case["files"], case["tab"] = files, tab
            case["ops"] = [["demographics"]] + [["draws", l["name"], 300] for l in rng.sample(locs, min(1, len(locs)))]
            return case
        if g < 0.5:
            case = model.spawn_case(rng, par, tier)
        else:
            case = model.journey_case(rng, tier, par=par, loglevel=rng.choice([0, 1, 2]))
        names = [l["name"] for l in case["locs"]]
        peopled = [l["name"] for l in case["locs"] if l.get("pop", 0) >= 400]
        for k in [k for k in (case.get("files") or {}) if "demographics" in k]:
            del case["files"][k]
        tab = {}
        if rng.random() < 0.8:
            f, tab = model.demographics(rng, case["locs"])
            case.setdefault("files", {}).update(f)
        case["tab"] = tab
        ops = case["ops"]
        if rng.random() < 0.7 and not any(o[0] == "demographics" for o in ops):
            ops.insert(0, ["demographics"])
        for _ in range(rng.choice([0, 1, 2, 3])):
            k = rng.randrange(len(ops) + 1)
            q = rng.random()
            if q < 0.3 and peopled:
                ops.insert(k, ["draw", rng.choice(peopled)])
            elif q < 0.6:
                take = rng.random() < 0.4 and bool(peopled)
                ops.insert(k, ["shared", rng.choice(peopled if take else names), rng.randint(1, 4), {"kind": rng.choice(["x", "y"])}, take])
            elif q < 0.7:
                ops.insert(k, ["inserts", rng.choice(names), rng.randint(1, 4)])
            elif q < 0.8:
                ops.insert(k, ["clear", [rng.choice(names)]])
            else:
                ops.insert(k, ["insert", rng.choice(names), rng.randint(1, 4), {"age": str(rng.randint(1, 80)), "group": rng.choice(["a", "b"])}])
        if rng.random() < 0.35 and peopled:
            cols = rng.sample(["age", "gender", "income", "x-y"], rng.randint(0, 3))
            rows = [[rng.choice(peopled)] + [rng.choice(["1", "37", "f", "m", "2.50", ""]) for _ in cols] for _ in range(rng.randint(1, 8))]
            txt = ["location," + ",".join(cols) if cols else "location"]
            for r in rows:
                if rng.random() < 0.1:
                    txt.append(rng.choice(["", "#skipped,1,2"]))
                txt.append(",".join(r))
            case.setdefault("files", {})["input_csv/agents.csv"] = "\n".join(txt) + "\n"
            case["agents"] = {"cols": cols, "rows": rows}
            ops.insert(rng.choice([0, 0, rng.randrange(len(ops) + 1)]), ["agents_csv", "input_csv/agents.csv"])
        if rng.random() < 0.2:
            case["settings"]["spawn_rules"]["camps_are_sinks"] = True
            for l in case["locs"]:
                l.setdefault("attributes", {})["deactivation_probability"] = rng.choice([0.0, 0.5, 1.0])
        return case

    def evaluate(self, case, ctx):
        res = model.simulate(case, ctx, driver=IdDriver)
        v = model.finished(res)
        if v:
            return v
        K = model.steps_done(res)
        par = case["par"]
        loaded = False
        aid = 0
        seen = [dict() for _ in res.nodes]      # uid -> [home, attributes, steps]
        for k in range(K):
            op = case["ops"][k - 1] if k else ["build"]
            where = model.opname(case, k)
            new = []
            for n, known in zip(res.nodes, seen):
                for a in n["snaps"][k]["agents"]:
                    u = a["uid"]
                    if u not in known:
                        known[u] = [a["home"], a["attr"], 0]
                        new.append(a)
                        continue
                    w = known[u]
                    if a["home"] != w[0]:
                        return [("home", "%s: the home of an agent on %s changed from %s to %s" % (where, n["name"], w[0], a["home"]))]
                    if a["attr"] != w[1]:
                        return [("attributes", "%s: the attributes of an agent on %s changed from %s to %s" % (where, n["name"], w[1], a["attr"]))]
                    w[2] += 1
                    if w[2] > 1 and w[1]:
                        ctx.nontrivial()
            if op[0] in ("demographics", "initial"):
                loaded = True
            msg = self.created(case, op, new, loaded, aid, ctx)
            if msg:
                return [("created", "%s: %s" % (where, msg))]
            if op[0] in ("insert", "add", "shared"):
                aid += op[2]
        return []

    def created(self, case, op, new, loaded, aid, ctx):
        k = op[0]
        for a in new:
            if a["pos"] != ["loc", a["home"]] and a["pos"] is not None:
                return "a new agent at %s has its home at %s" % (a["pos"], a["home"])
        if k in ("insert", "add", "shared", "inserts"):
            if k == "inserts":
                want = [(op[1], {})] * op[2]
            else:
                want = [(op[1], dict(op[3] if len(op) > 3 else {}, aid=aid + 1 + j)) for j in range(op[2])]
            if k == "shared":
                ctx.probe("attributes shared by the caller")
            return self.match(want, [(a["home"], a["attr"]) for a in new])
        if k == "agents_csv":
            c = case["agents"]
            ctx.probe("agents read from a file")
            return self.match([(r[0], dict(zip(c["cols"], r[1:]))) for r in c["rows"]], [(a["home"], a["attr"]) for a in new])
        if k in ("spawn", "initial", "draw", "draws"):
            tab = case["tab"] if loaded else {}
            for a in new:
                if set(a["attr"]) != set(tab):
                    return "a new agent has the attributes %s, the tables are %s" % (sorted(a["attr"]), sorted(tab))
                for t, cols in tab.items():
                    col = a["home"] if a["home"] in cols else "Default"
                    w = [x for val, x in cols[col].items() if same(val, a["attr"][t])]
                    if not w or w[0] <= 0:
                        return "%s %s was drawn at %s, whose column %s has the weights %s" % (t, a["attr"][t], a["home"], col, cols[col])
                    ctx.probe("drawn from its own column" if col != "Default" else "drawn from the default column")
                    ctx.nontrivial()
            if k == "draws":
                if len(new) != op[2]:
                    return "%d agents for %d" % (len(new), op[2])
                for t, cols in tab.items():
                    c = cols[op[1] if op[1] in cols else "Default"]
                    tot = float(sum(c.values()))
                    for val, x in c.items():
                        p, n = x / tot, len(new)
                        got = sum(1 for a in new if same(val, a["attr"][t]))
                        if abs(got - n * p) > 6.5 * (n * p * (1 - p)) ** 0.5 + 2:
                            return "%s %s was drawn %d times of %d, its weight is %s of %s" % (t, val, got, n, x, tot)
                    ctx.probe("frequencies compared")
            return None
        if new:
            return "%d new agents" % len(new)
        return None

    def match(self, want, got):
        f = lambda z: sorted(repr((h, sorted(d.items()))) for h, d in z)
        a, b = f(want), f(got)
        if a == b:
            return None
        return "created %s, expected %s" % ([x for x in b if x not in a][:2] or len(b), [x for x in a if x not in b][:2] or len(a))
