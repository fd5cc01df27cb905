"""C38: what is still to come has no effect yet."""
import copy, datetime, json, re
from .. import coupled, model, multi
from ..runner import Prop, generic_shrinks
from . import c16, c25, c29


def ticks(ops):
    return [k for k, o in enumerate(ops) if o[0] == "evolve"]


class Check(Prop):
    id = "C38"
    rule = "agents moved before the day from which on the inputs differ, and some input differs"
    runs = {"quick": 1500, "thorough": 24000}
    components = {"real": model.REAL_PAR + ["flee/InputGeography.py", "flee/datamanager", "flee/coupling.py", "runscripts/run.py", "runscripts/run_par.py"], "stub": c16.STUB}
    assumptions = ["the user seeds random and numpy.random of every process before the simulation is created",
                   "refugee data are interpolated, so the next entry after a day is known on that day; with the flood forecaster the flood table is known in advance"]

    def gen(self, rng, i, tier):
        q = rng.random()
        if q < 0.1:
            t = coupled.gen(rng, faults=False, log=rng.random() < 0.5)
            return {"what": "coupled", "target": t, "T": rng.randint(1, max(1, t["days"] - 1)), "edits": []}
        if q < 0.4:
            want = rng.random() < 0.7
            for _ in range(12):
                t = c29.Check().gen(rng, i, tier)
                days = [int(d) + 1 for r in t["files"]["input_csv/closures.csv"].split("\n")[1:] for d in r.split(",")[3:5] if 0 < int(d) + 1 < t["days"]]
                if t["days"] > 1 and (days or not want):
                    # the last day in common is one on which something happens
                    T = rng.choice(days) if days and want else rng.randint(1, t["days"] - 1)
                    return {"what": "script", "target": t, "T": T, "edits": self.edits(t, T, rng)}
        t = c25.scenario(rng, i, tier)
        t["seeding"] = "build"
        t.pop("faults", None)
        n = len(ticks(t["ops"]))
        T = rng.randint(1, max(1, n - 1 if rng.random() < 0.8 else n))
        return {"what": "program", "target": t, "T": T, "edits": self.edits(t, T, rng)}

    def edits(self, t, T, rng):
        """changes of inputs that concern day T and later: [kind, what, ...]"""
        out = []
        later = lambda: T + rng.choice([0, 0, 1, 2, 5])
        files = t.get("files", {})
        forecast = t["settings"]["move_rules"].get("flood_rules", {}).get("flood_forecaster")
        for f, s in files.items():
            if "\n" not in s:
                continue
            base = f.split("/")[-1]
            rows = s.split("\n")
            if rows[-1] == "":
                rows.pop()
            if base in ("conflicts.csv", "flood_level.csv", t.get("conflict_file"), t.get("flood_file")) and s.startswith("#"):
                if forecast and "flood" in base:
                    continue
                vals = [0, 1, 2] if "flood" in base else [0.0, 0.5, 1.0]
                for k in range(T + 1, len(rows)):
                    c = rows[k].split(",")
                    rows[k] = ",".join(c[:1] + [str(rng.choice(vals)) for _ in c[1:]])
                if t.get("kind") != "script" and rng.random() < 0.3:
                    rows = rows[:T + 1]
            elif base == "closures.csv":
                for k in range(1, len(rows)):
                    c = rows[k].split(",")
                    if len(c) < 5:
                        continue
                    if int(c[3]) >= T and int(c[4]) >= T:
                        if rng.random() < 0.4:
                            rows[k] = None
                            continue
                        c[3] = str(later())
                    if int(c[4]) >= T:
                        c[4] = str(later())
                    rows[k] = ",".join(c)
            elif base == "location_changes.csv":
                for k in range(1, len(rows)):
                    c = rows[k].split(",")
                    if int(c[2]) >= T:
                        if rng.random() < 0.4:
                            rows[k] = None
                            continue
                        c[1] = rng.choice(["town", "camp", "idpcamp", c[1]])
                        c[2] = str(later())
                    rows[k] = ",".join(c)
            elif base == "locations.csv":
                for k in range(1, len(rows)):
                    c = rows[k].split(",")
                    if len(c) > 6 and "conflict" in c[5] and int(c[6] or 0) >= T and int(c[6] or 0) > 0:
                        c[6] = str(later())
                    rows[k] = ",".join(c)
            elif f.startswith("source_data/") and "layout" not in f:
                start = datetime.date.fromisoformat(t["table"]["start"])
                known = False
                for k, r in enumerate(rows):
                    m = re.match(r"(\d{4}-\d\d-\d\d),(\d+)$", r)
                    if not m:
                        continue
                    day = (datetime.date.fromisoformat(m.group(1)) - start).days
                    if known:
                        if rng.random() < 0.3:
                            rows[k] = None
                        else:
                            rows[k] = "%s,%d" % (m.group(1), max(0, int(m.group(2)) + rng.randint(-5, 9)))
                    known = known or day >= T - 1
            else:
                continue
            new = "\n".join(r for r in rows if r is not None) + "\n"
            if new != s:
                out.append(["file", f, new])
        cl = []
        for c in t.get("closures") or []:
            c = list(c)
            if c[3] >= T and c[4] >= T:
                if rng.random() < 0.4:
                    continue
                c[3] = later()
            if c[4] >= T:
                c[4] = later()
            cl.append(c)
        if cl != (t.get("closures") or []):
            out.append(["closures", cl])
        return out

    def other(self, case):
        t = copy.deepcopy(case["target"])
        for e in case["edits"]:
            if e[0] == "file":
                t["files"][e[1]] = e[2]
            else:
                t["closures"] = e[1]
        return t

    def evaluate(self, case, ctx):
        return getattr(self, case["what"])(case, ctx)

    def probes(self, case, ctx):
        for e in case["edits"]:
            ctx.probe("changed " + (e[1].split("/")[-1] if e[0] == "file" else e[0]) if not (e[0] == "file" and "source_data" in e[1]) else "changed refugee data")

    def program(self, case, ctx):
        t, T = case["target"], case["T"]
        ev = ticks(t["ops"])
        if not ev:
            return []
        last = ev[min(T, len(ev)) - 1]
        P = t.get("par") or 0
        a = multi.simulate(multi.alone(t, par=P), ctx)[0]
        if model.finished(a):
            # that legal scenarios complete is C15
            ctx.probe("scenarios that do not complete")
            return []
        o = self.other(case)
        o["ops"] = o["ops"][:last + 1]
        b = multi.simulate(multi.alone(o, par=P), ctx)[0]
        for nd in b.nodes:
            if nd["error"]:
                return [("error", "with other inputs from day %d on, the run fails before that on %s: %s" % (T, nd["name"], str(nd["error"][:2])[:300]))]
        v = model.finished(b)
        if v:
            return [("outcome", "with other inputs from day %d on: %s" % (T, v[0][1]))]
        for nd in a.nodes:
            nd["snaps"], nd["rets"] = nd["snaps"][:last + 2], nd["rets"][:last + 1]
        self.probes(case, ctx)
        ctx.probe("parallel", bool(P))
        ctx.nontrivial(any(x["places"] or x["pos"] and x["pos"][0] == "link" for q in a.nodes for x in q["snaps"][-1]["agents"]) and bool(case["edits"]))
        a.files, b.files = {}, {}
        d = multi.compare(c25.json_like(a), c25.json_like(b), t)
        return [(d[0], "with other inputs from day %d on (%s), the run differs before: %s" % (T, [e[:2] if e[0] == "file" else e for e in case["edits"]], d[1]))] if d else []

    def script(self, case, ctx):
        t, T = case["target"], case["T"]
        C = c29.Check()
        what = "parallel" if t["par"] else "sequential"
        _, a, v = C.script(t, ctx, what)
        if v:
            # that the scripts report what they run is C29
            return []
        o = self.other(case)
        o["argv"][2] = str(T)
        o["days"] = T
        res = model.simulate(dict(o, closures=[]), ctx, driver=c29.ScriptDriver, keep_files="drv")
        v = model.finished(res, what + " script of %d days" % T)
        b = [n["drv"].text for n in res.nodes if hasattr(n["drv"], "text") and n["drv"].text.strip()]
        for n in res.nodes:
            n["drv"] = None
        if v:
            return v
        self.probes(case, ctx)
        ctx.probe("tables of run scripts")
        ctx.nontrivial(bool(case["edits"]))
        x, y = a.split("\n")[:T + 1], "".join(b).split("\n")[:T + 1]
        for k in range(T + 1):
            if x[k:k + 1] != y[k:k + 1]:
                return [("script", "the %s script, run for %d and for %d days with inputs that agree on the first %d: line %d is %s and %s" % (what, t["days"], T, T, k, x[k:k + 1], y[k:k + 1]))]
        return []

    def coupled(self, case, ctx):
        t = case["target"]
        a = coupled.simulate(t, ctx, keep_files=True)
        if coupled.finished(a):
            return []
        b = coupled.simulate(dict(t, days=case["T"]), ctx, keep_files=True)
        v = coupled.finished(b)
        if v:
            return v
        ctx.probe("coupled, shorter run")
        ctx.nontrivial(case["T"] < t["days"])
        for key, m in a.models.items():
            o = b.models[key]
            for what in ("pre", "post"):
                x, y = getattr(m, what), getattr(o, what)
                if isinstance(x, dict):
                    d = multi.diff({k: z for k, z in x.items() if k in y}, y)
                else:
                    d = multi.diff(x[:len(y)], y)
                if d:
                    return [("coupled", "a coupled run of %d days and one of %d differ: %s, state %s exchange: %s" % (t["days"], case["T"], key, "before" if what == "pre" else "after", d))]
        return []

    def shrinks(self, case):
        for k in range(len(case["edits"])):
            yield dict(case, edits=case["edits"][:k] + case["edits"][k + 1:])
        if case["what"] == "program":
            for s in generic_shrinks(case["target"]):
                yield dict(case, target=s)
