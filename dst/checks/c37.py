"""C37: names of places and countries are only names."""
import copy, json, re
from .. import abm, coupled, model, multi
from ..runner import Prop, generic_shrinks
from . import c16, c25

NEW = ["X", "XX", "X X", "x", "N'Djamena", "S\u00e3o Tom\u00e9", "M\u00e9naka", "Kaya", "kaya", "KAYA", "Kayaya", "12", "1", "1.5", "0", "NA", "None", "nan", "A.B", "A-B", "A_B",
       "A:B", "L:A:B", "A (north)", "(A)", "A/B", "A;B", "A+", "A*", "[A]", "\u4e2d", "Route 1", "-1", "town", "camp", "conflict_zone", "marker", "True", "False", "out", "in", "Camp",
       "A&B", "%s", "{}", "A|B", "^A", "$A", "zz", "aa", "a", "B", "location", "country", "links", "St. Mary", "Co.", ".A", "A;", "_A", "A_", "a-", "-A", "Sector 10", "Sector 1", "Sector", "tor", "e", "1e3", "007", "2020-01-12", "\u00c9", "e\u0301", "\u00df", "ss", "Alpha", "Bravo town", "Charlie-1", "Delta", "Echo", "Aland", "Borduria"]


def names_of(case):
    seen = []
    for m in [case] + list(case.get("models", {}).values() if isinstance(case.get("models"), dict) else case.get("models") or []):
        for L in m.get("locs") or []:
            for x in (L["name"], L.get("country")):
                if x and x not in seen:
                    seen.append(x)
    for x in abm.NAMES + abm.COUNTRIES:
        if x not in seen:
            seen.append(x)
    return seen


class Mapper:
    def __init__(self, table):
        self.t = table
        # whole cells of tables and parts of names joined with colons
        self.re = re.compile(r"((?:^|[,:;\n])[ \t]*\"?)(%s)(?=\"?[ \t]*(?:[,:;\r\n]|$))" % "|".join(re.escape(k) for k in sorted(table, key=len, reverse=True)))

    def text(self, s):
        if s in self.t:
            return self.t[s]
        return self.re.sub(lambda m: m.group(1) + self.t[m.group(2)], s)

    def __call__(self, z):
        if isinstance(z, dict):
            return {(self.text(k) if isinstance(k, str) else k): self(v) for k, v in z.items()}
        if isinstance(z, (list, tuple)):
            return [self(x) for x in z]
        return self.text(z) if isinstance(z, str) else z


class Check(Prop):
    id = "C37"
    rule = "agents moved, and at least one name differs in length or order from the one it replaces"
    runs = {"quick": 1200, "thorough": 20000}
    components = {"real": model.REAL_PAR + ["flee/Diagnostics.py", "flee/InputGeography.py", "flee/datamanager", "flee/coupling.py"], "stub": c16.STUB}
    assumptions = ["names contain no comma, quotation mark or line break and do not begin with # (they stand in tables)", "the user seeds random and numpy.random of every process before the simulation is created"]

    def gen(self, rng, i, tier):
        if rng.random() < 0.15:
            t = coupled.gen(rng, faults=False, log=rng.random() < 0.5)
            what = "coupled"
        else:
            t = c25.scenario(rng, i, tier)
            t["seeding"] = "build"
            t.pop("faults", None)
            what = "program"
        old = names_of(t)
        if rng.random() < 0.25:
            new = old[:]
            rng.shuffle(new)
        else:
            new = rng.sample(NEW, len(old))
        return {"what": what, "target": t, "names": [[a, b] for a, b in zip(old, new)]}

    def evaluate(self, case, ctx):
        t = case["target"]
        m = Mapper(dict((a, b) for a, b in case["names"]))
        if case["what"] == "coupled":
            return self.coupled(t, m, ctx)
        P = t.get("par") or 0
        a = multi.simulate(multi.alone(t, par=P), ctx)[0]
        if model.finished(a):
            # that legal scenarios complete is C15
            ctx.probe("scenarios that do not complete")
            return []
        o = rename(t, m)
        b = multi.simulate(multi.alone(o, par=P), ctx)[0]
        for nd in b.nodes:
            if nd["error"]:
                return [("error", "with other names the run fails on %s: %s" % (nd["name"], str(nd["error"][:2])[:300]))]
        v = model.finished(b)
        if v:
            return [("outcome", "with other names: %s" % v[0][1])]
        c25.json_like(a)
        c25.json_like(b)
        for x, y in zip(a.nodes, b.nodes):
            x["snaps"], x["rets"] = m(x["snaps"]), m(x["rets"])
            for z in x["snaps"] + y["snaps"]:
                for L in z["locs"].values():
                    L["lattr"].sort(key=lambda q: q[0])
            for r in (x["rets"], y["rets"]):
                for k, op in enumerate(t["ops"]):
                    if op[0] == "graph" and k < len(r) and isinstance(r[k], dict):
                        r[k]["roads"] = sorted(r[k]["roads"])
        a.files = {f: m.text(s) for f, s in text(a.files).items()}
        b.files = text(b.files)
        ctx.nontrivial(any(x["places"] or x["pos"] and x["pos"][0] == "link" for q in a.nodes for x in q["snaps"][-1]["agents"]))
        ctx.probe("scenario " + t["gen"])
        ctx.probe("files compared", len(a.files))
        ctx.probe("parallel", bool(P))
        d = multi.compare(a, b, t)
        return [(d[0], "the run differs when the places are called %s: %s" % ([x for x in case["names"] if x[0] in [q["name"] for q in t["locs"]]], d[1]))] if d else []

    def coupled(self, t, m, ctx):
        a = coupled.simulate(t, ctx, keep_files=True)
        if coupled.finished(a):
            return []
        b = coupled.simulate(rename(t, m), ctx, keep_files=True)
        v = coupled.finished(b)
        if v:
            return [("outcome", "with other names: %s" % (v[0],))]
        ctx.probe("coupled (%s)" % t["ctype"])
        ctx.nontrivial()
        for key, x in a.models.items():
            y = b.models[key]
            for what in ("pre", "post"):
                d = multi.diff(m(json.loads(json.dumps(getattr(x, what), default=str))), json.loads(json.dumps(getattr(y, what), default=str)))
                if d:
                    return [("coupled", "the coupled run differs with other names: %s, state %s exchange: %s" % (key, "before" if what == "pre" else "after", d))]
        return []

    def shrinks(self, case):
        for k in range(len(case["names"])):
            a, b = case["names"][k]
            if a != b and not any(x[1] == a for x in case["names"]):
                yield dict(case, names=case["names"][:k] + [[a, a]] + case["names"][k + 1:])
        if case["what"] == "program":
            for s in generic_shrinks(case["target"]):
                yield dict(case, target=s)


def text(files):
    return {f: s if isinstance(s, str) else s.decode("utf-8", "surrogateescape") for f, s in files.items()}


def rename(t, m):
    """the case with other names; settings and kinds of operations stay"""
    keep = {k: t[k] for k in ("settings", "gen", "kind", "mode", "pmode", "lmode", "ctype") if k in t}
    o = m({k: v for k, v in t.items() if k not in keep})
    o.update(copy.deepcopy(keep))
    return o
