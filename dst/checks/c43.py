"""C43: the order of input that says what it belongs to has no meaning."""
import copy, random
from .. import model, multi
from . import c39
from .c39 import join, rows


def columns(rs, first, rng):
    """the table with its columns behind the given number of fixed ones in another order"""
    n = max(len(r) for r in rs)
    o = list(range(first, n))
    rng.shuffle(o)
    return [r[:first] + [r[k] for k in o] if len(r) == n else r for r in rs]


def shuffled(z, rng):
    if isinstance(z, dict):
        ks = list(z)
        rng.shuffle(ks)
        return {k: shuffled(z[k], rng) for k in ks}
    return z


def acts(r):
    """the days on which a closure does something"""
    return {int(r[3]), int(r[4])}


def mixed(case):
    rng = random.Random(case["order"])
    b = copy.deepcopy(case)
    b["settings"] = shuffled(b["settings"], rng)
    f = b["files"]
    done = ["settings"]
    for name in sorted(f):
        base = name.split("/")[-1]
        if not f[name].strip():
            continue
        rs = [r for r in rows(f[name]) if r]
        if base in ("conflicts.csv", "flood_level.csv"):
            rs = columns(rs, 1, rng)
        elif base.startswith("demographics_"):
            rs = columns(rs, 1, rng)
        elif base == "locations.csv":
            rs = columns(rs, 8, rng)
        elif base == "routes.csv":
            rs = columns(rs, 4, rng)
        elif base in ("sim_period.csv", "data_layout.csv"):
            rng.shuffle(rs)
            # the total comes first
            rs.sort(key=lambda r: r[0] != "total")
        elif base == "registration_corrections.csv" and len({r[0] for r in rs}) == len(rs):
            rng.shuffle(rs)
        elif base == "closures.csv" and len(rs) > 2 and not any(acts(x) & acts(y) for k, x in enumerate(rs[1:]) for y in rs[1:][:k]):
            q = rs[1:]
            rng.shuffle(q)
            rs = rs[:1] + q
        else:
            continue
        new = join(rs)
        if new != f[name]:
            done.append(base.split("_")[0] if "demographics" in base else base)
        f[name] = new
    return b, done


class Check(c39.Check):
    id = "C43"
    rule = "agents moved, and at least one input file was in another order"
    runs = {"quick": 1800, "thorough": 24000}
    assumptions = ["the user seeds random and numpy.random of every process before the simulation is created",
                   "the order of places and roads is kept, as it decides which random number selects what; closures that act on the same day are kept in their order"]

    def gen(self, rng, i, tier):
        case = c39.Check.gen(self, rng, i, tier)
        case.pop("n")
        case["order"] = rng.randint(0, 10 ** 9)
        return case

    def evaluate(self, case, ctx):
        a, ta = self.run(case, ctx)
        if model.finished(a):
            # that legal scenarios complete is C15
            ctx.probe("scenarios that do not complete")
            return []
        o, done = mixed(case)
        b, tb = self.run(o, ctx)
        what = "with another order in %s" % ", ".join(done)
        v = model.finished(b)
        if v:
            return [("outcome", "%s: %s" % (what, v[0][1]))]
        for x in done[1:]:
            ctx.probe("other order in " + x)
        ctx.probe(case["what"])
        ctx.probe("parallel", bool(case.get("par")))
        ctx.nontrivial(any(x["places"] or x["pos"] and x["pos"][0] == "link" for q in a.nodes if q["snaps"] for x in q["snaps"][-1]["agents"]) and len(done) > 1)
        ops = case["ops"] if case["what"] == "program" else [["day"]] * (case["days"] + 2)
        if not hasattr(a, "files"):
            a.files = b.files = {}
        inputs = [f for f in a.files if f.startswith(("input_csv", "source_data")) or f.endswith(".yml")]
        for r in (a, b):
            for n in r.nodes:
                for s in n["snaps"]:
                    for g in s["agents"]:
                        g["attr"] = dict(sorted(g["attr"].items()))
        d = multi.compare(a, b, {"ops": ops}, skip_files=inputs)
        if d:
            return [(d[0], "%s the simulation is another: %s" % (what, d[1]))]
        for x, y in zip(ta, tb):
            if x != y:
                p, q = x.split("\n"), y.split("\n")
                k = [j for j, (g, h) in enumerate(zip(p, q)) if g != h] or [min(len(p), len(q))]
                return [("table", "%s line %d of the script is %r, not %r" % (what, k[0], q[k[0]:k[0] + 1], p[k[0]:k[0] + 1]))]
        return []
