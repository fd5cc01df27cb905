"""C26: simulations in one process do not influence each other."""
import copy, json
from .. import abm, model, multi
from ..runner import Prop, generic_shrinks
from . import c25


class Check(Prop):
    id = "C26"
    rule = "both simulations moved agents and their steps were interleaved or consecutive in one process"
    runs = {"quick": 2200, "thorough": 30000}
    components = {"real": model.REAL_PAR + ["flee/Diagnostics.py", "flee/InputGeography.py", "flee/datamanager"], "stub": model.STUB_MPI}
    assumptions = ["both simulations use the same settings (settings are global by design)",
                   "the random state is set before every step, so that the draws of one simulation do not shift those of the other",
                   "each simulation runs in its own directory"]

    def gen(self, rng, i, tier):
        while True:
            a = c25.scenario(rng, i, tier)
            b = self.variant(rng, a) if rng.random() < 0.5 else c25.scenario(rng, i, tier, a.get("par") or 0)
            if b.get("csv") != a.get("csv") and (a.get("conflict_file") or a.get("flood_file")):
                continue
            if json.dumps(a["settings"]) != json.dumps(b["settings"]):
                # common settings: those of the first, where the second works with them
                if "any" in (a["gen"], b["gen"]) or not self.plain(a["settings"]) or not self.plain(b["settings"]):
                    continue
                b["settings"] = copy.deepcopy(a["settings"])
            if (a.get("conflict_file", ""), a.get("flood_file", "")) != (b.get("conflict_file", ""), b.get("flood_file", "")):
                continue
            break
        for c in (a, b):
            c["seeding"] = "op"
            c["faults"] = []
        mode = rng.choice(["random", "random", "alternate", "after", "bursts"])
        left = [list(range(-1, len(a["ops"]))), list(range(-1, len(b["ops"])))]
        script = []
        which = rng.randrange(2)
        while left[0] or left[1]:
            if mode == "random":
                which = rng.randrange(2)
            elif mode == "alternate":
                which = 1 - which
            elif mode == "bursts" and rng.random() < 0.3:
                which = 1 - which
            if not left[which]:
                which = 1 - which
            script.append([which, left[which].pop(0)])
        return {"parts": [a, b], "script": script, "par": a.get("par") or 0, "mode": mode}

    def plain(self, s):
        """settings that suit every network"""
        return "flood_rules" not in s["move_rules"] and not any(k.endswith("driven_spawning") for k in s["spawn_rules"])

    def variant(self, rng, a):
        """the same inputs with another history"""
        b = copy.deepcopy(a)
        b["seeds"] = [s + 1 for s in a["seeds"]]
        ops = []
        for op in b["ops"]:
            if op[0] in ("insert", "add") and rng.random() < 0.6:
                op[2] = max(1, op[2] + rng.choice([-1, 1, 2]))
            if op[0] == "clear" and rng.random() < 0.5 or op[0] in ("close_link", "reopen_link", "close_loc", "close_border") and rng.random() < 0.4:
                continue
            ops.append(op)
        b["ops"] = ops
        if rng.random() < 0.3 and not b.get("csv"):
            for l in b["locs"]:
                l["pop"] = l.get("pop", 0) * 2
        return b

    def evaluate(self, case, ctx):
        P = case["par"]
        single = []
        for c in case["parts"]:
            r = multi.simulate(multi.alone(c, par=P), ctx)[0]
            v = model.finished(r, "alone")
            if v:
                return v
            single.append(r)
        both = multi.simulate({"parts": case["parts"], "script": case["script"], "par": P}, ctx)
        v = []
        for i, c in enumerate(case["parts"]):
            d = multi.compare(single[i], both[i], c)
            if not d:
                extra = [f for f in both[i].files if f not in single[i].files]
                if extra:
                    d = ("file", "%s is only written next to another simulation" % extra[0])
            if d:
                v.append((d[0], "the %s simulation differs from a run on its own: %s" % (("first", "second")[i], d[1])))
        ctx.probe("order " + case["mode"])
        ctx.probe("parallel" if P else "sequential")
        ctx.nontrivial(all(any(x["places"] or x["pos"] and x["pos"][0] == "link" for q in r.nodes for x in q["snaps"][-1]["agents"]) for r in single))
        return v

    def shrinks(self, case):
        for i in (0, 1):
            c = case["parts"][i]
            n = len(c["ops"])
            size = max(1, n // 2)
            while size >= 1 and n:
                for s in range(0, n, size):
                    gone = set(range(s, min(n, s + size)))
                    d = copy.deepcopy(case)
                    d["parts"][i]["ops"] = [o for k, o in enumerate(c["ops"]) if k not in gone]
                    num, sc = -1, []
                    for w, k in case["script"]:
                        if w != i:
                            sc.append([w, k])
                        elif k not in gone:
                            sc.append([w, num])
                            num += 1
                    d["script"] = sc
                    yield d
                size //= 2
        for i in (0, 1):
            q = copy.deepcopy(case["parts"][i])
            ops = q.pop("ops")
            for s in generic_shrinks(q):
                d = copy.deepcopy(case)
                s["ops"] = ops
                if s.get("par") != case["parts"][i].get("par"):
                    continue
                txt = json.dumps(ops)
                if any(l["name"] not in [m["name"] for m in s["locs"]] and l["name"] in txt for l in q["locs"]):
                    continue
                d["parts"][i] = s
                yield d
