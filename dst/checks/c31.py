"""C31: displacement data tables are the data, whatever is asked for and in whatever order."""
import datetime, importlib
from fractions import Fraction
from math import floor
from .. import abm, core, model
from ..runner import Prop


class TableDriver(abm.Driver):
    """uses data tables as simulations and validation scripts do"""

    def main(self, node):
        H = importlib.import_module("flee.datamanager.handle_refugee_data")
        self.tables = {}
        for k, op in enumerate(self.case["ops"]):
            node.op = [k, op[0]]
            self.opi = k
            node.world.point("op", k)
            self.rets.append(self.do(op, H))
            self.progress = k + 1
            node.world.log("ret", (k, self.rets[-1]))
        return True

    def do(self, op, H):
        if op[0] == "make":
            c = self.case["tables"][op[1]]
            self.tables[op[1]] = H.RefugeeTable(csvformat="generic", data_directory="data%d" % op[1], start_date=c["start"], data_layout="data_layout.csv",
                                                population_scaledown_factor=c["scale"], start_empty=c["empty"])
            return None
        t = self.tables[op[1]]
        if op[0] == "correct":
            return float(t.correctLevel1Registrations(name=op[2], date=op[3]))
        if op[0] == "corrections":
            return t.ReadL1Corrections("data%d/registration_corrections.csv" % op[1])
        if op[0] == "field":
            return int(t.get_field(op[2], op[3], FullInterpolation=op[4]))
        if op[0] == "diff":
            return int(t.get_daily_difference(op[2], FullInterpolation=op[3], SumFromCamps=op[4]))
        if op[0] == "new":
            return int(t.get_new_refugees(op[2]))
        if op[0] == "inter":
            return bool(t.is_interpolated(op[2], op[3]))
        raise core.HarnessError("unknown operation %r" % (op,))


class Check(Prop):
    id = "C31"
    rule = "numbers between two dates with data were asked for after other questions or corrections"
    runs = {"quick": 6000, "thorough": 60000}
    components = {"real": ["flee/datamanager/DataTable.py", "flee/datamanager/handle_refugee_data.py"], "stub": ["file reads: seams over real scratch files (dst/seams.py)", "the processes of a parallel run: simulated, each with its own table"]}
    assumptions = ["the total is the first column of data_layout.csv and has its own file, dates are ascending",
                   "where the files of one column have different dates, the number of a file for a date it lacks is between those of its dates before and after",
                   "corrections name a date of the data, and the number before it is at least one", "a number within 1e-6 of a whole one may be rounded to either side"]

    def gen(self, rng, i, tier):
        P = rng.choice([0, 0, 0, 2, 3])
        tables, files, ops = [], {}, []
        for j in range(rng.choice([1, 1, 2])):
            start = datetime.date(2020, 1, 10) + datetime.timedelta(days=rng.choice([0, 0, -400, 40, 55, rng.randint(-9000, 9000)]))
            days = rng.choice([5, 12, 30, 400])
            cols, lay = {}, []
            for c in ["total"] + rng.sample(["Camp A", "B", "Camp", "C-3", "Ünal"], rng.randint(1, 4)):
                parts = rng.choice([1, 1, 1, 2, 3])
                ds = dates(rng, days)
                series = []
                names = []
                for q in range(parts):
                    if q and c != "total" and rng.random() < 0.4:
                        # another reporting rhythm
                        ds = dates(rng, days)
                    v = rng.choice([0, rng.randint(1, 50), rng.randint(1000, 200000)])
                    vs = []
                    for d in ds:
                        vs.append(v)
                        v = max(0, v + rng.choice([0, 1, 7, rng.randint(-v - 1, 3 * v + 5)]))
                    series.append([[d, v] for d, v in zip(ds, vs)])
                    names.append("f%d_%d.csv" % (len(cols), q))
                    files["data%d/%s" % (j, names[-1])] = write(rng, start, ds, vs)
                cols[c] = series
                lay.append([c] + names)
            files["data%d/data_layout.csv" % j] = "".join(",".join(x) + "\n" + rng.choice(["", "", "# comment,x\n", "\n"]) for x in lay)
            t = {"start": start.isoformat(), "scale": rng.choice([1, 1, 2, 10, 3]), "empty": rng.random() < 0.4, "cols": cols, "days": days}
            tables.append(t)
            mine = [["make", j]]
            cor = []
            for _ in range(rng.choice([0, 0, 1, 2])):
                c = rng.choice(sorted(cols))
                if same(cols[c]):
                    cor.append([c, (start + datetime.timedelta(days=rng.choice(cols[c][0])[0])).isoformat()])
            # corrections in order of their dates, as they are issued
            cor.sort(key=lambda x: x[1])
            if cor and rng.random() < 0.4:
                files["data%d/registration_corrections.csv" % j] = "".join(",".join(x) + "\n" for x in cor)
                mine.append(["corrections", j, cor])
            else:
                mine += [["correct", j, c, d] for c, d in cor]
                if rng.random() < 0.1:
                    mine.append(["corrections", j, []])
            names = sorted(cols)
            for _ in range(rng.randint(2, 15)):
                u = rng.random()
                day = rng.choice([0, 0, rng.randint(0, days), rng.randint(0, min(days, 8)), days + 3])
                if u < 0.55:
                    mine.append(["field", j, rng.choice(names), day, rng.random() < 0.8])
                elif u < 0.8:
                    mine.append(["diff", j, day, rng.random() < 0.8, rng.random() < 0.5])
                elif u < 0.85:
                    mine.append(["new", j, day])
                elif u < 0.95:
                    mine.append(["inter", j, rng.choice(names), day])
                elif cor:
                    # a late correction
                    c, d = rng.choice(cor)
                    later = [x for x in cols[c][0] if (start + datetime.timedelta(days=x[0])).isoformat() > max(x[1] for x in cor)]
                    if later:
                        mine.append(["correct", j, c, (start + datetime.timedelta(days=later[0][0])).isoformat()])
            ops.append(mine)
        seq = []
        while any(ops):
            o = rng.choice([x for x in ops if x])
            seq.append(o.pop(0))
        case = {"kind": "table", "par": P, "tables": tables, "files": files, "ops": seq, "seeds": [1] * max(1, P), "settings": {},
                "fs": {"read_chunk": rng.choice([0, 0, 1, 3, 11]), "chunk_path": "data"}}
        if rng.random() < 0.08:
            case["faults"] = [{"on": "read", "node": "rank%d" % rng.randrange(P) if P else "serial", "path": rng.choice(sorted(f for f in files if "corrections" not in f)), "k": 0}]
        return case

    def evaluate(self, case, ctx):
        res = model.simulate(case, ctx, driver=TableDriver)
        hit = [f for f in res.faults if f.get("hits")]
        if hit:
            n = [x for x in res.nodes if x["name"] == hit[0]["node"]][0]
            ctx.probe("data not readable")
            if not n["error"]:
                return [("unreported", "%s could not be read on %s, which went on" % (hit[0]["hits"][0], n["name"]))]
            return []
        # corrections of numbers below one are refused
        exp, legal = self.expected(case)
        if not legal:
            ctx.probe("corrections of nothing")
            return []
        v = model.finished(res)
        if v:
            return v
        asked = 0
        for n in res.nodes:
            for k, (op, got, e) in enumerate(zip(case["ops"], n["rets"], exp)):
                if e is None:
                    continue
                what = "operation %d %s on %s" % (k, op, n["name"])
                ok = got == e[0] if len(e) == 1 else e[0] <= got <= e[1]
                if not ok:
                    return [(op[0], "%s returns %s; from the data %s" % (what, got, " to ".join(str(x) for x in e)))]
                if op[0] in ("field", "diff") and k > 3:
                    asked += 1
        ctx.nontrivial(asked > 1)
        ctx.probe("numbers compared", asked)
        return []

    def expected(self, case):
        """per operation: None, (value,) or (least, most)"""
        T = [{c: total(parts, t["scale"]) for c, parts in t["cols"].items()} for t in case["tables"]]
        out = []

        def correct(j, c, date):
            t = case["tables"][j]
            day = (datetime.date.fromisoformat(date) - datetime.date.fromisoformat(t["start"])).days
            if day < 0:
                return Fraction(1)
            pts = T[j][c]
            q = [k for k, p in enumerate(pts) if p[0] == day][0]
            if q == 0:
                return Fraction(1)
            if pts[q - 1][1] < 1:
                raise ZeroDivisionError
            f = pts[q][1] / pts[q - 1][1]
            for p in pts[:q]:
                p[1] *= f
                p[2] *= f
            return f

        def value(j, c, day, full):
            """(least, most) whole number"""
            pts = T[j][c]
            if day <= pts[0][0]:
                x, y = pts[0][1:]
            elif day >= pts[-1][0]:
                x, y = pts[-1][1:]
            else:
                k = max(q for q, p in enumerate(pts) if p[0] <= day)
                p, q = pts[k], pts[k + 1]
                x, y = (p[m] + (q[m] - p[m]) * Fraction(day - p[0], q[0] - p[0]) if full else p[m] for m in (1, 2))
            e = Fraction(1, 10 ** 6)
            return floor(x - e) if x > 0 else 0, floor(y + e)

        def field(j, c, day, full):
            lo, hi = value(j, c, day, full)
            if case["tables"][j]["empty"]:
                l0, h0 = value(j, c, 0, full)
                return lo - h0, hi - l0
            return lo, hi
        try:
            for op in case["ops"]:
                j = op[1]
                if op[0] == "correct":
                    f = correct(j, op[2], op[3])
                    out.append((float(f) * (1 - 1e-9) - 1e-12, float(f) * (1 + 1e-9) + 1e-12))
                elif op[0] == "corrections":
                    for c, d in op[2]:
                        correct(j, c, d)
                    out.append(None)
                elif op[0] == "field":
                    out.append(field(j, op[2], op[3], op[4]))
                elif op[0] in ("diff", "new"):
                    full, summed = (op[3], op[4]) if op[0] == "diff" else (True, True)
                    cols = [c for c in T[j] if c != "total"] if summed else ["total"]
                    day = op[2]
                    if day == 0:
                        if case["tables"][j]["empty"]:
                            out.append((0,))
                        elif summed:
                            # recorded for C07: the total column is added to the sum
                            out.append(None)
                        else:
                            out.append(value(j, "total", 0, full))
                    else:
                        lo = hi = 0
                        for c in cols:
                            a, b = value(j, c, day, full), value(j, c, day - 1, full)
                            lo, hi = lo + a[0] - b[1], hi + a[1] - b[0]
                        out.append((lo, hi))
                elif op[0] == "inter":
                    out.append((op[3] not in [p[0] for p in T[j][op[2]]],))
                else:
                    out.append(None)
        except ZeroDivisionError:
            return [], False
        return out, True

    def shrinks(self, case):
        for k in range(len(case["ops"]) - 1, -1, -1):
            if case["ops"][k][0] != "make":
                yield dict(case, ops=case["ops"][:k] + case["ops"][k + 1:])
        for key in ("faults", "fs"):
            if case.get(key):
                yield dict(case, **{key: [] if key == "faults" else {}})
        if case["par"]:
            yield dict(case, par=0, seeds=[1], faults=[])


def dates(rng, days):
    ds = []
    d = rng.choice([0, 0, 0, -3, -20, 2])
    while d <= days and len(ds) < 14:
        ds.append(d)
        d += rng.randint(1, rng.choice([2, 5, 40]))
    return ds


def same(parts):
    return all([d for d, _ in p] == [d for d, _ in parts[0]] for p in parts)


def total(parts, scale):
    """[day, least, most]: the sum of all files at every date of any of them"""
    out = []
    for day in sorted({d for p in parts for d, _ in p}):
        lo = hi = Fraction(0)
        for p in parts:
            # the file's own number, or those of its neighbouring dates
            near = [v for d, v in p if d == day] or [v for d, v in p if d < day][-1:] + [v for d, v in p if d > day][:1]
            lo += Fraction(min(near), scale)
            hi += Fraction(max(near), scale)
        out.append([day, lo, hi])
    return out


def write(rng, start, ds, vs):
    out = []
    if rng.random() < 0.3:
        out.append(rng.choice(["Date,Refugee_numbers", "DateTime,x", "#date,number"]))
    for d, v in zip(ds, vs):
        q = (start + datetime.timedelta(days=d)).isoformat()
        out.append("%s,%d" % (q, v) if rng.random() < 0.9 else '"%s","%d"' % (q, v))
        if rng.random() < 0.06:
            out.append(rng.choice(["# estimate", "#%s,99999" % q, "", "%s," % (start + datetime.timedelta(days=d)).isoformat()]))
    return rng.choice(["\n", "\n", "\r\n"]).join(out) + rng.choice(["\n", "", "\n\n"])
