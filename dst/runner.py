"""Seeded search: runs many simulated executions in worker processes, minimises and reports violations, writes
evidence, supports replay.  One (VERIF_SEED, property, index) triple is one exactly repeatable execution."""
import copy, ctypes, hashlib, importlib, json, multiprocessing as mp, os, random, resource, signal, subprocess, sys, threading, time, traceback
from . import core
from .core import Chooser, Hang, HarnessError, World

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_real_time = time.time
NPROC = int(os.environ.get("VERIF_JOBS", "8"))


class Prop:
    """one property's check; subclasses define gen() and evaluate()"""
    id = None
    level = "exploration"
    rule = ""
    runs = {"quick": 400, "thorough": 6000}
    cap = {"quick": 420, "thorough": 3000}     # wall seconds for the search
    hang_s = 45                                # CPU seconds after which one execution counts as hung
    components = {"real": [], "stub": []}
    assumptions = []
    shrink_budget = 90

    def gen(self, rng, i, tier):
        raise NotImplementedError

    def evaluate(self, case, ctx):
        """executes the case; returns a list of violations [(class, message)] and fills ctx.stats"""
        raise NotImplementedError

    def known(self, viol, case):
        """key of the known finding that this violation is an instance of, or None"""
        return None

    def shrinks(self, case):
        """yields smaller cases (generic passes are applied as well)"""
        return []


class Ctx:
    """per-evaluation context: hands out choosers (recorded), collects statistics"""

    def __init__(self, sched_seed=None, choices=None):
        self.sched_seed = sched_seed
        self.choices = choices
        self.n = 0
        self.taken = []
        self.choosers = []
        self.stats = {"steps": 0, "switches": 0, "simtime": 0.0, "fired": {}, "digests": [], "worlds": 0, "nontrivial": False, "probes": {}, "ncoll": 0}

    def chooser(self, n_nodes=1, policy=None):
        k = self.n
        self.n += 1
        if self.choices is not None:
            c = Chooser(replay=self.choices[k] if k < len(self.choices) else [])
        else:
            c = Chooser(rng=random.Random("%s/%d" % (self.sched_seed, k)), n_nodes=n_nodes, policy=policy)
        self.choosers.append(c)
        if n_nodes > 1 and c.policy:
            self.probe("schedule policy " + c.policy[0])
        return c

    def world(self, w):
        """account for a finished world (dict as in abm.Res.world)"""
        s = self.stats
        s["worlds"] += 1
        s["steps"] += w["steps"]
        s["switches"] += w["switches"]
        s["simtime"] += w["simtime"]
        s["ncoll"] += w.get("ncoll", 0)
        for k, v in w["fired"].items():
            s["fired"][k] = s["fired"].get(k, 0) + v
        s["digests"].append(w["digest"])

    def probe(self, name, n=1):
        if n:
            self.stats["probes"][name] = self.stats["probes"].get(name, 0) + n

    def nontrivial(self, b=True):
        if b:
            self.stats["nontrivial"] = True

    def all_taken(self):
        return [list(c.taken) for c in self.choosers]


def load(prop_id):
    m = importlib.import_module("dst.checks." + prop_id.lower())
    return m.Check()


# ------------------------------------------------------------------------------------------ one execution

_arm = {"on": False}


def _on_alarm(sig, frame):
    if not _arm["on"]:
        return
    w = World.current_world
    if w is None or w.cur is None:
        raise Hang()
    if w.single:
        raise Hang()
    t = w.cur.thread
    ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(t.ident), ctypes.py_object(Hang))
    signal.setitimer(signal.ITIMER_PROF, 3.0)  # again, should it be swallowed


def execute(prop, case, sched_seed=None, choices=None):
    """returns (violations, ctx); violations: list of [class, message]"""
    ctx = Ctx(sched_seed, choices)
    _arm["on"] = True
    signal.signal(signal.SIGPROF, _on_alarm)
    signal.setitimer(signal.ITIMER_PROF, prop.hang_s)
    try:
        v = prop.evaluate(copy.deepcopy(case), ctx)
    except Hang:
        v = [("hang", "the execution did not finish: no progress within %d s of CPU time" % prop.hang_s)]
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        _arm["on"] = False
    out = []
    for c, m in v or []:
        if [c, m] not in out:
            out.append([c, m])
    return out, ctx


def run_rng(seed, prop_id, i):
    h = hashlib.sha256(("%s|%s|%s" % (seed, prop_id, i)).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


def make_run(prop, seed, i, tier):
    rng = run_rng(seed, prop.id, i)
    case = prop.gen(rng, i, tier)
    case = json.loads(json.dumps(case))
    return case, "%s" % rng.randrange(1 << 60)


# ------------------------------------------------------------------------------------------ workers

def _limits():
    lim = 5 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def _worker(prop_id, seed, tier, counter, total, stop, conn, indices):
    try:
        _limits()
        prop = load(prop_id)
        while True:
            if stop.value:
                break
            with counter.get_lock():
                k = counter.value
                if k >= total:
                    break
                counter.value = k + 1
            i = indices[k] if indices else k
            conn.send(("start", i))
            case, sched = make_run(prop, seed, i, tier)
            v, ctx = execute(prop, case, sched)
            s = ctx.stats
            s["digest"] = hashlib.sha256("|".join(s.pop("digests")).encode()).hexdigest()[:24]
            conn.send(("done", i, v, s, case if (v or i < 3) else None, sched))
        conn.send(("end",))
    except BaseException:
        try:
            conn.send(("crash", traceback.format_exc(limit=-6)))
        except Exception:
            pass


def search(prop, seed, tier, total, cap, indices=None, stop_on_violation=True, nproc=None):
    mpc = mp.get_context("fork")
    counter, stop = mpc.Value("i", 0), mpc.Value("i", 0)
    res, viols, crashes = {}, {}, []
    samples = {}
    t0 = _real_time()
    procs = []
    nproc = min(nproc or NPROC, total)
    for _ in range(nproc):
        a, b = mpc.Pipe(duplex=False)
        p = mpc.Process(target=_worker, args=(prop.id, seed, tier, counter, total, stop, b, indices))
        p.start()
        b.close()
        procs.append((p, a))
    live = {a: p for p, a in procs}
    current = {}
    capped = False
    from multiprocessing.connection import wait
    while live:
        for c in wait(list(live), timeout=1.0):
            try:
                m = c.recv()
            except EOFError:
                p = live.pop(c)
                p.join(5)
                if c in current:
                    crashes.append("worker died (exit %s) during run %s" % (p.exitcode, current[c]))
                continue
            if m[0] == "start":
                current[c] = m[1]
            elif m[0] == "done":
                current.pop(c, None)
                _, i, v, s, case, sched = m
                res[i] = s
                if case is not None and i < 3:
                    samples[i] = case
                if v:
                    viols[i] = (v, case, sched)
                    unknown = [x for x in v if not prop.known(x, case)]
                    if unknown and stop_on_violation:
                        stop.value = 1
            elif m[0] == "crash":
                current.pop(c, None)
                crashes.append(m[1])
            elif m[0] == "end":
                current.pop(c, None)
        if _real_time() - t0 > cap and not stop.value:
            stop.value = 1
            capped = True
        if _real_time() - t0 > cap + 120:
            for p in live.values():
                p.kill()
            crashes.append("workers killed: runs did not end")
            break
    return res, viols, crashes, samples, capped, _real_time() - t0


# ------------------------------------------------------------------------------------------ minimisation

def _dd(lst):
    """candidate sublists, big chunks first"""
    n = len(lst)
    size = n // 2
    while size >= 1:
        for s in range(0, n, size):
            yield lst[:s] + lst[s + size:]
        size //= 2


def generic_shrinks(case):
    for key in ("ops", "faults", "closures", "csv_closures"):
        if isinstance(case.get(key), list) and case[key]:
            for sub in _dd(case[key]):
                c = copy.deepcopy(case)
                c[key] = copy.deepcopy(sub)
                yield c
    if (case.get("par") or 0) > 2:
        c = copy.deepcopy(case)
        c["par"] -= 1
        yield c
    if isinstance(case.get("ops"), list):
        for k, op in enumerate(case["ops"]):
            if op[0] in ("insert", "add", "inserts") and op[2] > 1:
                for n in (1, op[2] // 2, op[2] - 1):
                    if 0 < n < op[2]:
                        c = copy.deepcopy(case)
                        c["ops"][k][2] = n
                        yield c
    if isinstance(case.get("links"), list) and len(case["links"]) > 1:
        for k in range(len(case["links"])):
            c = copy.deepcopy(case)
            del c["links"][k]
            yield c
    if isinstance(case.get("locs"), list) and len(case["locs"]) > 2:
        txt = json.dumps([case.get("ops"), case.get("links"), case.get("closures"), case.get("files")])
        for k in range(len(case["locs"]) - 1, 0, -1):
            if json.dumps(case["locs"][k]["name"]) not in txt and case["locs"][k]["name"] not in txt:
                c = copy.deepcopy(case)
                del c["locs"][k]
                yield c


def minimise(prop, case, sched, cls, budget):
    """shrinks case and schedule while a violation of class cls (not a known finding) persists"""
    t0 = _real_time()
    tried = 0

    def fails(c, sched=None, choices=None):
        try:
            v, ctx = execute(prop, c, sched, choices)
        except BaseException:
            return None
        for x in v:
            if x[0] == cls and not prop.known(x, c):
                return ctx.all_taken(), x
        return None
    r = fails(case, sched)
    if r is None:
        return None
    progress = True
    while progress and _real_time() - t0 < budget:
        progress = False
        for gen in (prop.shrinks, generic_shrinks):
            for c in gen(case):
                if _real_time() - t0 > budget:
                    break
                tried += 1
                q = fails(c, sched)
                if q is not None:
                    case, r, progress = c, q, True
                    break
            if progress:
                break
    choices, viol = r
    # schedule: fewest non-default choices
    q = fails(case, choices=[[] for _ in choices])
    if q is not None:
        choices, viol = [[] for _ in choices], q[1]
    else:
        for w in range(len(choices)):
            chunk = max(1, len(choices[w]) // 2)
            while chunk >= 1 and _real_time() - t0 < budget * 1.5:
                pos = 0
                while pos < len(choices[w]) and _real_time() - t0 < budget * 1.5:
                    if any(choices[w][pos:pos + chunk]):
                        ch = [list(x) for x in choices]
                        ch[w][pos:pos + chunk] = [0] * len(ch[w][pos:pos + chunk])
                        tried += 1
                        q = fails(case, choices=ch)
                        if q is not None:
                            choices, viol = ch, q[1]
                    pos += chunk
                chunk //= 2
            while choices[w] and choices[w][-1] == 0:
                choices[w].pop()
        q = fails(case, choices=choices)
        if q is None:
            choices = r[0]
    return case, choices, viol, tried


def _min_worker(prop_id, case, sched, cls, budget, conn):
    _limits()
    prop = load(prop_id)
    try:
        conn.send(minimise(prop, case, sched, cls, budget))
    except BaseException:
        conn.send(("error", traceback.format_exc(limit=-5)))


def minimise_in_child(prop, case, sched, cls):
    mpc = mp.get_context("fork")
    a, b = mpc.Pipe(duplex=False)
    p = mpc.Process(target=_min_worker, args=(prop.id, case, sched, cls, prop.shrink_budget, b))
    p.start()
    b.close()
    r = None
    if a.poll(prop.shrink_budget * 2 + 60):
        try:
            r = a.recv()
        except EOFError:
            r = None
    if p.is_alive():
        p.join(2)
        p.kill()
    p.join()
    if isinstance(r, tuple) and r and r[0] == "error":
        print(r[1], file=sys.stderr)
        return None
    return r


def replay_file(path, limits=True):
    with open(path) as f:
        d = json.load(f)
    prop = load(d["property"])
    if limits:
        _limits()
    v, ctx = execute(prop, d["case"], d.get("sched"), d.get("choices"))
    return prop, d, v, ctx


def write_replay(prop, seed, i, case, sched, choices, viol, note=""):
    out = os.path.join(VERIF, "out")
    os.makedirs(out, exist_ok=True)
    name = "%s-%s-%s-%s.json" % (prop.id, seed, i, hashlib.sha1(viol[0].encode()).hexdigest()[:6])
    p = os.path.join(out, name)
    with open(p, "w") as f:
        json.dump({"property": prop.id, "seed": seed, "run": i, "class": viol[0], "violation": viol[1], "case": case,
                   "sched": sched if choices is None else None, "choices": choices, "note": note,
                   "how": "./check %s --replay %s" % (prop.id, os.path.relpath(p, VERIF))}, f, indent=1)
    return p


def verify_replay(path, cls):
    r = subprocess.run([sys.executable, "-B", os.path.join(VERIF, "check"), "--replay", path], cwd=VERIF,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400,
                       env=dict(os.environ, PYTHONHASHSEED="0"))
    return r.returncode == 1 and ("class=" + cls) in r.stdout.decode("utf-8", "replace")


# ------------------------------------------------------------------------------------------ known findings

def known_findings(prop_id):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        d = json.load(f)
    return [k for k in d.get("known", []) if k["property"] == prop_id]


# ------------------------------------------------------------------------------------------ main

def main(prop_id, tier, seed):
    t0 = _real_time()
    prop = load(prop_id)
    total = prop.runs[tier]
    scale = os.environ.get("VERIF_SCALE")
    if scale:
        total = max(1, int(total * float(scale)))
    res, viols, crashes, samples, capped, wall = search(prop, seed, tier, total, prop.cap[tier])
    status = 0
    nviol = 0
    lines = []
    known_seen = {}
    if viols:
        # classes in order of the first run that shows them
        firsts = {}
        for i in sorted(viols):
            v, case, sched = viols[i]
            for x in v:
                k = prop.known(x, case)
                if k:
                    known_seen.setdefault(k, [0, x[1]])[0] += 1
                    continue
                firsts.setdefault(x[0], (i, x, case, sched))
        order = sorted(firsts.items(), key=lambda kv: kv[1][0])
        for cls, (i, x, case, sched) in order[:2]:
            print("run %d of seed %s: %s: %s" % (i, seed, cls, x[1]), flush=True)
            m = minimise_in_child(prop, case, sched, cls) if not nviol and cls != "hang" else None
            if m:
                mcase, choices, viol, tried = m
                path = write_replay(prop, seed, i, mcase, None, choices, viol, "minimised; %d executions tried" % tried)
            else:
                viol = x
                path = write_replay(prop, seed, i, case, sched, None, x, "not minimised")
            ok = verify_replay(path, cls)
            if not ok and m:
                path = write_replay(prop, seed, i, case, sched, None, x, "not minimised")
                viol = x
                ok = verify_replay(path, cls)
            if not ok:
                print("replay of %s does not reproduce class=%s" % (path, cls), file=sys.stderr)
                continue
            nviol += 1
            print("  minimised: %s" % viol[1])
            lines.append("VIOLATION property=%s replay=%s" % (prop.id, os.path.relpath(path, VERIF)))
        if firsts and not nviol:
            print("ERROR: a violation was seen but could not be replayed", file=sys.stderr)
            status = 2
    # determinism self-check on the same seeds, in other processes
    mism = []
    redo = sorted(res)[: 12 if tier == "quick" else 60]
    if redo and not nviol and not crashes and status == 0:
        res2, _, _, _, _, _ = search(prop, seed, tier, len(redo), 300, indices=redo, stop_on_violation=False, nproc=3)
        mism = [i for i in redo if i in res2 and res2[i]["digest"] != res[i]["digest"]]
        if mism:
            print("ERROR: executions are not repeatable: runs %s" % mism, file=sys.stderr)
            status = 2
    for k in known_findings(prop.id):
        # the listed input itself is replayed too, so that the finding is shown whatever the search met
        n = known_seen.get(k["key"], [0])[0]
        shown = n > 0
        if not shown and k.get("replay"):
            _, d, v, _ = replay_file(os.path.join(VERIF, k["replay"]), limits=False)
            shown = any(prop.known(x, d["case"]) == k["key"] for x in v)
        if shown:
            print("KNOWN-FINDING: property=%s %s [%s; met in %d runs of this search]" % (prop.id, k["what"], k["key"], n))
        else:
            print("note: the known finding %s did not show" % k["key"])
    if crashes:
        for c in crashes[:3]:
            print("HARNESS ERROR: " + c, file=sys.stderr)
        if not nviol:
            status = 2
    done = len(res)
    if done < max(1, total // 5) and not nviol:
        print("ERROR: only %d of %d runs were done in the time" % (done, total), file=sys.stderr)
        status = 2
    write_evidence(prop, tier, seed, res, samples, total, capped, wall, _real_time() - t0, nviol, mism, redo, known_seen)
    for l in lines:
        print(l)
    if nviol:
        status = 1
    if status == 0:
        print("OK property=%s runs=%d wall=%.1fs" % (prop.id, done, _real_time() - t0))
    return status


def write_evidence(prop, tier, seed, res, samples, total, capped, wall, total_wall, nviol, mism, redo, known_seen):
    agg = {"steps": 0, "switches": 0, "simtime": 0.0, "worlds": 0, "ncoll": 0}
    fired, probes = {}, {}
    nt = set()
    seen = set()
    for i, s in res.items():
        for k in agg:
            agg[k] += s.get(k, 0)
        for k, v in s["fired"].items():
            fired[k] = fired.get(k, 0) + v
        for k, v in s["probes"].items():
            probes[k] = probes.get(k, 0) + v
        seen.add(s["digest"])
        if s["nontrivial"]:
            nt.add(s["digest"])
    runs = len(res)
    cov = {
        "evaluations": runs, "distinct_nontrivial": len(nt), "rule": prop.rule,
        "samples": [samples[i] for i in sorted(samples)][:2] or ["(no sample kept)"],
        "simulated_worlds": agg["worlds"], "runs_per_hour": int(runs / max(wall, 0.001) * 3600),
        "seeds_per_hour": int(runs / max(wall, 0.001) * 3600),
        "planned_runs": total, "stopped_by_wall_cap": capped,
        "simulated_time_s": round(agg["simtime"], 1), "scheduling_points": agg["steps"], "context_switches": agg["switches"],
        "simulated_collectives": agg["ncoll"],
        "faults_fired": fired, "probes": probes,
        "distinct_executions": len(seen),
        "distinct_executions_measure": "distinct SHA-256 digests of the complete event logs (scheduling points, file and MPI operations, operation results and state snapshots)",
        "determinism_rechecked_runs": len(redo), "determinism_mismatches": len(mism),
        "real_components": prop.components["real"], "stubbed_components": prop.components["stub"],
        "known_findings_met": {k: v[0] for k, v in known_seen.items()},
    }
    ev = {"property": prop.id, "tier": tier, "seed": int(seed), "level": prop.level, "coverage": cov, "wall_s": round(total_wall, 2),
          "assumptions": list(prop.assumptions), "violations": nviol}
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
