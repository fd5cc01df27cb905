"""Deterministic simulator core: nodes, scheduler, virtual clock, per-node process environment.

A *node* stands for one operating-system process (an MPI rank or a coupled model).  Each node runs the real
flee code in its own thread, but exactly one node runs at any moment; control only moves at *points* (MPI
calls, file operations, sleeps, messages), where the chooser decides who goes next.  Nodes have separate
copies of the flee modules, of the `random` and `numpy.random` states, of the working directory, of argv and
of the standard streams, so they share exactly what real processes share: the simulated communicator, the
simulated file system and the simulated messages.
"""
import builtins, hashlib, importlib, importlib.abc, importlib.util, io, os, random, sys, threading, time, types
import numpy as np

REPO = os.environ.get("VERIF_REPO", "/repo")

_real = types.SimpleNamespace(
    time=time.time, sleep=time.sleep, monotonic=time.monotonic, perf_counter=time.perf_counter)


class NodeCrash(BaseException):
    """the simulated process is killed at this point"""


class WorldAbort(BaseException):
    """the run is over; unwind"""


class Hang(BaseException):
    """raised asynchronously when a node makes no progress"""


class Deadlock(Exception):
    pass


class HarnessError(Exception):
    pass


ISOLATED = ("flee", "mpi4py", "libmuscle", "ymmsl", "multiscale", "coverage")


def isolated(name):
    return name.split(".", 1)[0] in ISOLATED


class CodeCache:
    code = {}

    @classmethod
    def get(cls, path):
        c = cls.code.get(path)
        if c is None:
            with _real_open(path, "rb") as f:
                src = f.read()
            c = compile(src, path, "exec", dont_inherit=True)
            cls.code[path] = c
        return c


_real_open = builtins.open


class _Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        module.__file__ = self.path
        w = World.current_world
        if w is not None:
            w.atomic += 1       # importing holds the interpreter's import lock: no switch to another node meanwhile
        try:
            exec(CodeCache.get(self.path), module.__dict__)
        finally:
            if w is not None:
                w.atomic -= 1


class _StubLoader(importlib.abc.Loader):
    def create_module(self, spec):
        return None

    def exec_module(self, module):
        module.get_versions = lambda: {"version": "0"}


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        env = Env.active
        if env is None or not isolated(fullname):
            return None
        env.names.add(fullname)
        if fullname == "flee._version":  # runs git in a subprocess; irrelevant to behaviour
            return importlib.util.spec_from_loader(fullname, _StubLoader())
        if fullname.split(".")[0] not in ("flee",):
            return None
        base = os.path.join(REPO, *fullname.split("."))
        if _isdir(base) and _isfile(base + "/__init__.py"):
            spec = importlib.util.spec_from_loader(
                fullname, _Loader(base + "/__init__.py"), origin=base + "/__init__.py", is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        if _isdir(base) and not _isfile(base + ".py"):
            spec = importlib.util.spec_from_loader(fullname, None, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        if _isfile(base + ".py"):
            return importlib.util.spec_from_loader(fullname, _Loader(base + ".py"), origin=base + ".py")
        raise ModuleNotFoundError("No module named %r" % fullname, name=fullname)


_cache_is = {}


def _isfile(p):
    k = ("f", p)
    if k not in _cache_is:
        _cache_is[k] = _real_isfile(p)
    return _cache_is[k]


def _isdir(p):
    k = ("d", p)
    if k not in _cache_is:
        _cache_is[k] = _real_isdir(p)
    return _cache_is[k]


_real_isfile, _real_isdir = os.path.isfile, os.path.isdir

_finder = _Finder()


def install_finder():
    if _finder not in sys.meta_path:
        sys.meta_path.insert(0, _finder)


class NullOut(io.TextIOBase):
    def write(self, s):
        return len(s)

    def flush(self):
        pass

    def writable(self):
        return True


class CapOut(io.StringIO):
    """stderr sink with a bounded tail; stdout uses it unbounded"""


NULL = NullOut()


# Every process has its own generators behind the module-level functions of random and numpy.random.
_PY_NAMES = [n for n in dir(random) if getattr(getattr(random, n), "__self__", None) is random._inst]
_NP_NAMES = [n for n in dir(np.random) if getattr(getattr(np.random, n), "__self__", None) is np.random.mtrand._rand]


def _rng_dicts(py, rs):
    p = {n: getattr(py, n) for n in _PY_NAMES}
    p["_inst"] = py
    n = {k: getattr(rs, k) for k in _NP_NAMES}
    m = {k: v for k, v in n.items() if hasattr(np.random.mtrand, k)}
    m["_rand"] = rs
    return p, n, m


_HOST_RNG = _rng_dicts(random._inst, np.random.mtrand._rand)


def _use_rng(r):
    random.__dict__.update(r[0])
    np.random.__dict__.update(r[1])
    np.random.mtrand.__dict__.update(r[2])


class Env:
    """one simulated process environment"""
    active = None

    def __init__(self, seed=0, cwd=None, argv=None, stdout=None, stderr=None, environ=None):
        self.names = set()
        self.modules = {}
        self.rng = _rng_dicts(random.Random(seed), np.random.RandomState(seed & 0xffffffff))
        self.cwd = cwd
        self.argv = argv or ["model"]
        self.stdout = stdout or NULL
        self.stderr = stderr or NULL

    def add_module(self, name, mod):
        self.names.add(name)
        self.modules[name] = mod

    def enter(self):
        assert Env.active is None
        for n in list(_host_names()):
            m = sys.modules.pop(n, None)
            if m is not None:
                _host_modules[n] = m
        self._h = (os.getcwd(), sys.argv, sys.stdout, sys.stderr)
        self._load()

    def _load(self):
        Env.active = self
        sys.modules.update(self.modules)
        _use_rng(self.rng)
        if self.cwd:
            os.chdir(self.cwd)
        sys.argv = self.argv
        sys.stdout = self.stdout
        sys.stderr = self.stderr

    def _save(self):
        mods = {}
        for n in self.names:
            m = sys.modules.pop(n, None)
            if m is not None:
                mods[n] = m
        self.modules = mods
        if self.cwd:
            self.cwd = os.getcwd()
        self.argv, self.stdout, self.stderr = sys.argv, sys.stdout, sys.stderr
        Env.active = None

    def leave(self):
        assert Env.active is self
        self._save()
        c, a, o, e = self._h
        _use_rng(_HOST_RNG)
        os.chdir(c)
        sys.argv, sys.stdout, sys.stderr = a, o, e
        for k, m in _host_modules.items():
            sys.modules[k] = m
        _host_modules.clear()


_host_modules = {}


def _host_names():
    return [n for n in ("flee", "mpi4py", "mpi4py.MPI", "libmuscle", "ymmsl") if n in sys.modules]


# ------------------------------------------------------------------------------------------ chooser

class Chooser:
    """Source of all scheduling choices.  Zero always means 'let the current node go on'."""

    def __init__(self, rng=None, replay=None, policy=None, n_nodes=1):
        self.rng = rng
        self.replay = replay
        self.i = 0
        self.taken = []
        self.policy = policy
        if replay is None and rng is not None and policy is None:
            self.policy = self.draw_policy(rng, n_nodes)
        self.prio = {}
        self.changes = set()
        if self.policy and self.policy[0] == "prio":
            self.changes = set(self.policy[1])

    @staticmethod
    def draw_policy(rng, n):
        k = rng.randrange(6)
        if k == 0:
            return ("uniform",)
        if k == 1:
            return ("sticky", rng.choice([0.5, 0.8, 0.95]))
        if k == 2:
            return ("starve", rng.randrange(max(1, n)))
        if k == 3:
            return ("prio", sorted(rng.sample(range(1, 400), 4)))
        if k == 4:
            return ("rr",)
        return ("reverse",)

    def choose(self, options):
        """options: list of keys (node index, or -1 for the clock); returns index into options"""
        n = len(options)
        if n == 1:
            return 0
        if self.replay is not None:
            c = self.replay[self.i] if self.i < len(self.replay) else 0
            c = min(c, n - 1)
        else:
            c = self._policy(options)
        self.i += 1
        self.taken.append(c)
        return c

    def _policy(self, options):
        n = len(options)
        p = self.policy[0] if self.policy else "uniform"
        rng = self.rng
        if rng is None:
            return 0
        if p == "uniform":
            return rng.randrange(n)
        if p == "sticky":
            return 0 if rng.random() < self.policy[1] else rng.randrange(n)
        if p == "starve":
            v = self.policy[1]
            cand = [i for i, o in enumerate(options) if o != v]
            return rng.choice(cand) if cand else 0
        if p == "prio":
            if self.i in self.changes or not self.prio:
                pass
            if self.i in self.changes:
                o = options[0]
                self.prio[o] = min(self.prio.values(), default=0) - 1
            for o in options:
                if o not in self.prio:
                    self.prio[o] = rng.random()
            return max(range(n), key=lambda i: self.prio[options[i]])
        if p == "rr":
            cand = [i for i in range(1, n)]
            return cand[0]
        if p == "reverse":
            return n - 1
        return 0


# ------------------------------------------------------------------------------------------ world

class Node:
    def __init__(self, world, idx, name, fn, env):
        self.world, self.idx, self.name, self.fn, self.env = world, idx, name, fn, env
        self.status = "ready"
        self.pred = None
        self.until = None
        self.desc = ""
        self.lock = threading.Lock()
        self.lock.acquire()
        self.result = None
        self.error = None  # (type name, message, traceback text)
        self.points = 0
        self.fsops = 0
        self.fswrites = 0
        self.dead = False
        self.last_run = world.steps
        self.sleeps = []
        self.op = None          # what the node is doing, for the record of injected faults
        self.clock_skew = 0.0
        self.thread = None

    def ready(self):
        if self.status == "ready":
            return True
        if self.status == "blocked":
            return bool(self.pred())
        return False


class World:
    current_world = None

    def __init__(self, chooser, root=None, step_cap=200000, faults=(), fs_cfg=None, clock0=1.6e9, fair_cap=None):
        self.chooser = chooser
        self.nodes = []
        self.cur = None
        self.now = clock0
        self.clock0 = clock0
        self.steps = 0
        self.switches = 0
        self.hash = hashlib.sha256()
        self.events = []          # bounded tail for reports
        self.root = root
        self.step_cap = step_cap
        self.fair_cap = fair_cap or step_cap
        self.fair_next = 0
        self.faults = [dict(f) for f in faults]
        self.fired = {}
        self.fs_cfg = fs_cfg or {}
        self.outcome = None
        self.main = threading.Lock()
        self.main.acquire()
        self.aborting = False
        self.on_crash = None
        self.services = {}
        self.vis = {}
        self.patience = 0
        self.atomic = 0

    # -- building
    def spawn(self, name, fn, env):
        n = Node(self, len(self.nodes), name, fn, env)
        self.nodes.append(n)
        return n

    # -- recording
    def created(self, relpath):
        """a directory entry appeared"""
        v = self.fs_cfg.get("visibility")
        if v and relpath not in self.vis:
            self.vis[relpath] = (self.cur, self.now + v[len(self.vis) % len(v)])

    def log(self, kind, info=""):
        n = self.cur
        t = (n.idx if n else -1, kind, str(info))
        self.hash.update(repr(t).encode())
        ev = self.events
        ev.append(t)
        if len(ev) > 4000:
            del ev[:2000]

    def fire(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1

    # -- scheduling
    def _options(self, me):
        runnable = [n for n in self.nodes if n is not me and n.ready()]
        if me is not None and me.ready():
            runnable.insert(0, me)
        return runnable

    def _pick(self, me):
        while True:
            runnable = self._options(me)
            sleepers = [n for n in self.nodes if n.status == "sleep"]
            if not runnable and not sleepers:
                return None
            if not runnable:
                self._advance(sleepers)
                continue
            if self.steps > self.step_cap:
                # fair phase: everybody gets turns, time passes
                if self.steps > self.step_cap + self.fair_cap:
                    self.outcome = ("no-progress", self._stuck())
                    return None
                self.fair_next += 1
                if sleepers and self.fair_next % (len(self.nodes) + 1) == 0:
                    self._advance(sleepers)
                    continue
                order = sorted(runnable, key=lambda n: (n.idx - self.fair_next) % max(1, len(self.nodes)))
                nxt = order[0]
                nxt.status = "ready"
                return nxt
            if self.patience:
                late = [n for n in runnable if self.steps - n.last_run > self.patience]
                if late:
                    # bounded unfairness: nobody is passed over for ever
                    nxt = min(late, key=lambda n: n.last_run)
                    nxt.status, nxt.last_run = "ready", self.steps
                    return nxt
            opts = [n.idx for n in runnable]
            if sleepers:
                opts.append(-1)
            c = self.chooser.choose(opts) if len(opts) > 1 else 0
            if opts[c] == -1:
                self._advance(sleepers)
                self.fire("clock-advance-while-others-runnable")
                continue
            nxt = runnable[c]
            nxt.status, nxt.last_run = "ready", self.steps
            return nxt

    def _advance(self, sleepers):
        t = min(n.until for n in sleepers)
        if t > self.now:
            self.now = t
        for n in sleepers:
            if n.until <= self.now + 1e-12:
                n.status = "ready"

    def _stuck(self):
        return [(n.name, n.status, n.desc) for n in self.nodes if n.status not in ("done", "dead")]

    def _finish(self):
        """no node can go on"""
        if self.outcome is None:
            stuck = self._stuck()
            self.outcome = ("deadlock", stuck) if stuck else ("done", None)
        self.main.release()

    def _transfer(self, me, nxt):
        self.switches += 1
        if me is not None and Env.active is me.env:
            me.env._save()
        nxt.env._load()
        self.cur = nxt
        nxt.lock.release()

    def _reschedule(self, me):
        nxt = self._pick(me)
        if nxt is me:
            return
        if nxt is None:
            if self.single:
                self.outcome = self.outcome or ("deadlock", self._stuck())
                raise WorldAbort()
            me.env._save()
            self.cur = None
            self._finish()
            me.lock.acquire()
            raise WorldAbort()
        self._transfer(me, nxt)
        me.lock.acquire()
        if self.aborting:
            raise WorldAbort()
        if me.dead:
            raise NodeCrash()

    def point(self, kind, info=""):
        me = self.cur
        if self.aborting:
            raise WorldAbort()
        if self.atomic:
            return
        self.steps += 1
        me.points += 1
        self.log(kind, info)
        if me.dead:
            raise NodeCrash()
        for f in self.faults:
            if f.get("on") == "point" and f["node"] == me.name and f["k"] == me.points and not f.get("done"):
                f["done"] = True
                if f["kind"] == "crash":
                    self.fire("crash")
                    self.crash(me)
                elif f["kind"] == "stall":
                    self.fire("stall")
                    self._sleep(f.get("dt", 30.0))
                elif f["kind"] == "clock-jump":
                    self.fire("clock-jump")
                    me.clock_skew += f.get("dt", 3600.0)
        if self.single and self.steps > self.step_cap + self.fair_cap:
            self.outcome = ("no-progress", self._stuck() or [(me.name, me.status, me.desc)])
            raise WorldAbort()
        if len(self.nodes) > 1 or self.steps > self.step_cap:
            self._reschedule(me)

    def crash(self, me):
        self.log("crash", me.name)
        me.dead = True
        me.status = "dead"
        raise NodeCrash()

    def block(self, pred, desc):
        me = self.cur
        if self.aborting:
            raise WorldAbort()
        if pred():
            return
        me.status, me.pred, me.desc = "blocked", pred, desc
        self._reschedule(me)
        me.status, me.pred, me.desc = "ready", None, ""

    def _sleep(self, dt):
        me = self.cur
        if self.aborting:
            raise WorldAbort()
        me.until = self.now + max(dt, 0.0)
        me.status, me.desc = "sleep", "sleep"
        self.steps += 1
        self._reschedule(me)
        me.status = "ready"

    # -- node body
    def _body(self, n):
        import traceback
        try:
            n.result = n.fn(n)
            n.status = "done"
        except NodeCrash:
            n.status, n.dead = "dead", True
        except WorldAbort:
            n.status = "aborted"
            return
        except Hang as ex:
            n.error = ("Hang", "no progress within the time limit: the step did not finish", traceback.format_exc(limit=-6))
            n.status = "done"
        except BaseException as ex:
            n.error = (type(ex).__name__, str(ex)[:400], traceback.format_exc(limit=-8))
            n.status = "done"

    def _thread_main(self, n):
        n.lock.acquire()
        if self.aborting:
            return
        self._body(n)
        if self.aborting or n.status == "aborted":
            return
        if n.status == "dead" and self.on_crash:
            # restart hooks run outside any node environment; the dead node's buffered data dies with it
            n.env._save()
            self.cur = None
            self.on_crash(self, n)
            self._start_pending()
        nxt = self._pick(None)
        if nxt is None:
            if Env.active is n.env:
                n.env._save()
            self.cur = None
            self._finish()
            return
        if Env.active is n.env:
            n.env._save()
        self._transfer(None, nxt)

    def _start_pending(self):
        for n in self.nodes:
            if n.thread is None:
                n.thread = threading.Thread(target=self._thread_main, args=(n,), daemon=True)
                n.thread.start()

    def run(self):
        """run all nodes to the end; sets self.outcome"""
        install_finder()
        assert World.current_world is None
        World.current_world = self
        self.single = len(self.nodes) == 1 and not self.on_crash
        host = (os.getcwd(), sys.argv, sys.stdout, sys.stderr)
        for n in list(_host_names()):
            _host_modules[n] = sys.modules.pop(n)
        from . import seams
        seams.install()
        try:
            if self.single:
                n = self.nodes[0]
                n.env._load()
                self.cur = n
                self._body(n)
                if Env.active is n.env:
                    n.env._save()
                self.outcome = self.outcome or ("done", None)
            else:
                old = threading.stack_size(64 * 1024 * 1024)
                self._start_pending()
                threading.stack_size(old)
                nxt = self._pick(None)
                if nxt is None:
                    self.outcome = ("done", None)
                else:
                    self._transfer(None, nxt)
                    self._wait_main()
        finally:
            self.aborting = True
            for n in self.nodes:
                if n.thread is not None and n.thread.is_alive():
                    if n.lock.locked():
                        try:
                            n.lock.release()
                        except RuntimeError:
                            pass
                    n.thread.join(timeout=5)
            Env.active = None
            for k in [k for k in list(sys.modules) if isolated(k)]:
                sys.modules.pop(k, None)
            sys.modules.update(_host_modules)
            _host_modules.clear()
            seams.uninstall()
            _use_rng(_HOST_RNG)
            os.chdir(host[0])
            sys.argv, sys.stdout, sys.stderr = host[1:]
            World.current_world = None
        return self.outcome

    def _wait_main(self):
        self.main.acquire()

    def digest(self):
        return self.hash.hexdigest()[:24]


def active_world():
    """the world, if the calling thread is the node that is currently running in it"""
    w = World.current_world
    if w is None or w.cur is None or w.aborting:
        return None
    if w.single or threading.current_thread() is w.cur.thread:
        return w
    return None
