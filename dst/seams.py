"""Storage and clock seams: while a world runs, file and time functions used by the running node go through
the simulator.  Only paths under the world's root directory are simulated; everything else passes through."""
import builtins, errno, io, os, time
from . import core
from .core import NodeCrash, active_world

R = {}
_names_os = ["stat", "lstat", "listdir", "scandir", "replace", "rename", "remove", "unlink", "mkdir", "rmdir", "fsync", "open", "access", "link", "truncate", "utime"]
for _n in _names_os:
    R[_n] = getattr(os, _n)
R["bopen"] = builtins.open
R["ioopen"] = io.open
R["sleep"], R["time"], R["monotonic"], R["perf_counter"], R["time_ns"] = time.sleep, time.time, time.monotonic, time.perf_counter, time.time_ns

_installed = 0


def under(w, path):
    if w.root is None:
        return False
    try:
        p = os.fspath(path)
    except TypeError:
        return False
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if not os.path.isabs(p):
        p = os.path.join(os.getcwd(), p)
    p = os.path.normpath(p)
    return p == w.root or p.startswith(w.root + os.sep)


def rel(w, path):
    p = os.fspath(path)
    if not os.path.isabs(p):
        p = os.path.join(os.getcwd(), p)
    return os.path.relpath(os.path.normpath(p), w.root)


class SimRaw(io.RawIOBase):
    """raw file whose reads and writes are scheduling points and fault points"""

    def __init__(self, w, node, fd, path, mode):
        self.w, self.node, self.fd, self.path = w, node, fd, path
        self._r = "r" in mode or "+" in mode
        self._w = any(c in mode for c in "wax+")
        self.name = path
        self.mode = mode

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        return self.fd

    def isatty(self):
        return False

    def seek(self, pos, whence=0):
        return os.lseek(self.fd, pos, whence)

    def tell(self):
        return os.lseek(self.fd, 0, 1)

    def truncate(self, size=None):
        if size is None:
            size = self.tell()
        os.ftruncate(self.fd, size)
        return size

    def _alive(self):
        w = active_world()
        return w is self.w and w.cur is self.node and not self.node.dead

    def readinto(self, b):
        if self._alive():
            w, node = self.w, self.node
            w.point("read", rel(w, self.path))
            for f in w.faults:
                if f.get("on") == "read" and f["node"] == node.name and f.get("path", "") in self.path:
                    if f["k"] > 0:
                        f["k"] -= 1
                        continue
                    w.fire("eio-on-read")
                    f.setdefault("op", node.op)
                    f.setdefault("hits", []).append(rel(w, self.path))
                    raise OSError(errno.EIO, os.strerror(errno.EIO), self.path)
        elif self.node.dead or self.w.aborting:
            return 0
        mx = self.w.fs_cfg.get("read_chunk", 0) if self.w.fs_cfg.get("chunk_path", "") in self.path else 0
        n = len(b) if not mx else min(len(b), mx)
        data = os.read(self.fd, n)
        if mx and len(data) == mx and n < len(b):
            self.w.fire("short-read")
        b[: len(data)] = data
        return len(data)

    def write(self, b):
        n = len(b)
        if self.node.dead or self.w.aborting or self.w is not core.World.current_world:
            return n  # the process is gone; its buffered data is lost
        w, node = self.w, self.node
        alive = self._alive()
        data = bytes(b)
        if alive:
            k = node.fswrites
            node.fswrites += 1
            take = n
            mx = w.fs_cfg.get("write_chunk", 0) if w.fs_cfg.get("chunk_path", "") in self.path else 0
            if mx:
                take = min(take, mx)
                if take < n:
                    w.fire("short-write")
            for f in w.faults:
                if f.get("on") == "write" and f["node"] == node.name and not f.get("done"):
                    if "path" in f and f["path"] not in self.path:
                        continue
                    if f["k"] > 0:
                        f["k"] -= 1
                        continue
                    kind = f["kind"]
                    if kind == "crash":
                        part = min(n, f.get("bytes", 0))
                        if part:
                            os.write(self.fd, data[:part])
                        f["done"] = True
                        w.fire("crash-during-write")
                        w.log("torn", (rel(w, self.path), part))
                        w.crash(node)
                    if kind in ("enospc", "eio"):
                        part = min(n, f.get("bytes", 0))
                        if part and not f.get("wrote"):
                            f["wrote"] = True
                            os.write(self.fd, data[:part])
                            w.fire("partial-write")
                            w.point("write", (rel(w, self.path), part))
                            f["k"] = 0
                            return part
                        if not f.get("sticky", True):
                            f["done"] = True
                        if not f.get("counted"):
                            f["counted"] = True
                            w.fire(kind)
                        w.log(kind, rel(w, self.path))
                        f.setdefault("op", node.op)
                        f.setdefault("hits", []).append(rel(w, self.path))
                        raise OSError(errno.ENOSPC if kind == "enospc" else errno.EIO, os.strerror(errno.ENOSPC if kind == "enospc" else errno.EIO), self.path)
            done = 0
            os.write(self.fd, data[:take])
            w.point("write", (rel(w, self.path), take))
            return take
        # not the running node (late finaliser): write through
        os.write(self.fd, data)
        return n

    def close(self):
        if not self.closed:
            try:
                super().close()
            finally:
                try:
                    os.close(self.fd)
                except OSError:
                    pass


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    w = active_world()
    if w is None or isinstance(file, int) or not under(w, file):
        return R["ioopen"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    node = w.cur
    path = os.fspath(file)
    w.point("open", (rel(w, path), mode))
    for f in w.faults:
        if f.get("on") == "open" and f["node"] == node.name and not f.get("done") and any(c in mode for c in "wax+"):
            if "path" in f and f["path"] not in path:
                continue
            if f["k"] > 0:
                f["k"] -= 1
                continue
            f["done"] = True
            w.fire(f["kind"] + "-open")
            f.setdefault("hits", []).append(rel(w, path))
            f.setdefault("op", node.op)
            e = errno.ENOSPC if f["kind"] == "enospc" else errno.EIO
            raise OSError(e, os.strerror(e), path)
    binary = "b" in mode
    flags = 0
    if "r" in mode:
        _visible(w, path)
    elif w.fs_cfg.get("visibility") and not os.path.lexists(path):
        w.created(rel(w, path))
    m = mode.replace("b", "").replace("t", "").replace("U", "")
    plus = "+" in m
    if "r" in m:
        flags = os.O_RDWR if plus else os.O_RDONLY
    elif "w" in m:
        flags = (os.O_RDWR if plus else os.O_WRONLY) | os.O_CREAT | os.O_TRUNC
    elif "a" in m:
        flags = (os.O_RDWR if plus else os.O_WRONLY) | os.O_CREAT | os.O_APPEND
    elif "x" in m:
        flags = (os.O_RDWR if plus else os.O_WRONLY) | os.O_CREAT | os.O_EXCL
    else:
        raise ValueError("invalid mode: %r" % mode)
    flags |= os.O_CLOEXEC
    if opener is not None:
        fd = opener(path, flags)
    else:
        fd = R["open"](path, flags, 0o666)
    if os.path.isdir(fd):
        os.close(fd)
        raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), path)
    raw = SimRaw(w, node, fd, path, m)
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    bs = buffering if buffering > 1 else w.fs_cfg.get("buffer", 8192)
    if plus:
        buf = io.BufferedRandom(raw, bs)
    elif "r" in m:
        buf = io.BufferedReader(raw, bs)
    else:
        buf = io.BufferedWriter(raw, bs)
    if binary:
        return buf
    t = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering=(buffering == 1))
    t.mode = mode
    return t


def _visible(w, path):
    """a new directory entry may reach other nodes late (network file systems)"""
    if w.vis:
        v = w.vis.get(rel(w, path))
        if v and v[0] is not w.cur and w.now < v[1]:
            w.fire("late-visibility")
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), os.fspath(path))


def _wrap(name, pathargs=1):
    real = R[name]

    def f(*a, **k):
        w = active_world()
        if w is not None and a and not isinstance(a[0], int) and under(w, a[0]):
            w.point(name, rel(w, a[0]))
            if name == "stat":
                _visible(w, a[0])
            elif name in ("replace", "rename", "link"):
                r = real(*a, **k)
                w.created(rel(w, a[1]))
                return r
        return real(*a, **k)
    f.__name__ = name
    return f


def _perm(w, items, key):
    seed = w.fs_cfg.get("listing", 0)
    items = sorted(items, key=key)
    if seed:
        import random as _r
        rr = _r.Random(seed)
        rr.shuffle(items)
        w.fire("permuted-listing")
    return items


def sim_listdir(path="."):
    w = active_world()
    if w is not None and not isinstance(path, int) and under(w, path):
        w.point("listdir", rel(w, path))
        return _perm(w, R["listdir"](path), lambda s: s)
    return R["listdir"](path)


class _Scan:
    def __init__(self, it):
        self.it = iter(it)

    def __iter__(self):
        return self.it

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def sim_scandir(path="."):
    w = active_world()
    if w is not None and not isinstance(path, int) and under(w, path):
        w.point("scandir", rel(w, path))
        with R["scandir"](path) as it:
            return _Scan(_perm(w, list(it), lambda e: e.name))
    return R["scandir"](path)


def sim_fsync(fd):
    w = active_world()
    if w is not None:
        w.point("fsync", "")
        return None
    return R["fsync"](fd)


def sim_sleep(dt):
    w = active_world()
    if w is None:
        return R["sleep"](dt)
    w.log("sleep", dt)
    w.cur.sleeps.append((w.steps, w.now, dt))
    for f in w.faults:
        if f.get("on") == "sleep" and f["node"] == w.cur.name and not f.get("done"):
            if f["k"] > 0:
                f["k"] -= 1
                continue
            f["done"] = True
            if f["kind"] == "clock-jump":
                w.fire("clock-jump")
                w.cur.clock_skew += f.get("dt", 3600)
            else:
                w.fire("stall")
                dt = dt + f.get("dt", 60)
    if w.single:
        w.now += dt
        w.point("sleep", dt)
        return None
    w._sleep(dt)


def sim_time():
    w = active_world()
    if w is None:
        return R["time"]()
    return w.now + w.cur.clock_skew


def sim_time_ns():
    return int(sim_time() * 1e9)


def sim_mono():
    w = active_world()
    if w is None:
        return R["monotonic"]()
    return w.now - w.clock0


def install():
    global _installed
    _installed += 1
    builtins.open = sim_open
    io.open = sim_open
    for n in ("stat", "replace", "rename", "remove", "unlink", "mkdir", "rmdir", "link", "truncate"):
        setattr(os, n, _wrap(n))
    os.listdir, os.scandir, os.fsync = sim_listdir, sim_scandir, sim_fsync
    time.sleep, time.time, time.monotonic, time.time_ns = sim_sleep, sim_time, sim_mono, sim_time_ns
    time.perf_counter = sim_mono


def uninstall():
    global _installed
    _installed -= 1
    builtins.open = R["bopen"]
    io.open = R["ioopen"]
    for n in _names_os:
        setattr(os, n, R[n])
    time.sleep, time.time, time.monotonic, time.time_ns, time.perf_counter = R["sleep"], R["time"], R["monotonic"], R["time_ns"], R["perf_counter"]
