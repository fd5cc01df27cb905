"""A simulated MPI: communicator whose collectives are scheduling points.

Semantics follow mpi4py: upper-case calls work on buffers (arrays, [array, TYPE], [array, counts, displs,
TYPE]) and refuse mismatching datatypes or counts; lower-case calls work on Python objects (pickled, so
processes never share mutable objects).  A collective completes on a process when MPI allows it to.
The k-th collective of every process on a communicator must be the same operation with compatible
arguments; anything else is reported as a mismatch (on a real machine: hang, crash or garbage)."""
import pickle, types
import numpy as np
from . import core


class CollectiveMismatch(Exception):
    pass


class Datatype:
    def __init__(self, name, dt):
        self.name, self.dtype = name, np.dtype(dt) if dt else None

    def __repr__(self):
        return "MPI." + self.name

    def Get_size(self):
        return self.dtype.itemsize

    def Get_name(self):
        return self.name

    size = property(Get_size)


TYPES = {n: Datatype(n, d) for n, d in [
    ("INT", "i4"), ("DOUBLE", "f8"), ("FLOAT", "f4"), ("LONG", "i8"), ("LONG_LONG", "i8"), ("BYTE", "u1"),
    ("CHAR", "i1"), ("SHORT", "i2"), ("BOOL", "?"), ("INT32_T", "i4"), ("INT64_T", "i8"), ("UNSIGNED", "u4"),
    ("UNSIGNED_LONG", "u8"), ("INTEGER", "i4"), ("DOUBLE_PRECISION", "f8"), ("C_BOOL", "?"), ("UINT64_T", "u8"), ("UINT32_T", "u4")]}


class Op:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return "MPI." + self.name

    def __call__(self, a, b):
        return self.fn(a, b)


OPS = {n: Op(n, f) for n, f in [
    ("SUM", lambda a, b: a + b), ("MAX", lambda a, b: np.maximum(a, b) if isinstance(a, np.ndarray) else max(a, b)),
    ("MIN", lambda a, b: np.minimum(a, b) if isinstance(a, np.ndarray) else min(a, b)), ("PROD", lambda a, b: a * b),
    ("LAND", lambda a, b: np.logical_and(a, b)), ("LOR", lambda a, b: np.logical_or(a, b)),
    ("BAND", lambda a, b: a & b), ("BOR", lambda a, b: a | b)]}

IN_PLACE = types.SimpleNamespace(name="IN_PLACE")


def _dtname(dt):
    return np.dtype(dt).str


def parse(buf, vector=False):
    """-> (array bytes view as 1-d typed array, dtype, count, counts, displs)"""
    counts = displs = None
    dtype = None
    count = None
    if isinstance(buf, (list, tuple)):
        arr = buf[0]
        rest = list(buf[1:])
        for r in rest:
            if isinstance(r, Datatype):
                dtype = r.dtype
            elif isinstance(r, str):
                dtype = np.dtype(r)
            elif isinstance(r, (list, tuple, np.ndarray)) and vector:
                if isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], (list, tuple, np.ndarray)):
                    counts, displs = list(map(int, r[0])), list(map(int, r[1]))
                elif counts is None:
                    counts = list(map(int, r))
                else:
                    displs = list(map(int, r))
            elif isinstance(r, (int, np.integer)):
                count = int(r)
            elif r is None:
                pass
            else:
                raise ValueError("message: unsupported buffer specification %r" % (r,))
    else:
        arr = buf
    if not isinstance(arr, np.ndarray):
        try:
            arr = np.asarray(memoryview(arr))
        except TypeError:
            raise TypeError("expected a buffer, got %r" % type(arr))
    if not arr.flags.c_contiguous:
        raise ValueError("message: expecting a contiguous buffer")
    if dtype is None:
        dtype = arr.dtype
    if arr.dtype == object:
        raise ValueError("message: cannot handle object arrays")
    flat = arr.reshape(-1).view(np.uint8)
    n = flat.nbytes // dtype.itemsize
    typed = flat[: n * dtype.itemsize].view(dtype)
    if count is None:
        count = n
    elif count > n:
        raise ValueError("message: buffer too small for requested count")
    return typed, dtype, count, counts, displs


class Shared:
    """state of one communicator"""

    def __init__(self, world, size, key="world"):
        self.world, self.size, self.key = world, size, key
        self.idx = [0] * size
        self.slots = {}
        self.mail = {}
        self.ncoll = 0
        self.bytes = 0


class Comm:
    def __init__(self, shared, rank):
        self._s, self._rank = shared, rank

    rank = property(lambda self: self._rank)
    size = property(lambda self: self._s.size)

    def Get_rank(self):
        return self._rank

    def Get_size(self):
        return self._s.size

    # -- machinery
    def _coll(self, sig, contrib, need, finish):
        """sig: what has to match; need: 'all' | 'root' | None: what this process has to wait for"""
        s = self._s
        w = s.world
        k = s.idx[self._rank]
        s.idx[self._rank] += 1
        slot = s.slots.setdefault(k, {"sig": None, "by": None, "in": {}, "out": 0})
        w.point("mpi", (s.key, k, sig[0], self._rank))
        if slot["sig"] is None:
            slot["sig"], slot["by"] = sig, self._rank
        elif slot["sig"] != sig:
            a, b = slot["sig"], sig
            w.log("mismatch", (k, a, b))
            raise CollectiveMismatch("collective call %d: process %d calls %s but process %d calls %s" % (
                k, slot["by"], a, self._rank, b))
        slot["in"][self._rank] = contrib
        if len(slot["in"]) == s.size:
            s.ncoll += 1
        if need == "all":
            w.block(lambda: len(slot["in"]) == s.size, "%s (collective %d)" % (sig[0], k))
        elif need is not None:
            w.block(lambda: need in slot["in"], "%s (collective %d)" % (sig[0], k))
        res = finish(slot["in"])
        slot["out"] += 1
        if slot["out"] == s.size:
            s.slots.pop(k, None)
        w.point("mpi-done", (s.key, k, self._rank))
        return res

    @staticmethod
    def _reduce(parts, op):
        acc = parts[0].copy() if isinstance(parts[0], np.ndarray) else parts[0]
        for p in parts[1:]:
            with np.errstate(all="ignore"):
                acc = op.fn(acc, p)
        return acc

    # -- buffer collectives
    def Barrier(self):
        self._coll(("Barrier",), None, "all", lambda d: None)

    barrier = Barrier

    def _reduce_args(self, sendbuf, recvbuf):
        if sendbuf is IN_PLACE or sendbuf is None:
            r, rd, rc, _, _ = parse(recvbuf)
            return r, rd, rc, r, rd, rc
        s_, sd, sc, _, _ = parse(sendbuf)
        r, rd, rc, _, _ = parse(recvbuf)
        if sc != rc:
            raise ValueError("mismatch in send count %d and receive count %d" % (sc, rc))
        if _dtname(sd) != _dtname(rd):
            raise ValueError("mismatch in send and receive MPI datatypes")
        return s_, sd, sc, r, rd, rc

    def Allreduce(self, sendbuf, recvbuf, op=OPS["SUM"]):
        s_, sd, sc, r, rd, rc = self._reduce_args(sendbuf, recvbuf)

        def fin(d):
            r[:rc] = self._reduce([d[i] for i in range(self.size)], op)
        self._s.bytes += sc * sd.itemsize
        self._coll(("Allreduce", sc, _dtname(sd), op.name), s_[:sc].copy(), "all", fin)

    def Reduce(self, sendbuf, recvbuf, op=OPS["SUM"], root=0):
        if self._rank == root:
            s_, sd, sc, r, rd, rc = self._reduce_args(sendbuf, recvbuf)
        else:
            s_, sd, sc, _, _ = parse(sendbuf)
            r = rc = None

        def fin(d):
            if self._rank == root:
                r[:rc] = self._reduce([d[i] for i in range(self.size)], op)
        self._coll(("Reduce", sc, _dtname(sd), op.name, root), s_[:sc].copy(), "all" if self._rank == root else None, fin)

    def Bcast(self, buf, root=0):
        b, bd, bc, _, _ = parse(buf)

        def fin(d):
            if self._rank != root:
                b[:bc] = d[root]
        self._coll(("Bcast", bc, _dtname(bd), root), b[:bc].copy() if self._rank == root else None,
                   None if self._rank == root else root, fin)

    def Allgatherv(self, sendbuf, recvbuf):
        r, rd, rc, counts, displs = parse(recvbuf, vector=True)
        if counts is None:
            counts = [rc // self.size] * self.size
        if displs is None:
            displs = [0] * self.size
            for i in range(1, self.size):
                displs[i] = displs[i - 1] + counts[i - 1]
        if sendbuf is IN_PLACE or sendbuf is None:
            mine = r[displs[self._rank]: displs[self._rank] + counts[self._rank]].copy()
            sd = rd
        else:
            s_, sd, sc, _, _ = parse(sendbuf)
            mine = s_[:sc].copy()
        if _dtname(sd) != _dtname(rd):
            raise CollectiveMismatch("Allgatherv: send type %s, receive type %s" % (sd, rd))
        for i in range(self.size):
            if displs[i] < 0 or displs[i] + counts[i] > len(r):
                raise CollectiveMismatch("Allgatherv: block of process %d does not fit the receive buffer" % i)

        def fin(d):
            for i in range(self.size):
                if len(d[i]) != counts[i]:
                    raise CollectiveMismatch("Allgatherv: process %d sends %d items, process %d expects %d" % (
                        i, len(d[i]), self._rank, counts[i]))
                r[displs[i]: displs[i] + counts[i]] = d[i]
        self._coll(("Allgatherv", _dtname(rd)), mine, "all", fin)

    def Allgather(self, sendbuf, recvbuf):
        r, rd, rc, _, _ = parse(recvbuf)
        if sendbuf is IN_PLACE or sendbuf is None:
            c = rc // self.size
            mine = r[self._rank * c:(self._rank + 1) * c].copy()
            sc, sd = c, rd
        else:
            s_, sd, sc, _, _ = parse(sendbuf)
            mine = s_[:sc].copy()
        if sc * self.size > rc:
            raise CollectiveMismatch("Allgather: receive buffer too small")

        def fin(d):
            for i in range(self.size):
                r[i * sc:(i + 1) * sc] = d[i]
        self._coll(("Allgather", sc, _dtname(sd)), mine, "all", fin)

    def Gather(self, sendbuf, recvbuf, root=0):
        s_, sd, sc, _, _ = parse(sendbuf)

        def fin(d):
            if self._rank == root:
                r, rd, rc, _, _ = parse(recvbuf)
                for i in range(self.size):
                    r[i * sc:(i + 1) * sc] = d[i]
        self._coll(("Gather", sc, _dtname(sd), root), s_[:sc].copy(), "all" if self._rank == root else None, fin)

    def Scatter(self, sendbuf, recvbuf, root=0):
        r, rd, rc, _, _ = parse(recvbuf)
        contrib = None
        if self._rank == root:
            s_, sd, sc, _, _ = parse(sendbuf)
            contrib = s_.copy()

        def fin(d):
            c = len(d[root]) // self.size
            r[:c] = d[root][self._rank * c:(self._rank + 1) * c]
        self._coll(("Scatter", _dtname(rd), root), contrib, None if self._rank == root else root, fin)

    # -- object collectives
    def bcast(self, obj=None, root=0):
        p = pickle.dumps(obj) if self._rank == root else None

        def fin(d):
            return obj if self._rank == root else pickle.loads(d[root])
        return self._coll(("bcast", root), p, None if self._rank == root else root, fin)

    def allreduce(self, sendobj, op=OPS["SUM"]):
        def fin(d):
            return self._reduce([pickle.loads(d[i]) for i in range(self.size)], op)
        return self._coll(("allreduce", op.name), pickle.dumps(sendobj), "all", fin)

    def reduce(self, sendobj, op=OPS["SUM"], root=0):
        def fin(d):
            return self._reduce([pickle.loads(d[i]) for i in range(self.size)], op) if self._rank == root else None
        return self._coll(("reduce", op.name, root), pickle.dumps(sendobj), "all" if self._rank == root else None, fin)

    def gather(self, sendobj, root=0):
        def fin(d):
            return [pickle.loads(d[i]) for i in range(self.size)] if self._rank == root else None
        return self._coll(("gather", root), pickle.dumps(sendobj), "all" if self._rank == root else None, fin)

    def allgather(self, sendobj):
        def fin(d):
            return [pickle.loads(d[i]) for i in range(self.size)]
        return self._coll(("allgather",), pickle.dumps(sendobj), "all", fin)

    def scatter(self, sendobj=None, root=0):
        p = [pickle.dumps(x) for x in sendobj] if self._rank == root else None

        def fin(d):
            return pickle.loads(d[root][self._rank])
        return self._coll(("scatter", root), p, None if self._rank == root else root, fin)

    def alltoall(self, sendobj):
        def fin(d):
            return [pickle.loads(d[i][self._rank]) for i in range(self.size)]
        return self._coll(("alltoall",), [pickle.dumps(x) for x in sendobj], "all", fin)

    # -- point to point (eager)
    def send(self, obj, dest, tag=0):
        w = self._s.world
        w.point("send", (self._rank, dest, tag))
        self._s.mail.setdefault((self._rank, dest), []).append((tag, pickle.dumps(obj)))

    def recv(self, buf=None, source=-1, tag=-1, status=None):
        w = self._s.world
        w.point("recv", (self._rank, source, tag))

        def find():
            srcs = range(self.size) if source < 0 else [source]
            for s in srcs:
                for i, (t, _) in enumerate(self._s.mail.get((s, self._rank), [])):
                    if tag < 0 or t == tag:
                        return (s, i)
            return None
        w.block(lambda: find() is not None, "recv from %s" % source)
        s, i = find()
        return pickle.loads(self._s.mail[(s, self._rank)].pop(i)[1])

    isend = None

    def Send(self, buf, dest, tag=0):
        b, bd, bc, _, _ = parse(buf)
        self.send((_dtname(bd), b[:bc].copy()), dest, tag)

    def Recv(self, buf, source=-1, tag=-1, status=None):
        b, bd, bc, _, _ = parse(buf)
        dt, a = self.recv(source=source, tag=tag)
        if dt != _dtname(bd) or len(a) > bc:
            raise CollectiveMismatch("Recv: message does not match the buffer")
        b[:len(a)] = a

    def Dup(self):
        s = self._s
        k = ("dup", s.key, s.idx[self._rank])
        s.idx[self._rank] += 1
        sh = s.world.services.setdefault(k, None) or Shared(s.world, s.size, str(k))
        s.world.services[k] = sh
        return Comm(sh, self._rank)

    def Abort(self, code=1):
        raise RuntimeError("MPI_Abort(%s) called on process %d" % (code, self._rank))

    def Free(self):
        pass


def make_modules(env, shared, rank):
    """installs simulated mpi4py into the environment"""
    MPI = types.ModuleType("mpi4py.MPI")
    for n, t in TYPES.items():
        setattr(MPI, n, t)
    for n, o in OPS.items():
        setattr(MPI, n, o)
    MPI.IN_PLACE = IN_PLACE
    MPI.ANY_SOURCE = MPI.ANY_TAG = -1
    MPI.COMM_WORLD = Comm(shared, rank)
    MPI.Comm = MPI.Intracomm = Comm
    MPI.Is_initialized = lambda: True
    MPI.Init = lambda: None
    MPI.Finalize = lambda: None
    MPI.Is_finalized = lambda: False
    MPI.Wtime = lambda: shared.world.now - shared.world.clock0
    MPI.Get_processor_name = lambda: "sim%d" % rank
    pkg = types.ModuleType("mpi4py")
    pkg.__path__ = []
    pkg.MPI = MPI
    env.add_module("mpi4py", pkg)
    env.add_module("mpi4py.MPI", MPI)
