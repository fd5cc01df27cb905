"""A simulated MUSCLE3: conduits between instances with seeded message delays; send, receive and reuse_instance are
scheduling points.  Ports follow libmuscle: scalar ports take no slot, vector ports ("out[]") need one."""
import copy, random, types
from . import core

# peer of (side, port): the four-component cycle of multiscale/macro_micro_template.ymmsl
ROUTE = {("micro", "out"): ("micro_manager", "in"), ("micro_manager", "out"): ("macro", "in"),
         ("macro", "out"): ("macro_manager", "in"), ("macro_manager", "out"): ("micro", "in")}


class Bus:
    def __init__(self, world, n, delays, seed=0):
        self.w, self.n, self.delays = world, n, delays or [0.0]
        self.q = {}
        self.sent = []       # (sender, slot, timestamp, data)
        self.got = []        # (receiver, slot, timestamp, data)
        self.rng = random.Random(seed)

    def put(self, key, msg, sender):
        d = self.rng.choice(self.delays)
        q = self.q.setdefault(key, [])
        t = self.w.now + d
        if q:
            t = max(t, q[-1][0])
        q.append((t, msg))
        if d:
            self.w.fire("message-delay")

    def leftover(self):
        return sum(len(q) for q in self.q.values())


class PortError(RuntimeError):
    pass


def make_modules(env, bus, side, index, rank=0):
    lib, ym = types.ModuleType("libmuscle"), types.ModuleType("ymmsl")

    class Operator:
        NONE, F_INIT, O_I, S, O_F = range(5)

    class Message:
        def __init__(self, timestamp, next_timestamp=None, data=None, settings=None):
            self.timestamp, self.next_timestamp, self.data, self.settings = timestamp, next_timestamp, data, settings

    class Instance:
        def __init__(self, ports=None, *a, **k):
            if bus is None:
                raise PortError("no MUSCLE3 manager in this run")
            self.ports = {}
            for op, names in (ports or {}).items():
                for nm in names:
                    self.ports[nm.replace("[]", "")] = (op, nm.endswith("[]"))
            self.reused = 0

        def _port(self, port, slot, ops):
            if port not in self.ports or self.ports[port][0] not in ops:
                raise PortError("no such port %r" % port)
            vec = self.ports[port][1]
            if vec != (slot is not None):
                raise PortError("port %r needs %s slot" % (port, "a" if vec else "no"))
            if vec and not 0 <= slot < bus.n:
                raise PortError("slot %r out of range" % slot)
            return vec

        def is_vector_port(self, port):
            return self.ports[port][1]

        def get_port_length(self, port):
            return bus.n

        def is_connected(self, port):
            return port in self.ports

        def reuse_instance(self, *a, **k):
            bus.w.point("reuse", (side, index))
            self.reused += 1
            return self.reused == 1

        def send(self, port, message, slot=None):
            vec = self._port(port, slot, (Operator.O_I, Operator.O_F))
            bus.w.point("send", (side, index, port, slot))
            peer, pport = ROUTE[(side, port)]
            # (peer, its index, its slot)
            key = (peer, slot, None) if vec else (peer, 0, index)
            data = copy.deepcopy(message.data)
            bus.sent.append((side, index, rank, slot, message.timestamp, data))
            bus.put(key, (message.timestamp, message.next_timestamp, data), side)
            bus.w.point("sent", (side, index))

        def receive(self, port, slot=None, default=None):
            self._port(port, slot, (Operator.S, Operator.F_INIT))
            bus.w.point("receive", (side, index, port, slot))
            key = (side, index if slot is None else 0, slot)
            q = bus.q.setdefault(key, [])
            bus.w.block(lambda: bool(q), "receive %s %s[%s]" % (side, port, slot))
            if q[0][0] > bus.w.now:
                bus.w._sleep(q[0][0] - bus.w.now)
            t, (ts, nts, data) = q.pop(0)
            bus.got.append((side, index, rank, slot, ts, data))
            bus.w.log("received", (side, index, slot, ts))
            return Message(ts, nts, data)

        def error_shutdown(self, msg):
            raise PortError(msg)

        def get_setting(self, name, typ=None):
            raise KeyError(name)

    lib.Instance, lib.Message = Instance, Message
    ym.Operator = Operator
    env.add_module("libmuscle", lib)
    env.add_module("ymmsl", ym)
