"""Event loop on virtual time, and a simulated TCP network."""

import asyncio
import asyncio.base_events
import asyncio.tasks
import errno
import heapq
import itertools
import re
import signal as sigmod
import socket
import threading

from . import shims
from .kernel import US, HarnessError, SimKilled, derive_int, derive


class SimTask(asyncio.tasks._PyTask if False else asyncio.Task):
    def __hash__(self):
        return self._sim_id

    def __eq__(self, o):
        return self is o


class _Selector:
    """Waits for the next timer or wake-up.

    A timer of at most one second that did nothing but re-arm itself several
    times in a row (an idle poll) is not run again until something else
    happens in its process; it then continues in its original phase.
    """

    def __init__(self, loop):
        self.loop = loop
        self.idle = 0
        self.last = None

    def select(self, timeout=None):
        k = self.loop._k
        p = self.loop._p
        before = p.nsys
        k.enter("select", None, inj=False)
        if timeout is not None and timeout <= 0:
            if self.last is not None and self.last[0] == before:
                self.last = (p.nsys, self.last[1])
            else:
                self.last = None
            return []
        us = None if timeout is None else int(timeout * US) + 1
        sch = self.loop._scheduled
        if timeout is not None and 0 < timeout <= 1.0 and self.last == (before, len(sch)):
            self.idle += 1
        else:
            self.idle = 0
        h = sch[0] if self.idle >= 4 else None
        if h is None:
            woken = k.block(us)
        else:
            others = [x._when for x in sch if x is not h and not x._cancelled]
            end = None
            if others:
                end = max(us, int((min(others) - self.loop.time()) * US) + 1)
            woken = k.block(end)
            now = self.loop.time()
            if h._when < now and not h._cancelled:
                n = int((now - h._when) / timeout)
                h._when += n * timeout
                heapq.heapify(sch)
            self.idle = 0
        self.last = None if woken else (p.nsys, len(sch))
        return []

    def close(self):
        pass


class SimEventLoop(asyncio.base_events.BaseEventLoop):
    def __init__(self):
        super().__init__()
        self._k = shims.K
        self._p = self._k.cur
        self._p.loop = self
        self._selector = _Selector(self)
        self._clock_resolution = 1e-6
        self._all = {}
        self._tid = itertools.count(1)
        self.set_task_factory(self._factory)
        self.errors = []
        self._servers = []

    @staticmethod
    def _factory(loop, coro, context=None, name=None):
        t = SimTask.__new__(SimTask)
        t._sim_id = next(loop._tid)
        t.__init__(coro, loop=loop, context=context)
        loop._all[t._sim_id] = t
        t.add_done_callback(loop._task_done)
        return t

    def _task_done(self, t):
        self._all.pop(t._sim_id, None)

    def sim_tasks(self):
        return list(self._all.values())

    def sim_forget(self, t):
        self._all.pop(t._sim_id, None)

    def time(self):
        return 1000 + self._k.now / US

    def _process_events(self, events):
        pass

    def _write_to_self(self):
        self._k.wake(self._p)

    def call_exception_handler(self, context):
        self.errors.append(context)
        p = self._k.cur
        if p is not None and not p.killed:
            e = context.get("exception")
            self._k.trace.append((self._k.now, p.name, "loop-exception", context.get("message"), repr(e)))

    def close(self):
        if self.is_closed():
            return
        if not self.is_running():
            for s in self._servers:
                s.close()
        super().close()

    def get_debug(self):
        return False

    # executor: run inline, as one more scheduling point
    def run_in_executor(self, executor, func, *args):
        fut = self.create_future()
        self._k.enter("executor", None, inj=False)

        def run():
            if fut.cancelled():
                return
            try:
                r = func(*args)
            except (SimKilled, KeyboardInterrupt):
                raise
            except BaseException as e:
                if isinstance(e, StopIteration):
                    e = RuntimeError("StopIteration in executor")
                fut.set_exception(e)
            else:
                fut.set_result(r)

        self.call_soon(run)
        return fut

    async def shutdown_default_executor(self, timeout=None):
        return

    def add_signal_handler(self, sig, callback, *args):
        def h():
            try:
                self.call_soon_threadsafe(callback, *args)
            except RuntimeError:
                pass

        self._p.signals[int(sig)] = h

    def remove_signal_handler(self, sig):
        return self._p.signals.pop(int(sig), None) is not None

    # ------------------------------------------------------------- network

    async def getaddrinfo(self, host, port, *, family=0, type=0, proto=0, flags=0):
        self._k.enter("resolve", host, inj=False)
        net = self._k.services["net"]
        if (d := net.dns_delay.get(self._p.host.name)) and not re.fullmatch(r"[0-9.]+|[0-9a-f:]+", str(host)):
            self._k.count_fault("slow_dns")
            await asyncio.sleep(d)
        a = net.resolve(self._p.host, host)
        if a is None:
            raise socket.gaierror(socket.EAI_NONAME, "Name or service not known")
        return [(socket.AF_INET, socket.SOCK_STREAM, 6, "", (a, int(port)))]

    async def create_connection(self, protocol_factory, host=None, port=None, *,
                                sock=None, ssl=None, **kw):
        if ssl:
            raise HarnessError("TLS is not simulated")
        k = self._k
        k.enter("connect", (host, port))
        net = k.services["net"]
        fut = self.create_future()
        net.connect(self, host, port, fut)
        server_side = await fut
        protocol = protocol_factory()
        tr = SimTransport(self, protocol, server_side)
        protocol.connection_made(tr)
        server_side.ready_client(tr)
        return tr, protocol

    async def create_server(self, protocol_factory, host=None, port=None, **kw):
        k = self._k
        k.enter("listen", (host, port))
        net = k.services["net"]
        if not re.fullmatch(r"[0-9.]+|[0-9a-f:]+", str(host)):
            await self.getaddrinfo(host, port)
        s = SimServer(self, protocol_factory, host, port)
        net.listen(s)
        self._servers.append(s)
        # as asyncio does
        await asyncio.sleep(0)
        return s


class SimServer:
    def __init__(self, loop, factory, host, port):
        self.loop = loop
        self.factory = factory
        self.host = host
        self.port = port
        self.proc = loop._p
        self.closed = False
        self.sockets = [self]

    def getsockname(self):
        return (self.host, self.port)

    def is_serving(self):
        return not self.closed

    def close(self):
        if not self.closed:
            self.closed = True
            self.sockets = []
            self.loop._k.services["net"].unlisten(self)

    def close_clients(self):
        pass

    async def wait_closed(self):
        await asyncio.sleep(0)

    def get_loop(self):
        return self.loop


class Conn:
    """One TCP connection: two endpoints and two ordered byte streams."""

    n = 0

    def __init__(self, net, client_loop, client_host, server, cid):
        self.net = net
        self.id = cid
        self.chost = client_host
        self.cproc = client_loop._p
        self.cloop = client_loop
        self.server = server
        self.shost = server.proc.host
        self.sproc = server.proc
        self.ct = None
        self.st = None
        self.queues = {"c": [], "s": []}  # towards client / server
        self.last = {"c": 0, "s": 0}
        self.dead = False

    def ready_client(self, tr):
        self.ct = tr
        tr._side = "c"
        self._pump("c")

    def accept(self):
        if self.server.closed or self.sproc.exited:
            return
        proto = self.server.factory()
        self.st = SimTransport(self.server.loop, proto, self)
        self.st._side = "s"
        proto.connection_made(self.st)
        self._pump("s")

    def peer(self, side):
        return self.st if side == "c" else self.ct

    def send(self, side, item):
        """Endpoint `side` sends item to the other side."""
        to = "s" if side == "c" else "c"
        k = self.net.k
        lat = self.net.latency(self.chost, self.shost)
        t = max(self.last[to], k.now + lat)
        self.last[to] = t
        self.queues[to].append((t, item))
        k.at(t, lambda: self._pump(to))

    def _pump(self, to):
        """Deliver what may be delivered towards `to` (kernel context)."""
        k = self.net.k
        if self.dead:
            return
        if self.net.cut(self.chost, self.shost):
            self.net.stalled.add(self)
            return
        tr = self.ct if to == "c" else self.st
        proc = self.cproc if to == "c" else self.sproc
        if proc.exited:
            had = any(it[0] == "data" for _, it in self.queues[to])
            self.queues[to].clear()
            other = self.st if to == "c" else self.ct
            if had and proc.host.up and other is not None:
                # the machine answers for the dead process
                self.dead = True
                other._deliver(("rst",))
            return
        if tr is None:
            return
        q = self.queues[to]
        while q and q[0][0] <= k.now:
            tr._deliver(q.pop(0)[1])

    def proc_gone(self, proc, host_down):
        if self.dead:
            return
        side = "c" if proc is self.cproc else "s"
        if host_down:
            return  # silence
        self.send(side, ("rst",))


class SimTransport(asyncio.Transport):
    def __init__(self, loop, protocol, conn):
        super().__init__()
        self._loop = loop
        self._proto = protocol
        self._conn = conn
        self._side = None
        self._closing = False
        self._lost = False
        self._paused = False
        self._buf = []

    def get_extra_info(self, name, default=None):
        if name == "peername":
            return ("10.9.9.9", 40000)
        if name == "sockname":
            return ("10.9.9.8", 6023)
        return default

    def is_closing(self):
        return self._closing

    def set_protocol(self, p):
        self._proto = p

    def get_protocol(self):
        return self._proto

    def pause_reading(self):
        self._paused = True

    def resume_reading(self):
        self._paused = False
        if self._buf:
            self._loop.call_soon(self._drain)

    def is_reading(self):
        return not self._paused

    def get_write_buffer_size(self):
        return 0

    def set_write_buffer_limits(self, high=None, low=None):
        pass

    def write(self, data):
        if self._closing or self._lost:
            return
        self._loop._k.enter("send", None)
        if data:
            self._conn.send(self._side, ("data", bytes(data)))

    def writelines(self, lines):
        self.write(b"".join(lines))

    def can_write_eof(self):
        return True

    def write_eof(self):
        self._conn.send(self._side, ("eof",))

    def close(self):
        if self._closing:
            return
        self._closing = True
        self._conn.send(self._side, ("eof",))
        self._loop.call_soon(self._call_lost, None)

    def abort(self):
        if self._lost:
            return
        self._closing = True
        self._conn.send(self._side, ("rst",))
        self._loop.call_soon(self._call_lost, None)

    def _call_lost(self, exc):
        if self._lost:
            return
        self._lost = True
        self._proto.connection_lost(exc)

    # from the network (kernel context)
    def _deliver(self, item):
        self._buf.append(item)
        if not self._loop.is_closed():
            try:
                self._loop.call_soon_threadsafe(self._drain)
            except RuntimeError:
                pass

    def _drain(self):
        while self._buf and not self._paused and not self._lost:
            item = self._buf.pop(0)
            if item[0] == "data":
                if not self._closing:
                    self._proto.data_received(item[1])
            elif item[0] == "eof":
                keep = self._proto.eof_received()
                if not keep:
                    self.close()
            else:
                self._closing = True
                self._call_lost(ConnectionResetError(errno.ECONNRESET, "Connection reset by peer"))


class Net:
    """TCP between simulated hosts: delay, partition, reset, refusal, silence."""

    def __init__(self, kernel, base_latency=400):
        self.k = kernel
        self.listeners = {}
        self.names = {}
        self.cuts = set()
        self.stalled = set()
        self.conns = []
        self.base = base_latency
        self.extra = {}
        self.ncon = 0
        self.refuse = set()
        self.pending = []
        self.nlat = 0
        self.busy = set()  # (host, port) used by something else
        self.dns_delay = {}  # seconds, by host

    def resolve(self, host, name):
        if name in ("localhost", "127.0.0.1", "::1", "0.0.0.0"):
            return f"{host.name}/lo"
        h = self.names.get(name)
        return h

    def latency(self, a, b):
        self.nlat += 1
        base = self.base if a is not b else 40
        j = derive_int(base, "lat", self.k.seed, self.nlat)
        return base + j + self.extra.get(frozenset((a.name, b.name)), 0)

    def cut(self, a, b):
        return a is not b and frozenset((a.name, b.name)) in self.cuts

    def partition(self, a, b):
        self.cuts.add(frozenset((a, b)))

    def heal(self, a, b):
        self.cuts.discard(frozenset((a, b)))
        st, self.stalled = list(self.stalled), set()
        st.sort(key=lambda c: c.id)
        for c in st:
            for d in (200_000, 300_000):
                self.k.after(d, lambda c=c: (c._pump("c"), c._pump("s")))
        pend, self.pending = self.pending, []
        for fn in pend:
            self.k.after(1_000_000, fn)

    def reset_all(self, a, b):
        n = 0
        for c in self.conns:
            if {c.chost.name, c.shost.name} == {a, b} and not c.dead:
                for tr, proc in ((c.ct, c.cproc), (c.st, c.sproc)):
                    if tr is not None and not proc.exited and not tr._lost:
                        tr._deliver(("rst",))
                        n += 1
        return n

    def _key(self, server):
        a = server.host
        if a in ("127.0.0.1", "::1", "localhost"):
            a = f"{server.proc.host.name}/lo"
            if server.host == "::1":
                a = f"{server.proc.host.name}/lo6"
        elif a in self.names:
            a = self.names[a]
        return (a, server.port)

    def listen(self, server):
        key = self._key(server)
        if (server.proc.host.name, server.port) in self.busy:
            self.k.count_fault("port_in_use")
            raise OSError(errno.EADDRINUSE, "Address already in use")
        if key in self.listeners:
            raise OSError(errno.EADDRINUSE, "Address already in use")
        self.listeners[key] = server

    def unlisten(self, server):
        key = self._key(server)
        if self.listeners.get(key) is server:
            del self.listeners[key]

    def proc_exit(self, p):
        for key, s in list(self.listeners.items()):
            if s.proc is p:
                del self.listeners[key]
                s.closed = True
        for c in self.conns:
            if p in (c.cproc, c.sproc):
                c.proc_gone(p, not p.host.up)

    def find(self, loop, addr, port):
        return self.listeners.get((addr, port))

    def connect(self, loop, addr, port, fut):
        k = self.k
        me = loop._p.host
        if addr in ("127.0.0.1", "::1", "0.0.0.0", "localhost"):
            addr = f"{me.name}/lo6" if addr == "::1" else f"{me.name}/lo"
        hostname = addr.split("/")[0] if "/" in addr else self.host_of(addr)
        target = k.hosts.get(hostname)

        def resolve_fut(exc=None, val=None):
            def setit():
                if not fut.done():
                    if exc is not None:
                        fut.set_exception(exc)
                    else:
                        fut.set_result(val)
                elif val is not None:
                    # the client gave up: its kernel resets the connection
                    val.send("c", ("rst",))
            try:
                loop.call_soon_threadsafe(setit)
            except RuntimeError:
                pass

        def attempt():
            if fut.done() or loop._p.exited:
                return
            if target is None or not target.up or self.cut(me, target):
                self.pending.append(attempt)
                return
            s = self.find(loop, addr, port)
            if s is None and addr.endswith("/lo"):
                s = self.find(loop, addr + "6", port)
            if s is None or (me.name, target.name) in self.refuse:
                resolve_fut(ConnectionRefusedError(errno.ECONNREFUSED, f"Connect call failed {addr}:{port}"))
                return
            self.ncon += 1
            c = Conn(self, loop, me, s, self.ncon)
            self.conns.append(c)
            try:
                s.loop.call_soon_threadsafe(c.accept)
            except RuntimeError:
                pass
            k.after(self.latency(me, target), lambda: resolve_fut(None, c))

        k.after(self.latency(me, target) if target else 100, attempt)

    def host_of(self, addr):
        for n, a in self.names.items():
            if a == addr:
                return n
        return None


class SimPolicy(asyncio.DefaultEventLoopPolicy):
    def get_event_loop(self):
        p = shims.cur()
        if p is None:
            return super().get_event_loop()
        if p.loop is None:
            self.set_event_loop(self.new_event_loop())
        return p.loop

    def set_event_loop(self, loop):
        p = shims.cur()
        if p is None:
            return super().set_event_loop(loop)
        if loop is not None:
            p.loop = loop

    def new_event_loop(self):
        if shims.cur() is None:
            return super().new_event_loop()
        return SimEventLoop()


def _as_completed(fs, *, timeout=None):
    """asyncio.as_completed with a deterministic order of equal completions."""
    from asyncio.queues import Queue

    done = Queue()
    loop = asyncio.get_event_loop()
    todo = {}
    for f in fs:
        t = asyncio.ensure_future(f, loop=loop)
        todo[id(t)] = t
    th = None

    def on_timeout():
        for f in todo.values():
            f.remove_done_callback(on_completion)
            done.put_nowait(None)
        todo.clear()

    def on_completion(f):
        if not todo:
            return
        todo.pop(id(f), None)
        done.put_nowait(f)
        if not todo and th is not None:
            th.cancel()

    async def wait_for_one():
        f = await done.get()
        if f is None:
            raise asyncio.TimeoutError
        return f.result()

    n = len(todo)
    for f in list(todo.values()):
        f.add_done_callback(on_completion)
    if todo and timeout is not None:
        th = loop.call_later(timeout, on_timeout)
    for _ in range(n):
        yield wait_for_one()


_real_as_completed = asyncio.as_completed


def as_completed(fs, *, timeout=None):
    if shims.cur() is None:
        return _real_as_completed(fs, timeout=timeout)
    return _as_completed(list(fs), timeout=timeout)


def install():
    asyncio.set_event_loop_policy(SimPolicy())
    asyncio.as_completed = as_completed
    asyncio.tasks.as_completed = as_completed
