"""Deterministic simulation kernel.

Every simulated process is a real Python thread that is parked unless it holds
the baton.  Exactly one thread runs at any time.  The baton can only change
hands inside an intercepted system call, and which process gets it is decided
by a seeded scheduler (or, in a replay, by the recorded switch list).  Virtual
time is an integer number of microseconds that only the kernel advances.
"""

import hashlib
import heapq
import io
import os
import random
import sys
import threading
import traceback

US = 1_000_000

RUNNABLE = "runnable"
BLOCKED = "blocked"
DEAD = "dead"


class SimKilled(SystemExit):
    """Raised inside a simulated process that has been killed."""


class HarnessError(Exception):
    """The simulator itself is at fault (never a property violation)."""


class BudgetExceeded(BaseException):
    pass


def derive(*parts) -> random.Random:
    h = hashlib.sha256(repr(parts).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


def derive_int(n, *parts) -> int:
    h = hashlib.sha256(repr(parts).encode()).digest()
    return int.from_bytes(h[:8], "big") % n


class _Worker:
    """Pooled OS thread."""

    pool: list = []

    def __init__(self):
        self.sem = threading.Semaphore(0)
        self.fn = None
        self.thread = threading.Thread(target=self._loop, daemon=True)
        self.thread.start()

    def _loop(self):
        while True:
            self.sem.acquire()
            fn, self.fn = self.fn, None
            fn()

    @classmethod
    def get(cls):
        return cls.pool.pop() if cls.pool else cls()


class Host:
    def __init__(self, kernel, name, fs):
        self.kernel = kernel
        self.name = name
        self.fs = fs
        self.clock_offset = 0  # us added to the wall clock
        self.up = True
        self.addrs = set()

    def wall_us(self):
        return self.kernel.epoch + self.kernel.now + self.clock_offset


class Proc:
    def __init__(self, kernel, name, host, argv, main, parent=None, cwd="/"):
        self.kernel = kernel
        self.name = name
        self.host = host
        self.argv = list(argv)
        self.main = main
        self.parent = parent
        self.cwd = cwd
        self.pid = kernel.next_pid
        kernel.next_pid += 1
        self.state = RUNNABLE
        self.killed = False
        self.exit_code = None
        self.exited = False
        self.crash = None  # unexpected exception text
        self.stdout = io.StringIO()
        self.stderr = io.StringIO()
        self.raw_stdout = bytearray()
        self.nsys = 0
        self.ninj = 0
        self.nchild = 0
        self.nrand = 0
        self.injtrace = []
        self.faults = kernel.faults_for(name)
        self.on_op = None  # callable(kind, obj) -> fault or None
        self.pending_interrupt = False
        self.signals = {}
        self.fds = set()
        self.exit_callbacks = []
        self.loop = None
        self.worker = None
        self.wake_flag = False
        self.stopped_until = 0
        self.logs = []
        self.meta = {}
        self.started = kernel.now
        self.ended = None
        self.prng = None

    def rand(self) -> random.Random:
        if self.prng is None:
            self.prng = derive("proc", self.kernel.seed, self.name)
        return self.prng

    def __repr__(self):
        return f"<Proc {self.name} {self.argv[:3]} {self.state}>"


class Kernel:
    COST = 3  # us per syscall

    def __init__(self, seed, sched=None, faults=None, epoch_us=None, debug=False):
        self.seed = seed
        self.now = 0
        self.epoch = epoch_us if epoch_us is not None else 1_700_000_000 * US
        self.cur = None
        self.procs = []
        self.by_name = {}
        self.runnable = []
        self.zombies = []
        self.timers = []
        self.tseq = 0
        self.next_pid = 100
        self.main_sem = threading.Semaphore(0)
        self.until = None
        self.fault_plan = {}
        for f in faults or []:
            self.fault_plan.setdefault(f["proc"], {})[f["at"]] = f
        self.fired = []
        self.trace = []
        self.steps = 0
        self.max_steps = 4_000_000
        self.harness_errors = []
        self.lockwaits = []  # [process, path, exclusive, from, until]
        self.debug = debug
        sched = sched or {"mode": "rand", "p": 0.0}
        self.sched = sched
        self.sched_rng = derive("sched", seed)
        self.p_preempt = sched.get("p", 0.0) if sched["mode"] == "rand" else 0.0
        self.pick_random = sched.get("pick", True) and sched["mode"] == "rand"
        self.explicit = None
        if sched["mode"] == "explicit":
            self.explicit = {(a, b): c for a, b, c in sched["switches"]}
        self.switch_log = []
        self.last_switch_step = 0
        self.quantum = 3000
        self.hosts = {}
        self.record_inj = False
        self.fault_filter = None
        self.hist = hashlib.sha256()
        self.switches = 0
        self.ending = False
        self.stop_proc = None
        self.stat_faults = {}
        self.services = {}
        self.on_spawn = []
        self._loaded = None
        self.urandom_rng = derive("urandom", seed)

    # ------------------------------------------------------------------ misc

    def faults_for(self, name):
        return dict(self.fault_plan.get(name, {}))

    def log(self, *ev):
        self.trace.append((self.now, self.cur.name if self.cur else "-") + ev)

    def count_fault(self, kind):
        self.stat_faults[kind] = self.stat_faults.get(kind, 0) + 1

    # --------------------------------------------------------------- process

    def spawn(self, name, host, argv, main, parent=None, cwd="/", meta=None):
        if name in self.by_name:
            n = 2
            while f"{name}~{n}" in self.by_name:
                n += 1
            name = f"{name}~{n}"
        p = Proc(self, name, host, argv, main, parent, cwd)
        if meta:
            p.meta.update(meta)
        self.procs.append(p)
        self.by_name[name] = p
        p.worker = _Worker.get()
        p.sem = threading.Semaphore(0)
        p.worker.fn = lambda: self._proc_main(p)
        p.started_thread = False
        self.runnable.append(p)
        for h in self.on_spawn:
            h(p)
        return p

    def _proc_main(self, p):
        code = 0
        try:
            if p.killed:
                raise SimKilled(-9)
            r = p.main(p)
            code = r if isinstance(r, int) else 0
        except SimKilled:
            code = p.exit_code if p.exit_code is not None else -9
        except SystemExit as e:
            code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        except KeyboardInterrupt:
            code = 130
        except HarnessError:
            self.harness_errors.append(traceback.format_exc())
            code = 70
        except BudgetExceeded:
            code = 71
        except BaseException:
            p.crash = traceback.format_exc()
            p.stderr.write(p.crash)
            code = 1
        try:
            self._reap_loop(p)
        except BaseException:
            self.harness_errors.append(traceback.format_exc())
        # everything below is kernel context
        worker = p.worker
        try:
            if not p.exited:
                self._finish(p, code)
        except BaseException:
            self.harness_errors.append(traceback.format_exc())
        p.state = DEAD
        p.worker = None
        if p in self.zombies:
            self.zombies.remove(p)
        self.cur = None
        _Worker.pool.append(worker)
        if p is self.stop_proc:
            self.stop_proc = None
            self.main_sem.release()
            return
        try:
            self._dispatch(exiting=p)
        except BaseException:
            # Nobody else would notice: this thread serves further processes.
            self.harness_errors.append(traceback.format_exc())
            self.main_sem.release()

    def _reap_loop(self, p):
        """Close what is left of the process' event loop in its own context."""
        loop = p.loop
        if loop is None:
            return
        was = p.killed
        p.killed = True
        for _ in range(50):
            tasks = [t for t in loop.sim_tasks() if not t.done()]
            if not tasks:
                break
            for t in tasks:
                coro = t.get_coro()
                try:
                    coro.close()
                except BaseException:
                    pass
                loop.sim_forget(t)
        p.killed = was
        p.loop = None

    def _finish(self, p, code):
        """The process is gone as far as the rest of the world can see."""
        if p.exited:
            return
        p.exited = True
        p.exit_code = code
        p.ended = self.now
        for s in list(self.services.values()):
            h = getattr(s, "proc_exit", None)
            if h:
                h(p)
        p.host.fs.close_all(p)
        cbs, p.exit_callbacks = p.exit_callbacks, []
        for cb in cbs:
            try:
                cb(p)
            except Exception:
                self.harness_errors.append(traceback.format_exc())

    def kill(self, p, code=-9):
        if p.exited or p.killed:
            return
        p.killed = True
        p.exit_code = code
        self._finish(p, code)
        if p in self.runnable:
            self.runnable.remove(p)
        if p.state != DEAD and p is not self.cur:
            p.state = RUNNABLE
            self.zombies.append(p)

    # -------------------------------------------------------------- schedule

    def make_runnable(self, p):
        if p.state == BLOCKED and not p.exited:
            p.state = RUNNABLE
            self.runnable.append(p)

    def at(self, t, fn):
        self.tseq += 1
        ent = [t, self.tseq, fn]
        heapq.heappush(self.timers, ent)
        return ent

    def after(self, d, fn):
        return self.at(self.now + max(0, int(d)), fn)

    @staticmethod
    def cancel(ent):
        ent[2] = None

    def fire_due(self):
        cur = self.cur
        self.cur = None
        try:
            while self.timers and self.timers[0][0] <= self.now:
                _, _, fn = heapq.heappop(self.timers)
                if fn is not None:
                    try:
                        fn()
                    except Exception:
                        # Not the business of the process that happens to
                        # hand over.
                        self.harness_errors.append(traceback.format_exc())
        finally:
            self.cur = cur

    def _pick(self):
        """Select the process to run next (kernel context)."""
        while True:
            if self.zombies:
                return self.zombies[0]
            if self.runnable:
                return None  # caller chooses
            # idle: advance time
            while self.timers and self.timers[0][2] is None:
                heapq.heappop(self.timers)
            if not self.timers or self.ending:
                return False
            t = self.timers[0][0]
            if self.until is not None and t > self.until:
                self.now = max(self.now, self.until)
                return False
            self.now = max(self.now, t)
            self.fire_due()

    def _dispatch(self, me=None, exiting=None):
        """Hand the baton on.  Called by the thread that holds it."""
        if me is not None and self.cur is me:
            self.cur = None
        nxt = self._pick()
        if nxt is None:
            if len(self.runnable) == 1:
                nxt = self.runnable[0]
            else:
                key = (me.name, me.nsys) if me is not None else (exiting.name, -1)
                nxt = None
                if self.explicit is not None:
                    want = self.explicit.get(key)
                    if want is not None:
                        c = self.by_name.get(want)
                        if c in self.runnable:
                            nxt = c
                elif self.pick_random:
                    nxt = self.runnable[
                        self.sched_rng.randrange(len(self.runnable))
                    ]
                if nxt is None:
                    nxt = self.runnable[0]
                elif nxt is not self.runnable[0]:
                    self.switch_log.append([key[0], key[1], nxt.name])
        if nxt is False:
            if me is not None and me.state == RUNNABLE and not me.exited:
                raise HarnessError("dispatch lost a runnable process")
            self.main_sem.release()
            if me is not None and me.state != DEAD:
                me.sem.acquire()
                self._resumed(me)
            return
        if nxt in self.runnable:
            self.runnable.remove(nxt)
        if nxt is me:
            self._resumed(me)
            return
        self.switches += 1
        self.last_switch_step = self.steps
        self.hist.update(f"{nxt.name}@{nxt.nsys};".encode())
        self._start_or_resume(nxt)
        if me is not None and me.state != DEAD:
            me.sem.acquire()
            self._resumed(me)

    def _start_or_resume(self, nxt):
        self.cur = nxt
        self._load(nxt)
        if not nxt.started_thread:
            nxt.started_thread = True
            nxt.worker.sem.release()
        else:
            nxt.sem.release()

    def _load(self, p):
        sys.argv = p.argv
        sys.stdout = p.stdout
        sys.stderr = p.stderr
        self._loaded = p

    def _resumed(self, me):
        self.cur = me
        if self._loaded is not me:
            self._load(me)
        if me.killed:
            raise SimKilled(-9)

    def block(self, timeout_us=None):
        """Park the current process until woken or until the timeout."""
        p = self.cur
        if p.killed:
            raise SimKilled(-9)
        ent = None
        if p.wake_flag:
            p.wake_flag = False
            return True
        p.state = BLOCKED
        fired = []
        if timeout_us is not None:
            def on_t():
                fired.append(1)
                self.make_runnable(p)
            ent = self.after(timeout_us, on_t)
        self._dispatch(p)
        if ent is not None and not fired:
            self.cancel(ent)
        woken = p.wake_flag
        p.wake_flag = False
        return woken or not fired

    def wake(self, p):
        if p.exited:
            return
        p.wake_flag = True
        self.make_runnable(p)

    def sleep(self, us):
        """Sleep for the current process, ignoring wake-ups."""
        p = self.cur
        end = self.now + max(0, int(us))
        if us <= 0:
            self.enter("sched", inj=False)
            return
        while self.now < end:
            saved = p.wake_flag
            p.wake_flag = False
            self.block(end - self.now)
            p.wake_flag = p.wake_flag or saved

    def preempt(self, p, target):
        """Switch from running process p to runnable `target`."""
        self.switch_log.append([p.name, p.nsys, target.name])
        self._switch_to(p, target)

    def _switch_to(self, p, target):
        p.state = RUNNABLE
        self.runnable.append(p)
        self.runnable.remove(target)
        self.switches += 1
        self.last_switch_step = self.steps
        self.hist.update(f"{target.name}@{target.nsys};".encode())
        self._start_or_resume(target)
        p.sem.acquire()
        self._resumed(p)

    # --------------------------------------------------------------- syscall

    def enter(self, kind, obj=None, inj=True, cost=None):
        """Every intercepted system call passes through here first.

        Returns the fault that applies to this call (a dict) or None.
        """
        p = self.cur
        if p.killed:
            raise SimKilled(-9)
        self.now += self.COST if cost is None else cost
        p.nsys += 1
        self.steps += 1
        if self.steps > self.max_steps:
            raise BudgetExceeded("step budget")
        if self.timers and self.timers[0][0] <= self.now:
            self.fire_due()
            if p.killed:
                raise SimKilled(-9)
        if self.runnable:
            self._maybe_preempt(p)
        fault = None
        if inj:
            p.ninj += 1
            if self.record_inj:
                p.injtrace.append((kind, obj))
            if p.faults:
                fault = p.faults.get(p.ninj)
                if fault is not None:
                    fault = self._apply_fault(p, fault, kind, obj)
            if p.on_op is not None and fault is None:
                fault = p.on_op(kind, obj)
                if fault is not None:
                    fault = self._apply_fault(p, fault, kind, obj)
        if p.pending_interrupt:
            p.pending_interrupt = False
            raise KeyboardInterrupt()
        return fault

    def _maybe_preempt(self, p):
        if self.zombies:
            # a killed process must unwind before anything else happens
            z = self.zombies[0]
            p.state = RUNNABLE
            self.runnable.insert(0, p)
            self._start_or_resume(z)
            p.sem.acquire()
            self._resumed(p)
            return
        target = None
        if self.explicit is not None:
            want = self.explicit.get((p.name, p.nsys))
            if want is not None:
                c = self.by_name.get(want)
                if c in self.runnable:
                    target = c
        elif self.p_preempt and self.sched_rng.random() < self.p_preempt:
            target = self.runnable[self.sched_rng.randrange(len(self.runnable))]
        if target is None:
            if self.steps - self.last_switch_step > self.quantum:
                # fairness; deterministic so need not be recorded
                self._switch_to(p, self.runnable[0])
            return
        self.preempt(p, target)

    def _apply_fault(self, p, fault, kind, obj):
        fk = fault["kind"]
        if "on" in fault and fault["on"] != kind:
            return None  # the op at this position changed its nature
        self.fired.append(dict(fault, op=kind, obj=str(obj), t=self.now))
        self.count_fault(fk)
        if fk == "kill":
            self.kill(p)
            raise SimKilled(-9)
        if fk == "powerfail":
            self.powerfail(p.host, fault)
            raise SimKilled(-9)
        if fk == "pause":
            self.sleep(fault.get("us", 1000))
            return None
        if fk == "interrupt":
            raise KeyboardInterrupt()
        return fault

    def powerfail(self, host, fault):
        for q in list(self.procs):
            if q.host is host and not q.exited:
                self.kill(q)
        host.fs.crash(derive("crash", self.seed, fault.get("salt", 0)))
        self.log("powerfail", host.name)
        for s in list(self.services.values()):
            h = getattr(s, "host_down", None)
            if h:
                h(host)

    # ------------------------------------------------------------------ run

    def run(self, until=None):
        """Run until no process is runnable and no timer is due (before
        `until`).  Called from the harness thread only."""
        self.until = until
        # kernel context pick
        nxt = self._pick()
        if nxt is False:
            return
        if nxt is None:
            nxt = self.runnable[0]
        if nxt in self.runnable:
            self.runnable.remove(nxt)
        so, se, sa = sys.stdout, sys.stderr, sys.argv
        try:
            self._start_or_resume(nxt)
            self.main_sem.acquire()
        finally:
            self.cur = None
            self._loaded = None
            sys.stdout, sys.stderr, sys.argv = so, se, sa

    def run_proc(self, p, until=None):
        """Run the world until p has ended (or nothing can happen)."""
        if p.state == DEAD:
            return p
        self.stop_proc = p
        self.run(until)
        self.stop_proc = None
        return p

    def shutdown(self):
        self.ending = True
        self.until = None
        for p in list(self.procs):
            if not p.exited:
                self.kill(p)
        for _ in range(10000):
            if not self.zombies and not self.runnable:
                break
            self.run()
        for p in self.procs:
            if p.state != DEAD and p.worker is not None:
                self.harness_errors.append(f"process {p!r} did not terminate")
        self.timers.clear()
