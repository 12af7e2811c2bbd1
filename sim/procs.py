"""Simulated child processes and external programs."""

import asyncio
import io
import os
import posixpath
import signal as sigmod
import subprocess
import sys

from . import shims
from .fs import OFD, Pipe, SimRaw, oserr
from .kernel import US, HarnessError, SimKilled

PROGRAMS = {}  # basename -> callable(proc) run as a full simulated process
STUBS = {}  # basename -> callable(kernel, host, argv, ctx) -> StubResult

_real = {}


class StubResult:
    """Outcome of an external command, computed when it takes effect."""

    def __init__(self, code=0, out=b"", err=b""):
        self.code = code
        self.out = out if isinstance(out, bytes) else out.encode()
        self.err = err if isinstance(err, bytes) else err.encode()


class Child:
    """Common part of sync and async child handles."""

    def __init__(self, k, argv, parent, stdin_data=None, want_pipe=False, env=None):
        self.k = k
        self.argv = [os.fspath(a) for a in argv]
        self.parent = parent
        self.returncode = None
        self.proc = None
        self.stub = None
        self.pid = None
        self.waiters = []
        self.out = b""
        self.err = b""
        self.pipe = None
        base = posixpath.basename(self.argv[0])
        parent.nchild += 1
        name = f"{parent.name}.{parent.nchild}"
        k.enter("spawn", base)
        if base in PROGRAMS:
            main = PROGRAMS[base]
            self.proc = k.spawn(name, parent.host, self.argv, main, parent, parent.cwd)
            self.proc.meta.update(parent.meta.get("inherit", {}))
            self.proc.meta["inherit"] = parent.meta.get("inherit", {})
            self.pid = self.proc.pid
            self.proc.exit_callbacks.append(self._proc_exit)
        elif base in STUBS:
            self.pid = k.next_pid
            k.next_pid += 1
            self.name = name
            if want_pipe:
                self.pipe = Pipe(k)
            self.stub = STUBS[base](self)
            if self.stub is None:
                raise FileNotFoundError(2, "No such file or directory", self.argv[0])
        else:
            raise FileNotFoundError(2, "No such file or directory", self.argv[0])

    def _proc_exit(self, p):
        self.out = bytes(p.raw_stdout) + p.stdout.getvalue().encode()
        self.finish(p.exit_code)

    def finish(self, code):
        if self.returncode is not None:
            return
        self.returncode = code & 0xFF if code >= 0 else code
        if self.pipe is not None:
            self.pipe.set_eof()
        ws, self.waiters = self.waiters, []
        for w in ws:
            w()

    def signal(self, sig):
        if self.returncode is not None:
            raise ProcessLookupError(3, "No such process")
        if self.proc is not None:
            send_signal(self.k, self.proc, sig)
        else:
            self.stub_kill(sig)

    def stub_kill(self, sig):
        cancel = getattr(self.stub, "cancel", None)
        if cancel:
            cancel()
        self.finish(-sig)

    def wait_block(self, timeout=None):
        """Block the calling simulated process."""
        k = self.k
        p = k.cur
        end = None if timeout is None else k.now + int(timeout * US)
        while self.returncode is None:
            k.enter("wait", None, inj=False)
            if self.returncode is not None:
                break
            if end is not None and k.now >= end:
                raise subprocess.TimeoutExpired(self.argv, timeout)
            self.waiters.append(lambda: k.wake(p))
            k.block(None if end is None else end - k.now)
        return self.returncode


def send_signal(k, p, sig):
    if p.exited:
        return
    h = p.signals.get(int(sig))
    if sig in (sigmod.SIGKILL,) or h is None:
        if sig == sigmod.SIGHUP and h == "ignore":
            return
        k.kill(p, -int(sig))
        if p is k.cur:
            raise SimKilled(-int(sig))
        return
    h()


class SimPopen:
    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None,
                 stderr=None, preexec_fn=None, close_fds=True, shell=False, cwd=None,
                 env=None, universal_newlines=None, startupinfo=None, creationflags=0,
                 restore_signals=True, start_new_session=False, pass_fds=(), *,
                 user=None, group=None, extra_groups=None, encoding=None, errors=None,
                 text=None, umask=-1, pipesize=-1, process_group=None):
        k = shims.K
        if isinstance(args, (str, bytes)):
            args = [args]
        self.args = args
        self._text = text or encoding or universal_newlines or errors
        self._enc = encoding or "utf-8"
        self._errors = errors or "strict"
        self._want_out = stdout == subprocess.PIPE
        self._want_err = stderr == subprocess.PIPE
        p = k.cur
        self._child = Child(k, args, p, want_pipe=self._want_out)
        self._child.env = env
        self.pid = self._child.pid
        self.stdin = None
        self.stdout = None
        self.stderr = None
        if self._want_out:
            pipe = self._child.pipe
            if pipe is None:
                # full simulated process: its output shows up when it exits
                pipe = self._child.pipe = Pipe(k)
                c = self._child
                c.waiters.append(lambda: pipe.feed(c.out))
            o = OFD(None, os.O_RDONLY, p, "pipe")
            o.pipe = pipe
            fd = p.host.fs.new_fd(o)
            raw = SimRaw(k, p.host.fs, fd, True, False, False, fd)
            self._fd = fd
            buf = raw if bufsize == 0 else io.BufferedReader(raw, bufsize if bufsize > 1 else io.DEFAULT_BUFFER_SIZE)
            if self._text:
                buf = io.TextIOWrapper(buf, self._enc, self._errors)
            self.stdout = buf

    @property
    def returncode(self):
        return self._child.returncode

    def poll(self):
        shims.K.enter("wait", None, inj=False)
        return self._child.returncode

    def wait(self, timeout=None):
        return self._child.wait_block(timeout)

    def communicate(self, input=None, timeout=None):
        out = None
        if self.stdout is not None:
            out = self.stdout.read()
            self.stdout.close()
        self.wait(timeout)
        err = None
        if self._want_err:
            err = self._child.err
            if self._text:
                err = err.decode(self._enc, self._errors)
        return out, err

    def send_signal(self, sig):
        if self._child.returncode is None:
            try:
                self._child.signal(sig)
            except ProcessLookupError:
                pass

    def terminate(self):
        self.send_signal(sigmod.SIGTERM)

    def kill(self):
        self.send_signal(sigmod.SIGKILL)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        if self.stdout:
            self.stdout.close()
        self.wait()


class PopenDispatch(subprocess.Popen):
    """Looks like subprocess.Popen, serves simulated processes."""

    def __new__(cls, *a, **kw):
        if shims.cur() is not None:
            return SimPopen(*a, **kw)
        return object.__new__(cls)


class SimAsyncProcess:
    def __init__(self, loop, child):
        self._loop = loop
        self._child = child
        self.pid = child.pid
        self.stdin = self.stdout = self.stderr = None

    @property
    def returncode(self):
        return self._child.returncode

    async def wait(self):
        c = self._child
        if c.returncode is None:
            fut = self._loop.create_future()

            def done():
                def setit():
                    if not fut.done():
                        fut.set_result(None)
                try:
                    self._loop.call_soon_threadsafe(setit)
                except RuntimeError:
                    pass

            c.waiters.append(done)
            await fut
        return c.returncode

    async def communicate(self, input=None):
        self._child.stdin_data = input
        cb = getattr(self._child.stub, "stdin", None)
        if cb:
            cb(input)
        await self.wait()
        return self._child.out, self._child.err

    def send_signal(self, sig):
        if self._child.returncode is not None:
            raise ProcessLookupError()
        self._child.signal(sig)

    def terminate(self):
        self.send_signal(sigmod.SIGTERM)

    def kill(self):
        self.send_signal(sigmod.SIGKILL)


async def sim_create_subprocess_exec(program, *args, stdin=None, stdout=None,
                                     stderr=None, limit=None, **kwds):
    if shims.cur() is None:
        return await _real["cse"](program, *args, stdin=stdin, stdout=stdout, stderr=stderr, **kwds)
    k = shims.K
    loop = asyncio.get_running_loop()
    child = Child(k, (program,) + args, k.cur, want_pipe=False)
    k.services.setdefault("children", ChildRegistry()).add(child)
    try:
        await asyncio.sleep(0)
    except BaseException:
        # asyncio closes the transport, which kills the child
        if child.returncode is None:
            child.signal(sigmod.SIGKILL)
        raise
    return SimAsyncProcess(loop, child)


class ChildRegistry:
    def __init__(self):
        self.all = []

    def add(self, c):
        self.all.append(c)


async def sim_create_subprocess_shell(cmd, **kw):
    if shims.cur() is None:
        return await _real["css"](cmd, **kw)
    raise FileNotFoundError(2, "no shell in the simulation")


def install():
    _real["Popen"] = subprocess.Popen
    subprocess.Popen = PopenDispatch
    _real["cse"] = asyncio.create_subprocess_exec
    asyncio.create_subprocess_exec = sim_create_subprocess_exec
    asyncio.subprocess.create_subprocess_exec = sim_create_subprocess_exec
    _real["css"] = asyncio.create_subprocess_shell
    asyncio.create_subprocess_shell = sim_create_subprocess_shell
