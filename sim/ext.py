"""Stubs for the world outside of backy: Ceph, Consul, callback script."""

import errno
import json
import os
import posixpath
import struct

from . import shims
from .fs import oserr
from .kernel import US, derive, derive_int
from .procs import STUBS, StubResult


class Image:
    def __init__(self, size, blk):
        self.data = bytearray(size)
        self.blk = blk
        self.snaps = {}  # name -> bytes
        self.snap_order = []


class RBDDevice:
    """/dev/rbdN on one host (a read-only snapshot or a writable image)."""

    def __init__(self, ceph, host, image, snap, ro):
        self.ceph = ceph
        self.host = host
        self.image = image
        self.snap = snap
        self.ro = ro

    def _data(self):
        img = self.ceph.images.get(self.image)
        if img is None or (self.snap and self.snap not in img.snaps):
            raise oserr(errno.EIO)
        return img.snaps[self.snap] if self.snap else img.data

    def size(self):
        return len(self._data())

    def check_open(self, flags):
        if self.ro and flags & os.O_ACCMODE != os.O_RDONLY:
            raise oserr(errno.EROFS)

    def read(self, pos, n):
        return bytes(self._data()[pos: pos + n])

    def write(self, pos, b):
        d = self._data()
        n = min(len(b), len(d) - pos)
        if n <= 0:
            raise oserr(errno.ENOSPC)
        d[pos: pos + n] = b[:n]
        return n


class BlockDevice:
    """A fixed-size block device used as a restore target."""

    def __init__(self, size):
        self.data = bytearray(size)
        self.cache = {}
        self.sync_error = None
        self.synced = False

    def size(self):
        return len(self.data)

    def read(self, pos, n):
        return bytes(self.data[pos: pos + n])

    def write(self, pos, b):
        n = min(len(b), len(self.data) - pos)
        if n <= 0:
            raise oserr(errno.ENOSPC)
        self.data[pos: pos + n] = b[:n]
        self.synced = False
        return n

    def sync(self):
        self.synced = True


class Ceph:
    def __init__(self, kernel):
        self.k = kernel
        self.images = {}
        self.mapped = {}  # (host, dev) -> (image, snap)
        self.snap_history = {}  # (image, snap) -> bytes (kept forever)
        self.cmdlog = []  # (time, procname, argv, code)
        self.cmdsteps = []
        self.version = "ceph version 14.2.22 (abc) nautilus (stable)"
        self.lat = (3_000, 40_000)
        self.stubtrace = []
        self.export_bytes = 0
        self.snap_busy = set()
        self.hooks = []

    def add(self, name, size, blk):
        self.images[name] = Image(size, blk)
        return self.images[name]

    def host_down(self, host):
        for key in [k for k in self.mapped if k[0] == host.name]:
            del self.mapped[key]
            host.fs.devices.pop(key[1], None)

    def create_snap(self, image, snap):
        img = self.images.get(image)
        if img is None:
            return 2
        if snap in img.snaps:
            return 17
        img.snaps[snap] = bytes(img.data)
        self.snap_history[(image, snap)] = img.snaps[snap]
        for h in self.hooks:
            h("snap", image, snap)
        return 0

    # ------------------------------------------------------------ command

    def command(self, child):
        k = self.k
        argv = child.argv[1:]
        host = child.parent.host
        f = k.faults_for(child.name).get(1)
        self.stubtrace.append((child.name, argv))
        lo, hi = self.lat
        lat = lo + derive_int(hi - lo, "rbdlat", k.seed, child.name)
        if f and f["kind"] == "stall":
            k.count_fault("rbd_stall")
            k.fired.append(dict(f, op="rbd", obj=" ".join(argv[:3]), t=k.now))
            lat += f["us"]
            f = None
        st = _Pending()

        def effect():
            if st.cancelled:
                return
            code, out, stream = 1, "", None
            if f and f["kind"] == "fail":
                k.count_fault("rbd_fail")
                k.fired.append(dict(f, op="rbd", obj=" ".join(argv[:3]), t=k.now))
                code = f.get("code", 1)
            else:
                code, out, stream = self._run(host, argv)
                if f and f["kind"] == "fail_after" and stream is None:
                    k.count_fault("rbd_fail_after")
                    k.fired.append(dict(f, op="rbd", obj=" ".join(argv[:3]), t=k.now))
                    code = f.get("code", 1)
                if f and f["kind"] == "garbage" and stream is None:
                    k.count_fault("rbd_garbage")
                    k.fired.append(dict(f, op="rbd", obj=" ".join(argv[:3]), t=k.now))
                    out = out[: len(out) // 2]
            self.cmdlog.append((k.now, child.name, argv, code))
            self.cmdsteps.append((k.now, child.name, argv, code, k.steps))
            if stream is not None:
                self._stream(child, st, stream, f)
                return
            if child.pipe is not None:
                child.pipe.feed(out.encode() if isinstance(out, str) else out)
            child.out = out.encode() if isinstance(out, str) else out
            child.finish(code)

        k.after(lat, effect)
        return st

    def _stream(self, child, st, data, f):
        """Feed an export to the pipe in pieces."""
        k = self.k
        code = 0
        if f and f["kind"] in ("trunc", "fail_after"):
            k.count_fault("rbd_trunc" if f["kind"] == "trunc" else "rbd_fail_after")
            cutat = int(len(data) * f.get("frac", 1.0)) if f["kind"] == "trunc" else len(data)
            align = f.get("align")
            if align:
                cutat -= cutat % align
            k.fired.append(dict(f, op="rbd", obj=f"export cut at {cutat} of {len(data)}", t=k.now))
            data = data[:cutat]
            code = f.get("code", 1)
            child.cut = True
        self.export_bytes += len(data)
        if child.pipe is None:
            child.out = data
            child.finish(code)
            return
        n = max(1, len(data) // 3 + 1)
        pieces = [data[i: i + n] for i in range(0, len(data), n)]
        t = 0
        for i, piece in enumerate(pieces):
            t += 2000

            def feed(piece=piece):
                if st.cancelled:
                    return
                st.fed += 1
                if not child.pipe.closed:
                    child.pipe.feed(piece)

            k.after(t, feed)

        def end():
            if not st.cancelled:
                child.pipe.set_eof()
                child.finish(code)

        k.after(t + 500, end)

        def closed():
            # SIGPIPE ends a producer that still has something to write
            if child.returncode is None and st.fed < len(pieces):
                k.after(100, lambda: child.finish(-13))

        child.pipe.on_close = closed

    def _parse(self, spec):
        if "@" in spec:
            a, b = spec.split("@", 1)
            return a, b
        return spec, None

    def _run(self, host, argv):
        k = self.k
        args = [a for a in argv if not a.startswith("--format")]
        if args == ["--version"]:
            return 0, self.version + "\n", None
        c = args[0]
        if c == "info":
            image, snap = self._parse(args[1])
            img = self.images.get(image)
            if img is None or (snap is not None and snap not in img.snaps):
                return 2, "", None
            return 0, json.dumps({"name": image, "size": len(img.data), "format": 2}), None
        if c == "snap":
            image, snap = self._parse(args[2])
            img = self.images.get(image)
            if img is None:
                return 2, "", None
            if args[1] == "create":
                return self.create_snap(image, snap), "", None
            if args[1] == "ls":
                return 0, json.dumps(
                    [{"id": i, "name": n, "size": len(d)} for i, (n, d) in enumerate(img.snaps.items())]
                ), None
            if args[1] == "rm":
                if snap not in img.snaps:
                    return 2, "", None
                del img.snaps[snap]
                return 0, "", None
        if c == "map":
            image, snap = self._parse(args[1])
            img = self.images.get(image)
            if img is None or (snap and snap not in img.snaps):
                return 2, "", None
            n = 0
            while f"/dev/rbd{n}" in host.fs.devices:
                n += 1
            dev = f"/dev/rbd{n}"
            host.fs.devices[dev] = RBDDevice(self, host, image, snap, "--read-only" in args)
            self.mapped[(host.name, dev)] = (image, snap)
            return 0, dev + "\n", None
        if c == "showmapped":
            out = []
            for (h, dev), (image, snap) in sorted(self.mapped.items()):
                if h == host.name:
                    pool, name = image.split("/")
                    out.append({"id": dev[8:], "pool": pool, "namespace": "", "name": name,
                                "snap": snap or "-", "device": dev})
            if "luminous" in self.version or "nautilus" not in self.version:
                for o in out:
                    o.pop("namespace")
                out = {o.pop("id"): o for o in out}
            return 0, json.dumps(out), None
        if c == "unmap":
            key = (host.name, args[1])
            if key not in self.mapped and not args[1].startswith("/dev/"):
                # also takes image and snapshot specifications
                for (h, d), spec in sorted(self.mapped.items()):
                    if h == host.name and spec == self._parse(args[1]):
                        key = (h, d)
                        break
            if key not in self.mapped:
                return 22, "", None
            for o in host.fs.fds.values():
                if o.dev is host.fs.devices.get(key[1]):
                    return 16, "", None
            del self.mapped[key]
            host.fs.devices.pop(key[1], None)
            return 0, "", None
        if c == "export":
            image, snap = self._parse(args[1])
            img = self.images.get(image)
            if img is None or (snap and snap not in img.snaps):
                return 2, "", None
            return 0, "", bytes(img.snaps[snap] if snap else img.data)
        if c == "export-diff":
            image, snap = self._parse(args[1])
            img = self.images.get(image)
            old = args[args.index("--from-snap") + 1]
            if img is None or snap not in img.snaps or old not in img.snaps:
                return 2, "", None
            whole = "--whole-object" in args
            return 0, "", self.make_diff(img, old, snap, whole)
        return 22, "", None

    def make_diff(self, img, old, new, whole):
        """A diff stream like `rbd export-diff` emits."""
        a, b = img.snaps[old], img.snaps[new]
        rng = derive("diff", self.k.seed, new)
        obj = img.blk  # object size
        step = obj if whole else max(1, obj // 8)
        out = [b"rbd diff v1\n"]
        for tag, name in ((b"f", old), (b"t", new)):
            n = name.encode()
            out.append(tag + struct.pack("<i", len(n)) + n)
        out.append(b"s" + struct.pack("<Q", len(b)))
        recs = []
        pos = 0
        while pos < len(b):
            end = min(len(b), pos + step)
            # objects do not straddle
            end = min(end, (pos // obj + 1) * obj)
            if a[pos:end] != b[pos:end] and not (pos >= len(a) and not any(b[pos:end])):
                z = not any(b[pos:end])
                if recs and recs[-1][0] == z and recs[-1][2] == pos and (
                        recs[-1][2] % obj or rng.random() < 0.3):
                    recs[-1][2] = end
                else:
                    recs.append([z, pos, end])
            pos = end
        for z, s, e in recs:
            out.append((b"z" if z else b"w") + struct.pack("<QQ", s, e - s))
            if not z:
                out.append(bytes(b[s:e]))
        out.append(b"e")
        return b"".join(out)


class _Pending:
    cancelled = False
    fed = 0

    def cancel(self):
        self.cancelled = True


def rbd_stub(child):
    c = child.k.services.get("ceph")
    return c.command(child) if c else None


def cp_stub(child):
    """cp [--reflink=always] SRC DST on the simulated file system."""
    k = child.k
    st = _Pending()
    argv = child.argv[1:]
    fs = child.parent.host.fs

    def effect():
        if st.cancelled:
            return
        if argv[0].startswith("--reflink"):
            child.finish(1)
            return
        try:
            data = fs.get(argv[0])
            i = fs.put(argv[1], data)
            i.synced = b""
            fs.mark_dirty(i)
            child.finish(0)
        except OSError:
            child.finish(1)

    k.after(500, effect)
    return st


# ------------------------------------------------------------------- consul


class ConsulDown(Exception):
    pass


class ConsulState:
    """KV store plus the agent that snapshots VMs on request."""

    def __init__(self, kernel, ceph):
        self.k = kernel
        self.ceph = ceph
        self.kv = {}
        self.vanishing = {}  # key: us after it has been listed
        self.vms = {}  # vm name -> image
        self.agent_delay = 2 * US
        self.agent_alive = True
        self.requests = []
        self.down = False
        self.tick_running = False
        self.served = []
        self.history = []

    def put(self, key, value):
        self.kv[key] = value
        self.history.append((self.k.now, "put", key, value))
        if self.agent_alive and key.startswith("snapshot/"):
            self.k.after(self.agent_delay, lambda: self.serve(key))

    def serve(self, key):
        v = self.kv.get(key)
        if v is None or not self.agent_alive:
            return
        try:
            d = json.loads(v)
            image = self.vms.get(d["vm"])
            if image:
                self.ceph.create_snap(image, d["snapshot"])
                self.served.append((key, d["snapshot"]))
        except Exception:
            pass


class SimKV:
    def __init__(self, st):
        self.st = st

    def _enter(self, op, key):
        f = shims.K.enter("consul", op, cost=500)
        if f and f["kind"] in ("eio", "consulfail"):
            import requests
            raise requests.exceptions.ConnectionError("consul down")
        if self.st.down:
            import requests
            raise requests.exceptions.ConnectionError("consul down")

    def __setitem__(self, key, value):
        self._enter("put", key)
        if not isinstance(value, (str, bytes)):
            value = json.dumps(value)
        self.st.put(key, value)

    def __getitem__(self, key):
        self._enter("get", key)
        return self.st.kv[key] or None

    def get(self, key, default=None, raw=False):
        self._enter("get", key)
        return self.st.kv.get(key, default)

    def __delitem__(self, key):
        self._enter("del", key)
        if key not in self.st.kv:
            return
        del self.st.kv[key]
        self.st.history.append((self.st.k.now, "del", key, None))

    def __contains__(self, key):
        self._enter("get", key)
        return key in self.st.kv

    def find(self, prefix, separator=None):
        self._enter("find", prefix)
        for key, us in sorted(self.st.vanishing.items()):
            # somebody else's requests get done while we look at them
            self.st.k.after(us, lambda key=key: self.st.kv.pop(key, None))
        return {k: v for k, v in sorted(self.st.kv.items()) if k.startswith(prefix)}

    def keys(self):
        self._enter("find", "")
        return sorted(self.st.kv)


class SimConsul:
    def __init__(self, *a, token=None, **kw):
        self.kv = SimKV(shims.K.services["consul"])


def callback_stub(child):
    """The backup-completed callback: reads the status, exits."""
    k = child.k
    st = _Pending()
    svc = k.services.get("callback")
    delay = 20_000
    code = 0
    if svc is not None:
        delay, code = svc.behave(child)

    def effect():
        if not st.cancelled:
            if svc is not None:
                svc.done(child)
            child.finish(code)

    if delay is not None:
        k.after(delay, effect)
    return st


class Callback:
    def __init__(self, kernel):
        self.k = kernel
        self.calls = []
        self.mode = "ok"

    def behave(self, child):
        f = self.k.faults_for(child.name).get(1)
        self.calls.append([self.k.now, child.parent.name, child.argv[1:], child, None])
        if f and f["kind"] == "hang":
            self.k.count_fault("callback_hang")
            return f.get("us"), 0
        if f and f["kind"] == "fail":
            self.k.count_fault("callback_fail")
            return 20_000, 1
        return 20_000, 0

    def done(self, child):
        for c in self.calls:
            if c[3] is child:
                c[4] = getattr(child, "stdin_data", None)


STUBS["rbd"] = rbd_stub
STUBS["cp"] = cp_stub
STUBS["backup-callback"] = callback_stub
