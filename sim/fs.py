"""In-memory file system with a journal-ordered crash model.

* Metadata operations are kept as an undo list since the last commit; a power
  failure keeps a prefix of them.
* File data reaches the disk with fsync/sync, or after WRITEBACK seconds; data
  that has not may be old, missing, torn or zeroed after a power failure.
* A process crash loses nothing that was handed to write(2).
"""

import errno
import io
import os
import posixpath
import stat as st_mod

from .kernel import US

WRITEBACK = 40 * US


def oserr(e, path=None):
    return OSError(e, os.strerror(e), path)


class Inode:
    __slots__ = (
        "ino", "kind", "mode", "data", "children", "mtime", "nlink", "synced",
        "dirty_since", "target", "locks", "waiters", "dev", "meta", "atime",
        "parent_hint",
    )

    def __init__(self, ino, kind, mode, now):
        self.ino = ino
        self.kind = kind  # f, d, l, dev
        self.mode = mode
        self.data = bytearray() if kind == "f" else None
        self.children = {} if kind == "d" else None
        self.mtime = now
        self.atime = now
        self.nlink = 0
        self.synced = b""  # data as it is on the platter
        self.dirty_since = None
        self.target = None
        self.locks = None  # {ofd: mode}
        self.waiters = None
        self.dev = None
        self.meta = None


class OFD:
    """Open file description."""

    __slots__ = ("inode", "pos", "flags", "owner", "path", "refs", "dev", "pipe")

    def __init__(self, inode, flags, owner, path):
        self.inode = inode
        self.flags = flags
        self.owner = owner
        self.path = path
        self.pos = 0
        self.refs = 1
        self.dev = None
        self.pipe = None


class SimFS:
    PREFIXES = ("/srv", "/etc/backy", "/var", "/tmp", "/mnt", "/home", "/dev/rbd")

    def __init__(self, kernel, name="host"):
        self.kernel = kernel
        self.name = name
        self.next_ino = 2
        self.root = Inode(1, "d", 0o755, 0)
        self.root.nlink = 2
        self.undo = []  # [(time, fn)]
        self.dirty = set()
        self.fds = {}
        self.next_fd = 1000
        self.devices = {}  # path -> device object
        self.capacity = None
        self.used = 0
        self.stats = {}
        self.watch = []  # callbacks (op, path, ...)
        self.read_log = None
        self.readonly_errors = 0
        self.crashes = 0
        for d in ("srv", "etc", "var", "tmp", "mnt", "home", "dev"):
            self._mk(self.root, d, "d", 0o777)
        self.commit()

    # ------------------------------------------------------------- internals

    def is_virtual(self, path):
        for p in self.PREFIXES:
            if path == p or (path.startswith(p) and (path[len(p)] == "/" or p == "/dev/rbd" or p == "/etc/backy")):
                return True
        return False

    def nowns(self):
        h = self.kernel.hosts.get(self.name)
        return h.wall_us() if h else self.kernel.epoch

    def _mk(self, parent, name, kind, mode):
        ino = Inode(self.next_ino, kind, mode, self.nowns())
        self.next_ino += 1
        ino.nlink = 2 if kind == "d" else 1
        parent.children[name] = ino
        self._touch_dir(parent)

        def undo():
            parent.children.pop(name, None)

        self._log(undo)
        return ino

    def _touch_dir(self, d):
        d.mtime = self.nowns()

    def _log(self, undo):
        self.undo.append((self.kernel.now, undo))

    def commit(self):
        self.undo.clear()

    def sync_all(self):
        self.commit()
        for i in self.dirty:
            i.synced = bytes(i.data)
            i.dirty_since = None
        self.dirty.clear()

    def sync_inode(self, i):
        if i.kind == "f":
            i.synced = bytes(i.data)
            i.dirty_since = None
            self.dirty.discard(i)
        self.commit()

    def mark_dirty(self, i):
        if i.dirty_since is None:
            i.dirty_since = self.kernel.now
            self.dirty.add(i)

    def crash(self, rng):
        """Power failure: roll back to a legal on-disk image."""
        self.crashes += 1
        now = self.kernel.now
        n = len(self.undo)
        lo = 0
        while lo < n and self.undo[lo][0] < now - WRITEBACK:
            lo += 1
        mode = rng.randrange(4)
        if mode == 0:
            keep = n
        elif mode == 1:
            keep = lo
        else:
            keep = rng.randint(lo, n)
        while len(self.undo) > keep:
            self.undo.pop()[1]()
        self.undo.clear()
        dm = rng.randrange(4)  # global tendency of unsynced data
        for i in sorted(self.dirty, key=lambda i: i.ino):
            if i.dirty_since is not None and i.dirty_since < now - WRITEBACK:
                i.synced = bytes(i.data)
                i.dirty_since = None
                continue
            cur = bytes(i.data)
            old = i.synced
            c = rng.randrange(6) if dm else 0
            if c == 0:
                new = old
            elif c == 1:
                new = cur
            elif c == 2:
                new = cur[: rng.randint(0, len(cur))]
            elif c == 3:
                new = bytes(len(cur))
            elif c == 4:
                k = rng.randint(0, len(cur))
                new = cur[:k] + bytes(len(cur) - k)
            else:
                new = old[: len(cur)]
            i.data = bytearray(new)
            i.synced = bytes(new)
            i.dirty_since = None
        self.dirty.clear()
        self.fds.clear()
        # locks vanish with the machine
        stack = [self.root]
        while stack:
            d = stack.pop()
            d.locks = d.waiters = None
            if d.kind == "d":
                stack.extend(d.children.values())
        for dev in self.devices.values():
            r = getattr(dev, "reboot", None)
            if r:
                r()

    # ------------------------------------------------------------ resolution

    def split(self, path):
        return [c for c in path.split("/") if c and c != "."]

    def lookup(self, path, follow=True, depth=0, parent=False):
        """Return inode, or (parent inode, last name) with parent=True."""
        if depth > 20:
            raise oserr(errno.ELOOP, path)
        comps = self.split(path)
        stack = [self.root]
        names = []
        n = len(comps)
        for idx, c in enumerate(comps):
            cur = stack[-1]
            if cur.kind != "d":
                raise oserr(errno.ENOTDIR, path)
            last = idx == n - 1
            if c == "..":
                if len(stack) > 1:
                    stack.pop()
                    names.pop()
                continue
            if last and parent:
                return cur, c
            nxt = cur.children.get(c)
            if nxt is None:
                raise oserr(errno.ENOENT, path)
            if nxt.kind == "l" and (follow or not last):
                base = "/" + "/".join(names)
                tgt = posixpath.join(base, nxt.target, *comps[idx + 1:])
                return self.lookup(tgt, follow, depth + 1, parent)
            stack.append(nxt)
            names.append(c)
        if parent:
            raise oserr(errno.EBUSY, path)
        return stack[-1]

    def exists(self, path):
        try:
            self.lookup(path)
            return True
        except OSError:
            return False

    # ------------------------------------------- direct (harness) operations

    def makedirs(self, path):
        cur = self.root
        for c in self.split(path):
            nxt = cur.children.get(c)
            if nxt is None:
                nxt = self._mk(cur, c, "d", 0o777)
            cur = nxt
        return cur

    def put(self, path, data, mode=0o644):
        d = self.makedirs(posixpath.dirname(path))
        name = posixpath.basename(path)
        i = d.children.get(name)
        if i is None:
            i = self._mk(d, name, "f", mode)
        i.data = bytearray(data)
        i.synced = bytes(data)
        i.dirty_since = None
        self.dirty.discard(i)
        i.mtime = self.nowns()
        return i

    def get(self, path):
        return bytes(self.lookup(path).data)

    def walk_files(self, path):
        try:
            top = self.lookup(path)
        except OSError:
            return
        stack = [(path, top)]
        while stack:
            p, i = stack.pop()
            if i.kind == "d":
                for n in sorted(i.children, reverse=True):
                    stack.append((p + "/" + n, i.children[n]))
            else:
                yield p

    # ------------------------------------------------------------------ fds

    def new_fd(self, ofd):
        fd = self.next_fd
        self.next_fd += 1
        self.fds[fd] = ofd
        if ofd.owner is not None:
            ofd.owner.fds.add(fd)
        return fd

    def ofd(self, fd):
        o = self.fds.get(fd)
        if o is None:
            raise oserr(errno.EBADF)
        return o

    def close_fd(self, fd):
        o = self.fds.pop(fd, None)
        if o is None:
            return False
        if o.owner is not None:
            o.owner.fds.discard(fd)
        o.refs -= 1
        if o.refs == 0:
            self.unlock(o)
            if o.pipe is not None:
                o.pipe.close_read()
        return True

    def close_all(self, proc):
        for fd in list(proc.fds):
            self.close_fd(fd)
        proc.fds.clear()

    # ---------------------------------------------------------------- locks

    def try_lock(self, o, exclusive):
        i = o.inode
        if i.locks is None:
            i.locks = {}
        others = {k: m for k, m in i.locks.items() if k is not o}
        if exclusive and others:
            return False
        if not exclusive and any(m == "x" for m in others.values()):
            return False
        i.locks[o] = "x" if exclusive else "s"
        return True

    def unlock(self, o):
        i = o.inode
        if i is None or not i.locks:
            return
        if i.locks.pop(o, None) is not None and i.waiters:
            ws, i.waiters = i.waiters, None
            for p in ws:
                self.kernel.wake(p)

    # --------------------------------------------------------------- events

    def notify(self, op, path, **kw):
        for cb in self.watch:
            cb(op, path, **kw)


class Pipe:
    """Output of a simulated child (`stdout=PIPE`), produced lazily."""

    def __init__(self, kernel):
        self.kernel = kernel
        self.buf = bytearray()
        self.eof = False
        self.reader = None
        self.closed = False
        self.on_close = None

    def feed(self, data):
        self.buf += data
        self._wake()

    def set_eof(self):
        self.eof = True
        self._wake()

    def _wake(self):
        if self.reader is not None:
            r, self.reader = self.reader, None
            self.kernel.wake(r)

    def close_read(self):
        if not self.closed:
            self.closed = True
            if self.on_close:
                self.on_close()


class SimRaw(io.RawIOBase):
    """Raw file object over a simulated descriptor."""

    def __init__(self, kernel, fs, fd, readable, writable, append=False, name=None):
        self._k = kernel
        self._fs = fs
        self._fd = fd
        self._r = readable
        self._w = writable
        self._a = append
        self.name = name
        self._closed_fd = False
        self._run = kernel

    def _ofd(self):
        o = self._fs.fds.get(self._fd)
        if o is None:
            raise oserr(errno.EBADF)
        return o

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        o = self._fs.fds.get(self._fd)
        return o is not None and o.pipe is None

    def fileno(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        return self._fd

    def isatty(self):
        return False

    def readinto(self, b):
        data = sys_read(self._k, self._fs, self._ofd(), len(b))
        b[: len(data)] = data
        return len(data)

    def readall(self):
        out = bytearray()
        while True:
            d = sys_read(self._k, self._fs, self._ofd(), 1 << 20)
            if not d:
                return bytes(out)
            out += d

    def write(self, b):
        if self._k.cur is None:
            return len(b)  # discarded: the owner is gone
        o = self._ofd()
        return sys_write(self._k, self._fs, o, bytes(b), self._a)

    def seek(self, off, whence=0):
        o = self._ofd()
        if o.pipe is not None:
            raise oserr(errno.ESPIPE)
        if whence == 0:
            pos = off
        elif whence == 1:
            pos = o.pos + off
        else:
            pos = file_size(o) + off
        if pos < 0:
            raise oserr(errno.EINVAL)
        o.pos = pos
        return pos

    def tell(self):
        return self._ofd().pos

    def truncate(self, size=None):
        o = self._ofd()
        if size is None:
            size = o.pos
        sys_truncate(self._k, self._fs, o, size)
        return size

    def close(self):
        if self.closed:
            return
        try:
            super().close()
        finally:
            if not self._closed_fd:
                self._closed_fd = True
                o = self._fs.fds.get(self._fd)
                if o is not None and (
                    self._k.cur is None or o.owner is self._k.cur
                ):
                    self._fs.close_fd(self._fd)

    def __del__(self):
        # Never reach the kernel from a finaliser that runs at a random time.
        if not self._closed_fd:
            self._closed_fd = True
            o = self._fs.fds.get(self._fd)
            if o is not None:
                self._fs.close_fd(self._fd)


def file_size(o):
    if o.dev is not None:
        return o.dev.size()
    return len(o.inode.data)


def sys_read(k, fs, o, n):
    if o.pipe is not None:
        return pipe_read(k, o.pipe, n)
    f = k.enter("read", o.path)
    if f:
        if f["kind"] == "eio":
            raise oserr(errno.EIO, o.path)
        if f["kind"] == "short":
            n = max(1, n // 2)
    if o.dev is not None:
        d = o.dev.read(o.pos, n)
    else:
        if o.inode.kind == "d":
            raise oserr(errno.EISDIR, o.path)
        if fs.read_log is not None:
            fs.read_log.add(o.inode.ino)
        d = bytes(o.inode.data[o.pos: o.pos + n])
    o.pos += len(d)
    return d


def pipe_read(k, pipe, n):
    k.enter("piperead", "pipe")
    while not pipe.buf and not pipe.eof:
        pipe.reader = k.cur
        k.block()
    d = bytes(pipe.buf[:n])
    del pipe.buf[:n]
    return d


def sys_write(k, fs, o, b, append=False):
    f = k.enter("write", o.path)
    if f:
        kind = f["kind"]
        if kind == "eio":
            raise oserr(errno.EIO, o.path)
        if kind == "enospc":
            raise oserr(errno.ENOSPC, o.path)
        if kind == "short" and len(b) > 1:
            b = b[: max(1, int(len(b) * f.get("frac", 0.5)))]
        if kind == "torn":
            # part of the data arrives, then the process dies
            b = b[: int(len(b) * f.get("frac", 0.5))]
            _do_write(k, fs, o, b, append)
            k.kill(k.cur)
            from .kernel import SimKilled
            raise SimKilled(-9)
    if o.dev is not None:
        n = o.dev.write(o.pos, b)
        o.pos += n
        return n
    _do_write(k, fs, o, b, append)
    return len(b)


def _do_write(k, fs, o, b, append):
    i = o.inode
    if append or (o.flags & os.O_APPEND):
        o.pos = len(i.data)
    grow = max(0, o.pos + len(b) - len(i.data))
    if fs.capacity is not None and grow:
        if fs.used + grow > fs.capacity:
            raise oserr(errno.ENOSPC, o.path)
    fs.used += grow
    fs.mark_dirty(i)
    if o.pos > len(i.data):
        i.data += bytes(o.pos - len(i.data))
    i.data[o.pos: o.pos + len(b)] = b
    o.pos += len(b)
    i.mtime = fs.nowns()
    if fs.watch:
        fs.notify("write", o.path, n=len(b))


def sys_truncate(k, fs, o, size):
    f = k.enter("truncate", o.path)
    if f and f["kind"] in ("eio", "enospc"):
        raise oserr(errno.EIO if f["kind"] == "eio" else errno.ENOSPC, o.path)
    if o.dev is not None:
        raise oserr(errno.EINVAL, o.path)
    i = o.inode
    fs.mark_dirty(i)
    if size < len(i.data):
        del i.data[size:]
    else:
        i.data += bytes(size - len(i.data))
    i.mtime = fs.nowns()
