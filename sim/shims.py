"""Interception layer.  Installed once per worker, before backy is imported.

Each patched function looks at the current kernel: when a simulated process
holds the baton the call is served by the simulator, otherwise the original is
called.
"""

import builtins
import datetime as _dtmod
import errno
import fcntl
import io
import os
import posixpath
import random
import shutil
import stat as st_mod
import subprocess
import sys
import tempfile
import time
from types import SimpleNamespace

from .fs import OFD, Pipe, SimFS, SimRaw, file_size, oserr, sys_read, sys_truncate, sys_write
from .kernel import US, HarnessError, SimKilled, derive_int

K = None  # the kernel of the run in progress

R = SimpleNamespace()  # the real functions


def set_kernel(k):
    global K
    K = k


def cur():
    return K.cur if K is not None else None


def _fspath(path):
    p = os.fspath(path)
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    return p


def _abs(p, path):
    path = _fspath(path)
    if not path.startswith("/"):
        if path == "":
            return ""
        path = posixpath.join(p.cwd, path)
    return path


def _v(path):
    """(proc, fs, absolute path) if the simulator serves the path."""
    k = K
    if k is None or k.cur is None:
        return None
    p = k.cur
    a = _abs(p, path)
    # normalise only for the prefix decision
    n = posixpath.normpath(a) if "." in a else a
    if p.host.fs.is_virtual(n):
        return p, p.host.fs, a
    return None


def _deny(path, what):
    esc = K.services.get("escape")
    if esc is not None:
        esc(what, str(path))
    else:
        K.harness_errors.append(f"{what} outside of the simulated tree: {path}")
    raise PermissionError(errno.EACCES, "outside of simulation", str(path))


ERRS = {"eio": errno.EIO, "enospc": errno.ENOSPC, "eacces": errno.EACCES, "emfile": errno.EMFILE}


def _fault(f, path):
    if f:
        e = ERRS.get(f["kind"])
        if e:
            raise oserr(e, path)


# --------------------------------------------------------------------- os.*


def _stat_result(i, fs):
    mt = i.mtime / US
    typ = {"f": st_mod.S_IFREG, "d": st_mod.S_IFDIR, "l": st_mod.S_IFLNK}[i.kind]
    size = len(i.data) if i.kind == "f" else (len(i.target) if i.kind == "l" else 4096)
    return os.stat_result(
        (
            typ | i.mode, i.ino, 7, i.nlink, 0, 0, size,
            int(mt), int(mt), int(mt),
        ),
        {
            "st_atime": mt, "st_mtime": mt, "st_ctime": mt,
            "st_atime_ns": i.mtime * 1000, "st_mtime_ns": i.mtime * 1000,
            "st_ctime_ns": i.mtime * 1000, "st_blksize": 4096,
            "st_blocks": (size + 511) // 512, "st_rdev": 0,
        },
    )


def _dev_stat():
    return os.stat_result((st_mod.S_IFBLK | 0o660, 9, 7, 1, 0, 0, 0, 0, 0, 0))


def s_stat(path, *, dir_fd=None, follow_symlinks=True):
    if isinstance(path, int):
        return s_fstat(path) if path >= 1000 and cur() else R.stat(path)
    v = _v(path)
    if v is None:
        return R.stat(path, dir_fd=dir_fd, follow_symlinks=follow_symlinks)
    p, fs, a = v
    f = K.enter("stat", a)
    _fault(f, a)
    if a in fs.devices:
        return _dev_stat()
    return _stat_result(fs.lookup(a, follow_symlinks), fs)


def s_lstat(path, *, dir_fd=None):
    if _v(path) is None:
        return R.lstat(path, dir_fd=dir_fd)
    return s_stat(path, follow_symlinks=False)


def s_fstat(fd):
    if cur() is None or fd < 1000:
        return R.fstat(fd)
    K.enter("fstat", fd)
    o = K.cur.host.fs.ofd(fd)
    if o.dev is not None or o.inode is None:
        return _dev_stat()
    return _stat_result(o.inode, K.cur.host.fs)


def s_access(path, mode, **kw):
    v = _v(path)
    if v is None:
        return R.access(path, mode, **kw)
    K.enter("stat", v[2])
    return v[2] in v[1].devices or v[1].exists(v[2])


def s_mkdir(path, mode=0o777, *, dir_fd=None):
    v = _v(path)
    if v is None:
        if cur() is not None:
            # an existing real directory simply exists
            if R.exists(path):
                raise oserr(errno.EEXIST, str(path))
            _deny(path, "mkdir")
        return R.mkdir(path, mode, dir_fd=dir_fd)
    p, fs, a = v
    parent, name = fs.lookup(a.rstrip("/"), parent=True)
    if name in parent.children:
        # no effect: cheap path, not an injection point
        K.enter("mkdir", a, inj=False)
        parent, name = fs.lookup(a.rstrip("/"), parent=True)
        if name in parent.children:
            raise oserr(errno.EEXIST, a)
    f = K.enter("mkdir", a)
    _fault(f, a)
    parent, name = fs.lookup(a.rstrip("/"), parent=True)
    if name in parent.children:
        raise oserr(errno.EEXIST, a)
    fs._mk(parent, name, "d", mode & 0o777)
    if fs.watch:
        fs.notify("mkdir", a)


def s_rmdir(path, *, dir_fd=None):
    v = _v(path)
    if v is None:
        if cur() is not None:
            _deny(path, "rmdir")
        return R.rmdir(path, dir_fd=dir_fd)
    p, fs, a = v
    f = K.enter("rmdir", a)
    _fault(f, a)
    parent, name = fs.lookup(a.rstrip("/"), parent=True)
    i = parent.children.get(name)
    if i is None:
        raise oserr(errno.ENOENT, a)
    if i.kind != "d":
        raise oserr(errno.ENOTDIR, a)
    if i.children:
        raise oserr(errno.ENOTEMPTY, a)
    del parent.children[name]
    fs._touch_dir(parent)

    def undo():
        parent.children[name] = i

    fs._log(undo)
    if fs.watch:
        fs.notify("rmdir", a)


def s_unlink(path, *, dir_fd=None):
    v = _v(path)
    if v is None:
        if cur() is not None:
            _deny(path, "unlink")
        return R.unlink(path, dir_fd=dir_fd)
    p, fs, a = v
    f = K.enter("unlink", a)
    _fault(f, a)
    parent, name = fs.lookup(a, parent=True)
    i = parent.children.get(name)
    if i is None:
        raise oserr(errno.ENOENT, a)
    if i.kind == "d":
        raise oserr(errno.EISDIR, a)
    del parent.children[name]
    i.nlink -= 1
    fs._touch_dir(parent)

    def undo():
        parent.children[name] = i
        i.nlink += 1

    fs._log(undo)
    if fs.watch:
        fs.notify("unlink", a, inode=i)


def s_rename(src, dst, *, src_dir_fd=None, dst_dir_fd=None):
    v = _v(src)
    if v is None:
        if cur() is not None:
            _deny(src, "rename")
        return R.rename(src, dst, src_dir_fd=src_dir_fd, dst_dir_fd=dst_dir_fd)
    p, fs, a = v
    b = _abs(p, dst)
    if not fs.is_virtual(posixpath.normpath(b)):
        _deny(b, "rename")
    f = K.enter("rename", b)
    _fault(f, b)
    sp, sn = fs.lookup(a, parent=True)
    i = sp.children.get(sn)
    if i is None:
        raise oserr(errno.ENOENT, a)
    dp, dn = fs.lookup(b, parent=True)
    old = dp.children.get(dn)
    if old is i:
        return
    if old is not None:
        if old.kind == "d":
            if i.kind != "d":
                raise oserr(errno.EISDIR, b)
            if old.children:
                raise oserr(errno.ENOTEMPTY, b)
        elif i.kind == "d":
            raise oserr(errno.ENOTDIR, b)
    del sp.children[sn]
    dp.children[dn] = i
    fs._touch_dir(sp)
    fs._touch_dir(dp)

    def undo():
        if old is not None:
            dp.children[dn] = old
        else:
            dp.children.pop(dn, None)
        sp.children[sn] = i

    fs._log(undo)
    if fs.watch:
        fs.notify("rename", b, src=a, inode=i, old=old)


def s_link(src, dst, **kw):
    v = _v(src)
    if v is None:
        if cur() is not None:
            _deny(dst, "link")
        return R.link(src, dst, **kw)
    p, fs, a = v
    b = _abs(p, dst)
    f = K.enter("link", b)
    _fault(f, b)
    i = fs.lookup(a)
    dp, dn = fs.lookup(b, parent=True)
    if dn in dp.children:
        raise oserr(errno.EEXIST, b)
    dp.children[dn] = i
    i.nlink += 1
    fs._touch_dir(dp)
    fs._log(lambda: dp.children.pop(dn, None))


def s_symlink(src, dst, target_is_directory=False, *, dir_fd=None):
    v = _v(dst)
    if v is None:
        if cur() is not None:
            _deny(dst, "symlink")
        return R.symlink(src, dst, target_is_directory, dir_fd=dir_fd)
    p, fs, b = v
    f = K.enter("symlink", b)
    _fault(f, b)
    dp, dn = fs.lookup(b, parent=True)
    if dn in dp.children:
        raise oserr(errno.EEXIST, b)
    i = fs._mk(dp, dn, "l", 0o777)
    i.target = _fspath(src)


def s_readlink(path, *, dir_fd=None):
    v = _v(path)
    if v is None:
        return R.readlink(path, dir_fd=dir_fd)
    p, fs, a = v
    K.enter("readlink", a)
    i = fs.lookup(a, follow=False)
    if i.kind != "l":
        raise oserr(errno.EINVAL, a)
    return i.target


def s_chmod(path, mode, *, dir_fd=None, follow_symlinks=True):
    if isinstance(path, int):
        return s_fchmod(path, mode)
    v = _v(path)
    if v is None:
        if cur() is not None:
            _deny(path, "chmod")
        return R.chmod(path, mode, dir_fd=dir_fd, follow_symlinks=follow_symlinks)
    p, fs, a = v
    f = K.enter("chmod", a)
    _fault(f, a)
    if a in fs.devices:
        return
    _set_mode(fs, fs.lookup(a, follow_symlinks), mode)


def _set_mode(fs, i, mode):
    old = i.mode
    i.mode = mode & 0o7777

    def undo():
        i.mode = old

    fs._log(undo)


def s_fchmod(fd, mode):
    if cur() is None or fd < 1000:
        return R.fchmod(fd, mode)
    K.enter("chmod", fd)
    fs = K.cur.host.fs
    _set_mode(fs, fs.ofd(fd).inode, mode)


def s_utime(path, times=None, *, ns=None, dir_fd=None, follow_symlinks=True):
    if isinstance(path, int) and path >= 1000 and cur():
        fs = K.cur.host.fs
        i = fs.ofd(path).inode
        a = "fd"
    else:
        v = _v(path)
        if v is None:
            if cur() is not None:
                _deny(path, "utime")
            if ns is not None:
                return R.utime(path, ns=ns, dir_fd=dir_fd, follow_symlinks=follow_symlinks)
            return R.utime(path, times, dir_fd=dir_fd, follow_symlinks=follow_symlinks)
        p, fs, a = v
        i = None
    f = K.enter("utime", a)
    _fault(f, a)
    if i is None:
        i = fs.lookup(a, follow_symlinks)
    if ns is not None:
        i.mtime = ns[1] // 1000
    elif times is not None:
        i.mtime = int(times[1] * US)
    else:
        i.mtime = fs.nowns()


def s_listdir(path="."):
    v = _v(path)
    if v is None:
        return R.listdir(path)
    p, fs, a = v
    f = K.enter("readdir", a)
    _fault(f, a)
    i = fs.lookup(a)
    if i.kind != "d":
        raise oserr(errno.ENOTDIR, a)
    return _order(fs, list(i.children))


def _order(fs, names):
    """Directory order is arbitrary on a real file system: scramble it in a
    way that only depends on the run's seed and the names."""
    salt = fs.dir_salt if hasattr(fs, "dir_salt") else 0
    if salt == 0:
        names.sort()
    elif salt == 1:
        names.sort(reverse=True)
    else:
        names.sort(key=lambda n: hash((salt, n)))
    return names


class SimDirEntry(os.PathLike):
    __slots__ = ("name", "path", "_i", "_fs")

    def __init__(self, fs, base, name, inode):
        self.name = name
        self.path = posixpath.join(base, name)
        self._i = inode
        self._fs = fs

    def __fspath__(self):
        return self.path

    def __repr__(self):
        return f"<DirEntry {self.name!r}>"

    def inode(self):
        return self._i.ino

    def is_symlink(self):
        return self._i.kind == "l"

    def is_junction(self):
        return False

    def is_dir(self, *, follow_symlinks=True):
        if self._i.kind == "l" and follow_symlinks:
            try:
                return st_mod.S_ISDIR(os.stat(self.path).st_mode)
            except FileNotFoundError:
                return False
        return self._i.kind == "d"

    def is_file(self, *, follow_symlinks=True):
        if self._i.kind == "l" and follow_symlinks:
            try:
                return st_mod.S_ISREG(os.stat(self.path).st_mode)
            except FileNotFoundError:
                return False
        return self._i.kind == "f"

    def stat(self, *, follow_symlinks=True):
        return os.stat(self.path, follow_symlinks=follow_symlinks)


class SimScandir:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def close(self):
        pass


def s_scandir(path="."):
    v = _v(path)
    if v is None:
        return R.scandir(path)
    p, fs, a = v
    f = K.enter("readdir", a)
    _fault(f, a)
    i = fs.lookup(a)
    if i.kind != "d":
        raise oserr(errno.ENOTDIR, a)
    base = _fspath(path)
    return SimScandir(
        [SimDirEntry(fs, base, n, i.children[n]) for n in _order(fs, list(i.children))]
    )


def s_getcwd():
    p = cur()
    return p.cwd if p else R.getcwd()


def s_chdir(path):
    p = cur()
    if p is None:
        return R.chdir(path)
    v = _v(path)
    if v is None:
        p.cwd = _abs(p, path)
        return
    K.enter("chdir", v[2])
    i = v[1].lookup(v[2])
    if i.kind != "d":
        raise oserr(errno.ENOTDIR, v[2])
    p.cwd = v[2]


def _open_inode(v, flags, mode):
    p, fs, a = v
    creat = bool(flags & os.O_CREAT)
    f = K.enter("create" if creat else "open", a)
    _fault(f, a)
    acc = flags & os.O_ACCMODE
    if a in fs.devices or (fs.devices and posixpath.normpath(a) in fs.devices):
        dev = fs.devices[posixpath.normpath(a)]
        r = getattr(dev, "check_open", None)
        if r:
            r(flags)
        o = OFD(None, flags, p, a)
        o.dev = dev
        return fs.new_fd(o)
    try:
        i = fs.lookup(a)
    except FileNotFoundError:
        if not creat:
            raise
        parent, name = fs.lookup(a, parent=True)
        i = fs._mk(parent, name, "f", mode & ~0o022)
        if fs.watch:
            fs.notify("create", a, inode=i)
    else:
        if creat and flags & os.O_EXCL:
            raise oserr(errno.EEXIST, a)
        if i.kind == "d" and acc != os.O_RDONLY:
            raise oserr(errno.EISDIR, a)
        if flags & os.O_DIRECTORY and i.kind != "d":
            raise oserr(errno.ENOTDIR, a)
        if flags & os.O_TRUNC and acc != os.O_RDONLY and i.data:
            fs.mark_dirty(i)
            i.data.clear()
            i.mtime = fs.nowns()
            if fs.watch:
                fs.notify("trunc", a, inode=i)
    o = OFD(i, flags, p, a)
    return fs.new_fd(o)


def s_os_open(path, flags, mode=0o777, *, dir_fd=None):
    v = _v(path)
    if v is None:
        if cur() is not None and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
            if _fspath(path) != "/dev/null":
                _deny(path, "open for writing")
        return R.os_open(path, flags, mode, dir_fd=dir_fd)
    return _open_inode(v, flags, mode)


def s_close(fd):
    p = cur()
    if p is None or fd < 1000:
        if p is not None and fd <= 2:
            return
        return R.close(fd)
    if p.killed:
        raise SimKilled(-9)
    if not p.host.fs.close_fd(fd):
        raise oserr(errno.EBADF)


def s_read(fd, n):
    if cur() is None or fd < 1000:
        return R.read(fd, n)
    fs = K.cur.host.fs
    return sys_read(K, fs, fs.ofd(fd), n)


def s_write(fd, b):
    p = cur()
    if p is None or fd < 1000:
        if p is not None and fd in (1, 2):
            if fd == 1:
                p.raw_stdout += bytes(b)
            return len(b)
        return R.write(fd, b)
    fs = p.host.fs
    return sys_write(K, fs, fs.ofd(fd), bytes(b))


def s_pread(fd, n, off):
    if cur() is None or fd < 1000:
        return R.pread(fd, n, off)
    fs = K.cur.host.fs
    o = fs.ofd(fd)
    save = o.pos
    o.pos = off
    try:
        return sys_read(K, fs, o, n)
    finally:
        o.pos = save


def s_pwrite(fd, b, off):
    if cur() is None or fd < 1000:
        return R.pwrite(fd, b, off)
    fs = K.cur.host.fs
    o = fs.ofd(fd)
    save = o.pos
    o.pos = off
    try:
        return sys_write(K, fs, o, bytes(b))
    finally:
        o.pos = save


def s_lseek(fd, pos, how):
    if cur() is None or fd < 1000:
        return R.lseek(fd, pos, how)
    o = K.cur.host.fs.ofd(fd)
    if how == 0:
        o.pos = pos
    elif how == 1:
        o.pos += pos
    else:
        o.pos = file_size(o) + pos
    return o.pos


def _fd_of(f):
    return f if isinstance(f, int) else f.fileno()


def s_fsync(f):
    if cur() is None:
        return R.fsync(f)
    fd = _fd_of(f)
    if fd < 1000:
        return None
    fs = K.cur.host.fs
    o = fs.ofd(fd)
    ft = K.enter("fsync", o.path, cost=200)
    if ft:
        _fault(ft, o.path)
    if o.dev is not None:
        s = getattr(o.dev, "sync", None)
        if s:
            s()
        return
    if o.inode is not None:
        fs.sync_inode(o.inode)
    if fs.watch:
        fs.notify("fsync", o.path)


def s_sync():
    if cur() is None:
        return R.sync()
    K.enter("sync", None, cost=500)
    K.cur.host.fs.sync_all()


def s_ftruncate(fd, size):
    if cur() is None or fd < 1000:
        return R.ftruncate(fd, size)
    fs = K.cur.host.fs
    sys_truncate(K, fs, fs.ofd(fd), size)


def s_truncate(path, size):
    if isinstance(path, int):
        return s_ftruncate(path, size)
    v = _v(path)
    if v is None:
        if cur() is not None:
            _deny(path, "truncate")
        return R.truncate(path, size)
    fd = _open_inode(v, os.O_WRONLY, 0)
    try:
        s_ftruncate(fd, size)
    finally:
        s_close(fd)


def s_dup(fd):
    p = cur()
    if p is None:
        return R.dup(fd)
    K.enter("dup", fd)
    fs = p.host.fs
    if fd in (1, 2):
        o = OFD(None, os.O_WRONLY, p, "<stdout>")
        o.dev = StdoutDev(p)
        return fs.new_fd(o)
    o = fs.ofd(fd)
    o.refs += 1
    nfd = fs.next_fd
    fs.next_fd += 1
    fs.fds[nfd] = o
    p.fds.add(nfd)
    return nfd


class StdoutDev:
    def __init__(self, p):
        self.p = p

    def size(self):
        return len(self.p.raw_stdout)

    def read(self, pos, n):
        raise oserr(errno.EBADF)

    def write(self, pos, b):
        self.p.raw_stdout += b
        return len(b)


def s_posix_fadvise(fd, *a):
    if cur() is None or fd < 1000:
        return R.posix_fadvise(fd, *a)
    return None


def s_urandom(n):
    if cur() is None:
        return R.urandom(n)
    return K.cur.rand().randbytes(n)


def s_getpid():
    p = cur()
    return p.pid if p else R.getpid()


def s_kill(pid, sig):
    if cur() is None:
        return R.kill(pid, sig)
    for q in K.procs:
        if q.pid == pid and not q.exited:
            from .procs import send_signal
            send_signal(K, q, sig)
            return
    raise ProcessLookupError(errno.ESRCH, "no such process")


def s_listxattr(path=None, *, follow_symlinks=True):
    if cur() is None:
        return R.listxattr(path, follow_symlinks=follow_symlinks)
    return []


def s_statvfs(path):
    if cur() is None:
        return R.statvfs(path)
    return os.statvfs_result((4096, 4096, 1 << 30, 1 << 30, 1 << 30, 1 << 20, 1 << 20, 1 << 20, 0, 255))


def s_isatty(fd):
    if cur() is None:
        return R.isatty(fd)
    return False


# ---------------------------------------------------------------------- open


def s_io_open(file, mode="r", buffering=-1, encoding=None, errors=None,
              newline=None, closefd=True, opener=None):
    p = cur()
    if p is None:
        return R.io_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if isinstance(file, int):
        if file < 1000:
            if file in (1, 2):
                file = s_dup(file)
            else:
                return R.io_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        fd = file
        path = fd
    else:
        v = _v(file)
        if v is None and opener is None:
            if any(c in mode for c in "wax+"):
                if _fspath(file) != "/dev/null":
                    _deny(file, "open for writing")
            return R.io_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        path = file
        flags = {"r": os.O_RDONLY, "w": os.O_WRONLY | os.O_CREAT | os.O_TRUNC,
                 "a": os.O_WRONLY | os.O_CREAT | os.O_APPEND,
                 "x": os.O_WRONLY | os.O_CREAT | os.O_EXCL}
        m = [c for c in mode if c in "rwax"]
        if len(m) != 1:
            raise ValueError(f"invalid mode: {mode!r}")
        fl = flags[m[0]]
        if "+" in mode:
            fl = (fl & ~os.O_ACCMODE) | os.O_RDWR
        fl |= os.O_CLOEXEC
        if opener is not None:
            fd = opener(file, fl)
        else:
            fd = _open_inode(v, fl, 0o666)
    fs = p.host.fs
    o = fs.ofd(fd)
    if o.inode is not None and o.inode.kind == "d":
        s_close(fd)
        raise IsADirectoryError(errno.EISDIR, "Is a directory", str(file))
    r = "r" in mode or "+" in mode
    w = any(c in mode for c in "wax+")
    raw = SimRaw(K, fs, fd, r, w, "a" in mode, path)
    raw.mode = mode
    if "a" in mode and o.dev is None:
        o.pos = len(o.inode.data)
    if not closefd:
        raw._closed_fd = True
    binary = "b" in mode
    line = False
    if buffering == 1 and not binary:
        line = True
        buffering = -1
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    if buffering < 0 or buffering == 1:
        buffering = io.DEFAULT_BUFFER_SIZE
    if r and w:
        buf = io.BufferedRandom(raw, buffering)
    elif w:
        buf = io.BufferedWriter(raw, buffering)
    else:
        buf = io.BufferedReader(raw, buffering)
    if binary:
        return buf
    t = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, line)
    t.mode = mode
    return t


# --------------------------------------------------------------------- flock


def s_flock(f, op):
    p = cur()
    if p is None:
        return R.flock(f, op)
    fd = _fd_of(f)
    if fd < 1000:
        raise HarnessError("flock on a real descriptor")
    fs = p.host.fs
    o = fs.ofd(fd)
    ft = K.enter("flock", o.path)
    if ft:
        _fault(ft, o.path)
    if op & fcntl.LOCK_UN:
        fs.unlock(o)
        return
    excl = bool(op & fcntl.LOCK_EX)
    wait = None
    while not fs.try_lock(o, excl):
        if op & fcntl.LOCK_NB:
            raise BlockingIOError(errno.EAGAIN, "Resource temporarily unavailable")
        # conversion drops the old lock first, as Linux does
        fs.unlock(o)
        if o.inode.waiters is None:
            o.inode.waiters = []
        o.inode.waiters.append(p)
        if wait is None:
            wait = [p, o.path, excl, K.now, None]
            K.lockwaits.append(wait)
        K.block()
    if wait is not None:
        wait[4] = K.now
    if fs.watch:
        fs.notify("lock", o.path, excl=excl, proc=p)


def s_lockf(f, cmd, *a):
    return s_flock(f, cmd) if cur() is not None else R.lockf(f, cmd, *a)


# ---------------------------------------------------------------------- time

EPOCH_DT = _dtmod.datetime(1970, 1, 1, tzinfo=_dtmod.timezone.utc)
real_datetime = _dtmod.datetime


def s_time():
    p = cur()
    if p is None:
        return R.time()
    K.now += 1
    return p.host.wall_us() / US


def s_time_ns():
    p = cur()
    if p is None:
        return R.time_ns()
    K.now += 1
    return p.host.wall_us() * 1000


def s_monotonic():
    p = cur()
    if p is None:
        return R.monotonic()
    K.now += 1
    return 1000 + K.now / US


def s_perf_counter():
    return s_monotonic() if cur() is not None else R.perf_counter()


def s_sleep(secs):
    p = cur()
    if p is None:
        return R.sleep(secs)
    if secs < 0:
        raise ValueError("sleep length must be non-negative")
    K.enter("sleep", None)
    K.sleep(int(secs * US) + 1)


class _DTMeta(type(real_datetime)):
    def __instancecheck__(cls, x):
        return isinstance(x, real_datetime)

    def __subclasscheck__(cls, c):
        return issubclass(c, real_datetime)


class SimDT(real_datetime, metaclass=_DTMeta):
    def __new__(cls, *a, **kw):
        return real_datetime(*a, **kw)

    @classmethod
    def now(cls, tz=None):
        p = cur()
        if p is None:
            return real_datetime.now(tz)
        K.now += 1
        d = EPOCH_DT + _dtmod.timedelta(microseconds=p.host.wall_us())
        return d.astimezone(tz) if tz is not None else d.replace(tzinfo=None)

    @classmethod
    def utcnow(cls):
        if cur() is None:
            return real_datetime.utcnow()
        return cls.now(_dtmod.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return cls.now()

    @classmethod
    def fromisoformat(cls, s):
        return real_datetime.fromisoformat(s)

    @classmethod
    def fromtimestamp(cls, t, tz=None):
        return real_datetime.fromtimestamp(t, tz)

    @classmethod
    def utcfromtimestamp(cls, t):
        return real_datetime.utcfromtimestamp(t)

    @classmethod
    def strptime(cls, a, b):
        return real_datetime.strptime(a, b)

    @classmethod
    def combine(cls, *a, **kw):
        return real_datetime.combine(*a, **kw)

    @classmethod
    def fromordinal(cls, n):
        return real_datetime.fromordinal(n)


SimDT.min = real_datetime.min
SimDT.max = real_datetime.max
SimDT.resolution = real_datetime.resolution


# ------------------------------------------------------------------ tempfile


class NameSeq:
    chars = "abcdefghijklmnopqrstuvwxyz0123456789_"

    def __iter__(self):
        return self

    def __next__(self):
        p = cur()
        rng = p.rand() if p is not None else random
        return "".join(rng.choice(self.chars) for _ in range(8))


def s_hash(x):
    """Hashes of strings differ from process to process."""
    h = R.hash(x)
    if isinstance(x, (str, bytes)):
        p = cur()
        if p is not None and sys._getframe(1).f_globals.get("__name__", "").startswith("backy"):
            salt = p.meta.get("hashsalt")
            if salt is None:
                salt = p.meta["hashsalt"] = derive_int(1 << 60, "hash", p.kernel.seed, p.name)
            return R.hash((h, salt))
    return h


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    os.environ["TZ"] = "UTC"
    time.tzset()

    R.exists = os.path.exists
    table = {
        "stat": s_stat, "lstat": s_lstat, "fstat": s_fstat, "access": s_access,
        "mkdir": s_mkdir, "rmdir": s_rmdir, "unlink": s_unlink, "remove": s_unlink,
        "rename": s_rename, "replace": s_rename, "link": s_link,
        "symlink": s_symlink, "readlink": s_readlink, "chmod": s_chmod,
        "fchmod": s_fchmod, "utime": s_utime, "listdir": s_listdir,
        "scandir": s_scandir, "getcwd": s_getcwd, "chdir": s_chdir,
        "close": s_close, "read": s_read, "write": s_write, "pread": s_pread,
        "pwrite": s_pwrite, "lseek": s_lseek, "fsync": s_fsync,
        "fdatasync": s_fsync, "sync": s_sync, "ftruncate": s_ftruncate,
        "truncate": s_truncate, "dup": s_dup, "posix_fadvise": s_posix_fadvise,
        "urandom": s_urandom, "getpid": s_getpid, "kill": s_kill,
        "listxattr": s_listxattr, "statvfs": s_statvfs, "isatty": s_isatty,
    }
    R.os_open = os.open
    for n, fn in table.items():
        setattr(R, n, getattr(os, n))
        fn.__name__ = n
        setattr(os, n, fn)
    os.open = s_os_open
    s_os_open.__name__ = "open"
    R.io_open = io.open
    io.open = s_io_open
    builtins.open = s_io_open
    R.hash = builtins.hash
    builtins.hash = s_hash
    s_io_open.__name__ = "open"
    R.flock = fcntl.flock
    fcntl.flock = s_flock
    R.lockf = fcntl.lockf
    fcntl.lockf = s_lockf
    for n, fn in (("time", s_time), ("time_ns", s_time_ns), ("monotonic", s_monotonic),
                  ("perf_counter", s_perf_counter), ("sleep", s_sleep)):
        setattr(R, n, getattr(time, n))
        setattr(time, n, fn)
    _dtmod.datetime = SimDT
    shutil._USE_CP_SENDFILE = False
    shutil._use_fd_functions = False
    seq = NameSeq()
    real_names = tempfile._get_candidate_names
    tempfile._get_candidate_names = lambda: seq if cur() is not None else real_names()
    R.gettempdir = tempfile.gettempdir
    tempfile.tempdir = "/tmp"
    # yaml: the C implementations behave the same and are much faster
    import yaml
    if hasattr(yaml, "CSafeLoader"):
        yaml.SafeLoader = yaml.loader.SafeLoader = yaml.CSafeLoader
        yaml.SafeDumper = yaml.dumper.SafeDumper = yaml.CSafeDumper
    from . import procs, loop
    procs.install()
    loop.install()
