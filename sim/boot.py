"""Load the code under test from the working tree below the interception
layer, and register its programs."""

import asyncio
import atexit
import gc
import os
import random
import shutil
import sys
import tempfile
import types

from . import shims
from .kernel import US

REPO = os.environ.get("BACKY_REPO", "/repo")
SRC = os.path.join(REPO, "src")
REAL_CHUNK = 4 * 1024 * 1024

_state = {"booted": False, "scale": REAL_CHUNK}


def _entry_points():
    """A dist-info with the entry points that pyproject.toml declares."""
    import tomllib

    with open(os.path.join(REPO, "pyproject.toml"), "rb") as f:
        poetry = tomllib.load(f)["tool"]["poetry"]
    plugins = poetry.get("plugins", {}).get("backy.sources", {})
    scripts = poetry.get("scripts", {})
    d = tempfile.mkdtemp(prefix="backy-sim-")
    atexit.register(shutil.rmtree, d, True)
    di = os.path.join(d, "backy-0.dist-info")
    os.mkdir(di)
    with open(os.path.join(di, "METADATA"), "w") as f:
        f.write("Metadata-Version: 2.1\nName: backy\nVersion: 0\n")
    with open(os.path.join(di, "entry_points.txt"), "w") as f:
        f.write("[backy.sources]\n")
        for k, v in plugins.items():
            f.write(f"{k}={v}\n")
    return d, scripts


def boot():
    if _state["booted"]:
        return
    _state["booted"] = True
    sys.dont_write_bytecode = True
    for k in list(os.environ):
        if k.startswith("BACKY_") and k != "BACKY_REPO":
            del os.environ[k]
    os.environ["COLUMNS"] = "240"  # width of the tables that backy prints
    d, scripts = _entry_points()
    sys.path[:] = [p for p in sys.path if not os.path.realpath(p or ".").startswith("/repo/")]
    sys.path.insert(0, SRC)
    sys.path.insert(0, d)
    old_argv = sys.argv
    sys.argv = ["/usr/bin/backy"]
    # real detection would run `rbd`; there is none in the sandbox
    shims.install()
    import importlib

    importlib.invalidate_caches()
    import consulate

    from . import ext

    consulate.Consul = ext.SimConsul
    import logging

    logging.lastResort = None
    import structlog

    import backy.cli
    import backy.daemon
    import backy.file
    import backy.logging
    import backy.rbd

    assert backy.__path__[0].startswith(SRC), backy.__path__

    def no_logging(*a, **kw):
        return None

    if hasattr(backy.logging, "init_logging"):
        backy.logging.init_logging = no_logging
        for m in list(sys.modules.values()):
            if isinstance(m, types.ModuleType) and getattr(m, "__name__", "").startswith("backy"):
                if getattr(m, "init_logging", None) is not None and m is not backy.logging:
                    m.init_logging = no_logging
    structlog.configure(
        processors=[_log_sink],
        wrapper_class=structlog.stdlib.BoundLogger,
        logger_factory=lambda *a: _NullLogger(),
        cache_logger_on_first_use=False,
    )
    _speed_up_yaml()
    # warm-up of caches that would read real files
    import tzlocal
    from zoneinfo import ZoneInfo

    ZoneInfo("UTC")
    tzlocal.get_localzone()
    import encodings.idna  # noqa
    import rich.console, rich.table  # noqa
    import aiohttp.web, aiohttp.client  # noqa
    import email.mime.text  # noqa
    import unicodedata  # noqa
    sys.argv = old_argv
    from .procs import PROGRAMS

    for name, spec in scripts.items():
        mod, fn = spec.split(":")
        PROGRAMS[name] = _program(mod, fn)
    _collect_sites()
    gc.collect()
    gc.freeze()
    gc.disable()


def _copy(x):
    t = type(x)
    if t is dict:
        return {k: _copy(v) for k, v in x.items()}
    if t is list:
        return [_copy(v) for v in x]
    return x


def _speed_up_yaml():
    """Parse the same document only once: yaml.safe_load is a pure function of
    the text (which is still read through the simulated file system)."""
    import yaml

    real = yaml.safe_load
    memo = {}

    def plain(x):
        if type(x) is dict:
            return all(plain(k) and plain(v) for k, v in x.items())
        if type(x) is list:
            return all(plain(v) for v in x)
        return not isinstance(x, (set, bytearray))

    def safe_load(stream):
        if shims.cur() is None or not hasattr(stream, "read"):
            return real(stream)
        text = stream.read()
        if text in memo:
            return _copy(memo[text])
        r = real(text)
        if plain(r):
            if len(memo) > 5000:
                memo.clear()
            memo[text] = _copy(r)
        return r

    yaml.safe_load = safe_load


class _NullLogger:
    def __getattr__(self, name):
        return lambda *a, **kw: None


def _log_sink(logger, method, event_dict):
    import structlog

    k = shims.K
    if k is not None and k.cur is not None and k.debug:
        ei = event_dict.get("exc_info")
        if ei:
            import traceback
            event_dict["tb"] = traceback.format_exc()[-1500:]
        k.cur.logs.append((k.now, method, dict(event_dict)))
    raise structlog.DropEvent


def _program(mod, fn):
    def main(p):
        m = sys.modules.get(mod)
        if m is None:
            import importlib

            m = importlib.import_module(mod)
        f = getattr(m, fn)
        if isinstance(f, types.FunctionType) and f.__globals__ is m.__dict__:
            # globals that main() assigns must not be shared between processes
            f = types.FunctionType(f.__code__, dict(m.__dict__), f.__name__, f.__defaults__, f.__closure__)
        return f()

    return main


# ------------------------------------------------------------ chunk scaling

_sites = []


def _collect_sites():
    """Every place in backy that holds the 4 MiB chunk constant."""
    seen = set()

    def code_has(c):
        return any(
            (type(x) is int and x == REAL_CHUNK)
            or (isinstance(x, types.CodeType) and code_has(x))
            for x in c.co_consts
        )

    def visit_fn(f):
        if id(f) in seen:
            return
        seen.add(id(f))
        if f.__defaults__ and any(type(x) is int and x == REAL_CHUNK for x in f.__defaults__):
            _sites.append(("defaults", f, f.__defaults__))
        if f.__kwdefaults__ and any(type(x) is int and x == REAL_CHUNK for x in f.__kwdefaults__.values()):
            _sites.append(("kwdefaults", f, dict(f.__kwdefaults__)))
        if code_has(f.__code__):
            _sites.append(("code", f, f.__code__))
        if f.__closure__:
            for c in f.__closure__:
                try:
                    v = c.cell_contents
                except ValueError:
                    continue
                if isinstance(v, types.FunctionType):
                    visit_fn(v)

    def visit_ns(owner, ns):
        for n, v in list(ns.items()):
            if type(v) is int and v == REAL_CHUNK:
                _sites.append(("attr", owner, n))
            elif isinstance(v, types.FunctionType) and (v.__module__ or "").startswith("backy"):
                visit_fn(v)
            elif isinstance(v, (classmethod, staticmethod)):
                if isinstance(v.__func__, types.FunctionType):
                    visit_fn(v.__func__)
            elif isinstance(v, property):
                for g in (v.fget, v.fset, v.fdel):
                    if isinstance(g, types.FunctionType):
                        visit_fn(g)
            elif isinstance(v, type) and (v.__module__ or "").startswith("backy"):
                if id(v) not in seen:
                    seen.add(id(v))
                    visit_ns(v, v.__dict__)

    for name, m in list(sys.modules.items()):
        if name == "backy" or name.startswith("backy."):
            if ".tests" in name:
                continue
            visit_ns(m, m.__dict__)


def _scale_code(c, new):
    consts = tuple(
        new if (type(x) is int and x == REAL_CHUNK)
        else (_scale_code(x, new) if isinstance(x, types.CodeType) else x)
        for x in c.co_consts
    )
    return c.replace(co_consts=consts)


def set_scale(new):
    if _state["scale"] == new:
        return
    _state["scale"] = new
    for kind, o, x in _sites:
        if kind == "attr":
            setattr(o, x, new)
        elif kind == "defaults":
            o.__defaults__ = tuple(new if (type(v) is int and v == REAL_CHUNK) else v for v in x)
        elif kind == "kwdefaults":
            o.__kwdefaults__ = {k: (new if (type(v) is int and v == REAL_CHUNK) else v) for k, v in x.items()}
        else:
            o.__code__ = x if new == REAL_CHUNK else _scale_code(x, new)
