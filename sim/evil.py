"""A peer that misbehaves: listens where a backup daemon should and answers
with errors, garbage, silence or made-up content."""

import asyncio
import json

from .kernel import derive
from .procs import PROGRAMS

FAIL = ["500", "503", "401", "403", "404", "302", "garbage", "html", "binary", "badhttp", "hang", "trickle", "close", "short", "reset",
        "null", "list", "dict", "str", "int", "bools", "deep"]
STATUS = FAIL + ["nokeys", "types", "lasttype", "nexttype", "naive", "stopped", "ahead", "future", "nojob", "many", "halts", "vanishes"]
REVS = FAIL + ["clash", "path", "naive", "missing", "tagtypes", "stattypes", "duration", "trust", "dupes", "future", "nul", "long", "empty", "other",
               "ok", "server", "dot"]
DONE = FAIL + ["204"]


def ts(wall, off=0, naive=False):
    import datetime
    t = datetime.datetime.fromtimestamp(wall + off, datetime.timezone.utc)
    return (t.replace(tzinfo=None) if naive else t).isoformat()


def uuid(r):
    return "".join(r.choice("23456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz") for _ in range(22))


def status(mode, job, wall, n=0):
    d = dict(job=job, sla="OK", sla_overdue=0, status="waiting for deadline", last_time=None, last_tags=None, last_duration=None,
             next_time=ts(wall, 30 * 3600), next_tags=None, manual_tags="", problem_reports=0, unsynced_revs=0, local_revs=100000)
    if mode == "nokeys":
        return [{"job": job}]
    if mode == "types":
        d["local_revs"] = "many"
    elif mode == "lasttype":
        d["last_time"] = 12
    elif mode == "nexttype":
        d["next_time"] = "tomorrow"
    elif mode == "naive":
        d["last_time"] = ts(wall, 0, True)
    elif mode == "stopped":
        d["status"] = ""
        d["next_time"] = None
    elif mode == "future":
        d["last_time"] = ts(wall, 400 * 86400)
    elif mode in ("halts", "vanishes") and n % 4 != 3:
        # seems to be at work, until it isn't any more
        d["status"] = "running (fast)"
        d["next_time"] = None
    elif mode == "halts":
        d["status"] = ""
        d["next_time"] = None
    elif mode in ("nojob", "vanishes"):
        return []
    elif mode == "many":
        return [d] * 3
    return [d]


def revs(mode, r, job, wall, local, remote, others):
    def rev(**kw):
        d = dict(uuid=uuid(r), timestamp=ts(wall, -7200), parent="", stats={"bytes_written": 10, "duration": 5.0}, trust="trusted",
                 tags=["daily"], orig_tags=[], server="")
        d.update(kw)
        return d
    l = [rev(timestamp=ts(wall, -90000))]
    if mode == "clash":
        l += [rev(uuid=u, tags=[]) for u in local]
    elif mode == "path":
        l += [rev(uuid=u) for u in ([f"../{o}/{u}" for o, us in others.items() for u in us] or ["../../other", "../x"])]
        l += [rev(uuid="../../../etc/passwd"), rev(uuid="/srv/other/x")]
    elif mode == "naive":
        l += [rev(timestamp=ts(wall, -7200, True))]
    elif mode == "missing":
        d = rev()
        del d[r.choice(["uuid", "timestamp"])]
        l += [d, rev()]
    elif mode == "tagtypes":
        l += [rev(tags=r.choice([None, [1, 2], [None], "daily", {"a": 1}, [["x"]]]))]
    elif mode == "stattypes":
        l += [rev(stats=r.choice([None, [], "x", 5, {"duration": None}, {"duration": []}]))]
    elif mode == "duration":
        l += [rev(stats={"duration": "quick"}, timestamp=ts(wall, -1))]
    elif mode == "trust":
        l += [rev(trust="maybe")]
    elif mode == "dupes":
        d = rev()
        l += [d, dict(d, tags=["weekly"])]
    elif mode == "future":
        l += [rev(timestamp=ts(wall, 400 * 86400))]
    elif mode == "nul":
        l += [rev(uuid="a\0b")]
    elif mode == "long":
        l += [rev(uuid="x" * 300)]
    elif mode == "empty":
        l += [rev(uuid="")]
    elif mode == "dot":
        l += [rev(uuid="."), rev(uuid=".."), rev(uuid="a.b"), rev(uuid="sub/x")]
    elif mode == "other":
        l += [rev(uuid=u) for u in remote]
    elif mode == "server":
        l += [rev(server="h0"), rev(server=5)]
    else:
        l += [rev(), rev()]
    return l


def kind_of(method, path):
    if "/status" in path:
        return "status"
    if path.split("?")[0].endswith("/revs"):
        return "revs"
    if path.split("?")[0].endswith("/touch"):
        return "touch"
    if path.split("?")[0].endswith("/tags"):
        return "tags"
    if path.split("?")[0].endswith("/purge"):
        return "purge"
    return "other"


CODES = {"500": "500 Internal Server Error", "503": "503 Service Unavailable", "401": "401 Unauthorized", "403": "403 Forbidden",
         "404": "404 Not Found", "204": "204 No Content"}
PLAIN = {"garbage": b"{nope", "binary": b"\xff\xfe\x00[", "null": b"null", "list": b"[]", "dict": b"{}", "str": b'"x"', "int": b"7",
         "bools": b"[true, false]"}


def main(p):
    spec = p.meta["spec"]
    h = p.meta["harness"]
    rng = derive("evil", spec["salt"])
    seen = {}

    async def serve(r, w):
        try:
            await one(r, w)
        except (OSError, asyncio.IncompleteReadError):
            pass
        finally:
            w.close()

    async def one(r, w):
        head = await r.readuntil(b"\r\n\r\n")
        line = head.split(b"\r\n", 1)[0].decode("latin-1").split()
        n = 0
        for x in head.decode("latin-1").lower().split("\r\n"):
            if x.startswith("content-length:"):
                n = int(x.split(":")[1])
        if n:
            await r.readexactly(n)
        kind = kind_of(line[0], line[1])
        mode = spec["modes"].get(kind, spec["default"])
        h.res.probes[f"evil-{kind}-{mode}"] += 1
        if mode == "hang":
            await asyncio.sleep(90000)
        if mode == "trickle":
            for b in b"HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nContent-Length: 900\r\n\r\n[" + b" " * 800:
                w.write(bytes([b]))
                await w.drain()
                await asyncio.sleep(5)
            return
        if mode in ("close", "reset"):
            if mode == "reset":
                w.transport.abort()
            return
        if mode == "badhttp":
            w.write(b"SSH-2.0-OpenSSH_9.6\r\n")
            return
        if mode == "302":
            w.write(b"HTTP/1.1 302 Found\r\nLocation: " + line[1].encode() + b"\r\nContent-Length: 0\r\nConnection: close\r\n\r\n")
            return
        if mode in CODES:
            w.write(f"HTTP/1.1 {CODES[mode]}\r\nContent-Length: 0\r\nConnection: close\r\n\r\n".encode())
            return
        ctype = "application/json"
        if mode == "html":
            ctype, body = "text/html", b"<html>It works</html>"
        elif mode == "deep":
            body = b"[" * 20000
        elif mode in PLAIN:
            body = PLAIN[mode]
        elif mode == "short":
            body = b"[" + b" " * 40
        elif kind == "status":
            n = seen[h.jobname(line[1])] = seen.get(h.jobname(line[1]), -1) + 1
            body = json.dumps(status(mode, h.jobname(line[1]), h.wall(p.host.name), n)).encode()
        elif kind == "revs":
            job = line[1].split("/backups/")[1].split("/")[0]
            body = json.dumps(revs(mode, rng, job, h.wall(p.host.name), *h.evil_view(p.host.name, job))).encode()
        else:
            body = b"{}"
        size = len(body) + (500 if mode == "short" else 0)
        w.write(f"HTTP/1.1 200 OK\r\nContent-Type: {ctype}\r\nContent-Length: {size}\r\nConnection: close\r\n\r\n".encode() + body)
        await w.drain()

    async def go():
        for a in spec["addrs"]:
            await asyncio.start_server(serve, a, spec["port"])
        await asyncio.sleep(1e9)

    asyncio.run(go())
    return 0


PROGRAMS["evil"] = main
