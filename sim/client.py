"""A small HTTP client that runs as a simulated process."""

import asyncio
import json

from .procs import PROGRAMS

LIMIT = 120


async def _request(spec):
    r, w = await asyncio.open_connection(spec["addr"], spec["port"])
    try:
        body = spec.get("body")
        data = b"" if body is None else (body.encode() if isinstance(body, str) else json.dumps(body).encode())
        head = [f"{spec['method']} {spec['path']} HTTP/1.1", f"Host: {spec['addr']}", "Connection: close"]
        for k, v in spec.get("headers", []):
            head.append(f"{k}: {v}")
        if body is not None:
            head += ["Content-Type: application/json", f"Content-Length: {len(data)}"]
        w.write("\r\n".join(head).encode("utf-8", "surrogateescape") + b"\r\n\r\n" + data)
        raw = await r.read()
    finally:
        w.close()
    if not raw:
        return 0, b""
    top, _, rest = raw.partition(b"\r\n\r\n")
    return int(top.split()[1]), rest


def main(p):
    spec = p.meta["spec"]

    async def go():
        try:
            return await asyncio.wait_for(_request(spec), LIMIT)
        except (OSError, asyncio.TimeoutError, ValueError, IndexError) as e:
            return None, repr(e).encode()

    p.meta["resp"] = asyncio.run(go())
    return 0


PROGRAMS["apicall"] = main


def parsed(p):
    """(status, decoded body) of a finished apicall process."""
    st, body = p.meta.get("resp", (None, b""))
    try:
        return st, json.loads(body)
    except ValueError:
        return st, body
