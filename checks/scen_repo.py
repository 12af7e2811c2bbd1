"""Scenario family S1: one repository, driven through the real command line
tools, with concurrent processes, source and disk faults, kills, power loss
and stored-data corruption."""

import collections
import datetime
import itertools
import json
import random

from sim.kernel import US, derive, derive_int
from sim.ext import BlockDevice
from sim.world import World

from .engine import Result

REPO = "/srv/backy/vm1"
IMAGE = "rbd/vm1"
LIMIT = 4 * 86400 * US
CMDS = ("backup", "restore", "gc", "verify", "distrust", "rm", "tags", "log", "check", "reports")

# ------------------------------------------------------------- generation


def gen_size(rng, U, big=False):
    n = rng.choice([1, 1, 2, 3, 4, 6, 8] if not big else [2, 5, 12, 22, 26])
    size = n * U
    r = rng.random()
    if r < 0.2:
        size += rng.choice([512, U // 2, 1536, 1])
    elif r < 0.3:
        size = max(512, size - 512)
    return size


def gen_mut(rng, U, size):
    """One or more edits of the source image."""
    out = []
    for _ in range(rng.choice([1, 1, 2, 3, 5])):
        k = rng.choice("wwwwbzzzcfrrv")
        off = rng.randrange(0, max(1, size + U // 2))
        if rng.random() < 0.5:
            off = off // U * U
        ln = rng.choice([1, 7, 512, U // 2, U, U, 2 * U, 3 * U + 5])
        if k == "w":
            out.append(["w", off, ln, rng.randrange(1 << 20)])
        elif k == "b":
            out.append(["b", off])
        elif k == "z":
            out.append(["z", off, ln])
        elif k == "c":
            out.append(["c", rng.randrange(0, size), off, ln])
        elif k == "f":
            out.append(["f", off, ln, rng.choice([1, 255])])
        elif k == "r":
            ns = gen_size(rng, U)
            if rng.random() < 0.5:
                ns = max(512, size + rng.choice([-U, U, 512, -512, U // 2, 3 * U, -(U // 2), -U - 100]))
            out.append(["r", ns])
        elif k == "v":
            out.append(["v", rng.randrange(4)])
    return out


def apply_mut(data, muts, history):
    for m in muts:
        n = len(data)
        if m[0] == "r":
            if m[1] < n:
                del data[m[1]:]
            else:
                data += bytes(m[1] - n)
            continue
        if m[0] == "v":
            if history:
                data[:] = history[m[1] % len(history)]
            continue
        if not n:
            continue
        off = m[1] % n
        if m[0] == "w":
            ln = min(m[2], n - off)
            data[off: off + ln] = random.Random(m[3]).randbytes(ln)
        elif m[0] == "b":
            data[off] ^= 1
        elif m[0] == "z":
            ln = min(m[2], n - off)
            data[off: off + ln] = bytes(ln)
        elif m[0] == "f":
            ln = min(m[2], n - off)
            data[off: off + ln] = bytes([m[3]]) * ln
        elif m[0] == "c":
            dst = m[2] % n
            ln = min(m[3], n - off, n - dst)
            data[dst: dst + ln] = data[off: off + ln]


def init_image(size, U, seed, style):
    rng = random.Random(seed)
    out = bytearray()
    pool = [rng.randbytes(U) for _ in range(3)]
    while len(out) < size:
        r = rng.random()
        if style == "sparse" and r < 0.6:
            out += bytes(U)
        elif style == "dup" and r < 0.6:
            out += rng.choice(pool)
        elif r < 0.15:
            out += rng.randbytes(U // 2) + bytes(U - U // 2)
        else:
            out += rng.randbytes(U)
    return out[:size]


SCHEDULES = [
    {"daily": {"interval": "1d", "keep": 3}},
    {"daily": {"interval": "1d", "keep": 2}, "weekly": {"interval": "7d", "keep": 2}},
    {"hourly": {"interval": "1h", "keep": 4}, "daily": {"interval": "1d", "keep": 2}},
]


def base_plan(rng, prof, tier):
    U = prof.get("unit") or rng.choice([4096, 4096, 8192, 65536] if prof.get("units") else [4096])
    src = prof.get("source") or ("file" if rng.random() < prof.get("filep", 0.0) else "rbd")
    size = gen_size(rng, U, rng.random() < prof.get("bigp", 0.05))
    plan = dict(
        scenario="scen_repo", seed=rng.randrange(1 << 30), unit=U,
        epoch=1_700_000_000 + rng.randrange(400 * 86400),
        dir_salt=rng.randrange(1000),
        source=dict(type=src),
        image=dict(size=size, init=rng.randrange(1 << 30), style=rng.choice(["rand", "sparse", "dup"])),
        schedule=rng.choice(SCHEDULES),
        ceph=rng.choice(["ceph version 14.2.22 (abc) nautilus (stable)", "ceph version 12.2.13 luminous", "ceph version Development (no_version)"]),
        whole=rng.random() < 0.6,
        phases=[], faults=[],
        sched={"mode": "rand", "p": 0.0},
    )
    if src == "rbd":
        if rng.random() < prof.get("vmp", 0.15):
            plan["source"]["vm"] = "vm1"
            plan["source"]["agent"] = rng.choice(["ok", "ok", "slow", "dead"])
        if rng.random() < 0.05:
            plan["source"]["full-always"] = True
    return plan


def some_tags(rng, plan):
    t = sorted(plan["schedule"])
    r = rng.random()
    if r < 0.6:
        return rng.choice(t)
    if r < 0.8:
        return "manual:" + rng.choice("abc")
    if r < 0.9:
        return ",".join(t)
    return rng.choice(t) + ",manual:" + rng.choice("abc")


def adv(rng):
    return dict(op="advance", us=rng.choice([1, 60, 3600, 43200, 86400, 90000, 3 * 86400]) * US + rng.randrange(US))


def mutate(rng, plan):
    return dict(op="mutate", muts=gen_mut(rng, plan["unit"], plan["image"]["size"]))


def backup(rng, plan, **kw):
    return dict(op="backup", tags=some_tags(rng, plan), **kw)


def number(plan):
    for pi, ph in enumerate(plan["phases"]):
        for oi, op in enumerate(ph):
            op.setdefault("id", f"o{pi}_{oi}")
    return plan


def seq(*ops):
    return [[o] for o in ops]


def gen(rng, prof, tier="quick"):
    plan = base_plan(rng, prof, tier)
    kind = prof["kind"]
    plan["kind"] = kind
    G = globals()["gen_" + kind]
    G(rng, prof, plan)
    return number(plan)


def history_ops(rng, plan, n, extra=()):
    """A sequential history of backups with edits in between."""
    ph = []
    for i in range(n):
        ph += seq(backup(rng, plan))
        if rng.random() < 0.85:
            ph += seq(mutate(rng, plan))
        if rng.random() < 0.6:
            ph += seq(adv(rng))
        for kind, p in extra:
            if rng.random() < p:
                ph += seq(dict(kind) if not callable(kind) else kind())
    return ph


def some_rev(rng, ids):
    r = rng.random()
    if ids and r < 0.6:
        return "$" + rng.choice(ids)
    return rng.choice(["latest", "first", "0", "1", "local", "all", "clean"])


def gen_fidelity(rng, prof, plan):
    n = rng.choice([2, 3, 4, 6, 8])
    ph = []
    ids = []
    for i in range(n):
        r = rng.random()
        ph.append([backup(rng, plan, id=f"b{i}")])
        ids.append(f"b{i}")
        if r < 0.85:
            ph.append([mutate(rng, plan)])
        if rng.random() < 0.5:
            ph.append([adv(rng)])
        r = rng.random()
        if r < 0.12:
            ph.append([dict(op="rm", rev="$" + rng.choice(ids))])
        elif r < 0.2:
            ph.append([dict(op="gc", expire=rng.random() < 0.5)])
        elif r < 0.26:
            ph.append([dict(op="distrust", rev="$" + rng.choice(ids))])
        elif r < 0.32:
            ph.append([dict(op="verify", rev=rng.choice(["trust:distrusted&local", "$" + rng.choice(ids)]))])
        elif r < 0.36:
            ph.append([dict(op="delsnaps", which=rng.randrange(3))])
        elif r < 0.40:
            # a backup that is cut short by a kill and leaves an incomplete revision
            plan["faults"].append(dict(proc=f"k{i}.1", at=rng.randrange(300, 1200), kind="kill"))
            ph.append([backup(rng, plan, id=f"k{i}")])
        if rng.random() < 0.25:
            ph.append([dict(op="restore", rev="$" + rng.choice(ids), target=rng.choice(["file", "dirty", "dev", "-", "bigdirty"]))])
    if rng.random() < 0.4:
        # concurrency of backup with restore and log
        ph.append([backup(rng, plan, id="bc"), dict(op="restore", rev="$" + rng.choice(ids), target="file", at=rng.randrange(300000)),
                   dict(op="mutate", muts=gen_mut(rng, plan["unit"], plan["image"]["size"]), at=rng.randrange(3000000))])
        plan["sched"] = {"mode": "rand", "p": rng.choice([0.01, 0.1])}
    plan["phases"] = ph


def gen_power(rng, prof, plan):
    """The victim phase is the one in the middle; faults are added by vary."""
    ph = history_ops(rng, plan, rng.choice([0, 1, 2]))
    ph.append([dict(op="advance", us=rng.choice([1, 20, 100]) * US)])
    plan["victim"] = len(ph)
    v = [backup(rng, plan, id="v0")]
    r = rng.random()
    if r < 0.15:
        v = [dict(op="gc", expire=True, id="v0")]
    elif r < 0.25:
        v = [dict(op="verify", rev="all", id="v0")]
    elif r < 0.35:
        v = [dict(op="restore", rev="latest", target=rng.choice(["file", "dirty", "dev"]), id="v0")]
    elif r < 0.5:
        v.append(dict(op=rng.choice(["restore", "log"]), rev="latest", target="file", at=rng.randrange(2000000), id="v1"))
    ph.append(v)
    # what follows
    if rng.random() < 0.7:
        ph.append([mutate(rng, plan)])
    if rng.random() < 0.8:
        ph.append([backup(rng, plan, id="a0")])
        if rng.random() < 0.3:
            ph.append([dict(op="powerfail")])
    if rng.random() < 0.3:
        ph.append([dict(op="gc", expire=False)])
    if rng.random() < 0.3:
        ph.append([mutate(rng, plan)])
        ph.append([backup(rng, plan, id="a1")])
    plan["phases"] = ph


def gen_source(rng, prof, plan):
    ph = history_ops(rng, plan, rng.choice([0, 1, 1, 2, 3]))
    ph.append([mutate(rng, plan)])
    plan["victim"] = len(ph)
    ph.append([backup(rng, plan, id="v0")])
    if rng.random() < 0.4:
        ph.append([mutate(rng, plan)])
        ph.append([backup(rng, plan, id="v1")])
        plan["victim2"] = len(ph) - 1
    plan["recover"] = len(ph)
    ph.append([backup(rng, plan, id="r0")])
    plan["phases"] = ph


def gen_gc(rng, prof, plan):
    ph = history_ops(rng, plan, rng.choice([1, 2, 3, 4]))
    ids = [f"o{i}_0" for i, p in enumerate(ph) if p[0]["op"] == "backup"]
    for rep in range(rng.choice([1, 1, 2])):
        conc = []
        nops = rng.choice([2, 2, 3, 3, 4])
        horizon = rng.choice([50_000, 400_000, 4_000_000])
        if rng.random() < 0.3:
            conc.append(dict(op="mutate", muts=gen_mut(rng, plan["unit"], plan["image"]["size"])))
        for i in range(nops):
            r = rng.random()
            at = rng.randrange(horizon)
            if r < 0.33:
                conc.append(backup(rng, plan, at=at))
            elif r < 0.55:
                conc.append(dict(op="gc", expire=rng.random() < 0.4, at=at))
            elif r < 0.68:
                conc.append(dict(op="verify", rev=some_rev(rng, ids), at=at))
            elif r < 0.8:
                conc.append(dict(op="rm", rev="$" + rng.choice(ids), at=at))
            elif r < 0.92:
                conc.append(dict(op="restore", rev="$" + rng.choice(ids), target="file", at=at))
            else:
                conc.append(dict(op="tags", action="remove", tags="daily,hourly,weekly,manual:a,manual:b,manual:c", rev="$" + rng.choice(ids), autoremove=True, at=at))
        ph.append(conc)
        if rng.random() < 0.5:
            ph.append([mutate(rng, plan)])
    plan["phases"] = ph
    plan["sched"] = {"mode": "rand", "p": rng.choice([0.003, 0.02, 0.1, 0.3])}
    plan["finalgc"] = True


def gen_corrupt(rng, prof, plan):
    ph = history_ops(rng, plan, rng.choice([1, 2, 3, 4]))
    ids = [f"o{i}_0" for i, p in enumerate(ph) if p[0]["op"] == "backup"]
    if rng.random() < 0.5:
        ph.append([mutate(rng, plan)])
    ph.append([dict(op="corrupt", n=rng.choice([1, 1, 2, 4]), seed=rng.randrange(1 << 20),
                    how=rng.choice(["flip", "trunc", "zero", "delete", "empty", "swap", "mix"]))])
    r = rng.random()
    if r < 0.45:
        ph.append([dict(op="distrust", rev="all")])
        plan["expect_heal"] = True
    elif r < 0.75:
        ph.append([dict(op="verify", rev=rng.choice(["all", "latest", "first", "$" + rng.choice(ids)]))])
    for i in range(rng.choice([1, 2, 3])):
        r = rng.random()
        if r < 0.5:
            ph.append([mutate(rng, plan)])
        r = rng.random()
        if r < 0.75:
            ph.append([backup(rng, plan)])
        elif r < 0.9 and i:
            ph.append([dict(op="verify", rev=rng.choice(["all", "trust:distrusted&local", "latest"]))])
        else:
            ph.append([dict(op="gc", expire=rng.random() < 0.3)])
        if rng.random() < 0.4:
            ph.append([dict(op="restore", rev=some_rev(rng, ids) if rng.random() < .5 else "latest", target="file")])
    ph.append([mutate(rng, plan)])
    ph.append([backup(rng, plan, id="h0")])
    ph.append([backup(rng, plan, id="h1")])
    if rng.random() < 0.5:
        ph.append([dict(op="distrust", rev="all")])
        ph.append([dict(op="verify", rev="all")])
    plan["phases"] = ph


def gen_lock(rng, prof, plan):
    ph = history_ops(rng, plan, rng.choice([1, 2, 3]))
    ids = [f"o{i}_0" for i, p in enumerate(ph) if p[0]["op"] == "backup"]
    for rep in range(rng.choice([1, 2])):
        conc = []
        horizon = rng.choice([30_000, 300_000, 3_000_000])
        conc.append(backup(rng, plan, at=rng.randrange(horizon)))
        for i in range(rng.choice([1, 1, 2, 3])):
            at = rng.randrange(horizon)
            r = rng.random()
            if r < 0.4:
                conc.append(backup(rng, plan, at=at))
            elif r < 0.5:
                conc.append(dict(op="gc", expire=rng.random() < 0.5, at=at))
            elif r < 0.6:
                conc.append(dict(op="verify", rev=some_rev(rng, ids), at=at))
            elif r < 0.7:
                conc.append(dict(op="tags", action="add", tags="manual:z", rev="$" + rng.choice(ids), at=at))
            elif r < 0.8:
                conc.append(dict(op="rm", rev="$" + rng.choice(ids), at=at))
            elif r < 0.9:
                conc.append(dict(op="distrust", rev="$" + rng.choice(ids), at=at))
            else:
                conc.append(dict(op="restore", rev="$" + rng.choice(ids), target="file", at=at))
        plan["victim"] = len(ph)
        ph.append(conc)
    plan["recover"] = len(ph)
    ph.append([backup(rng, plan, id="r0")])
    plan["phases"] = ph
    plan["sched"] = {"mode": "rand", "p": rng.choice([0.003, 0.02, 0.1, 0.3])}


def gen_meta(rng, prof, plan):
    ph = history_ops(rng, plan, rng.choice([1, 2, 3]))
    ids = [f"o{i}_0" for i, p in enumerate(ph) if p[0]["op"] == "backup"]
    ph.append([dict(op="advance", us=100 * US)])
    plan["victim"] = len(ph)
    r = rng.random()
    rev = rng.choice(["all", "$" + rng.choice(ids)])
    if r < 0.35:
        op = dict(op="tags", action=rng.choice(["set", "add", "remove"]), tags=rng.choice(["manual:n", "daily", "manual:a,manual:q"]), rev=rev, force=True)
        if rng.random() < 0.2:
            op["autoremove"] = True
    elif r < 0.5:
        op = dict(op="distrust", rev=rev)
    elif r < 0.6:
        op = dict(op="verify", rev=rev)
    elif r < 0.7:
        op = dict(op="gc", expire=True)
    elif r < 0.8:
        op = dict(op="rm", rev=rev)
    else:
        op = backup(rng, plan)
    op["id"] = "v0"
    conc = [op]
    for i in range(rng.choice([0, 0, 1, 3])):
        conc.append(dict(op=rng.choice(["log", "log", "check"]), at=rng.randrange(120_000)))
    if len(conc) > 1:
        plan["sched"] = {"mode": "rand", "p": rng.choice([0.05, 0.3])}
    ph.append(conc)
    plan["recover"] = len(ph)
    ph.append([backup(rng, plan, id="r0")])
    plan["phases"] = ph


def gen_tags(rng, prof, plan):
    ph = history_ops(rng, plan, rng.choice([1, 2, 3]))
    ids = [f"o{i}_0" for i, p in enumerate(ph) if p[0]["op"] == "backup"]
    T = ["manual:a", "manual:b", "manual:c", "daily"]
    for rep in range(rng.choice([1, 1, 2])):
        conc = []
        horizon = rng.choice([10_000, 60_000, 300_000])
        for i in range(rng.choice([1, 2, 3, 3, 4])):
            at = rng.randrange(horizon)
            rev = rng.choice(["$" + rng.choice(ids)] * 3 + ["all"])
            r = rng.random()
            if r < 0.55:
                op = dict(op="tags", action=rng.choice(["set", "add", "remove"]), rev=rev, force=True, at=at,
                          tags=",".join(sorted(set(rng.choice(T) for _ in range(rng.choice([1, 1, 2]))))))
                if rng.random() < 0.4:
                    op["expect"] = "@" if rng.random() < 0.7 else rng.choice(T)
                if rng.random() < 0.2:
                    op["autoremove"] = True
                conc.append(op)
            elif r < 0.67:
                conc.append(dict(op="distrust", rev=rev, at=at))
            elif r < 0.77:
                conc.append(dict(op="rm", rev="$" + rng.choice(ids), at=at))
            elif r < 0.89:
                conc.append(dict(op="verify", rev=rev, at=at))
            else:
                conc.append(backup(rng, plan, at=at))
        ph.append(conc)
    plan["phases"] = ph
    plan["sched"] = {"mode": "rand", "p": rng.choice([0.01, 0.05, 0.2, 0.5])}
    plan["norestore"] = True


def gen_snap(rng, prof, plan):
    if rng.random() < 0.6:
        plan["source"] = dict(type="rbd", vm="vm1", agent=rng.choice(["ok", "slow", "dead"]))
    plan["foreign"] = dict(
        snaps=rng.sample(["before-upgrade", "backup-2020", "xbacky-foo", "mybacky-1"], rng.choice([0, 1, 2])),
        keys=rng.choice([[], ["other"], ["other", "own-manual"], ["other", "garbage"], ["garbage", "own-stale"], ["own-stale"], ["odd", "other"], ["odd", "own-stale"]]),
        odd=rng.choice(["{}", "[]", "null", '"x"', "7", '{"vm": "vm1"}', '{"vm": "vm1", "snapshot": 5}', '{"vm": "vm1", "snapshot": null}', '{"snapshot": "backy-x"}', '[{"vm": "vm1"}]', "\u00e4", ""]),
        vanish=[rng.randrange(0, 6000) for _ in range(rng.choice([0, 0, 1, 4]))],
    )
    ph = history_ops(rng, plan, rng.choice([0, 1, 2, 3]), extra=[(lambda: mutate(rng, plan), 0.5)])
    plan["victim"] = len(ph)
    ph.append([backup(rng, plan, id="v0")])
    if rng.random() < 0.3:
        ph.append([dict(op="rm", rev="latest")])
    if rng.random() < 0.5:
        ph.append([mutate(rng, plan)])
        ph.append([backup(rng, plan, id="v1")])
        plan["victim2"] = len(ph) - 1
    plan["recover"] = len(ph)
    ph.append([backup(rng, plan, id="r0")])
    plan["phases"] = ph


def gen_v1(rng, prof, plan):
    ph = history_ops(rng, plan, rng.choice([1, 2, 3]))
    ph.append([dict(op="tov1", junk=rng.choice([[], [], ["tmp"], ["tmp", "dir"]]), seed=rng.randrange(1000))])
    ph.append([dict(op="advance", us=100 * US)])
    plan["victim"] = len(ph)
    ids = [f"o{i}_0" for i, p in enumerate(ph) if p[0]["op"] == "backup"]
    mk = [lambda: backup(rng, plan), lambda: dict(op="gc"), lambda: dict(op="restore", rev="$" + rng.choice(ids), target="file"),
          lambda: dict(op="verify", rev="all")]
    ph.append([dict(rng.choice(mk)(), id="v0")])
    if rng.random() < 0.4:
        ph.append([dict(rng.choice(mk)(), id="v1")])
        plan["victim2"] = len(ph) - 1
    ph.append([mutate(rng, plan)])
    plan["recover"] = len(ph)
    ph.append([backup(rng, plan, id="r0")])
    plan["phases"] = ph
    plan["finalgc"] = True


def gen_restore(rng, prof, plan):
    ph = history_ops(rng, plan, rng.choice([1, 2, 3]))
    ids = [f"o{i}_0" for i, p in enumerate(ph) if p[0]["op"] == "backup"]
    ph.append([dict(op="advance", us=100 * US)])
    plan["victim"] = len(ph)
    ph.append([dict(op="restore", rev="$" + rng.choice(ids), id="v0",
                    target=rng.choice(["file", "file", "dirty", "bigdirty", "dev", "dev", "bigdev", "-"]))])
    if rng.random() < 0.6:
        ph.append([dict(op="powerfail")])
    if rng.random() < 0.4:
        ph.append([dict(op="restore", rev="$" + rng.choice(ids), id="w0", target=rng.choice(["same", "file"]))])
    plan["phases"] = ph


# ------------------------------------------------------------------ faults


def victim_points(plan, res, names=("v0",)):
    return [x for x in res.inj if any(x[0] == n or x[0].startswith(n + ".") for n in names)]


def vary(rng, prof, plan, res, v):
    p = json.loads(json.dumps(plan))
    kind = plan["kind"]
    names = ["v0"]
    if plan.get("victim2") is not None:
        names.append("v1")
    if kind == "lock":
        names = [op["id"] for op in plan["phases"][plan["victim"]] if op["op"] in CMDS]
    if kind in ("gc", "tags"):
        last = [ph for ph in plan["phases"] if len(ph) > 1]
        names = [op["id"] for op in (rng.choice(last) if last else []) if op["op"] in CMDS]
    pts = victim_points(plan, res, names)
    stubs = [s for s in res.stubs if any(s[0].startswith(n + ".") for n in names)]
    if not pts:
        return None
    fk = prof.get("faults", ["kill"])
    nf = 1 if rng.random() < prof.get("single", 0.75) else 2
    faults = list(plan["faults"])
    for _ in range(nf):
        f = rng.choice(fk)
        if f in ("kill", "powerfail", "torn"):
            faults.append(pick_point(rng, pts, f))
        elif f in ("eio", "enospc", "short"):
            ok = {"eio": ("write", "read", "fsync", "rename", "open", "truncate", "unlink", "chmod", "mkdir", "readdir", "stat"),
                  "enospc": ("write", "open", "truncate", "rename", "mkdir"), "short": ("write", "read")}[f]
            sel = [x for x in pts if x[2] in ok]
            if sel:
                faults.append(pick_point(rng, sel, f))
        elif f == "source":
            if not stubs:
                continue
            name, argv = rng.choice(stubs)
            if rng.random() < 0.6:
                ex = [s for s in stubs if s[1] and s[1][0] in ("export", "export-diff", "map", "showmapped", "snap")]
                if ex:
                    name, argv = rng.choice(ex)
            sub = rng.choice(["fail", "fail", "fail_after", "trunc", "stall", "garbage"])
            if argv and argv[0] in ("export", "export-diff"):
                sub = rng.choice(["trunc", "trunc", "trunc", "fail_after", "fail", "stall"])
            d = dict(proc=name, at=1, kind=sub, code=rng.choice([1, 2, 5, 22, -9, 110]))
            if sub == "stall":
                d["us"] = rng.choice([1, 30, 400, 4000]) * US
            if sub == "trunc":
                d["frac"] = rng.choice([0.0, rng.random(), rng.random(), 1.0])
                if rng.random() < 0.5:
                    d["align"] = plan["unit"]
            faults.append(d)
        elif f == "consul":
            sel = [x for x in pts if x[2] == "consul"]
            if sel:
                faults.append(pick_point(rng, sel, "consulfail"))
        elif f == "devread":
            sel = [x for x in pts if x[2] == "read" and str(x[3]).startswith("/dev/rbd")]
            if sel:
                faults.append(pick_point(rng, sel, "eio"))
        elif f == "capacity":
            p["capacity"] = rng.choice([0.02, 0.2, 0.5, 0.8, 0.99])
        elif f == "interrupt":
            faults.append(pick_point(rng, [x for x in pts if "." in x[0]] or pts, f))
        elif f == "pause":
            sel = pts
            if rng.random() < 0.6:
                sel = [x for x in pts if x[2] in ("flock", "readdir", "unlink", "rename")] or pts
            d = pick_point(rng, sel, f)
            d["us"] = rng.choice([5000, 100_000, 3 * US, 60 * US])
            faults.append(d)
    p["faults"] = faults
    p["seed"] = plan["seed"]  # same workload and schedule up to the fault
    return p


def pick_point(rng, pts, kind):
    """Half of the time uniform, half of the time biased to rare operations."""
    if rng.random() < 0.6:
        byk = collections.defaultdict(list)
        for x in pts:
            byk[x[2]].append(x)
        w = {"rename": 4, "fsync": 4, "write": 3, "unlink": 3, "sync": 3, "chmod": 2, "spawn": 2, "flock": 2, "truncate": 2}
        ks = sorted(byk)
        kk = rng.choices(ks, [w.get(k, 1) for k in ks])[0]
        x = rng.choice(byk[kk])
    else:
        x = rng.choice(pts)
    d = dict(proc=x[0], at=x[1], kind=kind, on=x[2])
    if kind == "powerfail":
        d["salt"] = rng.randrange(1 << 20)
    if kind in ("short", "torn"):
        d["frac"] = rng.choice([0.0, 0.1, 0.5, 0.9])
    return d


# ------------------------------------------------------------------ shrink


def shrinks(plan):
    def cp():
        return json.loads(json.dumps(plan))

    for i in range(len(plan["phases"]) - 1, -1, -1):
        q = cp()
        del q["phases"][i]
        yield q
    for i, ph in enumerate(plan["phases"]):
        if len(ph) > 1:
            for j in range(len(ph)):
                q = cp()
                del q["phases"][i][j]
                yield q
    for i in range(len(plan["faults"])):
        q = cp()
        del q["faults"][i]
        yield q
    for i, ph in enumerate(plan["phases"]):
        for j, op in enumerate(ph):
            if op["op"] == "mutate" and len(op["muts"]) > 1:
                for m in range(len(op["muts"])):
                    q = cp()
                    del q["phases"][i][j]["muts"][m]
                    yield q
            if op.get("at"):
                q = cp()
                q["phases"][i][j]["at"] = 0
                yield q
    if plan["image"]["size"] > plan["unit"]:
        q = cp()
        q["image"]["size"] = plan["unit"]
        yield q
        q = cp()
        q["image"]["size"] = max(plan["unit"], plan["image"]["size"] // 2)
        yield q
    for key in ("vm", "full-always", "agent"):
        if key in plan["source"]:
            q = cp()
            del q["source"][key]
            yield q
    if plan["image"]["style"] != "rand":
        q = cp()
        q["image"]["style"] = "rand"
        yield q
    if plan.get("foreign"):
        q = cp()
        q["foreign"] = dict(snaps=[], keys=[])
        yield q


# ------------------------------------------------------------------- run


class Op:
    def __init__(self, spec):
        self.spec = spec
        self.id = spec["id"]
        self.kind = spec["op"]
        self.proc = None
        self.start = self.end = None
        self.uuid = None
        self.revs = None
        self.target = None

    @property
    def code(self):
        return self.proc.exit_code if self.proc is not None else None

    def __repr__(self):
        return f"{self.id}:{self.kind}"


class RepoRun:
    def __init__(self, plan, debug=False, record=False):
        self.plan = plan
        self.res = Result()
        self.w = World(plan, debug)
        self.k = self.w.k
        self.k.record_inj = record
        self.record = record
        self.fs = self.w.h0.fs
        self.ops = []
        self.naudit = 0
        self.corrupted = False
        self.content = {}  # uuid -> bytes (file source)
        self.snaps_seen = []
        self.known_complete = {}  # uuid -> info, backups that reported success
        self.removed = set()
        self.prev = []  # last listing
        self.seq = 0
        self.file_changes = []  # (seq, op, path, proc)
        self.is_file = plan["source"]["type"] == "file"

    # ---------------------------------------------------------------- setup

    def setup(self):
        p = self.plan
        U = p["unit"]
        im = p["image"]
        data = init_image(im["size"], U, im["init"], im["style"])
        fs = self.fs
        fs.makedirs(REPO)
        fs.makedirs("/mnt")
        fs.makedirs("/home")
        if self.is_file:
            self.data = bytearray(data)
            fs.put("/home/img", bytes(data))
            src = {"type": "file", "filename": "/home/img"}
        else:
            img = self.w.ceph.add(IMAGE, im["size"], U)
            img.data[:] = data
            self.data = img.data
            self.w.ceph.version = p.get("ceph", self.w.ceph.version)
            src = {"type": "rbd", "pool": "rbd", "image": "vm1"}
            if p["source"].get("full-always"):
                src["full-always"] = True
            if p["source"].get("vm"):
                src["vm"] = "vm1"
                src["consul_acl_token"] = "tok"
                c = self.w.consul
                c.vms["vm1"] = IMAGE
                a = p["source"].get("agent", "ok")
                c.agent_alive = a != "dead"
                c.agent_delay = {"ok": 1, "slow": 40, "dead": 1}[a] * US
            fo = p.get("foreign")
            if fo:
                for s in fo["snaps"]:
                    img.snaps[s] = bytes(img.data)
                for n, us in enumerate(fo.get("vanish", [])):
                    self.w.consul.kv[f"snapshot/{n:03}-other"] = json.dumps({"vm": "vm2", "snapshot": "customer"})
                    self.w.consul.vanishing[f"snapshot/{n:03}-other"] = us
                for key in fo["keys"]:
                    v = {"other": {"vm": "vm2", "snapshot": "backy-abc"},
                         "own-manual": {"vm": "vm1", "snapshot": "customer"},
                         "own-stale": {"vm": "vm1", "snapshot": "backy-stale"},
                         "garbage": "{garbage", "odd": fo.get("odd")}[key]
                    self.w.consul.kv["snapshot/" + key] = v if isinstance(v, str) else json.dumps(v)
        self.w.write_config(fs, REPO, src, p["schedule"])
        import backy.rbd.rbd as rbdmod
        rbdmod.CEPH_RBD_SUPPORTS_WHOLE_OBJECT_DIFF = bool(p.get("whole"))
        if p.get("capacity") is not None:
            self.cap = p["capacity"]
        self.w.h0.fs.watch.append(self.on_fs)
        self.expected_snap = {}

    def on_fs(self, op, path, **kw):
        if not path.startswith(REPO):
            return
        cur = self.k.cur
        if cur is None or cur.name.startswith("audit"):
            return
        if op in ("rename", "unlink", "create"):
            self.file_changes.append((self.k.steps, op, path, cur.name))

    # -------------------------------------------------------------- commands

    def argv(self, op, spec):
        b = ["/usr/bin/backy", "-C", REPO]
        o = spec["op"]
        if o == "backup":
            return b + ["backup"] + (["-f"] if spec.get("force") else []) + [spec["tags"]]
        if o == "log":
            return b + ["log", "--json"]
        if o == "check":
            return b + ["check"]
        if o == "gc":
            return b + ["gc"] + (["--expire", "--local"] if spec.get("expire") else [])
        rev = self.resolve(spec.get("rev", "all"))
        op.rev = rev
        if rev is None:
            return None
        if o == "restore":
            t = op.target = self.make_target(op, spec)
            return b + ["restore", "-r", rev, self.plan["source"]["type"], t]
        if o in ("verify", "distrust", "rm"):
            return b + [o, "-r", rev]
        if o == "tags":
            a = b + ["tags"]
            if spec.get("autoremove"):
                a.append("--autoremove")
            if spec.get("force"):
                a.append("-f")
            e = spec.get("expect")
            if e is not None:
                if e == "@":  # what the revision has now
                    e = ""
                    for r in self.prev:
                        if r["uuid"] == rev or rev == "all":
                            e = ",".join(sorted(r["tags"]))
                            break
                if not e:
                    e = "none"
                op.expect = set(e.split(","))
                a += ["--expect", e]
            return a + [spec["action"], "-r", rev, spec["tags"]]
        raise ValueError(o)

    def resolve(self, rev):
        if rev.startswith("$"):
            for o in self.ops:
                if o.id == rev[1:]:
                    return self.uuid_of(o)
            return None
        return rev

    def uuid_of(self, o):
        """The revision a backup command worked on."""
        if o.uuid is None and o.proc is not None:
            for q in self.k.procs:
                if q.parent is o.proc and "backup" in q.argv:
                    o.uuid = q.argv[q.argv.index("backup") + 1]
        return o.uuid

    def make_target(self, op, spec):
        t = spec.get("target", "file")
        U = self.plan["unit"]
        if t == "-" and not self.is_file:
            return "-"
        if t == "same":
            for o in reversed(self.ops):
                if o.target and o.target.startswith("/mnt"):
                    return o.target
            t = "file"
        path = f"/mnt/{op.id}"
        big = max([len(self.data), self.plan["image"]["size"]] + [len(s) for s in self.all_contents()])
        if t == "dirty":
            self.fs.put(path, random.Random(7).randbytes(max(1, big - U // 3)))
            self.fs.sync_inode(self.fs.lookup(path))
        elif t == "bigdirty":
            self.fs.put(path, random.Random(7).randbytes(big + 2 * U + 17))
            self.fs.sync_inode(self.fs.lookup(path))
        elif t in ("dev", "bigdev"):
            path = f"/dev/rbd{90 + len(self.ops)}"
            dev = BlockDevice(big if t == "dev" else big + 3 * U)
            dev.data[:] = random.Random(9).randbytes(len(dev.data))
            self.fs.devices[path] = dev
            op.dev = dev
        return path

    def all_contents(self):
        if self.is_file:
            return list(self.content.values())
        return [d for (i, s), d in self.w.ceph.snap_history.items()]

    def spawn(self, spec):
        op = Op(spec)
        op.phase = self.phase
        self.ops.append(op)
        argv = self.argv(op, spec)
        if argv is None:
            return op
        op.start = self.k.steps
        op.t0 = self.k.now
        op.proc = self.w.prog(op.id, argv)

        def done(p):
            op.end = self.k.steps
            op.t1 = self.k.now

        op.proc.exit_callbacks.append(done)
        self.cur_procs.append(op)
        return op

    def harness_op(self, spec):
        o = spec["op"]
        if o == "mutate":
            hist = self.all_contents()
            apply_mut(self.data, spec["muts"], hist)
            if self.is_file:
                i = self.fs.put("/home/img", bytes(self.data))
                self.fs.sync_inode(i)
        elif o == "advance":
            self.k.now += spec["us"]
        elif o == "powerfail":
            self.k.powerfail(self.w.h0, dict(salt=spec.get("salt", 1)))
            self.k.count_fault("powerfail_idle")
        elif o == "corrupt":
            self.corrupt(spec)
        elif o == "delsnaps":
            img = self.w.ceph.images.get(IMAGE)
            if img:
                for s in list(img.snaps)[: spec["which"]]:
                    del img.snaps[s]
        elif o == "tov1":
            self.to_v1(spec)
        else:
            raise ValueError(o)

    def corrupt(self, spec):
        rng = random.Random(spec["seed"])
        base = REPO + ("/chunks" if not self.is_file else "")
        files = [f for f in sorted(self.fs.walk_files(base)) if f.endswith(".chunk.lzo")]
        if not files:
            return
        self.corrupted = True
        for _ in range(spec["n"]):
            f = rng.choice(files)
            try:
                i = self.fs.lookup(f)
            except OSError:
                continue
            how = spec["how"]
            if how == "mix":
                how = rng.choice(["flip", "trunc", "zero", "delete", "empty", "swap"])
            self.k.count_fault("corrupt_" + how)
            d = i.data
            if how == "flip" and d:
                d[rng.randrange(len(d))] ^= 1 << rng.randrange(8)
            elif how == "trunc":
                del d[rng.randrange(len(d) + 1):]
            elif how == "zero":
                d[:] = bytes(len(d))
            elif how == "empty":
                del d[:]
            elif how == "swap":
                d[:] = self.fs.get(rng.choice(files))
            elif how == "delete":
                par, name = f.rsplit("/", 1)
                self.fs.lookup(par).children.pop(name, None)
            i.synced = bytes(i.data)
        self.fs.commit()

    def to_v1(self, spec):
        """Rearrange the chunk store the way the old version kept it."""
        rng = random.Random(spec["seed"])
        fs = self.fs
        base = REPO + "/chunks"
        if not fs.exists(base + "/store"):
            return
        for f in sorted(fs.walk_files(base)):
            if not f.endswith(".chunk.lzo"):
                continue
            name = f.rsplit("/", 1)[1]
            par = fs.lookup(f.rsplit("/", 1)[0])
            ino = par.children.pop(name)
            sub = f"{base}/{name[:2]}/{name[2:4]}"
            fs.makedirs(sub)
            fs.lookup(sub).children[name] = ino
            if "tmp" in spec["junk"] and rng.random() < 0.3:
                fs.put(sub + "/tmpabcd" + name[4:6], b"partial")
        fs.lookup(base).children.pop("store", None)
        if "dir" in spec["junk"]:
            fs.makedirs(f"{base}/00/aa")
        fs.sync_all()

    # ---------------------------------------------------------------- phases

    def run_phase(self, pi, phase):
        self.phase = pi
        self.cur_procs = []
        k = self.k
        base = k.now
        self.phase_step = k.steps
        crashes = self.fs.crashes
        fired0 = len(k.fired)
        before = self.prev
        if getattr(self, "cap", None) is not None and pi == self.plan.get("victim"):
            used = sum(len(self.fs.lookup(f).data) for f in self.fs.walk_files("/srv"))
            self.fs.used = used
            self.fs.capacity = used + int(self.cap * (len(self.data) + 4096))
            k.count_fault("disk_full_limit")
        if self.is_file:
            # a file that changes while it is copied has no defined content
            phase = [dict(s, at=0) if s["op"] == "mutate" else s for s in phase]
            phase.sort(key=lambda s: s["op"] != "mutate")
        for spec in phase:
            if spec["op"] in CMDS:
                if spec.get("at"):
                    k.at(base + spec["at"], lambda s=spec: self.spawn(s))
                else:
                    self.spawn(spec)
            else:
                if spec.get("at"):
                    k.at(base + spec["at"], lambda s=spec: self.harness_op(s))
                else:
                    self.harness_op(spec)
        k.run(until=k.now + LIMIT)
        self.fs.capacity = None
        procs = self.cur_procs
        hung = [p for p in k.procs if not p.exited]
        if hung:
            self.res.violate("hang", f"processes never end: {[(p.name, p.argv[:5]) for p in hung]}")
            for p in hung:
                k.kill(p)
            k.run(until=k.now + US)
        self.powerfailed = self.fs.crashes > crashes
        self.phase_fired = [f for f in k.fired[fired0:] if f["kind"] != "pause"]
        cmds = [o for o in procs if o.proc is not None]
        if self.is_file:
            for o in cmds:
                if o.kind == "backup" and self.uuid_of(o):
                    self.content.setdefault(o.uuid, bytes(self.data))
        if not cmds and not self.powerfailed and phase and all(s["op"] in ("mutate", "advance") for s in phase):
            return
        after = self.listing()
        if after is None:
            return
        self.check_phase(pi, phase, cmds, before, after)
        self.prev = after
        if self.powerfailed and not self.plan.get("norestore"):
            self.audit(after, "power-loss")
        self.after = after

    def listing(self):
        self.naudit += 1
        p = self.w.prog(f"audit{self.naudit}", ["/usr/bin/backy", "-C", REPO, "log", "--json"])
        p.faults = {}
        self.k.run_proc(p)
        if p.exit_code != 0:
            self.res.violate("log-failed", f"`backy log` exits {p.exit_code} when nothing else is running: {p.crash or ''}")
            return None
        try:
            revs = json.loads(p.stdout.getvalue())
        except ValueError:
            self.res.violate("log-failed", f"`backy log --json` printed {p.stdout.getvalue()[:200]!r}")
            return None
        for r in revs:
            if not (isinstance(r.get("uuid"), str) and isinstance(r.get("tags"), list) and r.get("timestamp")):
                self.res.violate("log-garbage", f"listed revision is damaged: {r}")
        us = [r["uuid"] for r in revs]
        if len(set(us)) != len(us):
            self.res.violate("log-garbage", "a revision is listed twice")
        return revs

    @staticmethod
    def complete(r):
        return "duration" in r["stats"]

    def want(self, uuid):
        if self.is_file:
            return self.content.get(uuid)
        return self.w.ceph.snap_history.get((IMAGE, "backy-" + uuid))

    def restore(self, uuid):
        self.naudit += 1
        n = self.naudit
        path = f"/mnt/audit{n}"
        p = self.w.prog(f"audit{n}", ["/usr/bin/backy", "-C", REPO, "restore", "-r", uuid, self.plan["source"]["type"], path])
        self.k.run_proc(p)
        try:
            got = bytes(self.fs.get(path))
        except OSError:
            got = None
        self.fs.lookup("/mnt").children.pop(f"audit{n}", None)
        return p.exit_code, got

    def audit(self, revs, why):
        """Every complete revision restores exactly."""
        for r in revs:
            if not self.complete(r) or r.get("server"):
                continue
            code, got = self.restore(r["uuid"])
            self.res.probes["restores"] += 1
            want = self.want(r["uuid"])
            if code == 0:
                if want is None:
                    self.res.violate("complete-without-snapshot", f"revision {r['uuid']} is complete but no snapshot was ever taken")
                elif got != want:
                    self.res.violate("restore-wrong", f"{why}: revision {r['uuid']} restores {diff(got, want)}")
            elif not self.corrupted:
                self.res.violate("restore-fails", f"{why}: restoring complete revision {r['uuid']} exits {code}")

    # ------------------------------------------------------ per-phase checks

    def check_phase(self, pi, phase, cmds, before, after):
        res = self.res
        bmap = {r["uuid"]: r for r in before}
        amap = {r["uuid"]: r for r in after}
        fired = self.phase_fired
        clean_phase = not fired and not self.powerfailed and not self.corrupted
        remover = any(o.kind in ("rm", "gc", "verify") or (o.kind == "tags" and o.spec.get("autoremove")) for o in cmds)
        has_distrusted = any(r["trust"] == "distrusted" for r in before)
        kindset = collections.Counter(o.kind for o in cmds)
        res.probes.update({f"{o.kind}:{'ok' if o.code == 0 else 'fail'}": 1 for o in cmds})
        for o in cmds:
            f_o = [f for f in fired if f["proc"] == o.id or f["proc"].startswith(o.id + ".")]
            if o.kind == "backup":
                u = self.uuid_of(o)
                if o.code == 0:
                    ent = amap.get(u)
                    if u is None:
                        res.violate("backup-lost", f"{o.id} reported success but made no revision")
                    elif ent is None or not self.complete(ent):
                        if not (remover or self.corrupted):
                            res.violate("backup-lost", f"{o.id} reported success; afterwards revision {u} is {'incomplete' if ent else 'not listed'}"
                                        + (" after the power loss" if self.powerfailed else ""))
                    else:
                        self.known_complete[u] = pi
                    src = [f for f in f_o if f["kind"] in ("trunc", "fail_after", "fail", "garbage") and self.fatal(f)]
                    if src:
                        res.violate("failed-source-success", f"{o.id} exits 0 although: {src[0]['obj']} failed ({src[0]['kind']})")
                else:
                    ent = amap.get(u)
                    src = [f for f in f_o if f["kind"] in ("trunc", "fail_after", "fail", "garbage") and self.fatal(f)]
                    if src and ent is not None and self.complete(ent):
                        res.violate("failed-source-complete", f"{o.id} failed because of {src[0]['obj']} but left {u} listed as complete")
                    if clean_phase and len(cmds) == 1 and not self.source_missing():
                        res.violate("backup-fails", f"{o.id} alone, without faults, exits {o.code}")
            elif o.kind == "restore":
                self.check_restore(o, f_o, bmap, amap, remover)
            elif o.kind == "verify" and len(cmds) == 1 and o.code == 0 and not f_o:
                self.check_verify(o, bmap, amap)
            elif o.kind in ("log", "check") and not f_o and not self.powerfailed:
                if o.kind == "log" and (o.code != 0 or not valid_json(o.proc.stdout.getvalue())):
                    res.violate("reader-failed", f"`backy log` running concurrently exits {o.code}: {o.proc.stdout.getvalue()[:100]!r}")
                if o.kind == "check" and (o.code not in (0, 1, 2) or o.proc.crash):
                    res.violate("reader-failed", f"`backy check` exits {o.code}")
                if o.kind == "log" and o.code == 0 and valid_json(o.proc.stdout.getvalue()):
                    self.check_reader(o, bmap, amap, cmds)
        # a successful earlier backup never vanishes without a removal
        if not remover and not self.corrupted:
            for u, r in bmap.items():
                if not self.complete(r):
                    continue
                ent = amap.get(u)
                if ent is None or not self.complete(ent):
                    if self.powerfailed and u not in self.known_complete:
                        continue
                    res.violate("revision-vanished", f"complete revision {u} is gone after {[str(o) for o in cmds]}")
        if self.powerfailed:
            for u in list(self.known_complete):
                if u in bmap and (u not in amap) and not remover and not self.corrupted:
                    res.violate("backup-lost", f"power loss: successful backup {u} is gone")
        self.check_meta(cmds, bmap, amap)
        self.check_lock(cmds, bmap, amap)
        if self.plan["kind"] in ("tags", "lock") and not self.powerfailed:
            self.check_linear(cmds, before, after)
        if self.plan["kind"] == "snap":
            self.check_snap(pi, cmds, amap)
        for u in list(self.known_complete):
            if u not in amap:
                del self.known_complete[u]

    def source_missing(self):
        return not self.is_file and IMAGE not in self.w.ceph.images

    @staticmethod
    def fatal(f):
        """Failures of the source that no backup may survive."""
        o = f["obj"]
        if f["kind"] == "garbage":
            return False
        return o.startswith("export") or o.startswith("map ")

    def check_restore(self, o, f_o, bmap, amap, remover):
        res = self.res
        u = o.rev if o.rev in bmap else None
        if u is None and o.rev in ("latest", "0") and bmap and len(self.cur_procs) == 1:
            u = list(bmap)[-1]
        if u is None:
            return
        want = self.want(u)
        if o.code == 0:
            if want is None:
                return
            if o.target == "-":
                inner = [q for q in self.k.procs if q.parent is o.proc]
                got = bytes(o.proc.raw_stdout) or b"".join(bytes(q.raw_stdout) for q in inner)
                if self.powerfailed:
                    return
            elif o.target.startswith("/dev/"):
                got = bytes(o.dev.data)
                if not o.dev.synced:
                    res.violate("restore-not-durable", f"{o.id}: success before the device was synced")
                if len(got) >= len(want):
                    got = got[: len(want)]
            else:
                try:
                    got = bytes(self.fs.get(o.target))
                except OSError:
                    got = None
                if self.powerfailed and got != want:
                    res.violate("restore-not-durable", f"{o.id}: after power loss the restored file is {diff(got, want)}")
                    return
                ino = self.fs.lookup(o.target) if got is not None else None
                if not self.powerfailed and ino is not None and ino.dirty_since is not None and ino.synced != got:
                    res.violate("restore-not-durable", f"{o.id}: success, but the restored file has not been written to stable storage")
            if got != want:
                res.violate("restore-wrong", f"{o.id} exits 0 but the target is {diff(got, want)}")
        else:
            ent = bmap[u]
            if not f_o and not self.powerfailed and not self.corrupted and self.complete(ent) and u in amap:
                if getattr(o, "dev", None) is not None and want is not None and len(o.dev.data) < len(want):
                    return
                res.violate("restore-fails", f"{o.id}: restoring revision {u}, which stays listed, exits {o.code}")
        # a restore changes nothing in the repository
        if len(self.cur_procs) == 1 and not self.powerfailed:
            b = [json.dumps(r, sort_keys=True) for r in map(norm, bmap.values())]
            a = [json.dumps(r, sort_keys=True) for r in map(norm, amap.values())]
            if a != b:
                res.violate("restore-changes-repo", f"{o.id} changed the revision list")

    def check_verify(self, o, bmap, amap):
        """After a verification a revision is verified and intact, or gone."""
        sel = list(bmap) if o.rev in ("all", "local", "clean") else [o.rev] if o.rev in bmap else []
        if o.rev in ("latest", "0") and bmap:
            sel = [list(bmap)[-1]]
        if o.rev == "first" and bmap:
            sel = [list(bmap)[0]]
        if o.rev.startswith("trust:distrusted"):
            sel = [u for u, r in bmap.items() if r["trust"] == "distrusted"]
        preverified = any(r["trust"] == "verified" for r in bmap.values())
        for u in sel:
            r = amap.get(u)
            if r is None:
                if not self.corrupted and self.complete(bmap[u]):
                    self.res.violate("verify-removes-good", f"{o.id} removed intact revision {u}")
                continue
            if not self.complete(r):
                continue
            if r["trust"] != "verified":
                if not preverified:
                    self.res.violate("verify-no-effect", f"{o.id} exits 0 but {u} is neither verified nor removed (trust {r['trust']})")
                continue
            if preverified and self.corrupted:
                continue
            code, got = self.restore(u)
            self.res.probes["verified-restores"] += 1
            if code != 0 or got != self.want(u):
                self.res.violate("verify-marks-bad", f"{o.id} marked {u} as verified; restoring it exits {code} and is {diff(got, self.want(u))}")

    def check_reader(self, o, bmap, amap, cmds):
        """A concurrent reader sees old or new versions only."""
        kinds = {c.kind for c in cmds}
        for r in json.loads(o.proc.stdout.getvalue()):
            u = r["uuid"]
            opts = [x for x in (bmap.get(u), amap.get(u)) if x]
            if not opts:
                if self.complete(r) and not kinds & {"rm", "gc", "verify", "tags", "backup"}:
                    self.res.violate("reader-garbage", f"reader saw unknown revision {r}")
                continue
            if len(cmds) - sum(1 for c in cmds if c.kind in ("log", "check")) == 1:
                if not any(norm(x) == norm(r) for x in opts) and "backup" not in kinds:
                    self.res.violate("reader-garbage", f"reader saw neither the old nor the new version: {norm(r)} vs {[norm(x) for x in opts]}")

    def check_meta(self, cmds, bmap, amap):
        """After a crash or error each revision is in its old or new version."""
        if self.plan["kind"] != "meta" or not cmds:
            return
        wr = [o for o in cmds if o.kind not in ("log", "check")]
        if len(wr) != 1 or wr[0].spec["id"] != "v0":
            return
        o = wr[0]
        for u, old in bmap.items():
            new = amap.get(u)
            if new is None:
                if o.kind in ("tags", "distrust", "backup") and not o.spec.get("autoremove") and self.complete(old):
                    self.res.violate("meta-lost", f"{o.kind} interrupted: revision {u} is gone")
                continue
            if norm(new, drop=("tags", "trust", "orig_tags", "stats")) != norm(old, drop=("tags", "trust", "orig_tags", "stats")):
                self.res.violate("meta-mixed", f"{o.kind}: {norm(old)} became {norm(new)}")
            if self.complete(old) and old["stats"] != new["stats"]:
                self.res.violate("meta-mixed", f"{o.kind}: stats of {u} changed from {old['stats']} to {new['stats']}")
            ot, nt = set(old["tags"]), set(new["tags"])
            if o.kind == "tags":
                t = set(o.spec["tags"].split(","))
                exp = {"set": t, "add": ot | t, "remove": ot - t}[o.spec["action"]]
                if nt not in (ot, exp):
                    self.res.violate("meta-mixed", f"tags of {u}: {ot} became {nt}, expected {exp}")
                if o.code == 0 and not self.powerfailed and nt != exp and (o.rev == u or o.rev == "all"):
                    self.res.violate("meta-noeffect", f"tags reported success, {u} has {nt} instead of {exp}")
            elif o.kind in ("distrust", "verify", "backup", "rm"):
                if nt != ot:
                    self.res.violate("meta-mixed", f"{o.kind} changed the tags of {u}: {ot} to {nt}")
            okt = {old["trust"]} | {"distrust": {"distrusted"}, "verify": {"verified"}, "backup": {"verified", "distrusted"}}.get(o.kind, set())
            if new["trust"] not in okt:
                self.res.violate("meta-mixed", f"{o.kind}: trust of {u} became {new['trust']}")

    def check_lock(self, cmds, bmap, amap):
        res = self.res
        # windows of source activity per backup process
        win = {}
        st = self.w.ceph
        for t, child, argv, code, step in st.cmdsteps:
            if step < self.phase_step or argv[0] in ("info", "help", "--version"):
                continue
            par = child.rsplit(".", 1)[0]
            if par.startswith("audit"):
                continue
            a = win.setdefault(par, [step, step])
            a[1] = step
        ws = sorted((a, b, n) for n, (a, b) in win.items())
        for (a1, b1, n1), (a2, b2, n2) in zip(ws, ws[1:]):
            if a2 < b1:
                res.violate("backups-overlap", f"{n1} and {n2} work on the source at the same time")
        for (a, b, n) in ws:
            top = n.split(".")[0]
            for step, op, path, who in self.file_changes:
                if step <= a or step >= b or who.split(".")[0] == top:
                    continue
                if path.endswith(".rev") and path.count("/") == REPO.count("/") + 1:
                    u = path.rsplit("/", 1)[1][:-4]
                    if u in bmap or op == "unlink":
                        w = [o for o in cmds if o.id == who.split(".")[0]]
                        if w and w[0].kind == "backup" and self.uuid_of(w[0]) == u:
                            continue
                        res.violate("change-during-backup", f"{who} changes {path} while {n} is backing up")
        # nobody queues up for exclusive access
        for p, path, excl, t0, t1 in self.w.k.lockwaits:
            t1 = min(x for x in (t1, p.ended, self.w.k.now) if x is not None)
            if excl and t1 - t0 > 5 * US:
                res.violate("lock-waits", f"{p.name} waits {(t1 - t0) / US:.1f} s for exclusive access to {path} instead of giving up")
        # losers leave complete revisions alone
        if not self.phase_fired and not self.powerfailed and not self.corrupted:
            ok = [o for o in cmds if o.code == 0]
            if not ok and cmds:
                b = {u: norm(r) for u, r in bmap.items() if self.complete(r)}
                a = {u: norm(r) for u, r in amap.items() if self.complete(r)}
                if a != b:
                    res.violate("loser-side-effect", f"all of {[str(o) for o in cmds]} failed but complete revisions changed")

    # -------------------------------------------------------- linearization

    def check_linear(self, cmds, before, after):
        """Some order of the successful operations explains the outcome.

        A backup counts as two operations, as its revision is listed as
        incomplete from its start on.  `rm`, `distrust` and `verify` work on
        the revisions their specification selected when they were started."""
        ops = [o for o in cmds if o.kind in ("tags", "distrust", "rm", "verify", "backup", "gc")]
        if any(f["kind"] not in ("kill", "pause") for f in self.phase_fired) or self.corrupted:
            return
        if any(o.kind == "gc" and o.spec.get("expire") for o in ops) or len(ops) > 6:
            return
        init = {r["uuid"]: (frozenset(r["tags"]), r["trust"], True) for r in before if self.complete(r)}
        final = {r["uuid"]: (frozenset(r["tags"]), r["trust"]) for r in after if self.complete(r)}
        if len(ops) > 1 and any(o.kind == "verify" and o.rev not in init for o in ops):
            return
        if any(not self.complete(r) for r in before):
            return
        self.init_uuids = set(init)
        self.pos = {}
        for r in sorted(before + after, key=lambda r: r["timestamp"]):
            self.pos.setdefault(r["uuid"], len(self.pos))
        killed = {f["proc"].split(".")[0] for f in self.phase_fired if f["kind"] == "kill"}
        self.killed_ops = killed
        # single operation without faults: exit status must fit
        if len(cmds) == 1 and not killed and ops:
            o = ops[0]
            if o.kind == "backup":
                ok = True
            else:
                outs = self.apply(o, "op", init, frozenset(init))
                ok = bool(outs)
            if not ok and o.code == 0:
                self.res.violate("wrong-success", f"{o.id} {o.proc.argv[3:]} exits 0 although it must be refused")
            if ok and o.code != 0 and o.kind in ("tags", "distrust", "rm"):
                if o.rev in init or o.rev == "all":
                    self.res.violate("wrong-failure", f"{o.id} {o.proc.argv[3:]} alone exits {o.code}")
        self.res.probes["linearized"] += 1
        items = []
        for o in ops:
            if o.kind == "gc":
                continue
            opt = o.id in killed
            if o.code != 0 and not opt:
                if o.kind != "backup":
                    continue
                opt = True  # its incomplete revision may have been seen
            if o.kind == "backup":
                items.append((o, "start", opt))
                items.append((o, "end", opt))
            else:
                items.append((o, "op", opt))
        n = len(items)
        before_of = [[i for i, (a, pa, _) in enumerate(items) if i != j and
                      ((a is b and pa == "start" and pb == "end") or
                       (a is not b and a.end is not None and b.start is not None and a.end < b.start))]
                     for j, (b, pb, _) in enumerate(items)]
        seen = set()
        stack = [(frozenset(), tuple(sorted(init.items())), frozenset(init))]
        while stack:
            node = stack.pop()
            if node in seen:
                continue
            seen.add(node)
            if len(seen) > 200_000:
                self.res.probes["linearize-gave-up"] += 1
                return
            done, st, ever = node
            state = dict(st)
            if all(i in done or items[i][2] for i in range(n)):
                got = {u: x[:2] for u, x in state.items() if x[2]}
                if got == final:
                    return
            for i in range(n):
                if i in done or any(q not in done and not items[q][2] for q in before_of[i]):
                    continue
                o, part, opt = items[i]
                if part == "end" and (o.code != 0 and o.id not in killed):
                    # a failed backup withdraws its revision
                    s2 = dict(state)
                    s2.pop(self.uuid_of(o), None)
                    outs = [s2]
                else:
                    outs = self.apply(o, part, state, ever)
                for s2 in outs:
                    stack.append((done | {i}, tuple(sorted(s2.items())), ever | frozenset(s2)))
        self.res.violate("not-linearizable",
                         f"{[(str(o), o.proc.argv[3:], o.code) for o in ops]}: {show(init)} -> {show(final)}",
                         "not-linearizable")

    def apply(self, o, part, state, ever):
        """Possible states after an operation, none if it must be refused."""
        s = dict(state)
        order = sorted(s, key=lambda u: self.pos.get(u, 1 << 30))
        if o.kind == "backup":
            u = self.uuid_of(o)
            tags = frozenset(o.spec["tags"].split(","))
            if u is None:
                return [s]
            if part == "start":
                s[u] = (tags, "trusted", False)
                return [s]
            if u in s:
                s[u] = (s[u][0], s[u][1], True)
            else:
                s[u] = (tags, "trusted", True)
            order = sorted(s, key=lambda u: self.pos.get(u, 1 << 30))
            d = [x for x in order if s[x][1] == "distrusted" and s[x][2]]
            if d:
                plain = dict(s)
                s[d[-1]] = (s[d[-1]][0], "verified", True)
                if o.id in self.killed_ops:  # killed between the two updates
                    return [s, plain]
            return [s]
        if o.rev in ("all", "local", "clean"):
            if o.kind in ("tags",):
                sels = [list(order)]
            else:
                # selected some time between its start and now
                news = [u for u in order if u not in self.init_uuids]
                old = [u for u in order if u in self.init_uuids]
                sels = [old + list(c) for r in range(len(news), -1, -1) for c in itertools.combinations(news, r)]
        elif o.rev in s:
            sels = [[o.rev]]
        elif o.kind in ("rm", "distrust") and o.rev in ever:
            sels = [[]]  # selected before it was removed
        elif o.rev in ("latest", "0", "first", "1"):
            k = {"latest": -1, "0": -1, "1": -2, "first": 0}[o.rev]
            if o.kind == "tags":
                sels = [[order[k]]] if len(order) >= (2 if k == -2 else 1) else []
            else:
                sels = [[u] for u in order] + [[]]
        else:
            sels = []
        outs = []
        parts = [(L, L) for L in sels]
        if o.id in self.killed_ops:  # may have got through some of the revisions
            parts = [(L, M) for L in sels for r in range(len(L) + 1) for M in itertools.combinations(L, r)]
        for L, M in parts:
            s = dict(state)
            if o.kind == "tags":
                t = frozenset(o.spec["tags"].split(","))
                if o.spec.get("expect") is not None and any(s[u][0] != o.expect for u in L):
                    continue
                for u in M:
                    cur = s[u][0]
                    n = {"set": t, "add": cur | t, "remove": cur - t}[o.spec["action"]]
                    if not n and o.spec.get("autoremove"):
                        del s[u]
                    else:
                        s[u] = (n,) + s[u][1:]
            elif o.kind == "distrust":
                for u in M:
                    s[u] = (s[u][0], "distrusted", s[u][2])
            elif o.kind == "verify":
                for u in M:
                    s[u] = (s[u][0], "verified", s[u][2])
            elif o.kind == "rm":
                for u in M:
                    del s[u]
            outs.append(s)
        return outs

    # ------------------------------------------------------------ snapshots

    def check_snap(self, pi, cmds, amap):
        res = self.res
        fired = self.phase_fired
        st = self.w.ceph
        killed = any(f["kind"] in ("kill", "powerfail", "torn") for f in fired)
        for o in cmds:
            if o.kind != "backup":
                continue
            mine = [f for f in fired if f["proc"].startswith(o.id)]
            unmapfail = any(f["obj"].startswith("unmap") for f in mine)
            mapfail = any(f["obj"].startswith("map ") for f in mine)
            if not killed and not unmapfail and not mapfail and st.mapped:
                if not self.leftover:
                    res.violate("mapped-left", f"after {o.id} (exit {o.code}) {sorted(st.mapped.items())} is still mapped; faults {mine}")
            consulfail = any(f.get("op") == "consul" or f["kind"] == "consulfail" for f in mine)
            own = [k for k, v in self.w.consul.kv.items() if is_own(v, "backy-" + str(self.uuid_of(o)))]
            if not killed and not consulfail and own and self.plan["source"].get("vm"):
                res.violate("request-left", f"after {o.id} (exit {o.code}) snapshot requests {own} are left in Consul; faults {mine}")
        if killed or any(f["obj"].startswith(("unmap", "map ")) for f in fired):
            self.leftover = True
        fo = self.plan.get("foreign") or {}
        img = st.images.get(IMAGE)
        if img is not None:
            for s in fo.get("snaps", []):
                if s not in img.snaps:
                    res.violate("foreign-snap-removed", f"snapshot {s} is not backy's but is gone")
        for key in fo.get("keys", []):
            if key in ("other", "own-manual") and "snapshot/" + key not in self.w.consul.kv:
                res.violate("foreign-request-removed", f"Consul request {key} is gone")
        for o in cmds:
            if o.kind == "backup" and o.code == 0 and not fired and len(cmds) == 1 and img is not None:
                left = [s for s in img.snaps if s.startswith("backy-")]
                u = self.uuid_of(o)
                if [s for s in left if s != "backy-" + u or self.plan["source"].get("full-always")]:
                    res.violate("snaps-left", f"after the successful backup {u} the snapshots {left} are left")
                if not self.plan["source"].get("full-always") and "backy-" + u not in left:
                    res.violate("snap-missing", f"after the successful backup {u} its snapshot is gone: the next backup cannot be differential")

    # ----------------------------------------------------------------- final

    def final(self):
        res = self.res
        if res.viol and any(v["cls"] in ("log-failed", "hang") for v in res.viol):
            return
        rec = self.plan.get("recover")
        revs = self.prev
        if rec is not None and rec == len(self.plan["phases"]) - 1 and self.ops:
            o = [x for x in self.ops if x.id == "r0"]
            if o and o[0].proc is not None:
                o = o[0]
                inc = [r["uuid"] for r in revs if not self.complete(r)]
                if o.code == 0 and inc:
                    res.violate("incomplete-left", f"after a successful backup incomplete revisions {inc} are still listed")
                if o.code == 0 and self.uuid_of(o) not in [r["uuid"] for r in revs if self.complete(r)]:
                    res.violate("backup-lost", "recovery backup is not listed as complete")
                if o.code != 0:
                    res.violate("no-recovery", f"once the faults stopped the next backup still exits {o.code}")
        if self.plan.get("norestore"):
            return
        if self.plan.get("expect_heal"):
            # all revisions were distrusted after the damage: every backup that
            # succeeded since must be exact
            cphase = [i for i, ph in enumerate(self.plan["phases"]) if any(s["op"] == "distrust" for s in ph)]
            if cphase:
                for o in self.ops:
                    if o.kind == "backup" and o.phase > cphase[0] and o.code == 0 and self.uuid_of(o) in {r["uuid"] for r in revs}:
                        code, got = self.restore(o.uuid)
                        res.probes["heal-restores"] += 1
                        if code != 0 or got != self.want(o.uuid):
                            res.violate("not-healed", f"{o.id} succeeded after all damaged revisions had been distrusted, but restoring it exits {code}, {diff(got, self.want(o.uuid))}")
        self.audit(revs, "end")
        if self.plan["kind"] == "corrupt":
            # A backup may notice the damage and fail, the one after it must not.
            o = [x for x in self.ops if x.id == "h1"]
            if o and o[0].proc is not None and o[0].code != 0:
                n = self.naudit = self.naudit + 1
                p = self.w.prog(f"audit{n}", ["/usr/bin/backy", "-C", REPO, "backup", "manual:final"])
                self.k.run_proc(p)
                if p.exit_code != 0:
                    res.violate("no-recovery", f"a backup found damaged data and failed; the next one still exits {p.exit_code}")
        if self.plan.get("finalgc") and not self.is_file:
            self.check_gc_complete()

    def check_gc_complete(self):
        """gc on an idle repository leaves only referenced chunk data."""
        n = self.naudit = self.naudit + 1
        p = self.w.prog(f"audit{n}", ["/usr/bin/backy", "-C", REPO, "backup", "manual:final"])
        self.k.run_proc(p)
        p = self.w.prog(f"audit{n}g", ["/usr/bin/backy", "-C", REPO, "gc"])
        self.k.run_proc(p)
        if p.exit_code != 0:
            self.res.violate("gc-fails", f"gc alone exits {p.exit_code}")
            return
        revs = self.listing()
        if revs is None:
            return
        if any(not self.complete(r) for r in revs):
            return
        self.fs.read_log = set()
        self.audit(revs, "after gc")
        seen = self.fs.read_log
        self.fs.read_log = None
        left = []
        refs = set()
        for r in revs:  # chunks beyond the end of a shrunk image are referred to, but not read
            try:
                refs |= set(json.loads(bytes(self.fs.get(REPO + "/" + r["uuid"])))["mapping"].values())
            except (OSError, ValueError, KeyError, AttributeError):
                pass
        for f in self.fs.walk_files(REPO + "/chunks"):
            i = self.fs.lookup(f)
            if i.ino in seen or f == REPO + "/chunks/store":
                continue
            if f.rsplit("/", 1)[1].split(".")[0] in refs:
                continue
            left.append(f)
        self.res.probes["gc-complete-checked"] += 1
        if left:
            tmp = all(not f.endswith(".chunk.lzo") for f in left)
            self.res.violate("gc-garbage", f"after gc unreferenced data is left: {left[:5]} ({len(left)})", "gc-tmp" if tmp else "gc-garbage")

    def execute(self):
        self.leftover = False
        self.setup()
        fatal = ("log-failed", "hang")
        for pi, phase in enumerate(self.plan["phases"]):
            self.run_phase(pi, phase)
            if any(v["cls"] in fatal for v in self.res.viol):
                break
        self.final()


def is_own(v, snap):
    try:
        d = json.loads(v)
        return d.get("vm") == "vm1" and d.get("snapshot", "") == snap
    except (ValueError, AttributeError, TypeError):
        return False


def norm(r, drop=()):
    d = {k: v for k, v in r.items() if k not in drop and k != "parent"}
    for k in ("tags", "orig_tags"):
        if k in d:
            d[k] = sorted(d[k])
    return d


def valid_json(s):
    try:
        json.loads(s)
        return True
    except ValueError:
        return False


def show(s):
    return {u[:5]: (sorted(x[0]), x[1]) for u, x in s.items()}


def diff(got, want):
    if got is None:
        return "missing"
    if want is None:
        return "unknown"
    if got == want:
        return "exact"
    if len(got) != len(want):
        return f"{len(got)} bytes long instead of {len(want)}"
    for i, (a, b) in enumerate(zip(got, want)):
        if a != b:
            return f"different from byte {i} on (of {len(want)})"


def run(plan, debug=False, record=False):
    rr = RepoRun(plan, debug, record)
    try:
        rr.execute()
    finally:
        rr.w.close()
    res = rr.res
    res.collect(rr.w)
    if record:
        for p in rr.k.procs:
            if p.name.startswith("audit"):
                continue
            for n, (kind, obj) in enumerate(p.injtrace, 1):
                res.inj.append((p.name, n, kind, obj))
        res.stubs = [(n, a) for n, a in rr.w.ceph.stubtrace if not n.startswith("audit")]
    if debug:
        for p in rr.k.procs:
            for t, m, e in p.logs:
                res.trace.append((t / 1e6, p.name, m, {k: v for k, v in e.items() if k not in ("tb",)}, e.get("tb", "")))
            res.trace.append((p.ended, p.name, p.argv, "exit", p.exit_code, p.crash or ""))
    res.nontrivial = bool(res.fired or res.switches > 2 or res.probes["restores"])
    res.info = dict(kind=plan["kind"], ops=[(o.id, o.kind, o.code) for o in rr.ops], fired=len(res.fired))
    return res
