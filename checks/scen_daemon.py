"""Scenario family S2/S3: one to three hosts, each with a backup daemon, driven
over simulated days and weeks by a schedule of faults and operator actions.

The code under test runs unmodified from `backyd`'s and `backy`'s entry points.
Backup processes are real too (`backy-file`); how long they take and how they
fail is decided by the plan.  All oracles judge what can be observed from
outside: processes started and ended, metadata files, API answers, exit codes.
"""

import collections
import copy
import datetime
import functools
import json
import random
import re
import signal
from urllib.parse import quote

import yaml

import sim.client as client
from sim.ext import Callback
from sim.kernel import US, derive, derive_int
from sim.world import World

from .engine import Result

BASE = "/srv/backy"
CONF = "/etc/backy.conf"
DAYS93 = 93 * 86400
Loader = getattr(yaml, "CSafeLoader", yaml.SafeLoader)
UUID = re.compile("[23456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz]{22}")
UNITS = {"w": 604800, "d": 86400, "h": 3600, "m": 60, "s": 1}
SLACK = 40 * US
DAY = 86400 * US


def secs(spec):
    spec = str(spec)
    return int(spec[:-1]) * UNITS[spec[-1]] if spec[-1] in UNITS else int(spec)


@functools.lru_cache(8192)
def _parse(data):
    try:
        m = yaml.load(data, Loader=Loader)
    except yaml.YAMLError:
        return None
    if not isinstance(m, dict) or "uuid" not in m or "timestamp" not in m:
        return None
    ts = m["timestamp"]
    if isinstance(ts, str):
        ts = datetime.datetime.fromisoformat(ts)
    return dict(uuid=m["uuid"], ts=ts.timestamp(), tags=frozenset(m.get("tags") or ()),
                orig=frozenset(m.get("orig_tags") or ()), server=m.get("server") or "",
                stats=dict(m.get("stats") or {}), complete="duration" in (m.get("stats") or {}),
                trust=m.get("trust", "trusted"))


def parse_rev(data):
    return _parse(bytes(data))


def rev_bytes(uuid, ts, tags, duration=None, server="", orig=(), trust="trusted"):
    stats = {"bytes_written": 10}
    if duration is not None:
        stats["duration"] = float(duration)
    return ("# seeded\n" + yaml.safe_dump(dict(
        uuid=uuid, timestamp=datetime.datetime.fromtimestamp(ts, datetime.timezone.utc), parent="",
        stats=stats, trust=trust, tags=sorted(tags), orig_tags=sorted(orig), server=server))).encode()


def mkuuid(*parts):
    r = derive("uuid", *parts)
    return "".join(r.choice("23456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz") for _ in range(22))


def content(job):
    return (f"data of {job} " * 8).encode()


def render(cfg):
    """The daemon's configuration file."""
    g = {"base-dir": BASE, "worker-limit": cfg.get("limit", 1)}
    if cfg.get("callback"):
        g["backup-completed-callback"] = "/usr/local/bin/backup-callback"
    api = {"tokens": dict(cfg.get("tokens") or {}), "cli-default": {"token": cfg.get("clitoken", "tok-cli")}}
    api["addrs"] = ", ".join(cfg.get("addrs", ["127.0.0.1"]))
    api["port"] = cfg.get("port", 6023)
    d = {"global": g, "api": api, "schedules": cfg["schedules"], "jobs": {}}
    for n, j in cfg["jobs"].items():
        d["jobs"][n] = {"schedule": j["schedule"], "source": {"type": "file", "filename": j.get("file", f"/srv/data/{n}")}}
    if cfg.get("peers"):
        d["peers"] = cfg["peers"]
    return yaml.safe_dump(d).encode()


def same_job(a, b, name):
    """Is job `name` configured identically in both configurations?"""
    ja, jb = ((x["jobs"][name]["schedule"], x["jobs"][name].get("file", f"/srv/data/{name}")) if name in x["jobs"] else None for x in (a, b))
    return ja == jb and (ja is None or a["schedules"][ja[0]] == b["schedules"][jb[0]])


class Run:
    """One backup attempt of a job, as seen from outside."""

    __slots__ = ("host", "job", "n", "t0", "t1", "rc", "daemon", "uuid", "parts", "end", "cls", "tags", "wall0", "proc", "orphan")

    def __init__(self, **kw):
        for k in self.__slots__:
            setattr(self, k, kw.get(k))
        self.parts = []  # [kind, t0, t1, rc]

    def close(self, end):
        self.end = self.t1 if self.t1 is not None else end
        for p in self.parts:
            self.end = max(self.end, p[2] if p[2] is not None else end)

    @property
    def late(self):
        """Did something fail after the backup itself?"""
        return any(p[0] == "cb" and p[3] == "missing" for p in self.parts)

    def __repr__(self):
        return f"<{self.host}/{self.job}#{self.n} {self.t0/US:.3f}-{(self.end or 0)/US:.3f} rc={self.rc} {sorted(self.tags or ())}>"


class Inc:
    """One life of a daemon."""

    __slots__ = ("host", "proc", "t0", "t1", "how", "cfgs", "expect")

    def __init__(self, host, proc, t0, cfg, expect):
        self.host, self.proc, self.t0, self.t1, self.how = host, proc, t0, None, None
        self.cfgs = [(t0, cfg)]
        self.expect = expect  # "run" or "locked"


class CB(Callback):
    def __init__(self, h):
        super().__init__(h.k)
        self.h = h

    def behave(self, child):
        return self.h.callback_spawn(child)

    def done(self, child):
        pass


class Harness:
    def __init__(self, plan, debug=False):
        self.plan = plan
        self.res = Result()
        self.w = World(plan, debug)
        self.k = self.w.k
        k = self.k
        self.w.callback = CB(self)
        k.services["callback"] = self.w.callback
        k.on_spawn.append(self.spawned)
        self.hosts = [h["name"] for h in plan["hosts"]]
        for n in self.hosts[1:]:
            self.w.add_host(n)
        self.hcfg = {}  # what the configuration file holds
        self.incs = []
        self.cur = {}  # host -> Inc
        self.runs = []
        self.byjob = collections.defaultdict(list)
        self.natt = collections.Counter()
        self.ngc = collections.Counter()
        self.ncb = collections.Counter()
        self.gcs = []  # gc processes that belong to no run
        self.revs = {h: collections.defaultdict(dict) for h in self.hosts}
        self.revlog = []
        self.api = []
        self.busyports = []
        self.slowdns = []
        self.cli = []
        self.multis = []
        self.stalls = {}
        self.eio = []  # (host, prefix, t0, t1, kinds, salt, err)
        self.dist = []  # (host, job or None, t0, t1, what)
        self.triggers = []
        self.limit_changes = collections.defaultdict(list)
        self.ok_ends = []
        self.dirsnap = {}
        self.dirwatch = {}
        self.dirsnap_at = {}
        self.removed_dirs = []
        self.reportset = set()
        self.garbage = []
        self.callbacks = []
        self.seq = 0
        self.finale = None
        self.stopped = set()
        for h in plan["hosts"]:
            self._setup(h)

    # ------------------------------------------------------------- set-up

    def fs(self, host):
        return self.k.hosts[host].fs

    def wall(self, host):
        return self.k.hosts[host].wall_us() / US

    def _setup(self, h):
        fs = self.fs(h["name"])
        name = h["name"]
        for j in h.get("alljobs") or h["cfg"]["jobs"]:
            fs.put(f"/srv/data/{j}", content(j))
            fs.put(f"/srv/data/{j}.b", content(j))
        self.write_cfg(name, h["cfg"])
        for job, revs in h.get("seeds", {}).items():
            self._seed(name, job, revs)
        for d in h.get("dirs", []):
            self._mkdir(name, d)
        fs.sync_all()
        fs.watch.append(lambda op, path, **kw: self.fsop(name, op, path, kw))
        self.resync(name)

    def _seed(self, host, job, revs):
        fs = self.fs(host)
        d = f"{BASE}/{job}"
        fs.makedirs(d)
        for i, r in enumerate(revs):
            u = r.get("uuid") or mkuuid(self.plan["seed"], host if not r.get("server") else r["server"], job, i)
            fs.put(f"{d}/{u}.rev", rev_bytes(u, self.wall(host) + r["age"] * -1, r["tags"], r.get("duration"),
                                             r.get("server", ""), r.get("orig", r["tags"] if r.get("server") else ())))
            if not r.get("server") and not r.get("nodata"):
                fs.put(f"{d}/{u}", content(job))

    def _mkdir(self, host, d):
        """Some directory below the base directory, with old contents."""
        fs = self.fs(host)
        root = f"{BASE}/{d['name']}"
        if d.get("symlink"):
            fs._mk(fs.lookup(BASE), d["name"], "l", 0o777).target = d["symlink"]
            return
        base_t = self.k.hosts[host].wall_us()
        if d.get("file"):
            fs.put(root, b"just a file").mtime = int(base_t - d["age"] * US)
            return
        top = fs.makedirs(root)
        nodes = [top]
        for e in d.get("tree", []):
            p = f"{root}/{e['path']}"
            if e.get("kind") == "d":
                i = fs.makedirs(p)
            elif e.get("kind") == "l":
                parent = fs.makedirs(p.rsplit("/", 1)[0])
                i = fs._mk(parent, p.rsplit("/", 1)[1], "l", 0o777)
                i.target = e["target"]
            elif e.get("kind") == "config":
                i = fs.put(p, yaml.safe_dump(dict(path=root, source=dict(type="file", filename=f"/srv/data/{d['name']}"),
                                                  schedule={"daily": {"interval": "1d", "keep": 2}})).encode())
            elif e.get("kind") == "rev":
                i = fs.put(p, rev_bytes(e["uuid"], self.wall(host) - e.get("rage", 0), e["tags"], e.get("duration", 5)))
            else:
                i = fs.put(p, content(d["name"]) if e.get("kind") == "data" else b"x" * 20)
            nodes.append(i)
            e["_i"] = i
        stack = [top]
        while stack:
            i = stack.pop()
            i.mtime = int(base_t - d["age"] * US)
            stack.extend((i.children or {}).values())
        for e in d.get("tree", []):
            i = e.pop("_i")
            if "age" in e:
                i.mtime = int(base_t - e["age"] * US)

    def write_cfg(self, host, cfg):
        self.hcfg[host] = cfg
        self.fs(host).put(CONF, render(cfg))
        self.fs(host).put("/etc/backy.conf.sync", b"")

    def resync(self, host):
        """Read all metadata afresh (start, power loss)."""
        fs = self.fs(host)
        new = collections.defaultdict(dict)
        for p in fs.walk_files(BASE):
            if p.endswith(".rev") and p.count("/") == BASE.count("/") + 2:
                m = parse_rev(fs.get(p)) if fs.lookup(p, False).kind == "f" else None
                if m:
                    new[p.split("/")[-2]][m["uuid"]] = m
        self.revs[host] = new

    # ------------------------------------------------- what processes do

    def violate(self, cls, msg, key=None):
        self.res.violate(cls, f"t={self.k.now/US:.3f}: {msg}", key)

    def incof(self, host):
        return self.cur.get(host)

    def cfg_in_force(self, host, t=None):
        """Last configuration a daemon on the host has been given."""
        best = None
        for i in self.incs:
            if i.host == host and i.expect == "run":
                for tt, c in i.cfgs:
                    if t is None or tt <= t:
                        best = c
        return best or self.hcfg[host]

    def is_daemon(self, p):
        return p is not None and p.argv and p.argv[0].endswith("backyd")

    def fsop(self, host, op, path, kw):
        p = self.k.cur
        if not path.startswith(BASE + "/"):
            return
        rel = path[len(BASE) + 1:].split("/")
        job = rel[0]
        daemon = self.is_daemon(p)
        if not daemon and p is not None and not (p.parent is not None and self.is_daemon(p.parent) and "gc" in p.argv):
            sn = self.dirsnap.get((host, job))
            if sn is not None:
                self.dirsnap[host, job] = max(sn, self.k.hosts[host].wall_us())
        if op in ("unlink", "rmdir") and daemon:
            self.dir_removal(host, job, op, path, rel)
        if op in ("rename", "unlink") and len(rel) == 2 and rel[1].endswith(".rev"):
            old = self.revs[host][job].get(rel[1][:-4])
            new = None
            if op == "rename":
                new = parse_rev(self.fs(host).lookup(path).data)
                if new is None:
                    self.violate("meta-invalid", f"{p.name if p else '?'} wrote an unreadable {path}")
                    return
                if new["uuid"] != rel[1][:-4]:
                    self.violate("meta-invalid", f"{p.name if p else '?'} wrote {path} with uuid {new['uuid']}")
            if new is None:
                self.revs[host][job].pop(rel[1][:-4], None)
            else:
                self.revs[host][job][new["uuid"]] = new
            self.revlog.append((self.k.now, host, job, rel[1][:-4], p.name if p else "?", old, new))
            if p is not None and "multi" in p.meta:
                p.meta["multi"]["touched"].add(job)
            if daemon or (p is not None and p.argv and p.argv[0].endswith("backy-file")):
                self.tag_loss(host, job, p, old, new, daemon)
        if op == "unlink" and len(rel) == 2 and UUID.fullmatch(rel[1]):
            m = self.revs[host][job].get(rel[1])
            if m and m["complete"] and not m["server"] and not self._purged(host, job):
                self.violate("data-removed", f"{p.name} {p.argv[-3:]} removed the data of {host}/{job} revision {rel[1]} which is listed as complete with tags {sorted(m['tags'])}")

    def _purged(self, host, job):
        return (host, job) in self.dirwatch

    def tag_loss(self, host, job, p, old, new, daemon):
        """Retention: what may the daemon take away from a revision?"""
        if old is None or (host, job) in self.dirwatch:
            return
        cfg = self.cfg_in_force(host)
        active = job in cfg["jobs"]
        what = f"{host}/{job} revision {old['uuid']} (server={old['server']!r}, complete={old['complete']}, tags={sorted(old['tags'])})"
        if new is None:
            if not old["complete"] or old["server"] or not old["tags"]:
                return
            if not active or not daemon:
                if self.api_tag_change(host, job, old, None):
                    return
            if (host, job) in getattr(self, "restored_tags", ()):
                return
            self.violate("tagged-revision-removed", f"{p.name} removed {what}")
            return
        if old["server"] or new["server"]:
            if not old["server"] and new["server"]:
                self.violate("local-revision-changed", f"{p.name} turned {what} into a remote one")
            return
        if not old["complete"] or not daemon:
            return
        if not new["complete"]:
            self.violate("local-revision-changed", f"{p.name} turned {what} into an incomplete one")
        if not active:
            if old["tags"] != new["tags"] and not self.api_tag_change(host, job, old, new):
                self.violate("tag-removed-early", f"{p.name} changed tags of {what} to {sorted(new['tags'])} but the job is not active")
            return
        sched = cfg["schedules"][cfg["jobs"][job]["schedule"]]
        now = self.wall(host)
        lost = old["tags"] - new["tags"]
        gained = new["tags"] - old["tags"]
        if gained:
            self.violate("local-revision-changed", f"{p.name} added tags {sorted(gained)} to {what}")
        for t in sorted(lost):
            if t.startswith("manual:"):
                self.violate("manual-tag-removed", f"{p.name} removed {t} from {what}")
            elif t in sched:
                newer = [r for r in self.revs[host][job].values() if r["complete"] and t in r["tags"]
                         and r["uuid"] != old["uuid"] and r["ts"] >= old["ts"]]
                keep, iv = sched[t]["keep"], secs(sched[t]["interval"])
                if len(newer) < keep:
                    self.violate("tag-removed-early", f"{p.name} removed tag {t} from {what}: only {len(newer)} newer complete ones carry it, keep is {keep}")
                elif old["ts"] > now - keep * iv + 1:
                    self.violate("tag-removed-early", f"{p.name} removed tag {t} from {what}: it is {now - old['ts']:.0f} s old, limit {keep}*{iv} s")
            else:
                self.res.probes["former-tag-expired"] += 1
        if lost:
            self.res.probes["tag-expired"] += 1

    def api_tag_change(self, host, job, old, new):
        """Is a request to change tags of this job being served?"""
        return any(x["host"] == host and x["t1"] is None and x["spec"]["method"] == "PUT" and f"/backups/{job}/" in x["spec"]["path"] for x in self.api)

    # ----------------------------------------------------- directory purges

    def newest(self, host, inode):
        m = inode.mtime
        for c in (inode.children or {}).values():
            m = max(m, self.newest(host, c))
        return m

    def snap_dirs(self, host):
        fs = self.fs(host)
        for n, i in fs.lookup(BASE).children.items():
            if (host, n) in self.dirwatch and i.kind == "d":
                continue
            old = self.dirsnap_at.get((host, n))
            new = self.newest(host, i)
            if old is not None and self.k.now - old[0] < 60 * US:
                # housekeeping of the daemon itself, since an earlier look
                new = max(old[1], self.dirsnap.get((host, n), 0))
            else:
                self.dirsnap_at[host, n] = (self.k.now, new)
            self.dirsnap[host, n] = new

    def dir_removal(self, host, job, op, path, rel):
        """The daemon unlinks something below the base directory."""
        cfg = self.cfg_in_force(host)
        whole = len(rel) == 1
        if (host, job) in self.dirwatch:
            if whole:
                self.dirwatch[host, job]["t1"] = self.k.now
            return
        if not whole and (self.active_lately(host, job) or self.bookkeeping(rel) or self.api_tag_change(host, job, None, None)):
            return  # what it does to revisions of active jobs is judged elsewhere
        sn = self.dirsnap.get((host, job))
        wall = self.k.hosts[host].wall_us()
        self.dirwatch[host, job] = dict(t=self.k.now, t1=self.k.now if whole else None, newest=sn)
        self.res.probes["directory-purged"] += 1
        if job in cfg["jobs"]:
            self.violate("active-removed", f"the daemon removed {path} which belongs to the active job {job}")
        elif sn is not None and sn >= wall - DAYS93 * US + 30 * US:
            self.violate("purged-too-early", f"the daemon removed {path}: newest change in {job} is {(wall - sn)/US/86400:.3f} days old")

    def active_lately(self, host, job):
        """Is the job configured, or has it been until just now?"""
        inc = self.incof(host)
        l = inc.cfgs if inc else [(0, self.cfg_in_force(host))]
        return any(job in c["jobs"] and (n + 1 == len(l) or l[n + 1][0] > self.k.now - 3 * US) for n, (t, c) in enumerate(l))

    @staticmethod
    def bookkeeping(rel):
        n = rel[-1]
        return n == ".purge_pending" or n.startswith((".tmp", "tmp", ".backup", ".purge")) or (n.startswith(".") and ".rev" in n)

    # ----------------------------------------------------------- processes

    def spawned(self, p):
        base = p.argv[0].rsplit("/", 1)[-1]
        host = p.host.name
        if base == "backyd":
            p.on_op = lambda kind, obj: self.daemon_op(p, host, kind, obj)
            return
        if base not in ("backy-file", "backy-rbd") or p.parent is None:
            return
        argv = p.argv
        try:
            path = argv[argv.index("-C") + 1]
        except ValueError:
            return
        job = path.rstrip("/").split("/")[-1]
        by_daemon = self.is_daemon(p.parent)
        if "backup" in argv:
            if not by_daemon:
                return
            n = self.natt[host, job]
            self.natt[host, job] += 1
            uuid = argv[argv.index("backup") + 1]
            r = Run(host=host, job=job, n=n, t0=self.k.now, daemon=p.parent, uuid=uuid, wall0=self.wall(host), proc=p)
            m = self.revs[host][job].get(uuid)
            r.tags = m["tags"] if m else frozenset()
            r.cls = self.speed(host, job, uuid)
            self.runs.append(r)
            self.byjob[host, job].append(r)
            p.meta["run"] = r
            p.exit_callbacks.append(lambda q: self.backup_end(q, r))
            if not self.finale:
                beh = self.plan.get("attempts", {}).get(f"{host}/{job}") or []
                if n < len(beh):
                    self.behave(p, beh[n], f"/srv/data/{job}", "backup")
            self.trigger("backup", host, job, n)
        elif "gc" in argv:
            l = self.byjob[host, job]
            r = l[-1] if l and l[-1].daemon is p.parent and l[-1].rc == 0 and not any(x[0] == "gc" for x in l[-1].parts) else None
            part = ["gc", self.k.now, None, None]
            if r is not None:
                r.parts.append(part)
            else:
                self.gcs.append((host, job, part, p))
            n = self.ngc[host, job]
            self.ngc[host, job] += 1

            def end(q):
                part[2], part[3] = self.k.now, q.exit_code
                if q.exit_code == 0 and r is not None:
                    self.run_ok(host, job, r)
            p.exit_callbacks.append(end)
            if not self.finale:
                beh = self.plan.get("gcs", {}).get(f"{host}/{job}") or []
                if n < len(beh):
                    self.behave(p, beh[n], None, "gc")
            self.trigger("gc", host, job, n)

    def behave(self, p, beh, src, what):
        """Let one child process take its time, or fail."""
        dur, mode = beh[0], beh[1]
        if not dur and mode == "ok":
            return
        state = dict(paused=False)
        if mode != "ok":
            self.k.count_fault(f"{what}_{mode}")
        elif dur > 60:
            self.k.count_fault(f"{what}_slow")

        def on_op(kind, obj):
            if what == "backup" and not (kind == "open" and str(obj).startswith("/srv/data/")):
                return None
            if what == "gc" and kind != "flock":
                return None
            if dur and not state["paused"]:
                state["paused"] = True
                self.k.sleep(int(dur * US))
            if mode == "eio":
                return {"kind": "eio"}
            if mode == "kill":
                return {"kind": "kill", "proc": p.name}
            return None

        p.on_op = on_op
        if mode == "killat":
            p.faults[beh[2]] = {"kind": "kill", "proc": p.name}

    def backup_end(self, p, r):
        r.t1 = self.k.now
        r.rc = p.exit_code
        r.orphan = r.daemon.exited

    def callback_spawn(self, child):
        host = child.parent.host.name
        job = child.argv[1]
        n = self.ncb[host, job]
        self.ncb[host, job] += 1
        part = ["cb", self.k.now, None, None]
        self.callbacks.append(child)
        l = self.byjob[host, job]
        if l and l[-1].daemon is child.parent and l[-1].rc == 0 and any(x[0] == "gc" and x[2] and x[2] > self.k.now - 30 * US for x in l[-1].parts) and not any(x[0] == "cb" for x in l[-1].parts):
            l[-1].parts.append(part)
        child.waiters.append(lambda: part.__setitem__(2, self.k.now))
        self.trigger("cb", host, job, n)
        beh = (self.plan.get("cbs", {}).get(f"{host}/{job}") or []) if not self.finale else []
        if n < len(beh):
            dur, mode = beh[n][:2]
            if mode != "ok":
                self.k.count_fault("callback_" + mode)
            if mode == "missing":
                part[2:] = self.k.now, "missing"
                self.callbacks.pop()
                raise PermissionError(13, "Permission denied", child.argv[0])
            return int(dur * US) + 20_000, 1 if mode != "ok" else 0
        return 20_000, 0

    def speed(self, host, job, uuid):
        l = [m for m in self.revs[host][job].values() if m["complete"] and m["uuid"] != uuid]
        if not l:
            return "slow"
        m = max(l, key=lambda m: m["ts"])
        d = m["stats"].get("duration")
        return "fast" if isinstance(d, (int, float)) and d < 600 else "slow"

    def daemon_op(self, p, host, kind, obj):
        if kind == "readdir" and obj == BASE:
            self.snap_dirs(host)
        if p in self.stalls:
            return {"kind": "pause", "us": self.stalls.pop(p)}
        if not self.eio:
            return None
        o = str(obj)
        for e in self.eio:
            if e[0] == host and e[2] <= self.k.now < e[3] and (o == e[1] or o.startswith(e[1] + "/")):
                if e[4] and kind not in e[4]:
                    continue
                if e[5] and derive_int(e[5], "eio", p.name, p.ninj):
                    continue
                return {"kind": e[6]}
        return None

    def run_ok(self, host, job, r):
        """gc of a run has ended well: look at the repository a little later."""
        daemon = r.daemon

        def look():
            if daemon.exited:
                return
            self.after_run(host, job, r)
        self.k.after(2 * US, look)

    def after_run(self, host, job, r):
        inc = self.incof(host)
        if inc is None or inc.proc is not r.daemon:
            return
        t0, t1 = r.t0 - US, self.k.now
        if self.disturbed(host, job, t0, t1) or self.byjob[host, job][-1] is not r:
            return
        cfg = self.cfg_in_force(host, r.t0)
        if job not in cfg["jobs"] or not all(same_job(cfg, c, job) for t, c in inc.cfgs if t0 <= t <= t1):
            return
        if any(x["host"] == host and x["job"] == job and x.get("t1", t1) >= t0 for x in self.cli):
            return
        sched = cfg["schedules"][cfg["jobs"][job]["schedule"]]
        self.res.probes["retention-looked"] += 1
        revs = self.revs[host][job]
        now = r.wall0 + (r.t1 - r.t0) / US
        l = sorted((m for m in revs.values() if m["complete"]), key=lambda m: m["ts"])
        for t, spec in sched.items():
            have = [m for m in l if t in m["tags"]]
            keep, iv = spec["keep"], secs(spec["interval"])
            for m in have[:-keep] if keep else []:
                if m["ts"] < now - keep * iv - 1 and not m["server"]:
                    self.violate("tag-not-expired", f"{host}/{job} revision {m['uuid']} still carries {t} after a successful run, age {now - m['ts']:.0f} s, {len(have)} carry it, keep {keep}, interval {iv}")
        known = set()
        for c in [cfg] + [c for t, c in inc.cfgs if t0 <= t <= t1]:
            known |= set(c.get("peers") or ())
        for m in revs.values():
            if m["server"]:
                if m["server"] not in known:
                    self.violate("stale-remote", f"{host}/{job} revision {m['uuid']} of {m['server']} stays although there is no such peer")
                continue
            if not m["complete"]:
                self.violate("incomplete-left", f"{host}/{job} revision {m['uuid']} is incomplete and still there after a successful run")
            elif not m["tags"]:
                self.violate("untagged-left", f"{host}/{job} revision {m['uuid']} has no tags and is still there after a successful run")
            former = {t for t in m["tags"] if not t.startswith("manual:") and t not in sched}
            if former:
                self.violate("tag-not-expired", f"{host}/{job} revision {m['uuid']} still carries {sorted(former)} of a former schedule")
        fs = self.fs(host)
        files = {n for n in fs.lookup(f"{BASE}/{job}").children if UUID.fullmatch(n)}
        want = {m["uuid"] for m in revs.values() if not m["server"]}
        if files - want:
            self.violate("garbage-left", f"{host}/{job}: data of removed revisions {sorted(files - want)[:3]} is still there after a successful run")
        # the run's own revision must be there
        m = revs.get(r.uuid)
        if m is None and any(x[1] == host and x[2] == job and x[3] == r.uuid and x[6] is None and x[5] and not x[5]["tags"] for x in self.revlog):
            # all of its tags have been expired, which is judged elsewhere
            self.res.probes["own-revision-expired"] += 1
        elif m is None or not m["complete"]:
            self.violate("backup-lost", f"{host}/{job}: revision {r.uuid} of the successful run is {'gone' if m is None else 'incomplete'}")

    # -------------------------------------------------------------- events

    def schedule_events(self):
        for i, e in enumerate(self.plan.get("events", [])):
            if "t" in e:
                self.k.at(int(e["t"] * US), lambda e=e: self.fire(e))
            else:
                self.triggers.append(dict(e, left=True))

    def trigger(self, kind, host, job, n):
        for e in self.triggers:
            if e["left"] and e["when"] == [kind, host, job, n]:
                e["left"] = False
                self.k.after(int(e.get("delay", 0)), lambda e=e: self.fire(e))

    def disturb(self, host, job, t0, t1, what):
        self.dist.append((host, job, t0, t1, what))

    def disturbed(self, host, job, t0, t1, ignore=()):
        for h, j, a, b, what in self.dist:
            if (h is None or h == host) and (j is None or j == job) and a <= t1 and b >= t0 and what not in ignore:
                return True
        return False

    def start(self, host, expect="run"):
        self.seq += 1
        p = self.w.prog(f"d-{host}-{self.seq}", ["/usr/bin/backyd", "-c", CONF], host=self.k.hosts[host], cwd="/")
        inc = Inc(host, p, self.k.now, self.hcfg[host], expect)
        self.incs.append(inc)
        if expect == "run":
            self.cur[host] = inc

        def end(q):
            inc.t1 = self.k.now
            if expect == "run" and self.cur.get(host) is inc:
                self.cur[host] = None
                if inc.how is None:
                    self.daemon_died(inc)
        p.exit_callbacks.append(end)
        return inc

    def daemon_died(self, inc):
        if self.eio_at_start(inc):
            inc.how = "start-eio"
            return
        self.violate("daemon-died", f"daemon on {inc.host} ended by itself: exit code {inc.proc.exit_code} {inc.proc.crash or inc.proc.stderr.getvalue()[-600:]}")

    def eio_at_start(self, inc):
        return any(e[0] == inc.host and e[1] in (BASE, "/etc", CONF) and e[2] <= self.k.now and inc.t0 < e[3] for e in self.eio)

    def running(self, host):
        i = self.cur.get(host)
        return i if i and not i.proc.exited else None

    def fire(self, e):
        if self.finale and not e.get("fin"):
            return
        ev = e["ev"]
        host = e.get("host", "h0")
        k = self.k
        inc = self.running(host)
        self.res.probes["ev-" + ev] += 1
        getattr(self, "ev_" + ev)(e, host, inc)
        if "again" in e:
            self.k.after(int(e["again"] * US), lambda: self.fire({k: v for k, v in e.items() if k not in ("again", "restart", "when", "t")}))
        if "restart" in e:
            self.k.after(int(e["restart"] * US), lambda: self.fire(dict(ev="start", host=host)))

    def ev_start(self, e, host, inc):
        if inc is None and host not in self.stopped:
            self.start(host)

    def ev_second(self, e, host, inc):
        """Another daemon for the same base directory."""
        if inc is None or self.k.now - inc.t0 < 2 * US:
            return
        i2 = self.start(host, expect="locked")
        i2.how = "second"

        def first_gone(q):
            # it was no second one, then
            if not i2.proc.exited:
                self.k.kill(i2.proc)
        inc.proc.exit_callbacks.append(first_gone)

        def end(q):
            if not inc.proc.exited and q.exit_code != 69:
                self.violate("second-daemon", f"second daemon on {host} ended with {q.exit_code} instead of 69 {q.crash or ''}")
        i2.proc.exit_callbacks.append(end)

        def later():
            if not i2.proc.exited and not inc.proc.exited:
                self.violate("second-daemon", f"second daemon on {host} runs besides the first")
                self.k.kill(i2.proc)
        self.k.after(5 * US, later)

    def kids(self, inc):
        l = [p for p in self.k.procs if p.parent is inc.proc and not p.exited]
        return l

    def ev_term(self, e, host, inc):
        if inc is None:
            return
        sig = {"TERM": signal.SIGTERM, "INT": signal.SIGINT, "QUIT": signal.SIGQUIT}[e.get("sig", "TERM")]
        from sim.procs import send_signal
        self.k.count_fault("daemon_sigterm")
        inc.how = "term"
        t = self.k.now
        send_signal(self.k, inc.proc, sig)

        def later():
            if not inc.proc.exited:
                self.violate("slow-shutdown", f"daemon on {host} still runs 5 s after {e.get('sig', 'TERM')} at {t/US:.6f}")
                self.k.kill(inc.proc)
            for p in self.kids(inc):
                if not p.killed:
                    self.violate("child-survives", f"{p.argv} of {host} still runs 5 s after the daemon was told to stop at {t/US:.6f}")
            for c in self.callbacks:
                if c.parent is inc.proc and c.returncode is None:
                    self.violate("child-survives", f"{c.argv[:2]} of {host} still runs 5 s after the daemon was told to stop at {t/US:.6f}")
        self.k.after(5 * US, later)

    def ev_kill(self, e, host, inc):
        if inc is None:
            return
        self.k.count_fault("daemon_kill")
        inc.how = "kill"
        self.k.kill(inc.proc)
        for p in self.kids(inc):
            # backups go on without their daemon
            self.lasting(host, self.jobarg(p), p, "orphan")

    @staticmethod
    def jobarg(p):
        return p.argv[p.argv.index("-C") + 1].rstrip("/").split("/")[-1] if "-C" in p.argv else None

    def lasting(self, host, job, p, what):
        """A process that may hold the lock of a job for some time: the job is
        disturbed until the effects of one failed attempt have worn off."""
        t0 = self.k.now
        d = (host, job, t0, 1 << 62, what)
        self.dist.append(d)

        def end(q):
            self.dist.remove(d)
            self.dist.append((host, job, t0, self.k.now + 2 * (self.k.now - t0) + 1200 * US, what))
        p.exit_callbacks.append(end)

    def ev_power(self, e, host, inc):
        self.k.count_fault("powerfail")
        if inc is not None:
            inc.how = "power"
        for x in self.cli:
            if x["host"] == host and x.get("t1") is None:
                x["lost"] = True
        self.k.powerfail(self.k.hosts[host], {"salt": e.get("salt", 0)})
        self.resync(host)
        self.disturb(host, None, self.k.now, self.k.now, "power")
        for h, job, i in list(self.reportset):
            if h == host and i not in self.reports(host, job):
                self.reportset.discard((h, job, i))
        # the configuration file is the operator's business
        self.write_cfg(host, self.hcfg[host])
        self.dirsnap = {x: y for x, y in self.dirsnap.items() if x[0] != host}

    def ev_hup(self, e, host, inc):
        """New configuration (or the old one), then SIGHUP."""
        if e.get("cfg"):
            self.write_cfg(host, e["cfg"])
        if inc is None:
            return
        from sim.procs import send_signal
        if int(signal.SIGHUP) not in inc.proc.signals:
            inc.how = "hup-early"
        self.apply_cfg(host, inc)
        send_signal(self.k, inc.proc, signal.SIGHUP)

    def apply_cfg(self, host, inc):
        old = inc.cfgs[-1][1]
        new = self.hcfg[host]
        inc.cfgs.append((self.k.now, new))
        now = self.k.now
        kids = [(p, p.meta.get("run")) for p in self.kids(inc)]
        jobs = set(old["jobs"]) | set(new["jobs"])

        def later():
            if inc.proc.exited or any(t != now and abs(t - now) < US or c is not new and t == now for t, c in inc.cfgs):
                return  # several signals at once
            if any(x[4] == "hang" for x in self.dist) and self.disturbed(host, None, now, self.k.now, ("cli", "orphan", "run-now", "reload", "eio", "clock", "power")):
                return
            for p, r in kids:
                job = self.jobarg(p)
                if job is None or job not in jobs:
                    continue
                if same_job(old, new, job):
                    if p.exited and p.exit_code in (-15, -9) and not self.planned_kill(p):
                        self.violate("reload-not-exact", f"{p.argv[3:]} of the unchanged job {job} on {host} was stopped by a reload")
                elif not p.exited:
                    self.violate("reload-not-exact", f"{p.argv[3:]} of the {'removed' if job not in new['jobs'] else 'changed'} job {job} on {host} still runs 3 s after the reload")
        self.k.after(3 * US, later)

    def planned_kill(self, p):
        return any(f["kind"] in ("kill", "powerfail") and f.get("proc") == p.name for f in self.k.fired)

    def ev_clock(self, e, host, inc):
        self.k.count_fault("clock_step")
        self.k.hosts[host].clock_offset += int(e["delta"] * US)
        self.disturb(host, None, self.k.now, self.k.now, "clock")

    def ev_eio(self, e, host, inc):
        t0 = self.k.now
        t1 = t0 + int(e["dur"] * US)
        self.k.count_fault("daemon_" + e.get("err", "eio") + "_window")
        path = e["path"] if e["path"].startswith("/") else f"{BASE}/{e['path']}"
        self.eio.append((host, path, t0, t1, tuple(e.get("ops") or ()), e.get("one_in", 0), e.get("err", "eio")))
        job = None if path == BASE else path[len(BASE) + 1:].split("/")[0]
        self.disturb(host, job, t0, t1, "eio")

    def ev_portbusy(self, e, host, inc):
        """Another program occupies a port for some time."""
        net = self.k.services["net"]
        if (host, e["port"]) in net.busy:
            return
        net.busy.add((host, e["port"]))
        self.busyports.append((host, self.k.now, self.k.now + int(e["dur"] * US), e["port"]))
        self.k.after(int(e["dur"] * US), lambda: net.busy.discard((host, e["port"])))

    def ev_slowdns(self, e, host, inc):
        net = self.k.services["net"]
        if host in net.dns_delay:
            return
        net.dns_delay[host] = e["delay"]
        self.slowdns.append((host, self.k.now, self.k.now + int(e["dur"] * US), int(e["delay"] * US)))
        self.k.after(int(e["dur"] * US), lambda: net.dns_delay.pop(host, None))

    def call(self, host, spec, what, job=None, src=None):
        """An API request from a process on `src` (default: the same host)."""
        self.seq += 1
        rec = dict(host=host, t0=self.k.now, what=what, job=job, st=None, t1=None, inc=self.running(host), spec=spec)
        self.api.append(rec)
        inc = self.running(host)
        cfg = inc.cfgs[-1][1] if inc else self.hcfg[host]
        spec = dict(dict(addr=cfg.get("addrs", ["127.0.0.1"])[0], port=cfg.get("port", 6023)), **spec)
        p = self.w.prog(f"api-{self.seq}", ["apicall"], host=self.k.hosts[src or host])
        p.meta["spec"] = spec

        def end(q):
            rec["t1"] = self.k.now
            rec["st"], rec["body"] = client.parsed(q)
            self.answered(rec)
        p.exit_callbacks.append(end)
        return rec

    def answered(self, rec):
        f = getattr(self, "ans_" + rec["what"], None)
        if f:
            try:
                f(rec)
            except (KeyError, TypeError, ValueError, AttributeError, IndexError) as e:
                if rec["st"] != 200:
                    raise
                self.violate("answer-malformed", f"the answer of {rec['host']} to a {rec['what']} request is not as documented ({e!r}): {str(rec['body'])[:500]}")

    def token(self, host):
        inc = self.running(host)
        t = (inc.cfgs[-1][1] if inc else self.hcfg[host]).get("tokens") or {}
        return next(iter(t), None)

    def auth(self, host):
        return [("Authorization", f"Bearer {self.token(host)}")]

    def ev_run(self, e, host, inc):
        """Ask the daemon to run a job now."""
        if inc is None or not self.token(host):
            return
        self.call(host, dict(method="POST", path=f"/v1/jobs/{quote(e['job'], '')}/run", headers=self.auth(host)), "run", e["job"])
        self.disturb(host, e["job"], self.k.now, self.k.now, "run-now")

    def ev_runat(self, e, host, inc):
        """Ask for a run (almost) at the moment the job wakes up itself."""
        if inc is None or not self.token(host):
            return
        rec = self.call(host, dict(method="GET", path="/v1/status", headers=self.auth(host)), "peek", e["job"])
        rec["delta"] = e["delta"]

    def ans_peek(self, rec):
        if rec["st"] != 200 or not isinstance(rec["body"], list):
            return
        for x in rec["body"]:
            if x["job"] == rec["job"] and x["next_time"]:
                t = datetime.datetime.fromisoformat(x["next_time"]).timestamp()
                t = self.k.now + int((t - self.wall(rec["host"])) * US) + rec["delta"]
                if t > self.k.now:
                    self.k.at(t, lambda: self.fire(dict(ev="run", host=rec["host"], job=rec["job"])))

    def ev_apireload(self, e, host, inc):
        """New configuration, then a reload through the API."""
        if inc is None or not self.token(host):
            return
        cfg = inc.cfgs[-1][1]
        tok = self.auth(host)
        if e.get("cfg"):
            self.write_cfg(host, e["cfg"])
        # the new configuration takes effect when the request is served
        self.disturb(host, None, self.k.now, self.k.now + US, "reload")
        young = self.open_at(inc, self.k.now, cfg.get("addrs", ["127.0.0.1"])[0], cfg.get("port", 6023)) is not True
        self.apply_cfg(host, inc)
        rec = self.call(host, dict(method="POST", path="/v1/reload", headers=tok, port=cfg.get("port", 6023), addr=cfg.get("addrs", ["127.0.0.1"])[0]), "reload")
        rec["young"] = young

    def ans_reload(self, rec):
        if rec["st"] == 204 or rec["inc"].proc.exited:
            return
        if not rec["young"] and not self.disturbed(rec["host"], None, rec["t0"], self.k.now, ("reload", "cli", "orphan", "run-now")):
            self.violate("reload-refused", f"reload request on {rec['host']} at {rec['t0']/US:.3f} got {rec['st']} {str(rec['body'])[:200]}")
        from sim.procs import send_signal
        send_signal(self.k, rec["inc"].proc, signal.SIGHUP)

    def ev_cli(self, e, host, inc):
        self.seq += 1
        job = e.get("job")
        argv = ["/usr/bin/backy", "-c", CONF]
        if job:
            argv += ["-C", f"{BASE}/{job}"]
        argv += e["argv"]
        p = self.w.prog(f"cli-{self.seq}", argv, host=self.k.hosts[host])
        rec = dict(host=host, job=job, t0=self.k.now, argv=e["argv"], proc=p, t1=None)
        self.cli.append(rec)
        if e.get("disturbs", True):
            self.lasting(host, job, p, "cli")

        def end(q):
            rec["t1"] = self.k.now
            rec["rc"] = q.exit_code
            rec["out"] = q.stdout.getvalue()
            self.answered(dict(rec, what="cli-" + e["argv"][0]))
        p.exit_callbacks.append(end)
        return p

    def ev_purge(self, e, host, inc):
        if inc is None or not self.token(host):
            return
        self.call(host, dict(method="POST", path=f"/v1/backups/{quote(e['job'], '')}/purge", headers=self.auth(host)), "purge", e["job"])

    def ev_touch(self, e, host, inc):
        """Somebody changes something below the base directory."""
        fs = self.fs(host)
        path = f"{BASE}/{e['path']}"
        try:
            i = fs.lookup(path, follow=False)
        except OSError:
            return
        if e.get("via") == "api":
            if inc is not None and self.token(host):
                self.call(host, dict(method="POST", path=f"/v1/backups/{quote(e['path'], '')}/touch", headers=self.auth(host)), "touch", e["path"])
            return
        i.mtime = fs.nowns()
        job = e["path"].split("/")[0]
        if (host, job) in self.dirsnap:
            self.dirsnap[host, job] = max(self.dirsnap[host, job], i.mtime)

    def ans_touch(self, rec):
        if rec["st"] == 204:
            try:
                i = self.fs(rec["host"]).lookup(f"{BASE}/{rec['job']}", False)
            except OSError:
                return
            if i.mtime < self.k.hosts[rec["host"]].wall_us() - (self.k.now - rec["t0"]) - US:
                self.violate("touch-ignored", f"touch of {rec['job']} was accepted but its mtime is unchanged")

    def ev_garbage(self, e, host, inc):
        """An unreadable metadata file, for some time."""
        fs = self.fs(host)
        job = e["job"]
        if not fs.exists(f"{BASE}/{job}"):
            return
        self.seq += 1
        path = f"{BASE}/{job}/{mkuuid('garbage', self.seq)}.rev"
        t1 = self.k.now + int(e["dur"] * US)
        self.k.count_fault("garbage_rev")
        fs.put(path, e["data"].encode())
        self.eio.append((host, path, self.k.now, t1, ("none",), 0, "eio"))
        self.disturb(host, job, self.k.now, t1, "eio")

        def gone():
            if fs.exists(path):
                i = fs.lookup(f"{BASE}/{job}")
                i.children.pop(path.rsplit("/", 1)[1], None)
        self.k.after(int(e["dur"] * US), gone)
        self.garbage.append(gone)

    def ev_cut(self, e, host, inc):
        self.k.count_fault("partition")
        self.w.net.partition(*e["pair"])

    def ev_heal(self, e, host, inc):
        self.w.net.heal(*e["pair"])

    def ev_reset(self, e, host, inc):
        self.k.count_fault("connection_reset")
        self.w.net.reset_all(*e["pair"])

    def ev_write(self, e, host, inc):
        """Put a file below the base directory (operator, other tool)."""
        self.fs(host).put(f"{BASE}/{e['path']}", e["data"].encode())

    def ev_check(self, e, host, inc):
        self.check_cli(e, host)

    def ev_runall(self, e, host, inc):
        """Purges, runs and the like through the command line."""
        self.ev_cli(dict(e, disturbs=False), host, inc)

    # ------------------------------------------- commands for several jobs

    def selectable(self, inc, t0, t1, rx):
        """Jobs that match the filter all the time / at any time."""
        sets = []
        for i, (t, c) in enumerate(inc.cfgs):
            u = inc.cfgs[i + 1][0] + 3 * US if i + 1 < len(inc.cfgs) else 1 << 62
            if t <= t1 and u >= t0:
                sets.append({j for j in c["jobs"] if re.search(rx, j)})
        return set.intersection(*sets), set.union(*sets)

    @staticmethod
    def multi_spec(spec, m):
        if spec == "local":
            return not m["server"]
        k, _, v = spec.partition(":")
        if k == "tag":
            return v in m["tags"]
        if k == "trust":
            return m["trust"] == v
        return True

    def ev_multi(self, e, host, inc):
        """A command for the jobs whose names match a regular expression."""
        rx, argv = e["rx"], e["argv"]
        self.seq += 1
        cmd = ["/usr/bin/backy", "-c", CONF] + ([] if argv[0] == "show-daemon" else ["-a"] if rx == ".*" else ["--jobs", rx]) + argv
        if argv[0] == "show-daemon":
            rx = ".*"
        p = self.w.prog(f"cli-{self.seq}", cmd, host=self.k.hosts[host], cwd="/")
        p.meta["multi"] = rec = dict(host=host, t0=self.k.now, rx=rx, argv=argv, inc=inc, state=copy.deepcopy({j: dict(r) for j, r in self.revs[host].items()}),
                                     reports={j: self.reports(host, j) for j in self.revs[host]}, touched=set(), uuids=set(),
                                     ms=self.model_status(host) if argv[0] == "show-jobs" else {})
        self.multis.append((p, rec))
        names = [j for j in self.hcfg[host]["jobs"] if re.search(rx, j)]
        if argv[0] in ("distrust", "rm", "tags"):
            for j in names:
                self.lasting(host, j, p, "cli")
        p.exit_callbacks.append(lambda q: self.multi_end(q, rec))
        self.k.after(900 * US, lambda: self.multi_late(p, rec))

    def multi_late(self, p, rec):
        if not p.exited and not self.disturbed(rec["host"], None, rec["t0"], self.k.now, ("cli", "orphan", "run-now")):
            self.violate("multi-hangs", f"{' '.join(p.argv[3:])} on {rec['host']} still runs after 900 s")
            self.k.kill(p)

    def multi_end(self, p, rec):
        host, argv, t0, t1, rx = rec["host"], rec["argv"], rec["t0"], self.k.now, rec["rx"]
        inc = rec["inc"]
        cmd = f"{' '.join(p.argv[3:])} on {host} from {t0/US:.3f} to {t1/US:.3f}"
        ok = p.exit_code == 0
        if self.disturbed(host, None, t0, t1, ("cli", "orphan", "run-now", "clock", "reload", "hang")):
            return  # the machine itself failed
        if inc is None or inc.t1 is not None and inc.t1 < t0:
            # (a daemon may be just being started)
            if ok and self.running(host) is None:
                self.violate("multi-wrong", f"{cmd} succeeded although no daemon was running")
            return
        every, some = self.selectable(inc, t0, t1, rx)
        for j in rec["touched"] - some:
            self.violate("multi-scope", f"{cmd} changed {j}, which is not selected")
        verb = argv[0]
        out = p.stdout.getvalue()
        quiet = not any(h == host and t0 <= t <= t1 and (j in some) and who != p.name for t, h, j, u, who, a, b in self.revlog)
        steady = every == some and quiet
        self.res.probes[f"multi-{verb}-{'ok' if ok else 'failed'}"] += 1
        if ok and not some:
            self.violate("multi-wrong", f"{cmd} succeeded although no job matches")
        spec = argv[argv.index("-r") + 1] if "-r" in argv else "all"
        if ok and verb in ("distrust", "rm", "tags") and quiet:
            for j in sorted(every):
                before = rec["state"].get(j, {})
                now = self.revs[host].get(j, {})
                for u, m in sorted(before.items()):
                    n = now.get(u)
                    sel = self.multi_spec(spec, m)
                    self.res.probes["multi-compared"] += 1
                    if sel and verb == "rm":
                        # removing a copy of a peer's revision marks it only
                        bad = n is not None and (not m["server"] or n["tags"])
                    elif n is None:
                        bad = True
                    elif not sel:
                        bad = n != m
                    elif verb == "distrust":
                        bad = n["trust"] != "distrusted" or n["tags"] != m["tags"]
                    else:
                        want = {"add": m["tags"] | {argv[-1]}, "remove": m["tags"] - {argv[-1]}, "set": {argv[-1]}}[argv[argv.index("-r") - 1]]
                        bad = n["tags"] != want or n["trust"] != m["trust"]
                    if bad:
                        self.violate("multi-partial", f"{cmd} succeeded, but {j} revision {u} ({sorted(m['tags'])}, {m['trust']}) is now {n and (sorted(n['tags']), n['trust'])}")
                        return
        elif ok and steady and verb == "log" and "--json" not in argv:
            got = [int(l.split()[0]) for l in out.splitlines() if l.endswith("data (estimated)")]
            want = [len(self.revs[host].get(j, ())) for j in every]
            if sorted(got) != sorted(want):
                self.violate("multi-wrong", f"{cmd} showed tables of {got} revisions, there are {want}")
        elif ok and steady and verb in ("log", "rev-parse"):
            want = sorted((j, u) for j in every for u, m in self.revs[host].get(j, {}).items() if self.multi_spec(spec, m))
            if verb == "log":
                byu = {}
                for j, l in self.revs[host].items():
                    for u in l:
                        byu.setdefault(u, []).append(j)
                try:
                    lists = [json.loads(l) for l in out.splitlines() if l.strip()]
                except ValueError:
                    lists = []
                got = sorted(r["uuid"] for l in lists for r in l)
                want = sorted(u for j, u in want)
                if len(lists) != len(every):
                    self.violate("multi-wrong", f"{cmd} printed {len(lists)} lists for {len(every)} jobs")
            elif "--uuid" in argv:
                got, want = sorted(out.split()), sorted(u for j, u in want)
            else:
                got, want = sorted(out.splitlines()), sorted(f"{BASE}/{j}/{u}.rev" for j, u in want)
            self.res.probes["multi-compared"] += 1
            if got != want:
                self.violate("multi-wrong", f"{cmd} printed {got}, on disk are {want}")
        elif verb == "reports-list" and ok and steady:
            want = sorted(x for j in every for x in self.reports(host, j))
            if all(rec["reports"].get(j, []) == self.reports(host, j) for j in every) and sorted(out.split()) != want:
                self.violate("multi-wrong", f"{cmd} printed {out.split()}, on disk are {want}")
        elif verb == "reports-delete" and ok:
            for j in every:
                left = set(self.reports(host, j)) & set(rec["reports"].get(j, ()))
                if left:
                    self.violate("multi-partial", f"{cmd} succeeded and left reports {sorted(left)} of {j}")
        elif verb == "show-jobs" and ok and every == some:
            rows = [l.split("│")[1].strip() for l in out.splitlines() if l.startswith("│")]
            cfg = [c for t, c in inc.cfgs if t <= t1][-1]
            dead = self.dead_now(host, cfg) if len([1 for t, c in inc.cfgs if t0 - 3 * US <= t <= t1]) == 0 else None
            got = sorted(r for r in rows if r in every or dead is None)
            self.res.probes["multi-compared"] += 1
            if dead is not None:
                want = sorted(every) + sorted(d for d in dead if re.search(rx, d))
                if sorted(rows) != sorted(want):
                    self.violate("multi-wrong", f"{cmd} showed {rows}, there are {want}")
            elif not every <= set(got):
                self.violate("multi-wrong", f"{cmd} showed {rows}, configured are {sorted(every)}")
            m1 = self.model_status(host) if steady else {}
            for l in out.splitlines():
                c = [x.strip() for x in l.split("│")]
                a, b = (m.get(c[1]) if l.startswith("│") and len(c) > 9 else None for m in (rec["ms"], m1))
                if not a or not b or not self.steady(a, b) or a["ties"]:
                    continue
                self.res.probes["rows-compared"] += 1
                if not a["close"] and ((c[2] != "OK") != a["overdue"] or (c[3] != "-") != a["overdue"]):
                    self.violate("multi-wrong", f"{cmd} showed {c[1]} with SLA {c[2]!r} overdue {c[3]!r}, newest complete revision is {a['age']:.0f} s old, overdue={a['overdue']}")
                if "[" not in c[6] and sorted(x for x in c[6].split(",") if x) != (a["last_tags"] or []):
                    self.violate("multi-wrong", f"{cmd} showed {c[1]} with last tags {c[6]!r}, newest complete revision has {a['last_tags']}")
        elif verb == "show-daemon" and ok and every == some:
            got = sum(int(l.split("│")[2]) for l in out.splitlines() if l.startswith("│"))
            if not any(t0 - 3 * US <= t <= t1 for t, c in inc.cfgs):
                want = len(every) + len(self.dead_now(host, inc.cfgs[-1][1]))
                self.res.probes["multi-compared"] += 1
                if got != want:
                    self.violate("multi-wrong", f"{cmd} showed {got} jobs and directories, there are {want}")
        elif verb == "backup":
            for j in every if ok else ():
                self.api.append(dict(host=host, t0=t0, what="run", job=j, st=202, t1=t1, inc=inc, spec=None))
                self.res.probes["multi-triggered"] += 1
            for j in some:
                self.disturb(host, j, t0, t1, "run-now")
        if verb == "reports-delete":
            for h, j, i in list(self.reportset):
                if h == host and j in some:
                    self.reportset.discard((h, j, i))
        if not ok and every:
            # is there a reason for the failure?
            why = self.disturbed(host, None, t0 - 2 * US, t1, ("cli", "orphan", "run-now", "clock")) or not quiet or every != some
            why = why or self.running(host) is not inc or t0 - inc.t0 < 3 * US or any(t0 - 5 * US <= t <= t1 for t, c in inc.cfgs)
            why = why or any(self.disturbed(host, j, t0 - US, t1, ("run-now", "clock", "cli")) for j in every)
            why = why or any(o is not p and o.meta["multi"]["t0"] <= t1 and not (o.exited and o.meta["multi"].get("t1", 0) < t0) for o, _ in self.multis)
            if verb in ("distrust", "rm", "tags"):
                why = why or any(r.t0 - US <= t1 and (r.t1 is None or r.t1 + 2 * US >= t0 or any(x[2] is None or x[2] + 2 * US >= t0 for x in r.parts)) for j in every for r in self.byjob[host, j])
                why = why or any(h == host and j in every and (part[2] is None or part[2] >= t0) for h, j, part, q in self.gcs)
                # (the daemon itself takes the locks for moments)
                why = why or verb == "distrust" and spec != "local" and any(m["server"] for j in every for m in rec["state"].get(j, {}).values())
            if verb == "backup" and "--bg" not in argv and len(every) == 1:
                why = True
            if not why:
                self.violate("multi-fails", f"{cmd} ended with {p.exit_code}: {p.crash or p.stderr.getvalue()[-800:]}")
        rec["t1"] = t1
        rec.pop("state")

    def dead_now(self, host, cfg):
        return [n for n, i in self.fs(host).lookup(BASE).children.items() if i.kind == "d" and n not in cfg["jobs"]]

    def ev_hang(self, e, host, inc):
        """The daemon does not get to run for some time."""
        if inc is None:
            return
        self.k.count_fault("daemon_stall")
        self.disturb(host, None, self.k.now, self.k.now + int(e["dur"] * US), "hang")
        self.stalls[inc.proc] = int(e["dur"] * US)

    def ev_clireload(self, e, host, inc):
        """New configuration, then `backy reload-daemon`."""
        if inc is None:
            return
        if e.get("cfg"):
            self.write_cfg(host, e["cfg"])
        t0 = self.k.now
        self.disturb(host, None, t0, t0 + US, "reload")
        self.apply_cfg(host, inc)
        self.seq += 1
        p = self.w.prog(f"cli-{self.seq}", ["/usr/bin/backy", "-c", CONF, "reload-daemon"], host=self.k.hosts[host], cwd="/")

        def end(q):
            if q.exit_code == 0 or inc.proc.exited:
                return
            if not self.disturbed(host, None, t0 - 5 * US, self.k.now, ("reload", "cli", "orphan", "run-now", "clock")) and t0 - inc.t0 > 3 * US and sum(t >= t0 - 5 * US for t, c in inc.cfgs) == 1:
                self.violate("reload-refused", f"backy reload-daemon on {host} at {t0/US:.3f} ended with {q.exit_code} {q.crash or q.stderr.getvalue()[-500:]}")
            from sim.procs import send_signal
            send_signal(self.k, inc.proc, signal.SIGHUP)
        p.exit_callbacks.append(end)

    def ev_status(self, e, host, inc):
        if inc is None or not self.token(host):
            return
        m = self.model_status(host)
        rec = self.call(host, dict(method="GET", path="/v1/status", headers=self.auth(host)), "status")
        rec["model"] = m
        rec["wall0"] = self.wall(host)

    # --------------------------------------------------------- run it all

    def run(self):
        k = self.k
        plan = self.plan
        for h in plan["hosts"]:
            if h.get("start", 0) is not None:
                k.at(int(h.get("start", 0) * US), lambda n=h["name"]: self.ev_start({}, n, self.running(n)))
        self.schedule_events()
        end = int(plan["end"] * US)
        t = 0
        while t < end and len(self.runs) < 400:
            t = min(end, t + 7200 * US)
            k.run(until=t)
            k.now = max(k.now, t)
        self.t_end = k.now
        self.do_finale()
        for r in self.runs:
            r.close(k.now)
        self.analyse()

    def do_finale(self):
        """Stop all faults; everything must work again."""
        k = self.k
        self.finale = True
        self.eio = [e[:3] + (min(e[3], k.now),) + e[4:] for e in self.eio]
        for g in self.garbage:
            g()
        net = self.w.net
        for pair in list(net.cuts):
            net.heal(*sorted(pair))
        for h in self.hosts:
            if self.running(h) is None and h not in self.stopped:
                self.start(h)
        k.run(until=k.now + 30 * US)
        self.look_for_leaks()
        self.t_fin = k.now
        for h in self.hosts:
            for job in self.cfg_in_force(h)["jobs"]:
                if self.running(h):
                    self.fire(dict(ev="run", host=h, job=job, fin=True))
        k.run(until=k.now + int(self.plan.get("finale", 1200) * US))
        self.fire(dict(ev="status", fin=True))
        k.run(until=k.now + 60 * US)
        self.look_for_leaks()
        # orderly end
        self.t_term = k.now
        for h in self.hosts:
            self.fire(dict(ev="term", host=h, fin=True))
        k.run(until=k.now + 10 * US)

    def look_for_leaks(self):
        """What a daemon holds on to must not grow with its history."""
        k = self.k
        for h in self.hosts:
            inc = self.running(h)
            if inc is None or k.now - inc.t0 < 60 * US:
                continue
            p = inc.proc
            jobs = max(len(c["jobs"]) for t, c in inc.cfgs)
            history = f"on {h} after {(k.now - inc.t0) // US} s, {sum(r.daemon is p for r in self.runs)} runs and {len(inc.cfgs) - 1} changes of the configuration of {jobs} jobs"
            tasks = collections.Counter(t.get_coro().__qualname__ for t in p.loop.sim_tasks() if not t.done())
            tasks.pop("RequestHandler.start", 0)  # one for every connection of a client
            n = tasks.total()
            self.res.probes["leaks-looked"] += 1
            if n > 8 + 4 * jobs:
                self.violate("leak-tasks", f"the daemon {history} has {n} tasks: {dict(tasks)}")
            out = [c for c in self.w.net.conns if c.cproc is p and not c.dead and c.ct is not None and not c.ct._lost]
            if len(out) > 2 + jobs * len(self.hosts):
                self.violate("leak-connections", f"the daemon {history} holds {len(out)} connections to others")
            if len(p.fds) > 4 + jobs:
                fs = self.fs(h)
                self.violate("leak-files", f"the daemon {history} holds {len(p.fds)} open files: {collections.Counter(getattr(fs.fds[f], 'path', None) for f in p.fds)}")
            kids = [q for q in k.procs if q.parent is p and not q.exited]
            if len(kids) > 2 * jobs + 2:
                self.violate("leak-children", f"the daemon {history} has {len(kids)} child processes: {collections.Counter(q.argv[0] for q in kids)}")
            socks = sum(s.proc is p for s in self.w.net.listeners.values())
            if socks > max(len(c.get("addrs", ["127.0.0.1"])) for t, c in inc.cfgs):
                self.violate("leak-sockets", f"the daemon {history} listens on {socks} sockets")

    # ------------------------------------------------------------ analysis

    def analyse(self):
        k = self.k
        for inc in self.incs:
            if inc.t1 is None:
                inc.t1 = k.now
        self.an_limits()
        self.an_runnow()
        self.an_stretches()
        self.an_missed()
        self.an_phases()
        self.an_dirs()
        self.an_purges()
        self.an_data()
        self.an_reports()
        self.an_removed_jobs()

    def limit_at(self, inc, t):
        lim = 1
        for tt, c in inc.cfgs:
            if tt <= t:
                lim = c.get("limit", 1)
        return lim

    def an_limits(self):
        for inc in self.incs:
            if inc.expect != "run":
                continue
            # intervals of unchanged limit
            cuts = [inc.t0]
            last = inc.cfgs[0][1].get("limit", 1)
            for t, c in inc.cfgs[1:]:
                if c.get("limit", 1) != last:
                    cuts.append(t)
                    last = c.get("limit", 1)
            mine = [r for r in self.runs if r.daemon is inc.proc]
            for i, c0 in enumerate(cuts):
                c1 = cuts[i + 1] if i + 1 < len(cuts) else inc.t1
                lim = self.limit_at(inc, c0)
                for cls in ("fast", "slow"):
                    ev = []
                    for r in mine:
                        if r.cls != cls or r.t0 < c0 or r.t0 >= c1:
                            continue
                        if self.disturbed(r.host, r.job, 0, r.t0, ("eio", "run-now", "clock", "reload")) or (i and any(x.t0 < c0 and x.end > c0 for x in mine)):
                            continue
                        ev.append((r.t0, 1, r))
                        ev.append((min(r.end, c1), -1, r))
                    ev.sort(key=lambda x: (x[0], x[1]))
                    n = 0
                    for t, d, r in ev:
                        n += d
                        if n > lim:
                            self.violate("limit-exceeded", f"{n} {cls} jobs run at {t/US:.3f} on {inc.host}, worker-limit is {lim}: {[x for x in mine if x.t0 <= t < x.end]}")
                            break
                        if n == lim and d > 0:
                            self.res.probes["limit-reached"] += 1

    def blocked_time(self, host, x, y, limit, job, cls=None):
        """Time in [x, y] during which no slot of the class is free."""
        ev = []
        for r in self.runs:
            if r.host == host and r.end > x and r.t0 < y and r.job != job:
                if cls is not None and r.cls != cls and not self.stale_class(r):
                    continue
                ev.append((max(x, r.t0), 1))
                ev.append((min(y, r.end), -1))
        ev.sort(key=lambda e: (e[0], -e[1]))
        n = 0
        tot = 0
        last = x
        for t, d in ev:
            if n >= limit:
                tot += t - last
            n += d
            last = t
        return tot

    def cover(self, iv, x, y):
        """Total length of the union of intervals within [x, y]."""
        tot = 0
        cur = x
        for a, b in sorted(iv):
            a, b = max(a, cur), min(b, y)
            if b > a:
                tot += b - a
                cur = b
        return tot

    def job_until(self, inc, job, t):
        """Until when does the job stay configured as it is at time t?"""
        cfg = None
        for tt, c in inc.cfgs:
            if tt <= t:
                cfg = c
        for tt, c in inc.cfgs:
            if tt > t and not same_job(cfg, c, job):
                return tt
        return inc.t1

    def an_runnow(self):
        slack = 400 * US if len(self.hosts) > 1 else 120 * US
        for rec in self.api:
            if rec["what"] != "run" or rec["st"] != 202 or rec["inc"] is None:
                continue
            inc, host, job = rec["inc"], rec["host"], rec["job"]
            t = rec["t1"]
            end = self.job_until(inc, job, rec["t0"])
            later = [r for r in self.byjob[host, job] if r.t0 >= rec["t0"]]
            stop = min(end, later[0].t0 if later else 1 << 62)
            if self.disturbed(host, job, rec["t0"], min(stop, t + slack * 3), ("run-now", "clock")):
                continue
            busy = [(r.t0, r.end) for r in self.byjob[host, job]]
            # it may wait already, and does so with the limit from then
            since = max([inc.t0] + [b for a, b in busy if a < t and b <= t])
            lim = min([self.limit_at(inc, since)] + [c.get("limit", 1) for x, c in inc.cfgs if since <= x <= stop])
            # of the class it has when it gets to wait for a slot
            cls = later[0].cls if later and later[0].t0 == stop else self.class_at(host, job, max([t] + [b for a, b in busy if a <= t < b and b <= stop]))
            # slots of this class taken by others
            ev = []
            free = t
            for r in self.runs:
                if r.host == host and r.job != job and r.daemon is inc.proc and (r.cls == cls or self.stale_class(r)):
                    ev.append((r.t0, 1))
                    ev.append((r.end, -1))
            ev.sort(key=lambda e: (e[0], -e[1]))
            n = 0
            taken = []
            for i, (tt, d) in enumerate(ev):
                n += d
                if n >= lim and d > 0 and n == lim:
                    taken.append([tt, None])
                elif n == lim - 1 and d < 0 and taken:
                    taken[-1][1] = tt
            taken = [(a, b if b is not None else 1 << 62) for a, b in taken]
            un = (stop - t) - self.cover(busy + taken, t, stop)
            self.res.probes["run-now-followed"] += 1
            if un > slack:
                self.violate("run-now-lost", f"run of {host}/{job} accepted at {t/US:.3f}, "
                             + (f"next attempt only at {later[0].t0/US:.3f}" if later and later[0].t0 == stop else f"none until {stop/US:.3f}")
                             + f" although it was idle with a free {cls} slot for {un/US:.0f} s")

    def stale_class(self, r):
        """Did somebody else complete a backup of the job while it waited?"""
        return any(h == r.host and j == r.job and w in ("orphan", "cli") and a <= r.t0 <= b for h, j, a, b, w in self.dist)

    def class_at(self, host, job, t):
        """Speed class from the metadata as of time t."""
        state = {}
        for m in self.seedrevs.get((host, job), ()):
            state[m["uuid"]] = m
        for tt, h, j, u, who, old, new in self.revlog:
            if tt > t:
                break
            if h == host and j == job:
                if new is None:
                    state.pop(u, None)
                else:
                    state[u] = new
        l = [m for m in state.values() if m["complete"]]
        if not l:
            return "slow"
        d = max(l, key=lambda m: m["ts"])["stats"].get("duration")
        return "fast" if isinstance(d, (int, float)) and d < 600 else "slow"

    def state_at(self, host, job, t):
        state = {}
        for m in self.seedrevs.get((host, job), ()):
            state[m["uuid"]] = m
        for tt, h, j, u, who, old, new in self.revlog:
            if tt > t:
                break
            if h == host and j == job:
                if new is None:
                    state.pop(u, None)
                else:
                    state[u] = new
        return state

    def stretches(self):
        """(inc, job, cfg, c0, c1): the job is configured unchanged."""
        for inc in self.incs:
            if inc.expect != "run":
                continue
            jobs = set()
            for t, c in inc.cfgs:
                jobs |= set(c["jobs"])
            for job in sorted(jobs):
                c0 = None
                cfg = None
                for t, c in inc.cfgs:
                    if c0 is None:
                        if job in c["jobs"]:
                            c0, cfg = t, c
                    elif not same_job(cfg, c, job):
                        yield inc, job, cfg, c0, t
                        c0, cfg = (t, c) if job in c["jobs"] else (None, None)
                if c0 is not None:
                    yield inc, job, cfg, c0, inc.t1

    def an_stretches(self):
        for inc, job, cfg, c0, c1 in self.stretches():
            host = inc.host
            if any(c.get("peers") for t, c in inc.cfgs):
                continue
            sched = {t: secs(s["interval"]) * US for t, s in cfg["schedules"][cfg["jobs"][job]["schedule"]].items()}
            imin = min(sched.values())
            lim = min(c.get("limit", 1) for t, c in inc.cfgs)
            atts = [r for r in self.byjob[host, job] if r.daemon is inc.proc and c0 <= r.t0 <= c1]
            dividing = all(v % imin == 0 for v in sched.values())
            # series of failures
            n = 0
            prev = None
            prev2 = series = c0
            for r in atts + [None]:
                if prev is not None:
                    gap_end = r.t0 if r is not None else c1
                    # a request may be remembered during one more attempt
                    quiet = not self.disturbed(host, job, prev.t0, gap_end) and not any(
                        h == host and j == job and w == "run-now" and prev2 <= a <= gap_end for h, j, a, b, w in self.dist)
                    prev2 = prev.t0
                    wait = self.blocked_time(host, prev.end, gap_end, lim, job)
                    bound = max(imin, 6 * 3600 * US)
                    if not self.disturbed(host, job, prev.end, gap_end, ("eio", "run-now", "reload", "clock")):
                        # however often things went wrong, six hours are the limit
                        last = max([prev.end] + [min(b, gap_end) for h, j, a, b, w in self.dist
                                                 if h == host and j in (None, job) and w == "eio" and b > prev.end and a < gap_end])
                        if gap_end - last > bound + wait + SLACK + 120 * US:
                            self.violate("job-stuck", f"{host}/{job}: no attempt between {prev.end/US:.1f} and {gap_end/US:.1f} ({(gap_end-prev.end)/3.6e9:.2f} h), shortest interval {imin/3.6e9:.2f} h, waits {wait/US:.0f} s")
                    failed = prev.rc != 0 or prev.late
                    if not failed:
                        series = prev.t0
                    n = n + 1 if failed else 0
                    if quiet and failed and prev.t1 is not None and not self.disturbed(host, job, series, prev.t0, ("run-now", "clock")):
                        want = min(2 ** n, 360) * 60 * US
                        gap = gap_end - prev.end
                        if gap > want + wait + SLACK:
                            self.violate("backoff-long", f"{host}/{job}: after {n} failures in a row the next attempt comes after {gap/US:.0f} s instead of {want/US:.0f} s")
                        elif r is not None and gap < want - SLACK:
                            self.violate("backoff-short", f"{host}/{job}: after {n} failures in a row the next attempt comes after {gap/US:.0f} s already, expected {want/US:.0f} s")
                        else:
                            self.res.probes["backoff-checked"] += 1
                    elif quiet and not failed and r is not None:
                        gap = gap_end - prev.end
                        if gap > imin + wait + SLACK:
                            self.violate("too-rare", f"{host}/{job}: after a success at {prev.end/US:.1f} the next attempt comes only at {r.t0/US:.1f}, shortest interval is {imin/US:.0f} s, wait {wait/US:.0f} s")
                prev = r
            # first attempt after start
            first_end = atts[0].t0 if atts else c1
            if not self.disturbed(host, job, c0 - 5 * US, first_end) and not self.disturbed(host, job, c0 - 4 * 86400 * US, c0, ("run-now", "clock", "eio", "power", "reload", "cli")):
                wait = self.blocked_time(host, c0, first_end, lim, job)
                if first_end - c0 > imin + wait + SLACK:
                    self.violate("job-stuck" if not atts else "too-rare", f"{host}/{job}: configured at {c0/US:.1f}, first attempt {'at %.1f' % (first_end/US) if atts else 'not until %.1f' % (c1/US)}, shortest interval {imin/US:.0f} s, wait {wait/US:.0f} s")
                st = self.state_at(host, job, c0)
                comp = [m for m in st.values() if m["complete"]]
                if comp:
                    w0 = self.wall_at(host, c0)
                    missed = {t for t, iv in sched.items() if not any(t in m["tags"] and m["ts"] > w0 - iv / US - 5 for m in comp)}
                    if missed and first_end - c0 > 300 * US + wait + SLACK:
                        self.violate("catch-up-late", f"{host}/{job}: {sorted(missed)} were missed at {c0/US:.1f}, but the first attempt comes {'at %.1f' % (first_end/US) if atts else 'not until %.1f' % (c1/US)}")
                    elif missed and atts:
                        self.res.probes["catch-up"] += 1
            # undisturbed, successful stretches
            seg = []
            for r in atts + [None]:
                if r is not None and r.rc == 0 and not r.late and (not seg or not self.disturbed(host, job, seg[-1].t0, r.t0)):
                    seg.append(r)
                    continue
                if seg:
                    tail = c1
                    if r is not None:
                        tail = r.t0
                    self.segment(host, job, sched, imin, dividing, lim, seg, seg[0] is atts[0] and not self.disturbed(host, job, c0, seg[0].t0), r, tail)
                seg = [r] if r is not None and r.rc == 0 and not r.late else []

    def wall_at(self, host, t):
        off = self.k.hosts[host].clock_offset if not any(h == host and w == "clock" and a > t for h, j, a, b, w in self.dist) else None
        if off is None:
            off = 0
            for e in self.plan.get("events", []):
                if e["ev"] == "clock" and e.get("host", "h0") == host and "t" in e and e["t"] * US <= t:
                    off += int(e["delta"] * US)
        return (self.k.epoch + t + off) / US

    def segment(self, host, job, sched, imin, dividing, lim, seg, fresh, nxt, tail):
        """seg: consecutive successful attempts without any disturbance."""
        longest = max(r.end - r.t0 for r in seg)
        waits = [self.blocked_time(host, max(0, r.t0 - imin), r.t0, lim, job) for r in seg]
        tight = dividing and longest + max(waits) < imin // 2
        self.res.probes["segment-tight" if tight else "segment-loose"] += 1
        for t, iv in sched.items():
            carry = [r for r in seg if t in r.tags]
            # everything up to the end of the segment must be covered
            pts = [(a.t0, b.t0) for a, b in zip(carry, carry[1:])]
            if carry and tail is not None and not self.disturbed(host, job, carry[-1].t0, tail) and (nxt is None or nxt.rc == 0 or t not in nxt.tags):
                if nxt is None or t not in nxt.tags:
                    pts.append((carry[-1].t0, tail))
            onphase = False
            for a, b in pts:
                wait = self.blocked_time(host, a, b, lim, job)
                if tight and onphase:
                    bound = iv + wait + SLACK
                elif tight:
                    bound = iv + imin + longest + wait + SLACK
                else:
                    bound = iv + 2 * imin + 2 * longest + 2 * wait + 900 * US
                if b - a > bound:
                    self.violate("tag-gap", f"{host}/{job}: no backup with tag {t} between {a/US:.1f} and {b/US:.1f} ({(b-a)/US:.0f} s), interval {iv/US:.0f} s, wait {wait/US:.0f} s, longest run {longest/US:.0f} s")
                onphase = abs(b - a - iv) <= SLACK and wait == 0
            if tight:
                # one extra backup may make up for an earlier failure shortly
                # before the regular one
                c2 = [r for r in carry if r not in seg[:2]]
                for a, b in zip(c2, c2[2:]):
                    wait = self.blocked_time(host, max(0, a.t0 - imin), a.t0, lim, job)
                    if b.t0 - a.t0 < iv - wait - SLACK:
                        self.violate("too-often", f"{host}/{job}: three backups with tag {t} between {a.t0/US:.1f} and {b.t0/US:.1f}, interval {iv/US:.0f} s")
        if tight:
            n = len(sched) + 1
            for a, b in zip(seg[1:], seg[1 + n:]):
                wait = self.blocked_time(host, max(0, a.t0 - imin), a.t0, lim, job)
                if b.t0 - a.t0 < imin - wait - SLACK:
                    self.violate("too-often", f"{host}/{job}: {n + 1} attempts between {a.t0/US:.1f} and {b.t0/US:.1f}, shortest interval {imin/US:.0f} s")
            regular = [r for p, r in zip(seg, seg[1:]) if r.t0 - p.end > 5 * US][1:]
            for a, b in zip(regular, regular[1:]):
                wait = self.blocked_time(host, max(0, a.t0 - imin), a.t0, lim, job)
                if b.t0 - a.t0 < imin - wait - SLACK and a.tags & b.tags:
                    self.violate("too-often", f"{host}/{job}: attempts at {a.t0/US:.1f} and {b.t0/US:.1f}, shortest interval {imin/US:.0f} s")
            for r in seg[1:]:
                if not r.tags:
                    self.violate("no-tags", f"{host}/{job}: scheduled backup at {r.t0/US:.1f} has no tags")
            w = dict(zip(map(id, seg), waits))
            for r in regular:
                if w[id(r)] == 0:
                    self.phases[job, json.dumps(sorted(sched.items()))].append(((r.wall0 * US) % imin, imin, r))
        else:
            self.loose += 1

    def an_missed(self):
        """Tags that were missed when a job went to wait are in the next backup."""
        for inc, job, cfg, c0, c1 in self.stretches():
            host = inc.host
            sched = cfg["schedules"][cfg["jobs"][job]["schedule"]]
            prev = c0
            for r in self.byjob[host, job]:
                if r.daemon is not inc.proc or not c0 <= r.t0 <= c1:
                    continue
                if not self.disturbed(host, job, prev - US, r.t0, ("run-now",)) and not any(c.get("peers") for t, c in inc.cfgs):
                    w = self.wall_at(host, prev)
                    st = [m for m in self.state_at(host, job, prev).values() if m["complete"]]
                    for t, s in sched.items():
                        iv = secs(s["interval"])
                        if not any(t in m["tags"] and m["ts"] > w - iv - 5 for m in st) and t not in r.tags:
                            self.violate("missed-not-included", f"{host}/{job}: backup at {r.t0/US:.1f} with tags {sorted(r.tags)} lacks {t}, which had been missed since before {prev/US:.1f}")
                    extra = r.tags - set(sched)
                    if extra:
                        self.violate("foreign-tag", f"{host}/{job}: backup at {r.t0/US:.1f} carries {sorted(extra)} which is not in its schedule {sorted(sched)}")
                prev = r.end if r.end is not None else r.t0

    def an_phases(self):
        allp = {}
        for (job, s), l in self.phases.items():
            p0, imin, r0 = l[0]
            for p, i, r in l[1:]:
                d = abs(p - p0)
                d = min(d, imin - d)
                if d > SLACK:
                    self.violate("phase-changes", f"{job}: {r0} and {r} are not at the same phase of the interval {imin/US:.0f} s ({p0/US:.0f} vs {p/US:.0f})")
                    break
            allp.setdefault(s, {})[job] = (p0, imin)
        for s, d in allp.items():
            if len(d) >= 4 and min(i for p, i in d.values()) >= 1800 * US:
                v = sorted(p for p, i in d.values())
                if v[-1] - v[0] < 5 * US:
                    self.violate("no-spread", f"jobs {sorted(d)} all start at the same time {v[0]/US:.0f} s after the full interval")

    def an_removed_jobs(self):
        """No attempt for a job that is not configured."""
        for r in self.runs:
            for inc in self.incs:
                if inc.proc is r.daemon:
                    cfgs = [c for t, c in inc.cfgs if t <= r.t0 - 2 * US][-1:] + [c for t, c in inc.cfgs if r.t0 - 2 * US < t <= r.t0]
                    if not any(r.job in c["jobs"] for c in cfgs):
                        self.violate("reload-not-exact", f"attempt {r} for a job that is not configured")

    def an_data(self):
        for host in self.hosts:
            fs = self.fs(host)
            for job, revs in self.revs[host].items():
                if (host, job) in self.dirwatch:
                    continue
                for m in revs.values():
                    if m["complete"] and not m["server"] and m["uuid"] not in self.nodata:
                        try:
                            d = fs.get(f"{BASE}/{job}/{m['uuid']}")
                        except OSError:
                            d = None
                        if d != content(job):
                            self.violate("data-lost", f"{host}/{job}: data of the complete revision {m['uuid']} is {'missing' if d is None else 'wrong'}")

    # --------------------------------------------------------------- purge

    def up_since(self, host, t):
        """Start of the daemon's life that includes t (None: not running)."""
        for inc in self.incs:
            if inc.host == host and inc.expect == "run" and inc.t0 <= t <= (t if inc.t1 is None else inc.t1):
                return inc.t0
        return None

    def service_window(self, host, name, t):
        """Since when could the daily services do their work on directory
        `name` without any disturbance, as seen at time t?"""
        t0 = self.up_since(host, t)
        if t0 is None:
            return None
        for h, j, a, b, what in self.dist:
            if h == host and j in (None, name) and a <= t and what in ("eio", "clock", "power", "cli"):
                t0 = max(t0, min(b, t))
        return t0

    def an_dirs(self):
        """Old directories must be gone after a day."""
        t = self.t_term
        for host in self.hosts:
            fs = self.fs(host)
            cfg = self.cfg_in_force(host)
            wall = self.wall_at(host, t) * US
            for name, i in sorted(fs.lookup(BASE).children.items()):
                if i.kind != "d":
                    continue
                if name in cfg["jobs"]:
                    continue
                t0 = self.service_window(host, name, t)
                if t0 is None:
                    continue
                newest = self.newest(host, i)
                # when did it become old enough?
                due = max(t0, t - (wall - newest - DAYS93 * US), self.inactive_since(host, name))
                if t - due > DAY + 3600 * US:
                    self.violate("not-purged", f"{host}: {name} has not changed for {(wall - newest)/US/86400:.3f} days, the daemon ran undisturbed since {t0/US:.0f}, and it is still there at {t/US:.0f}")
                elif wall - newest > DAYS93 * US:
                    self.res.probes["purge-not-yet-due"] += 1
                else:
                    self.res.probes["directory-kept"] += 1

    def inactive_since(self, host, name):
        t = 0
        for inc in self.incs:
            if inc.host == host:
                for tt, c in inc.cfgs:
                    if name in c["jobs"]:
                        t = 1 << 62
                    elif t == 1 << 62:
                        t = tt
        return t

    def an_purges(self):
        """Accepted purge requests must have been carried out."""
        t = self.t_term
        for rec in self.api:
            if rec["what"] != "purge" or rec["st"] != 202:
                continue
            host, name = rec["host"], rec["job"]
            if (host, name) in self.dirwatch or self.inactive_since(host, name) > rec["t0"]:
                continue
            i = self.fs(host).lookup(BASE).children.get(name)
            if i is None or i.kind != "d" or "config" not in i.children:
                continue
            t0 = self.service_window(host, name, t)
            if t0 is None:
                continue
            self.res.probes["purge-followed"] += 1
            # a failed attempt is repeated a day later
            due = max([t0, rec["t1"]] + [q[2][2] or t for q in self.gcs if q[0] == host and q[1] == name and q[2][3] != 0])
            want = {m["uuid"] for m in self.revs[host][name].values() if not m["server"]}
            # what has become garbage later is the business of later requests
            left = sorted(n for n, x in i.children.items() if UUID.fullmatch(n) and n not in want
                          and not any(j == name and h == host and u == n and tt > rec["t0"] for tt, h, j, u, *_ in self.revlog))
            if t - due > DAY + 3600 * US and left:
                self.violate("purge-not-done", f"{host}: purge of {name} was accepted at {rec['t1']/US:.0f}, the daemon ran undisturbed since {t0/US:.0f}, and unneeded data {left[:2]} is still there at {t/US:.0f}")
            elif not left:
                self.res.probes["purge-done"] += 1

    # -------------------------------------------------------------- status

    def reports(self, host, job):
        i = self.fs(host).lookup(BASE).children.get(job)
        q = i.children.get("quarantine") if i is not None and i.children else None
        return sorted(n[:-7] for n in (q.children if q is not None and q.children else ()) if n.endswith(".report"))

    def model_job(self, host, job, cfg):
        sched = cfg["schedules"][cfg["jobs"][job]["schedule"]]
        revs = sorted(self.revs[host][job].values(), key=lambda m: m["ts"])
        comp = [m for m in revs if m["complete"]]
        lim = 1.5 * min(secs(x["interval"]) for x in sched.values())
        age = self.wall(host) - comp[-1]["ts"] if comp else 0
        manual = set()
        for m in comp:
            manual |= {t for t in m["tags"] if t.startswith("manual:")}
        last = comp[-1] if comp and (len(comp) == 1 or comp[-2]["ts"] != comp[-1]["ts"]) else None
        return dict(overdue=age > lim, close=abs(age - lim) < 10, age=age,
                    n=len(comp), last_time=last["ts"] if last else None,
                    last_tags=sorted(last["tags"]) if last else None,
                    last_duration=last["stats"].get("duration") if last else None,
                    manual=sorted(manual), reports=self.reports(host, job),
                    unsynced=sum(1 for m in comp if m["server"] and m["tags"] != m["orig"]),
                    local=sum(1 for m in comp if not m["server"]), ties=comp and last is None)

    def model_status(self, host):
        inc = self.running(host)
        cfg = inc.cfgs[-1][1] if inc else self.hcfg[host]
        if inc is None:
            # what the command line knows is what a daemon has stored
            d = {}
            for j in cfg["jobs"]:
                try:
                    sched = yaml.load(bytes(self.fs(host).lookup(f"{BASE}/{j}/config").data), Loader=Loader)["schedule"]
                except Exception:
                    continue
                d[j] = self.model_job(host, j, dict(schedules={"x": sched}, jobs={j: dict(schedule="x")}))
            return d
        return {j: self.model_job(host, j, cfg) for j in cfg["jobs"]}

    @staticmethod
    def steady(a, b):
        return {k: v for k, v in a.items() if k != "age"} == {k: v for k, v in b.items() if k != "age"}

    def ans_status(self, rec):
        host, m0 = rec["host"], rec["model"]
        inc = rec["inc"]
        if inc is None or inc.proc.exited or self.disturbed(host, None, rec["t0"] - 5 * US, self.k.now, ("run-now", "orphan", "cli")):
            return
        if rec["st"] != 200:
            self.violate("status-wrong", f"status request at {rec['t0']/US:.3f} got {rec['st']} {str(rec['body'])[:200]}")
            return
        m1 = self.model_status(host)
        got = {x["job"]: x for x in rec["body"]}
        if set(got) != set(m1) and set(m0) == set(m1):
            self.violate("status-wrong", f"status lists {sorted(got)}, configured are {sorted(m1)}")
            return
        for j, a in m0.items():
            b = m1.get(j)
            if b is None or j not in got or not self.steady(a, b):
                continue
            g = got[j]
            self.res.probes["status-compared"] += 1
            if not a["close"]:
                if (g["sla"] != "OK") != a["overdue"] or bool(g["sla_overdue"]) != a["overdue"]:
                    self.violate("status-sla", f"{host}/{j}: status says sla={g['sla']!r} sla_overdue={g['sla_overdue']}, newest complete revision is {a['age']:.0f} s old, overdue={a['overdue']}")
                elif a["overdue"] and abs(g["sla_overdue"] - a["age"]) > 10:
                    self.violate("status-sla", f"{host}/{j}: status says sla_overdue={g['sla_overdue']}, newest complete revision is {a['age']:.0f} s old")
            tags = sorted(x.strip() for x in (g["manual_tags"] or "").split(",") if x.strip())
            if tags != a["manual"]:
                self.violate("status-wrong", f"{host}/{j}: manual tags {tags} reported, {a['manual']} on disk")
            for f, k in (("problem_reports", len(a["reports"])), ("unsynced_revs", a["unsynced"]), ("local_revs", a["local"])):
                if g[f] != k:
                    self.violate("status-wrong", f"{host}/{j}: {f} is {g[f]}, on disk are {k}")
            if a["ties"]:
                continue
            lt = datetime.datetime.fromisoformat(g["last_time"]).timestamp() if g["last_time"] else None
            if (lt is None) != (a["last_time"] is None) or (lt is not None and abs(lt - a["last_time"]) > 1):
                self.violate("status-wrong", f"{host}/{j}: last_time is {g['last_time']}, newest complete revision is of {a['last_time']}")
            ltags = sorted(x for x in (g["last_tags"] or "").split(",") if x)
            if ltags != (a["last_tags"] or []):
                self.violate("status-wrong", f"{host}/{j}: last_tags is {ltags}, newest complete revision has {a['last_tags']}")

    def check_cli(self, e, host):
        """backy check, for one directory or via the daemon."""
        job = e["job"]
        m0 = self.model_status(host)
        if job not in m0:
            return
        inc = self.running(host)
        argv = ["check"]
        t0 = self.k.now
        rx = e.get("regex")
        if rx is not None:
            if inc is None:
                return
            jobs = [j for j in m0 if re.search(rx, j)]
        else:
            jobs = [job]
        self.seq += 1
        cmd = ["/usr/bin/backy", "-c", CONF] + (["--jobs", rx] if rx is not None else ["-C", f"{BASE}/{job}"]) + argv
        p = self.w.prog(f"check-{self.seq}", cmd, host=self.k.hosts[host])

        def end(q):
            if self.disturbed(host, None, t0 - 5 * US, self.k.now, ("run-now", "orphan", "cli")) or any(
                    self.disturbed(host, j, t0 - 5 * US, self.k.now, ("run-now", "orphan", "cli")) for j in jobs):
                return
            m1 = self.model_status(host)
            if inc is not self.running(host) or not all(j in m0 and j in m1 and self.steady(m0[j], m1[j]) and not m0[j]["close"] for j in jobs):
                return
            want = 1 if not jobs else 0  # no match is an error
            for j in jobs:
                want = max(want, 2 if m0[j]["overdue"] else 0, 1 if m0[j]["reports"] else 0)
            self.res.probes[f"check-exit-{want}"] += 1
            if q.exit_code != want:
                self.violate("check-wrong", f"{' '.join(cmd[3:])} on {host} ended with {q.exit_code}, expected {want}: " + "; ".join(
                    f"{j}: age {m0[j]['age']:.0f} s overdue={m0[j]['overdue']} reports={len(m0[j]['reports'])}" for j in jobs[:4]) + " " + (q.crash or ""))
        p.exit_callbacks.append(end)

    # ------------------------------------------------------------- reports

    def ev_report(self, e, host, inc):
        """A problem report appears (as verify writes them)."""
        fs = self.fs(host)
        if not fs.exists(f"{BASE}/{e['job']}"):
            return
        fs.makedirs(f"{BASE}/{e['job']}/quarantine")
        fs.put(f"{BASE}/{e['job']}/quarantine/{e['id']}.report", b"report\n")
        self.reportset.add((host, e["job"], e["id"]))

    def ev_reportdel(self, e, host, inc):
        job = e["job"]
        here = self.reports(host, job)
        if not here or not self.fs(host).exists(f"{BASE}/{job}/config"):
            return
        ids = here if e.get("all") else [here[e.get("n", 0) % len(here)]]
        for i in ids:
            self.reportset.discard((host, job, i))
        p = self.ev_cli(dict(job=job, argv=["reports-delete", "--all-reports"] if e.get("all") else ["reports-delete", ids[0]], disturbs=False), host, inc)
        t0 = self.k.now

        def end(q):
            if self.disturbed(host, job, t0 - US, self.k.now, ("run-now", "orphan", "cli")):
                return
            left = set(self.reports(host, job)) & set(ids)
            if left or q.exit_code:
                self.violate("report-not-deleted", f"{' '.join(q.argv[3:])} on {host} ended with {q.exit_code}, left {sorted(left)} {q.crash or ''}")
        p.exit_callbacks.append(end)

    def ev_reportlist(self, e, host, inc):
        job = e["job"]
        if not self.fs(host).exists(f"{BASE}/{job}/config"):
            return
        a = self.reports(host, job)
        t0 = self.k.now
        p = self.ev_cli(dict(job=job, argv=["reports-list"], disturbs=False), host, inc)

        def end(q):
            if self.disturbed(host, job, t0 - US, self.k.now, ("run-now", "orphan", "cli")) or a != self.reports(host, job):
                return
            got = sorted(q.stdout.getvalue().split())
            if got != a:
                self.violate("report-not-listed", f"reports-list of {host}/{job} says {got}, on disk are {a}")
        p.exit_callbacks.append(end)

    def an_reports(self):
        for host, job, i in sorted(self.reportset):
            if (host, job) not in self.dirwatch and i not in self.reports(host, job):
                self.violate("report-lost", f"{host}/{job}: problem report {i} is gone although nobody deleted it")

    # ------------------------------------------------------- authentication

    def state_digest(self, host):
        fs = self.fs(host)
        out = []
        for n, i in sorted(fs.lookup(BASE).children.items()):
            out.append((n, i.mtime, sorted(((c, x.mtime) for c, x in i.children.items() if c != "backy.log"), key=str) if i.kind == "d" else None))
        return json.dumps(out)

    def ev_probe(self, e, host, inc):
        """A request with some token; is it served, and only then?"""
        if inc is None:
            return
        cfg = inc.cfgs[-1][1]
        tok = e["auth"]
        headers = [] if tok is None else [("Authorization", tok)]
        rec = self.call(host, dict(method=e["method"], path=e["path"], headers=headers + [tuple(x) for x in e.get("extra", [])], body=e.get("body"),
                                   addr=e.get("addr", "127.0.0.1"), port=e.get("port", cfg.get("port", 6023)), pause=e.get("pause")), "probe")
        rec["auth"] = tok
        rec["cfg0"] = cfg
        rec["digest"] = self.state_digest(host)
        rec["nruns"] = len(self.runs)
        rec["kind"] = e.get("kind", "plain")
        if e.get("effect") == "run" and tok:
            self.disturb(host, e["job"], self.k.now, self.k.now, "run-now")

    def open_at(self, inc, t, addr, port):
        """Is the address served at time t?  None: just being changed."""
        st = set()
        addr = addr.replace("localhost", "127.0.0.1")
        for i, (tt, c) in enumerate(inc.cfgs):
            if tt <= t and self.settled(inc, i + 1, True) >= t:
                # (a different name for the same address is a change, too)
                st.add(tuple(a for a in c.get("addrs", ["127.0.0.1"]) if a.replace("localhost", "127.0.0.1") == addr and port == c.get("port", 6023)))
        if t < self.settled(inc, 0, True):
            st.add(None)
        return bool(st.pop()) if len(st) == 1 else None

    def settled(self, inc, i, sites):
        """When is the i-th configuration of this daemon in force?"""
        if i >= len(inc.cfgs):
            return 1 << 62
        t, c = inc.cfgs[i]
        e = t + 5 * US
        # Names must be looked up; this may have begun for a former one.
        for h, a, b, d in self.slowdns:
            if h == inc.host and a <= e and t <= b + 4 * d:
                e = max(e, b + 4 * d + 5 * US)
        if sites:
            for h, a, b, port in self.busyports:
                if h == inc.host and a <= e and t <= b and port == c.get("port", 6023):
                    e = max(e, b + 130 * US)
        return e

    def tokens_between(self, inc, t0, t1):
        """(valid during all of, valid at some time of) [t0, t1]."""
        sets = []
        for i, (tt, c) in enumerate(inc.cfgs):
            if tt <= t1 and self.settled(inc, i + 1, False) >= t0:
                sets.append({t for t, n in (c.get("tokens") or {}).items() if t and n})
        return set.intersection(*sets), set.union(*sets)

    def ans_probe(self, rec):
        host, inc = rec["host"], rec["inc"]
        if inc is None or inc.proc.exited:
            return
        t0, t1 = rec["t0"], self.k.now
        spec = rec["spec"]
        if self.disturbed(host, None, t0, t1, ("run-now", "orphan", "cli", "reload", "clock", "hup")):
            return
        addr, port = spec.get("addr", "127.0.0.1"), spec["port"]
        what = f"{spec['method']} {spec['path']} with {rec['auth']!r} at {addr}:{port}"
        o0, o1 = self.open_at(inc, t0, addr, port), self.open_at(inc, t1, addr, port)
        if o0 is False and o1 is False:
            if rec["st"] is not None:
                self.violate("api-address", f"{what} was answered with {rec['st']} although that address is not configured")
            else:
                self.res.probes["api-closed-address"] += 1
            return
        if o0 is None or o1 is None or o0 != o1:
            return
        if rec["st"] is None:
            self.violate("api-address", f"{what} got no answer although that address is configured: {rec['body']}")
            return
        allof, some = self.tokens_between(inc, t0, t1)
        auth = rec["auth"] or ""
        tok = auth[7:] if auth.startswith("Bearer ") else None
        if rec["kind"] == "odd":
            # how exactly such a header is read is not specified, but it must
            # not get through unless it contains a token
            if any(t in auth for t in some) or any(t in str(spec.get("headers")) for t in some):
                return
        valid = tok in allof
        if tok in some and not valid:
            return
        if valid:
            self.res.probes["api-served"] += 1
            if rec["st"] in (401, 0, 500):
                self.violate("token-refused", f"{what} was answered with {rec['st']} although the token is configured {str(rec['body'])[:200]}")
            return
        self.res.probes["api-refused"] += 1
        if rec["st"] != 401 and not (rec["kind"] == "odd" and rec["st"] in (400, 0)):
            self.violate("unauthorized-served", f"{what} was answered with {rec['st']} {str(rec['body'])[:100]}")
        text = rec["body"] if isinstance(rec["body"], str) else (rec["body"].decode("utf-8", "replace") if isinstance(rec["body"], bytes) else json.dumps(rec["body"]))
        for n in self.k.hosts[host].fs.lookup(BASE).children:
            if len(n) > 3 and n in text and n not in spec["path"]:
                self.violate("unauthorized-served", f"{what}: the answer names {n}")
        if rec["nruns"] == len(self.runs) and not any(r.end is None and (r.t1 is None or t1 - r.t1 < 5 * US) for r in self.runs) and not any(
                x["t1"] is None or x["t1"] >= t0 for x in self.api if x is not rec and x["host"] == host) and not any(x["t1"] is None or x["t1"] >= t0 for x in self.cli) and not any(
                i.host == host and any(t > t0 - 5 * US for t, c in i.cfgs) for i in self.incs) and not any(
                q[3].host.name == host and (q[2][2] is None or q[2][2] >= t0 - US) for q in self.gcs):
            d = self.state_digest(host)
            if d != rec["digest"]:
                self.violate("unauthorized-effect", f"{what} was answered with {rec['st']}, but something in the base directory has changed")
            else:
                self.res.probes["api-no-effect"] += 1


# ------------------------------------------------------------- generation

SCHEDS = [
    {"daily": "1d", "weekly": "7d", "monthly": "30d"},
    {"hourly": "1h", "daily": "1d"},
    {"daily": "1d"},
    {"quarter": "6h", "daily": "1d", "weekly": "1w"},
    {"short": "90m", "long": "4h"},
    {"tenmin": "10m", "hourly": "1h"},
    {"daily": "1d", "three": "3d"},
    {"hourly": "3600", "half": "12h"},
    {"a": "5h", "b": "7h", "c": "1d"},
]
DIVIDING = [0, 1, 2, 3, 5, 6, 7]
JOBS = ["a", "vm-b", "test01", "db.main", "web_2", "x", "mail", "k8s-1", "zz", "j10", "j11", "j12"]
DEAD = ["old01", "gone-vm", "dead.3", "archive", "lost+found", "tmp-x", "old02", "dead4"]


def gen_sched(rng, pick=None):
    s = SCHEDS[rng.choice(pick) if pick else rng.randrange(len(SCHEDS))]
    return {t: {"interval": i, "keep": rng.choice([1, 1, 2, 2, 3, 5])} for t, i in s.items()}


def imin_of(cfg, job):
    return min(secs(x["interval"]) for x in cfg["schedules"][cfg["jobs"][job]["schedule"]].values())


def gen_cfg(rng, njobs, pick=None, nsched=None, limit=None, names=None):
    scheds = {f"s{i}": gen_sched(rng, pick) for i in range(nsched or rng.choice([1, 1, 2, 3]))}
    names = names or rng.sample(JOBS, njobs)
    jobs = {n: {"schedule": rng.choice(sorted(scheds))} for n in names}
    return dict(jobs=jobs, schedules=scheds, limit=limit or rng.choice([1, 1, 2, 3]), callback=rng.random() < 0.4,
                tokens={"tok-cli": "cli", "tok-1": "one"}, clitoken="tok-cli")


def horizon(rng, cfgs, budget, lo=3 * 3600, hi=40 * 86400):
    rate = max(sum(1 / imin_of(c, j) for j in c["jobs"]) for c in cfgs)
    end = budget / max(rate, 1e-9)
    return max(lo, min(hi, end)) * rng.uniform(0.6, 1.0)


def gen_durations(rng, n, slow=0.3, fail=0.1, burst=0.05, long=0.0):
    """What the backup attempts of one job are like."""
    out = []
    left = 0
    base = rng.choice([0, 1, 20, 200]) if rng.random() > slow else rng.choice([590, 605, 900, 1800])
    for _ in range(n):
        if left > 0:
            left -= 1
            out.append(rng.choice([[0, "eio"], [rng.choice([1, 30, 400]), "eio"], [rng.choice([0, 5, 100]), "kill"], [0, "killat", rng.randrange(1, 60)]]))
            continue
        x = rng.random()
        if x < burst:
            left = rng.choice([1, 2, 3, 5, 9, 12])
        if x < fail:
            out.append([rng.choice([0, 1, 60]), rng.choice(["eio", "eio", "kill"])])
        elif x < fail + long:
            out.append([rng.choice([3600, 7200, 5 * 3600, 26 * 3600]), "ok"])
        elif x > 0.9:
            out.append([rng.choice([0, 599, 601, 599.9, 600.1, 300, 1200]), "ok"])
        else:
            out.append([base * rng.choice([1, 1, 1.1, 0.9]), "ok"])
    return out


def gen_history(rng, cfg, job, n, now=0, wild=False, remote=0.0):
    """Revisions a job has already.  Ages are relative to the start."""
    sched = cfg["schedules"][cfg["jobs"][job]["schedule"]]
    iv = {t: secs(x["interval"]) for t, x in sched.items()}
    keep = {t: x["keep"] for t, x in sched.items()}
    imin = min(iv.values())
    out = []
    age = rng.choice([0.05, 0.5, 1.0, 1.6, 3]) * imin * rng.uniform(0.5, 1)
    for i in range(n):
        tags = [t for t in iv if t == min(iv, key=iv.get) or rng.random() < imin / iv[t] * 1.5]
        r = dict(age=age, tags=tags, duration=rng.choice([5, 5, 100, 599, 601, 4000]))
        if wild:
            x = rng.random()
            if x < 0.12:
                r["tags"] = r["tags"] + ["manual:" + rng.choice(["keep", "x"])]
            elif x < 0.2:
                r["tags"] = ["former"] + (r["tags"] if rng.random() < 0.5 else [])
            elif x < 0.28:
                r["duration"] = None
            elif x < 0.34:
                r["tags"] = []
            elif x < 0.34 + remote:
                r["server"] = rng.choice(["h1", "deadpeer"])
            if rng.random() < 0.2:
                t = rng.choice(sorted(iv))
                r["age"] = keep[t] * iv[t] + rng.choice([-100, -2, 2, 100, -3600])
            if rng.random() < 0.04:
                r["age"] = -rng.choice([5, 3600])
        out.append(r)
        age += imin * rng.choice([1, 1, 1, 1, 0.3, 2, 5])
    return out


def base_plan(rng, kind, hosts, end):
    return dict(kind=kind, epoch=1_700_000_000 + rng.randrange(0, 40 * 86400), dir_salt=rng.randrange(1 << 16),
                sched={"mode": "rand", "p": rng.choice([0.0, 0.0, 0.01, 0.1])}, faults=[], end=int(end), hosts=hosts, events=[], attempts={}, gcs={}, cbs={})


def outage(rng, t, host="h0", down=None, hows=("term", "kill", "power")):
    how = rng.choice(hows)
    d = down if down is not None else rng.choice([1, 5, 60, 600, 3600, 7 * 3600, 30 * 3600, 3 * 86400])
    ev = [dict(t=t, ev=how, host=host)]
    if how == "power":
        ev[0]["salt"] = rng.randrange(1000)
    if how == "term":
        ev[0]["sig"] = rng.choice(["TERM", "TERM", "INT", "QUIT"])
        d = max(d, 6)
    ev.append(dict(t=t + d, ev="start", host=host))
    return ev


def vary_cfg(rng, cfg, names=JOBS):
    """The operator edits the configuration."""
    c = copy.deepcopy(cfg)
    for _ in range(rng.choice([1, 1, 2, 3])):
        x = rng.random()
        jobs = sorted(c["jobs"])
        if x < 0.3 and len(c["jobs"]) < len(names):
            n = rng.choice([j for j in names if j not in c["jobs"]])
            c["jobs"][n] = {"schedule": rng.choice(sorted(c["schedules"]))}
        elif x < 0.5 and len(jobs) > 1:
            del c["jobs"][rng.choice(jobs)]
        elif x < 0.65 and jobs:
            j = rng.choice(jobs)
            c["jobs"][j] = {"schedule": rng.choice(sorted(c["schedules"]))}
        elif x < 0.8 and jobs:
            j = rng.choice(jobs)
            c["jobs"][j]["file"] = rng.choice([f"/srv/data/{j}", f"/srv/data/{j}.b"])
        elif x < 0.9:
            s = rng.choice(sorted(c["schedules"]))
            for t in c["schedules"][s]:
                if rng.random() < 0.5:
                    c["schedules"][s][t]["keep"] = rng.choice([1, 2, 3, 5])
        else:
            c["limit"] = rng.choice([1, 2, 3])
    return c


def all_jobs(cfgs):
    return sorted(set().union(*[set(c["jobs"]) for c in cfgs]))


def gen(rng, prof, tier):
    plan = GENS[prof["kind"]](rng, prof, tier)
    for key in ("attempts", "gcs", "cbs"):
        plan[key] = {k: v for k, v in plan[key].items() if v}
    plan["events"] = [e for e in plan["events"] if "when" in e or e["t"] < plan["end"]]
    return plan


def gen_retention(rng, prof, tier):
    n = rng.choice([1, 1, 2, 3])
    cfg = gen_cfg(rng, n)
    end = horizon(rng, [cfg], 60)
    seeds = {j: gen_history(rng, cfg, j, rng.choice([0, 3, 8, 20]), wild=rng.random() < 0.8, remote=0.06) for j in cfg["jobs"]}
    plan = base_plan(rng, "retention", [dict(name="h0", start=0, cfg=cfg, seeds=seeds)], end)
    for j in cfg["jobs"]:
        k = int(end / imin_of(cfg, j)) + 4
        plan["attempts"][f"h0/{j}"] = gen_durations(rng, k, slow=0.1, fail=rng.choice([0, 0.1, 0.4]), burst=rng.choice([0, 0.1]))
        if rng.random() < 0.3:
            plan["gcs"][f"h0/{j}"] = [[0, rng.choice(["ok", "ok", "eio", "kill"])] for _ in range(k)]
    cfgs = [cfg]
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        t = rng.uniform(10, end)
        j = rng.choice(sorted(cfg["jobs"]))
        x = rng.random()
        if x < 0.2:
            cfgs.append(vary_cfg(rng, cfgs[-1], sorted(cfg["jobs"])))
            plan["events"].append(dict(t=t, ev="hup", cfg=cfgs[-1]))
        elif x < 0.35:
            plan["events"] += outage(rng, t)
        elif x < 0.5:
            plan["events"].append(dict(t=t, ev="clock", delta=rng.choice([-86400, -3600, -30, 30, 3600, 86400, 5 * 86400])))
        elif x < 0.6:
            plan["events"].append(dict(t=t, ev="eio", path=j, dur=rng.choice([1, 3600, 86400]), one_in=rng.choice([0, 3, 20]), err=rng.choice(["eio", "enospc"])))
        elif x < 0.85:
            plan["events"].append(dict(t=t, ev="cli", job=j, argv=rng.choice([
                ["tags", "add", "-r", "last", "manual:x"], ["tags", "set", "-r", "first", "manual:y"], ["rm", "-r", "first"],
                ["gc", "--expire", "--local"], ["distrust", "-r", "last"], ["tags", "remove", "-r", "all", "manual:x"]])))
        else:
            plan["events"].append(dict(t=t, ev="run", job=j))
    plan["hosts"][0]["alljobs"] = all_jobs(cfgs)
    sort_cfg_events(plan)
    return plan


def sort_cfg_events(plan):
    """Configurations build on each other in the order of time."""
    ev = [e for e in plan["events"] if e.get("cfg") and "t" in e]
    ts = sorted(e["t"] for e in ev)
    for e, t in zip(ev, ts):
        e["t"] = t


def gen_schedule(rng, prof, tier):
    n = rng.choice([1, 2, 3, 5, 8])
    same = rng.random() < 0.3
    cfg = gen_cfg(rng, n, pick=DIVIDING if rng.random() < 0.75 else None, nsched=1 if same else None)
    end = horizon(rng, [cfg], 90)
    seeds = {j: gen_history(rng, cfg, j, rng.choice([0, 1, 4])) for j in cfg["jobs"] if rng.random() < 0.6}
    plan = base_plan(rng, "schedule", [dict(name="h0", start=0, cfg=cfg, seeds=seeds)], end)
    quiet = rng.random() < 0.4
    for j in cfg["jobs"]:
        k = int(end / imin_of(cfg, j)) + 4
        if quiet:
            plan["attempts"][f"h0/{j}"] = gen_durations(rng, k, slow=0.1, fail=0, burst=0)
        else:
            plan["attempts"][f"h0/{j}"] = gen_durations(rng, k, slow=0.2, fail=rng.choice([0, 0.02, 0.1]), burst=0.02, long=rng.choice([0, 0.05]))
    cfgs = [cfg]
    if rng.random() < 0.7:
        for _ in range(rng.choice([1, 1, 2, 3])):
            t = rng.uniform(10, end)
            x = rng.random()
            if x < 0.45:
                plan["events"] += outage(rng, t)
            elif x < 0.6:
                plan["events"].append(dict(t=t, ev="clock", delta=rng.choice([-86400, -3600, -30, 30, 3600, 86400, 5 * 86400])))
            elif x < 0.8:
                cfgs.append(vary_cfg(rng, cfgs[-1]))
                plan["events"].append(dict(t=t, ev=rng.choice(["hup", "apireload"]), cfg=cfgs[-1]))
            else:
                plan["events"].append(dict(t=t, ev="run", job=rng.choice(sorted(cfg["jobs"]))))
    plan["hosts"][0]["alljobs"] = all_jobs(cfgs)
    sort_cfg_events(plan)
    return plan


def gen_backoff(rng, prof, tier):
    n = rng.choice([1, 2, 3, 4])
    cfg = gen_cfg(rng, n)
    end = horizon(rng, [cfg], 50, lo=30 * 3600)
    seeds = {j: gen_history(rng, cfg, j, rng.choice([0, 1, 4])) for j in cfg["jobs"] if rng.random() < 0.6}
    plan = base_plan(rng, "backoff", [dict(name="h0", start=0, cfg=cfg, seeds=seeds)], end)
    for j in cfg["jobs"]:
        k = int(end / imin_of(cfg, j)) + 12
        plan["attempts"][f"h0/{j}"] = gen_durations(rng, k, slow=0.2, fail=rng.choice([0, 0.1, 0.5, 0.9]), burst=0.1)
        if rng.random() < 0.3:
            plan["gcs"][f"h0/{j}"] = [[rng.choice([0, 0, 5, 300]), rng.choice(["ok", "ok", "eio", "kill"])] for _ in range(k)]
        if cfg["callback"] and rng.random() < 0.5:
            if rng.random() < 0.6:
                plan["cbs"][f"h0/{j}"] = [[rng.choice([0, 1, 30, 600]), rng.choice(["ok", "fail"])] for _ in range(k)]
            else:
                # not executable at times
                plan["cbs"][f"h0/{j}"] = [[0, m] for _ in range(k // 3 + 1) for m in [rng.choice(["ok", "missing"])] * rng.choice([1, 2, 4])]
    for _ in range(rng.choice([0, 1, 2, 3])):
        t = rng.uniform(10, end)
        j = rng.choice(sorted(cfg["jobs"]))
        x = rng.random()
        if x < 0.5:
            plan["events"].append(dict(t=t, ev="eio", path=rng.choice([j, j, j, j + "/quarantine", j + "/.backup", j + "/config"]), dur=rng.choice([1, 120, 3600, 20 * 3600]),
                                       one_in=rng.choice([0, 0, 2, 5, 30]), err=rng.choice(["eio", "eio", "enospc"]),
                                       ops=rng.choice([[], [], ["open"], ["readdir"], ["rename"], ["stat"], ["write"], ["flock"], ["read"]])))
        elif x < 0.65:
            plan["events"].append(dict(t=t, ev="garbage", job=j, dur=rng.choice([60, 3600, 20 * 3600]), data=rng.choice(["", "\x00\x00", "{", "uuid: 1\n", "- a\n", "foo"])))
        elif x < 0.8:
            plan["events"] += outage(rng, t, down=rng.choice([1, 60, 3600]))
        elif x < 0.9:
            plan["events"].append(dict(t=t, ev="hup"))
        else:
            plan["events"].append(dict(t=t, ev="run", job=j))
    return plan


def gen_limits(rng, prof, tier):
    n = rng.choice([3, 5, 8, 12])
    cfg = gen_cfg(rng, n, pick=rng.choice([[1], [5], [1, 5, 7], [0, 2, 3]]), limit=rng.choice([1, 1, 2, 3, 4]))
    end = horizon(rng, [cfg], 90, lo=2 * 3600)
    seeds = {j: gen_history(rng, cfg, j, rng.choice([0, 1, 2])) for j in cfg["jobs"] if rng.random() < 0.7}
    plan = base_plan(rng, "limits", [dict(name="h0", start=0, cfg=cfg, seeds=seeds)], end)
    for j in cfg["jobs"]:
        k = int(end / imin_of(cfg, j)) + 4
        plan["attempts"][f"h0/{j}"] = gen_durations(rng, k, slow=0.5, fail=rng.choice([0, 0.05, 0.3]), burst=0.02, long=0.02)
        if rng.random() < 0.2:
            plan["gcs"][f"h0/{j}"] = [[rng.choice([0, 5, 300]), rng.choice(["ok", "ok", "eio", "kill"])] for _ in range(k)]
    cfgs = [cfg]
    for _ in range(rng.choice([0, 1, 2, 4])):
        t = rng.uniform(10, end)
        x = rng.random()
        if x < 0.4:
            c = vary_cfg(rng, cfgs[-1], sorted(cfg["jobs"]))
            if rng.random() < 0.7:
                c["limit"] = cfg["limit"]
            cfgs.append(c)
            plan["events"].append(dict(t=t, ev=rng.choice(["hup", "hup", "apireload"]), cfg=c))
        elif x < 0.8:
            for j in sorted(cfg["jobs"]):
                if rng.random() < 0.7:
                    plan["events"].append(dict(t=t + rng.choice([0, 0, 1, 30]), ev="run", job=j))
        elif x < 0.9:
            plan["events"] += outage(rng, t, down=rng.choice([1, 60]), hows=("term", "power"))
        else:
            plan["events"].append(dict(t=t, ev="hup"))
    plan["hosts"][0]["alljobs"] = all_jobs(cfgs)
    sort_cfg_events(plan)
    return plan


def gen_runnow(rng, prof, tier):
    n = rng.choice([1, 2, 3, 4])
    cfg = gen_cfg(rng, n)
    end = horizon(rng, [cfg], 40, lo=3 * 3600)
    seeds = {j: gen_history(rng, cfg, j, rng.choice([0, 1, 2])) for j in cfg["jobs"] if rng.random() < 0.7}
    plan = base_plan(rng, "runnow", [dict(name="h0", start=0, cfg=cfg, seeds=seeds)], end)
    for j in cfg["jobs"]:
        k = int(end / imin_of(cfg, j)) + 12
        plan["attempts"][f"h0/{j}"] = gen_durations(rng, k, slow=0.3, fail=rng.choice([0, 0.2, 0.6]), burst=0.05)
    for _ in range(rng.choice([2, 5, 10, 20])):
        j = rng.choice(sorted(cfg["jobs"]))
        if rng.random() < 0.35:
            i = imin_of(cfg, j)
            plan["events"].append(dict(when=[rng.choice(["backup", "backup", "gc", "cb"]), "h0", j, rng.randrange(0, 6)],
                                       delay=rng.choice([0, 1, 300, 3000, rng.randrange(0, 10_000), i * US + rng.randrange(-30_000, 5000), i * US + rng.randrange(-3000, 3000), 120 * US + rng.randrange(-9000, 3000)]),
                                       ev="run", job=j))
        else:
            t = rng.uniform(5, end)
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                plan["events"].append(dict(t=t + rng.choice([0, 0.001, 1, 60]), ev="run", job=j))
    cfgs = [cfg]
    for _ in range(rng.choice([0, 0, 1])):
        t = rng.uniform(10, end)
        x = rng.random()
        if x < 0.5:
            cfgs.append(vary_cfg(rng, cfgs[-1], sorted(cfg["jobs"])))
            plan["events"].append(dict(t=t, ev="hup", cfg=cfgs[-1]))
        else:
            plan["events"] += outage(rng, t, down=60)
    plan["hosts"][0]["alljobs"] = all_jobs(cfgs)
    return plan


def gen_dir(rng, name, end):
    limit = 93 * 86400
    age = rng.choice([limit + 100, limit - 100, limit + 86400, limit * 2, limit - rng.uniform(0, end), limit - rng.uniform(0, end), 3600, 400 * 86400, 3 * limit])
    d = dict(name=name, age=age, tree=[])
    x = rng.random()
    if x < 0.06:
        return dict(name=name, age=age, symlink=rng.choice(["/srv/other", "/srv/backy/" + DEAD[0], "nowhere"]))
    if x < 0.1:
        return dict(name=name, age=age, file=True)
    for i in range(rng.choice([0, 1, 2, 4])):
        y = rng.random()
        sub = rng.choice(["", "", "sub/", "sub/deep/"])
        e = dict(path=f"{sub}f{i}", kind="f")
        if y < 0.15:
            e = dict(path=f"{sub}dir{i}", kind="d")
        elif y < 0.25:
            e = dict(path=f"{sub}l{i}", kind="l", target=rng.choice(["/srv/data", "nowhere", "f0", "/srv/other"]))
        if rng.random() < 0.3:
            e["age"] = rng.choice([limit - 100, limit + 5000, 60, limit - rng.uniform(0, end), limit * 3])
        d["tree"].append(e)
    if rng.random() < 0.6:
        d["tree"].append(dict(path="config", kind="config"))
        for i in range(rng.choice([0, 1, 3])):
            u = mkuuid("dead", name, i, rng.randrange(1 << 20))
            if rng.random() < 0.7:
                d["tree"].append(dict(path=u + ".rev", kind="rev", uuid=u, age=rng.choice([86400, limit, limit + 86400]) + rng.uniform(0, 86400),
                                      tags=rng.choice([["daily"], ["manual:x"], []]), duration=rng.choice([5, 5, None])))
                # the file's own age follows the directory's
                d["tree"][-1]["_age"] = True
            d["tree"].append(dict(path=u, kind="data"))
        if rng.random() < 0.2:
            d["tree"].append(dict(path=".purge_pending", kind="f"))
    return d


def gen_purge(rng, prof, tier):
    n = rng.choice([1, 1, 2, 3])
    cfg = gen_cfg(rng, n, pick=[0, 2, 3, 6])
    end = rng.choice([26 * 3600, 2 * 86400, 3 * 86400, 5 * 86400, 8 * 86400]) * rng.uniform(0.9, 1.1)
    seeds = {j: gen_history(rng, cfg, j, rng.choice([0, 1, 2])) for j in cfg["jobs"] if rng.random() < 0.5}
    dirs = [gen_dir(rng, d, end) for d in rng.sample(DEAD, rng.choice([1, 2, 4, 7]))]
    for d in dirs:
        for e in d.get("tree", []):
            if e.pop("_age", None):
                e["rage"] = e.pop("age")
    if rng.random() < 0.25:  # an active job with an old directory
        j = rng.choice(sorted(cfg["jobs"]))
        if j not in seeds:
            dirs.append(dict(name=j, age=120 * 86400, tree=[dict(path="junk", kind="f")]))
    plan = base_plan(rng, "purge", [dict(name="h0", start=0, cfg=cfg, seeds=seeds, dirs=dirs)], end)
    for j in cfg["jobs"]:
        plan["attempts"][f"h0/{j}"] = gen_durations(rng, int(end / imin_of(cfg, j)) + 4, slow=0.1, fail=0.1)
    real = [d["name"] for d in dirs if not d.get("symlink") and not d.get("file")]
    for d in dirs:
        if d["name"] in real and rng.random() < (0.7 if any(e.get("kind") == "config" for e in d["tree"]) else 0.15):
            plan["events"].append(dict(t=rng.uniform(5, end * 0.6), ev="purge", job=d["name"]))
            if rng.random() < 0.4:
                plan["gcs"][f"h0/{d['name']}"] = [[rng.choice([0, 5, 4000]), rng.choice(["eio", "kill", "ok"])] for _ in range(rng.choice([1, 2]))]
    cfgs = [cfg]
    for _ in range(rng.choice([0, 1, 2, 3])):
        t = rng.uniform(5, end)
        x = rng.random()
        if x < 0.25 and real:
            plan["events"].append(dict(t=t, ev="touch", path=rng.choice(real), via=rng.choice(["fs", "api"])))
        elif x < 0.35 and real:
            d = rng.choice([d for d in dirs if d["name"] in real])
            if d["tree"]:
                plan["events"].append(dict(t=t, ev="touch", path=d["name"] + "/" + rng.choice(d["tree"])["path"], via="fs"))
        elif x < 0.6:
            plan["events"].append(dict(t=t, ev="eio", path=rng.choice(real or ["a"]), dur=rng.choice([3600, 86400, 20 * 86400]), one_in=rng.choice([0, 0, 3]),
                                       err="eio", ops=rng.choice([[], ["readdir"], ["unlink"], ["stat"], ["rmdir"]])))
        elif x < 0.65:
            plan["events"].append(dict(t=t, ev="eio", path=BASE, dur=rng.choice([3600, 86400]), one_in=0, err="eio", ops=["readdir"]))
        elif x < 0.8:
            plan["events"] += outage(rng, t, down=rng.choice([10, 3600, 86400]))
        elif x < 0.9:
            cfgs.append(vary_cfg(rng, cfgs[-1], rng.choice([JOBS, JOBS + real])))
            plan["events"].append(dict(t=t, ev="hup", cfg=cfgs[-1]))
            gone = [j for j in cfg["jobs"] if j not in cfgs[-1]["jobs"]]
            for j in gone:
                plan["events"].append(dict(t=t + rng.choice([1, 3600]), ev="purge", job=j))
        else:
            plan["events"].append(dict(t=t, ev="clock", delta=rng.choice([-86400, 86400, 5 * 86400, -3600])))
    plan["hosts"][0]["alljobs"] = all_jobs(cfgs)
    sort_cfg_events(plan)
    return plan


def gen_status(rng, prof, tier):
    n = rng.choice([1, 2, 4])
    cfg = gen_cfg(rng, n)
    end = horizon(rng, [cfg], 40, lo=4 * 3600)
    seeds = {j: gen_history(rng, cfg, j, rng.choice([0, 1, 2, 6]), wild=rng.random() < 0.6, remote=0.1) for j in cfg["jobs"] if rng.random() < 0.8}
    for l in seeds.values():
        if rng.random() < 0.3:
            for r in l:
                if r.get("server") and rng.random() < 0.5:
                    r["orig"] = []
    plan = base_plan(rng, "status", [dict(name="h0", start=0, cfg=cfg, seeds=seeds)], end)
    for j in cfg["jobs"]:
        k = int(end / imin_of(cfg, j)) + 12
        plan["attempts"][f"h0/{j}"] = gen_durations(rng, k, slow=0.2, fail=rng.choice([0, 0.5, 1]), burst=0.05)
    jobs = sorted(cfg["jobs"])
    cfgs = [cfg]
    for i in range(rng.choice([4, 8, 16])):
        t = rng.uniform(5, end)
        j = rng.choice(jobs)
        x = rng.random()
        if x < 0.3:
            plan["events"].append(dict(t=t, ev="status"))
        elif x < 0.5:
            plan["events"].append(dict(t=t, ev="check", job=j))
        elif x < 0.6:
            plan["events"].append(dict(t=t, ev="check", job=j, regex=rng.choice([".*", f"^{re.escape(j)}$", j[0], "nomatch"])))
        elif x < 0.72:
            plan["events"].append(dict(t=t, ev="report", job=j, id=rng.choice(["3f2a", "r1", "aXb"]) + str(i)))
        elif x < 0.78:
            plan["events"].append(dict(t=t, ev="reportdel", job=j, all=rng.random() < 0.4, n=i))
        elif x < 0.83:
            plan["events"].append(dict(t=t, ev="reportlist", job=j))
        elif x < 0.9:
            plan["events"].append(dict(t=t, ev="cli", job=j, argv=rng.choice([["tags", "add", "-r", "last", "manual:x"], ["tags", "add", "-r", "all", "manual:z"], ["rm", "-r", "last"]])))
        elif x < 0.95:
            cfgs.append(vary_cfg(rng, cfgs[-1], jobs))
            plan["events"].append(dict(t=t, ev="hup", cfg=cfgs[-1]))
        else:
            plan["events"] += outage(rng, t, down=rng.choice([6, 3600, 3 * 86400]))
    # a look shortly before and after a job becomes overdue
    for j in jobs:
        if rng.random() < 0.6:
            d = imin_of(cfg, j) * 1.5
            plan["events"].append(dict(when=["backup", "h0", j, rng.choice([0, 1, 3])], delay=int((d + rng.choice([-30, 30, -300, 300, 3600])) * US),
                                       ev=rng.choice(["status", "check"]), job=j))
    plan["hosts"][0]["alljobs"] = all_jobs(cfgs)
    sort_cfg_events(plan)
    return plan


ROUTES = [("GET", "/v1/status"), ("POST", "/v1/reload"), ("GET", "/v1/jobs"), ("POST", "/v1/jobs/{j}/run"), ("GET", "/v1/backups"),
          ("POST", "/v1/backups/{d}/purge"), ("POST", "/v1/backups/{d}/touch"), ("GET", "/v1/backups/{d}/revs"), ("GET", "/v1/backups/{j}/revs"),
          ("PUT", "/v1/backups/{d}/revs/last/tags"), ("GET", "/v1/status?filter={j}")]
ODD_ROUTES = [("GET", "/"), ("GET", "/v1"), ("GET", "/v1/status/"), ("HEAD", "/v1/status"), ("OPTIONS", "/v1/jobs"), ("DELETE", "/v1/backups/{d}"),
              ("GET", "/v1/backups/../jobs"), ("GET", "//v1/jobs"), ("POST", "/v1/status"), ("GET", "/v1/jobs/{j}/run"), ("GET", "/favicon.ico"),
              ("GET", "/v2/status"), ("PATCH", "/v1/jobs"), ("GET", "/v1/%6Aobs"), ("GET", "/v1/backups/%2e%2e/revs"), ("POST", "/v1/reload?x=1")]


ODD_JOBS = ["vm 1", "db#2", "50%", "what?", "vm.a", "vm-a", "vma", "m\u00fcll", "a+b", "%41", "x&y", "A", "vm-ab", "b", "1:2", "a=b"]


def gen_multi(rng, prof, tier):
    names = rng.sample(ODD_JOBS if rng.random() < 0.5 else JOBS, rng.choice([1, 2, 3, 4, 6]))
    cfg = gen_cfg(rng, len(names), names=names)
    end = horizon(rng, [cfg], 30, lo=3 * 3600)
    seeds = {j: gen_history(rng, cfg, j, rng.choice([1, 2, 5]), wild=rng.random() < 0.5, remote=0.1) for j in names if rng.random() < 0.9}
    dirs = [dict(name=n, age=3600, tree=[dict(path="config", kind="config")]) for n in rng.sample(DEAD, rng.choice([0, 1, 2]))]
    plan = base_plan(rng, "multi", [dict(name="h0", start=0, cfg=cfg, seeds=seeds, dirs=dirs)], end)
    for j in names:
        k = int(end / imin_of(cfg, j)) + 12
        plan["attempts"][f"h0/{j}"] = gen_durations(rng, k, slow=0.3, fail=rng.choice([0, 0.2]), burst=0)
    cfgs = [cfg]
    tags = sorted({t for s in cfg["schedules"].values() for t in s})

    def rx():
        j = rng.choice(names)
        return rng.choice([".*", ".*", f"^{re.escape(j)}$", j[0] if j[0] not in "%+?" else re.escape(j[0]), "^" + re.escape(j[:2]), re.escape(j), "nomatch", "|".join(map(re.escape, names[:2])), "^vm.a$"])

    def argv():
        spec = rng.choice(["local", "all", "tag:" + rng.choice(tags), "tag:manual:multi", "trust:distrusted"])
        x = rng.random()
        if x < 0.3:
            return ["tags", "-f", rng.choice(["add", "add", "add", "remove", "set"]), "-r", spec, rng.choice(["manual:multi", "manual:keep", rng.choice(tags)])]
        if x < 0.42:
            return ["distrust", "-r", rng.choice(["local", "local", spec])]
        if x < 0.47:
            return ["rm", "-r", rng.choice(["tag:manual:multi", "trust:distrusted", spec])]
        return rng.choice([["log", "--json"], ["log", "--json", "-r", spec], ["rev-parse", "-r", spec], ["rev-parse", "--uuid"], ["reports-list"], ["reports-delete", "--all-reports"],
                           ["show-jobs"], ["show-jobs"], ["show-daemon"], ["backup", "--bg", "manual:x"], ["backup", "--bg", "manual:x"], ["backup", "manual:x"], ["log"]])
    for i in range(rng.choice([3, 8, 16])):
        t = rng.uniform(5, end)
        x = rng.random()
        if x < 0.06:
            plan["events"].append(dict(t=t, ev="report", job=rng.choice(names), id=f"r{i}"))
            continue
        if rng.random() < 0.2:
            # while a backup or a gc of one of the jobs runs
            plan["events"].append(dict(when=[rng.choice(["backup", "gc"]), "h0", rng.choice(names), rng.randrange(0, 5)], delay=rng.choice([0, 3000, 20_000, 10 * US]), ev="multi", rx=rx(), argv=argv()))
            continue
        plan["events"].append(dict(t=t, ev="multi", rx=rx(), argv=argv()))
        y = rng.random()
        d = rng.choice([0.0005, 0.002, 0.004, 0.008, 0.015, 0.03, 0.1]) * rng.uniform(0.5, 1.5)
        if y < 0.06:
            how = rng.choice(["kill", "term"])
            plan["events"] += [dict(t=t + rng.choice([-1, 1]) * d, ev=how), dict(t=t + 7, ev="start")]
        elif y < 0.14:
            c = vary_cfg(rng, cfgs[-1], names + ["late"])
            cfgs.append(c)
            plan["events"].append(dict(t=t + rng.choice([-1, 1]) * d, ev=rng.choice(["hup", "clireload"]), cfg=c))
        elif y < 0.18:
            plan["events"].append(dict(t=t - d, ev="hang", dur=rng.choice([0.1, 5, 25, 40, 300])))
        elif y < 0.22:
            plan["events"].append(dict(t=t - d, ev="garbage", job=rng.choice(names), dur=rng.choice([1, 60]), data=rng.choice(["", "{", "uuid: 1\n"])))
        elif y < 0.28:
            plan["events"].append(dict(t=t + d, ev="multi", rx=rx(), argv=argv()))
    if rng.random() < 0.3:
        plan["events"] += outage(rng, rng.uniform(10, end), down=600)
    if rng.random() < 0.3:
        cfgs.append(vary_cfg(rng, cfgs[-1], names + ["late"]))
        plan["events"].append(dict(t=rng.uniform(10, end), ev="clireload", cfg=cfgs[-1]))
    plan["events"] = [e for e in plan["events"] if "when" in e or e["t"] > 0]
    plan["hosts"][0]["alljobs"] = all_jobs(cfgs)
    sort_cfg_events(plan)
    return plan


def gen_api(rng, prof, tier):
    cfg = gen_cfg(rng, rng.choice([1, 2]), pick=[0, 1, 2])
    toks = ["tok-cli"] + rng.sample(["secret-1", "secret-12", "a", "geheim", "x" * 40, "To ken", "tok-1"], rng.choice([1, 2, 3]))
    cfg["tokens"] = {t: rng.choice(["one", "client", "srv"]) for t in toks}
    end = 3600 * rng.choice([1, 2, 4])
    dirs = [dict(name="old01", age=3600, tree=[dict(path="config", kind="config"), dict(path=mkuuid("x", rng.random()), kind="data")])]
    u = mkuuid("y", rng.random())
    dirs[0]["tree"] += [dict(path=u + ".rev", kind="rev", uuid=u, rage=9000, tags=["daily"]), dict(path=u, kind="data")]
    plan = base_plan(rng, "api", [dict(name="h0", start=0, cfg=cfg, dirs=dirs, seeds={j: gen_history(rng, cfg, j, 2) for j in cfg["jobs"]})], end)
    cfgs = [cfg]
    times = []
    for _ in range(rng.choice([0, 1, 2, 4])):
        c = copy.deepcopy(cfgs[-1])
        for _ in range(rng.choice([1, 2])):
            x = rng.random()
            if x < 0.35:
                c["tokens"][rng.choice(["new-1", "new-2", "secret-1", "a"])] = "other"
            elif x < 0.6:
                t = rng.choice(sorted(c["tokens"]))
                if t != "tok-cli":
                    del c["tokens"][t]
            elif x < 0.75:
                c["port"] = rng.choice([6023, 7000, 8080])
            elif x < 0.9:
                c["addrs"] = rng.choice([["127.0.0.1"], ["127.0.0.1", "10.0.0.1"], ["10.0.0.1"], ["10.0.0.1", "127.0.0.1"], ["localhost"], ["localhost"], ["10.0.0.1", "localhost"], ["localhost", "10.0.0.1"]])
            else:
                c = vary_cfg(rng, c)
        cfgs.append(c)
    t = 5.0
    for c in cfgs[1:]:
        t += rng.choice([0.0003, 0.002, 0.02, 0.5, 2, 7, 60, 600]) if rng.random() < 0.4 else rng.uniform(10, end / len(cfgs))
        times.append(t)
        plan["events"].append(dict(t=t, ev=rng.choice(["hup", "hup", "apireload"]), cfg=c))
    if rng.random() < 0.3:
        # another reload while the former one still looks up a name
        c = copy.deepcopy(cfgs[-1])
        c["addrs"] = ["10.0.0.1"] if "localhost" in c.get("addrs", []) else rng.choice([["localhost"], ["10.0.0.1", "localhost"]])
        c2 = copy.deepcopy(c)
        c2["tokens"]["new-3"] = "third"
        for x in sorted(c2["tokens"]):
            if x != "tok-cli" and rng.random() < 0.5:
                del c2["tokens"][x]
        if rng.random() < 0.3:
            c2["port"] = rng.choice([6023, 7000])
        cfgs += [c, c2]
        d = rng.choice([0.1, 1, 5])
        times += [t + 30, t + 30 + d / 2]
        plan["events"] += [dict(t=t + 29, ev="slowdns", delay=d, dur=rng.choice([2, 10])), dict(t=t + 30, ev="hup", cfg=c),
                           dict(t=t + 30 + d / 2, ev=rng.choice(["hup", "apireload"]), cfg=c2)]
    for _ in range(rng.choice([0, 0, 1, 2])):
        t = rng.choice(times or [0]) - rng.choice([0, 0.5, 5, 60])
        if rng.random() < 0.5:
            plan["events"].append(dict(t=max(0, t), ev="portbusy", port=rng.choice(cfgs).get("port", 6023), dur=rng.choice([1, 30, 120, 600])))
        else:
            plan["events"].append(dict(t=max(0, t), ev="slowdns", delay=rng.choice([0.1, 1, 5, 20]), dur=rng.choice([1, 30, 300])))
    alltok = sorted({t for c in cfgs for t in c["tokens"]})
    ports = sorted({c.get("port", 6023) for c in cfgs})
    addrs = sorted({a for c in cfgs for a in c.get("addrs", ["127.0.0.1"])})
    for _ in range(rng.choice([10, 20, 40])):
        if times and rng.random() < 0.6:
            t = rng.choice(times) + rng.choice([-1, 5.5, 6, 10, 100, 300, 800, 0.001])
        else:
            t = rng.uniform(5, end)
        odd = rng.random() < 0.25
        m, path = rng.choice(ODD_ROUTES if odd else ROUTES)
        j = rng.choice(sorted(cfg["jobs"]))
        path = path.format(j=j, d=rng.choice(["old01", "old01", "nope"]))
        tok = rng.choice(alltok)
        x = rng.random()
        kind = "plain"
        if x < 0.4:
            auth = "Bearer " + tok
        else:
            auth = rng.choice([None, "", "Bearer", "Bearer ", "Bearer  ", "Bearer " + tok[:-1], "Bearer " + tok + "x", "Bearer wrong", "Basic " + tok, tok, "Token " + tok,
                               "Bearer None", "Bearer 1", "Bearer one", "Bearer client", "Bearer true", "Bearer *", "Bearer tok-", "Bearer \x80\xff", "bearer wrong", "Bearer srv", "Bearer " + tok.upper()])
            if auth is not None and ("  " in auth or "\x80" in auth or auth.strip() in ("", "Bearer")):
                kind = "odd"
        e = dict(t=t, ev="probe", method=m, path=path, auth=auth, kind=kind, addr=rng.choice(addrs), port=rng.choice(ports), job=j)
        if path.endswith("/run"):
            e["effect"] = "run"
        if m == "PUT":
            e["body"] = {"old_tags": ["daily"], "new_tags": rng.choice([[], ["manual:x"]])}
        if rng.random() < 0.05 and auth is None:
            e["extra"] = [["X-Authorization", "Bearer " + tok], ["Cookie", "token=" + tok.replace(" ", "+")]]
        if rng.random() < 0.05 and auth is None:
            e["path"] += ("&" if "?" in path else "?") + "token=" + tok.replace(" ", "+")
        if odd and auth and auth[7:] in alltok:
            e["kind"] = "oddroute"
        plan["events"].append(e)
    plan["hosts"][0]["alljobs"] = all_jobs(cfgs)
    return plan


def gen_lifecycle(rng, prof, tier):
    n = rng.choice([1, 2, 3, 5])
    cfg = gen_cfg(rng, n)
    end = horizon(rng, [cfg], 40, lo=2 * 3600)
    seeds = {j: gen_history(rng, cfg, j, rng.choice([0, 1, 2])) for j in cfg["jobs"] if rng.random() < 0.5}
    plan = base_plan(rng, "lifecycle", [dict(name="h0", start=0, cfg=cfg, seeds=seeds)], end)
    for j in JOBS:
        k = int(end / 3600) + 12 if j not in cfg["jobs"] else int(end / imin_of(cfg, j)) + 12
        k = min(k, 60)
        plan["attempts"][f"h0/{j}"] = gen_durations(rng, k, slow=0.6, fail=0.05, long=0.05)
        if rng.random() < 0.3:
            plan["gcs"][f"h0/{j}"] = [[rng.choice([0, 5, 300]), "ok"] for _ in range(k)]
        if cfg["callback"]:
            plan["cbs"][f"h0/{j}"] = [[rng.choice([0, 1, 30]), "ok"] for _ in range(k)]
    cfgs = [cfg]
    for _ in range(rng.choice([2, 4, 8, 12])):
        x = rng.random()
        j = rng.choice(sorted(cfg["jobs"]))
        if rng.random() < 0.4:
            i = imin_of(cfg, j)
            at = dict(when=[rng.choice(["backup", "backup", "gc", "cb"]), "h0", j, rng.randrange(0, 6)], delay=rng.choice([0, 1, 300, 3000, rng.randrange(0, 10_000), US, 30 * US, 400 * US, i * US + rng.randrange(-5000, 5000)]))
        else:
            at = dict(t=rng.uniform(0, end) if rng.random() < 0.9 else rng.uniform(0, 0.05))
        if x < 0.35:
            cfgs.append(vary_cfg(rng, cfgs[-1]))
            if rng.random() < 0.1:
                cfgs[-1]["jobs"] = {}
            plan["events"].append(dict(at, ev=rng.choice(["hup", "hup", "apireload"]), cfg=cfgs[-1]))
        elif x < 0.45:
            plan["events"].append(dict(at, ev="hup"))
        elif x < 0.55:
            plan["events"].append(dict(at, ev="second"))
        elif x < 0.6:
            plan["events"].append(dict(at, ev="run", job=j))
        else:
            how = rng.choice(["term", "term", "term", "kill", "power"])
            e = dict(at, ev=how, restart=rng.choice([0.5, 5.5, 6, 60, 3600]) if how != "term" else rng.choice([5.5, 6, 60, 3600]))
            if how == "term":
                e["sig"] = rng.choice(["TERM", "TERM", "INT", "QUIT"])
                if rng.random() < 0.2:
                    e["again"] = rng.choice([0.001, 0.1, 0.3])
            plan["events"].append(e)
    plan["hosts"][0]["alljobs"] = all_jobs(cfgs)
    return plan


GENS = dict(retention=gen_retention, schedule=gen_schedule, backoff=gen_backoff, limits=gen_limits, runnow=gen_runnow,
            purge=gen_purge, status=gen_status, api=gen_api, multi=gen_multi, lifecycle=gen_lifecycle)


# ------------------------------------------------------------- minimising


def shrinks(plan):
    def cp():
        return copy.deepcopy(plan)

    ev = plan.get("events", [])
    step = len(ev)
    while step >= 1:
        for i in range(0, len(ev), step):
            q = cp()
            q["events"] = ev[:i] + ev[i + step:]
            yield q
        step //= 2
    for key in ("attempts", "gcs", "cbs"):
        for k in list(plan.get(key, {})):
            q = cp()
            del q[key][k]
            yield q
    for hi, h in enumerate(plan["hosts"]):
        if hi and len(plan["hosts"]) > 1:
            q = cp()
            del q["hosts"][hi]
            q["events"] = [e for e in q["events"] if e.get("host", "h0") != h["name"] and h["name"] not in e.get("pair", ())]
            yield q
        used = {e.get("job") for e in ev} | {e["when"][2] for e in ev if "when" in e}
        for j in h["cfg"]["jobs"]:
            if len(h["cfg"]["jobs"]) > 1 and j not in used and not any(e.get("cfg") for e in ev):
                q = cp()
                del q["hosts"][hi]["cfg"]["jobs"][j]
                q["hosts"][hi].get("seeds", {}).pop(j, None)
                yield q
        for j in list(h.get("seeds", {})):
            q = cp()
            del q["hosts"][hi]["seeds"][j]
            yield q
            l = h["seeds"][j]
            for i in range(len(l)):
                q = cp()
                del q["hosts"][hi]["seeds"][j][i]
                yield q
        for i in range(len(h.get("dirs", []))):
            q = cp()
            del q["hosts"][hi]["dirs"][i]
            yield q
        if h["cfg"].get("callback"):
            q = cp()
            q["hosts"][hi]["cfg"]["callback"] = False
            yield q
    if plan["end"] > 1200:
        for f in (0.3, 0.6, 0.85):
            q = cp()
            q["end"] = int(plan["end"] * f)
            yield q
    for key in ("attempts", "gcs", "cbs"):
        for k, l in plan.get(key, {}).items():
            if len(l) > 1:
                q = cp()
                q[key][k] = l[:len(l) // 2]
                yield q
            for i in range(min(len(l), 12)):
                if l[i] != [0, "ok"]:
                    q = cp()
                    q[key][k][i] = [0, "ok"]
                    yield q
    if plan.get("sched", {}).get("p"):
        q = cp()
        q["sched"] = {"mode": "rand", "p": 0.0}
        yield q


def run(plan, debug=False, record=False, harness=Harness):
    h = harness(plan, debug)
    res = h.res
    h.phases = collections.defaultdict(list)
    h.loose = 0
    h.seedrevs = {(host, job): list(v.values()) for host in h.hosts for job, v in h.revs[host].items()}
    h.nodata = {m["uuid"] for host in h.hosts for job, v in h.revs[host].items() for m in v.values()
                if not h.fs(host).exists(f"{BASE}/{job}/{m['uuid']}")}
    try:
        h.run()
        res.trace = list(h.k.trace)
        res.info = dict(kind=plan.get("kind"), runs=len(h.runs), daemons=len(h.incs), events=len(plan.get("events", [])),
                        simulated_days=round(h.k.now / US / 86400, 2))
        res.nontrivial = len(h.runs) > 0
        res.probes["job-runs"] += len(h.runs)
        res.probes["daemon-lives"] += len(h.incs)
    finally:
        try:
            res.debug = h
            h.w.close()
        finally:
            res.collect(h.w)
    return res
