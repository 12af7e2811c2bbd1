"""Scenario family S3: two or three backup servers which know each other.

Everything of S2 applies; in addition the servers are connected by a simulated
network with partitions and resets, a server may be replaced for some time by
one that answers nonsense, and the oracles compare the servers' views.
"""

import bisect
import copy
import posixpath
import re

import sim.evil as evil
from sim.kernel import US, derive_int

from . import scen_daemon as sd
from .scen_daemon import BASE, DAY, JOBS, UUID, same_job

NEAR = 70 * US  # two request timeouts
INF = 1 << 62


class Harness(sd.Harness):
    def __init__(self, plan, debug=False):
        self.cuts = []  # [pair, t0, t1]
        self.resets = []  # (pair, t)
        self.evils = []  # [host, t0, t1, spec]
        self.tl = {}  # (host, job, uuid) -> ([t], [meta or None])
        self.copies = []  # (t, host, job, uuid, old, new, who): daemon changes of copies
        self.pulled = {}
        self.follows = {}  # (host, job) -> [t]
        self.owner_removed = []  # (t, host, job, uuid): removed by the daemon
        super().__init__(plan, debug)
        self.k.services["escape"] = lambda what, path: self.violate("peer-escapes", f"{self.k.cur.name}: {what}: {path}")
        for h in plan["hosts"]:
            self.k.hosts[h["name"]].clock_offset += int(h.get("skew", 0) * US)
        for host in self.hosts:
            for job, revs in self.revs[host].items():
                for m in revs.values():
                    self.tl[host, job, m["uuid"]] = ([-1], [m])

    def _setup(self, h):
        self.k.hosts[h["name"]].clock_offset = int(h.get("skew", 0) * US)
        super()._setup(h)
        self.k.hosts[h["name"]].clock_offset = 0
        fs = self.fs(h["name"])
        for job in h.get("seeds", {}):
            if job not in h["cfg"]["jobs"]:
                fs.put(f"{BASE}/{job}/config", sd.yaml.safe_dump(dict(
                    path=f"{BASE}/{job}", source=dict(type="file", filename=f"/srv/data/{job}"),
                    schedule={"daily": {"interval": "1d", "keep": 2}})).encode())
        fs.sync_all()

    # ------------------------------------------------------------- history

    def timeline(self, host, job, uuid):
        return self.tl.setdefault((host, job, uuid), ([-1], [None]))

    def states(self, host, job, uuid, t0, t1):
        """All states of a revision during [t0, t1]."""
        ts, ms = self.timeline(host, job, uuid)
        i = max(0, bisect.bisect_right(ts, t0) - 1)
        return ms[i:bisect.bisect_right(ts, t1)]

    def fsop(self, host, op, path, kw):
        norm = posixpath.normpath(path)
        p = self.k.cur
        if self.is_daemon(p) and norm != path and op in ("rename", "unlink"):
            self.res.probes["odd-path"] += 1
        if self.is_daemon(p) and op in ("rename", "create", "unlink") and not norm.startswith((BASE + "/", BASE + ".lock", "/var/log", "/tmp")):
            self.violate("peer-escapes", f"{p.name} {op}s {path}")
        if self.is_daemon(p) and op in ("rename", "unlink") and norm.startswith(BASE + "/") and (".." in path.split("/") or norm.count("/") > BASE.count("/") + 2) and norm.endswith(".rev"):
            self.violate("peer-escapes", f"{p.name} {op}s {path}")
        n = len(self.revlog)
        super().fsop(host, op, norm, kw)
        for x in self.revlog[n:]:
            t, h, job, uuid, who, old, new = x
            ts, ms = self.timeline(h, job, uuid)
            ts.append(t)
            ms.append(new)
            self.revchange(host, job, uuid, p, old, new)

    def resync(self, host):
        super().resync(host)
        now = self.k.now
        seen = {(host, j, u) for j, l in self.revs[host].items() for u in l}
        for key, (ts, ms) in self.tl.items():
            if key[0] == host and key not in seen and ms[-1] is not None:
                ts.append(now)
                ms.append(None)
        for j, l in self.revs[host].items():
            for u, m in l.items():
                ts, ms = self.timeline(host, j, u)
                if ms[-1] != m:
                    ts.append(now)
                    ms.append(m)

    # ------------------------------------------------- judging changes

    def evil_near(self, peer, t, before=NEAR):
        """Could an answer attributed to `peer` have been nonsense?"""
        return any(e[0] == peer and e[1] - US <= t and t - before <= (e[2] or INF) for e in self.evils)

    def peers_of(self, host, t=None):
        return set((self.cfg_in_force(host, t).get("peers") or {}))

    def revchange(self, host, job, uuid, p, old, new):
        if not self.is_daemon(p):
            return
        t = self.k.now
        srv = (new or old or {}).get("server")
        if srv and srv in self.hosts:
            self.copy_change(host, job, uuid, srv, old, new, t)
        elif not srv and old is not None and (new is None or old["tags"] != new["tags"]):
            self.owner_change(host, job, uuid, old, new, t)

    def copy_change(self, host, job, uuid, srv, old, new, t):
        """The daemon on `host` changes its copy of a revision of `srv`."""
        # an answer may have been made before the change of configuration
        if self.evil_near(srv, t) or any(e[0] == srv for e in self.evils):
            return
        if new is None:
            if srv not in self.peers_of(host) or srv not in self.peers_of(host, t - NEAR):
                return
            there = self.states(srv, job, uuid, t - NEAR, t)
            if all(m is not None and m["complete"] for m in there) and self.quiet_server(srv, job, t) and self.answers(srv, job, host):
                self.violate("copy-dropped", f"{host}/{job}: the copy of {srv}'s revision {uuid} was removed although {srv} has it all the time, tags {sorted(there[-1]['tags'])}")
            elif all(m is not None and m["complete"] for m in there):
                return
            self.res.probes["copy-removed"] += 1
            return
        if old is not None and old["orig"] == new["orig"]:
            # a local change of tags: expiry may do that
            if old["tags"] != old["orig"] == new["tags"] and (new["tags"] - old["tags"] or any(x.startswith("manual:") for x in old["tags"] - new["tags"])):
                self.violate("pending-dropped", f"{host}/{job}: the tags of {srv}'s revision {uuid} were reset from {sorted(old['tags'])} to {sorted(new['tags'])} before {srv} had the change")
            return
        there = self.states(srv, job, uuid, t - NEAR, t)
        if not any(m is not None and m["tags"] == new["orig"] and m["complete"] for m in there):
            self.violate("copy-wrong", f"{host}/{job}: the copy of {srv}'s revision {uuid} was written as if it had tags {sorted(new['orig'])} there, but there they are {[sorted(m['tags']) if m else None for m in there]}")
        else:
            self.res.probes["copy-right"] += 1
            if old is not None and old["orig"] != old["tags"] and new["orig"] == new["tags"] == old["tags"]:
                self.res.probes["push-acknowledged"] += 1

    def answers(self, srv, job, host):
        """Are the daemons configured so that they talk about this job?"""
        token = (self.cfg_in_force(host)["peers"].get(srv) or {}).get("token")
        return token in (self.cfg_in_force(srv).get("tokens") or {}) and (job in self.cfg_in_force(srv)["jobs"] or self.dead_known(srv, job))

    def quiet_server(self, srv, job, t):
        """Has the server been able to answer correctly around time t?"""
        up = self.cur_up(srv, t)
        if up is None or up > t - NEAR - 10 * US:
            return False
        inc = self.cur[srv]
        if any(tt > t - NEAR - 10 * US for tt, c in inc.cfgs[1:]):
            return False
        return not self.disturbed(srv, None, t - NEAR, t, ("run-now", "orphan", "cli")) and not self.disturbed(srv, job, t - NEAR, t, ("run-now", "orphan", "cli"))

    def cur_up(self, host, t):
        inc = self.running(host)
        return inc.t0 if inc else None

    def inactive_there(self, host, job):
        return not self.active_lately(host, job)

    def owner_change(self, host, job, uuid, old, new, t):
        """The daemon on `host` changes tags of an own revision: whose wish
        is that?"""
        if (host, job) in self.dirwatch or not old["complete"]:
            return
        newtags = new["tags"] if new is not None else frozenset()
        if new is None:
            self.owner_removed.append((t, host, job, uuid))
        if job in self.cfg_in_force(host)["jobs"]:
            l = self.byjob[host, job]
            r = l[-1] if l else None
            if not (r is not None and r.rc == 0 and not any(x[0] == "gc" for x in r.parts) and t - r.t1 < 3600 * US) and self.active_for(host, job, 5 * US):
                if old["tags"]:
                    self.violate("changed-while-active", f"{host}/{job}: tags of {uuid} changed from {sorted(old['tags'])} to {sorted(newtags)} although the job is active and not expiring")
            return
        self.foreign_change(host, job, uuid, old["tags"], newtags, t)

    def active_for(self, host, job, d):
        inc = self.running(host)
        return inc is not None and self.k.now - inc.t0 > d and all(job in c["jobs"] for tt, c in inc.cfgs[-2:]) and self.k.now - inc.cfgs[-1][0] > d

    def foreign_change(self, host, job, uuid, old, new, t):
        window = INF if self.cuts else 600 * US
        for x in self.api:
            if x["host"] == host and x["t1"] is None and x["spec"]["method"] == "PUT" and f"/backups/{job}/" in x["spec"]["path"]:
                return
        for h in self.hosts:
            if h == host:
                continue
            for m in self.states(h, job, uuid, max(-1, t - window), t):
                if m is not None and m["server"] == host and m["orig"] == old and m["tags"] == new:
                    self.res.probes["push-applied"] += 1
                    if new:
                        self.res.probes["push-applied-tags"] += 1
                    return
        self.violate("unfounded-change", f"{host}/{job}: tags of {uuid} changed from {sorted(old)} to {sorted(new)}, but no other server wanted that: "
                     + "; ".join(f"{h}: " + ", ".join(f"{sorted(m['orig'])}->{sorted(m['tags'])}" if m else "-" for m in self.timeline(h, job, uuid)[1][-4:]) for h in self.hosts if h != host))

    def api_tag_change(self, host, job, old, new):
        if super().api_tag_change(host, job, old, new):
            return True
        if old is None:
            return any(h != host and host in self.peers_of(h) for h in self.hosts)
        return True  # judged by foreign_change

    def _purged(self, host, job):
        return super()._purged(host, job)

    def callback_spawn(self, child):
        """Backups left to other servers (which aren't in the tests' jobs) are
        announced by the callback, too."""
        host, job, t = child.parent.host.name, child.argv[1], self.k.now
        l = self.byjob[host, job]
        n = len(l[-1].parts) if l else 0
        r = super().callback_spawn(child)
        if (len(l[-1].parts) if l else 0) == n:
            f = self.follows.setdefault((host, job), [])
            f.append(t)
            self.res.probes["followed"] += 1
            up = self.cur_up(host, t)
            if len(f) >= 5 and f[-5] > t - 60 * US and up is not None and up < f[-5] and all(a < f[-5] for a, c in self.cur[host].cfgs[1:]):
                self.violate("follow-loop", f"{host}/{job}: the backup was left to another server 5 times within {(t - f[-5]) / US:.1f} s")
        return r

    # ------------------------------------------------------------ events

    def ev_cut(self, e, host, inc):
        super().ev_cut(e, host, inc)
        self.cuts.append([frozenset(e["pair"]), self.k.now, None])

    def ev_heal(self, e, host, inc):
        super().ev_heal(e, host, inc)
        for c in self.cuts:
            if c[0] == frozenset(e["pair"]) and c[2] is None:
                c[2] = self.k.now

    def ev_reset(self, e, host, inc):
        super().ev_reset(e, host, inc)
        self.resets.append((frozenset(e["pair"]), self.k.now))

    def ev_evil(self, e, host, inc):
        """Something else answers in place of the daemon for some time."""
        if inc is None:
            return
        self.k.count_fault("misbehaving_peer")
        cfg = self.hcfg[host]
        inc.how = "kill"
        self.k.kill(inc.proc)
        for p in self.kids(inc):
            self.lasting(host, self.jobarg(p), p, "orphan")
        self.stopped.add(host)
        self.seq += 1
        spec = dict(addrs=cfg["addrs"], port=cfg.get("port", 6023), modes=e["modes"], default=e["default"], salt=e["salt"])
        p = self.w.prog(f"evil-{self.seq}", ["evil"], host=self.k.hosts[host], meta=dict(spec=spec, harness=self))
        rec = [host, self.k.now, None, spec, p]
        self.evils.append(rec)

        def over():
            if rec[2] is not None:
                return
            rec[2] = self.k.now
            if not p.exited:
                self.k.kill(p)
            self.stopped.discard(host)
            self.start(host)
        rec.append(over)
        self.k.after(int(e["dur"] * US), over)

    def evil_view(self, host, job):
        """(uuids of the others' own revisions, copies they have, other jobs)"""
        own, copies, others = [], [], {}
        for h in self.hosts:
            if h == host:
                continue
            for j, l in self.revs[h].items():
                for u, m in sorted(l.items()):
                    if j != job:
                        others.setdefault(j, []).append(u)
                    elif m["server"]:
                        copies.append(u)
                    else:
                        own.append(u)
        return own[-3:], copies[-3:], {j: l[-2:] for j, l in others.items()}

    def jobname(self, path):
        m = re.search(r"filter=(?:%5E|\^)?([^&$%]*)", path)
        return m.group(1).replace("\\", "") if m else "x"

    # -------------------------------------------------------------- finale

    def do_finale(self):
        k = self.k
        self.finale = True
        self.eio = [e[:3] + (min(e[3], k.now),) + e[4:] for e in self.eio]
        for e in self.evils:
            e[5]()
        net = self.w.net
        for pair in sorted(net.cuts, key=sorted):
            net.heal(*sorted(pair))
        for c in self.cuts:
            if c[2] is None:
                c[2] = k.now
        for h in self.hosts:
            if self.running(h) is None and h not in self.stopped:
                self.start(h)
        k.run(until=k.now + 30 * US)
        self.look_for_leaks()
        self.t_fin = k.now
        for rnd in (0, 1):
            for h in self.hosts:
                if not self.running(h):
                    continue
                t0 = k.now
                for job in self.cfg_in_force(h)["jobs"]:
                    self.fire(dict(ev="run", host=h, job=job, fin=True))
                k.run(until=k.now + int(self.plan.get("finale", 1200) * US))
                if rnd:
                    self.converged(h, t0)
        self.fire(dict(ev="status", fin=True))
        k.run(until=k.now + 60 * US)
        if self.plan.get("linger"):
            # data of revisions expired by others must be collected
            k.run(until=k.now + int(27 * 3600 * US))
            self.an_collected()
        self.look_for_leaks()
        self.t_term = k.now
        for h in self.hosts:
            self.fire(dict(ev="term", host=h, fin=True))
        k.run(until=k.now + 10 * US)

    def knows(self, srv, job):
        """Does the daemon on srv serve this directory?"""
        inc = self.running(srv)
        if inc is None:
            return None
        if job in inc.cfgs[-1][1]["jobs"]:
            return True
        return None if not self.fs(srv).exists(f"{BASE}/{job}") else self.known_dirs.get((srv, inc.proc.name, job))

    def converged(self, host, t0):
        """`host` has just run its jobs: compare its view with the others."""
        cfg = self.cfg_in_force(host)
        inc = self.running(host)
        for job in cfg["jobs"]:
            l = [r for r in self.byjob[host, job] if r.t0 >= t0 and r.daemon is inc.proc]
            if not l or l[-1].rc != 0 or not any(x[0] == "gc" and x[2] for x in l[-1].parts) or self.disturbed(host, job, l[-1].t0, self.k.now, ("run-now",)):
                continue
            if self.disturbed(host, job, t0 - 3600 * US, self.k.now, ("run-now", "power", "clock", "eio", "reload")):
                continue
            mine = self.revs[host][job]
            for srv, pc in (cfg.get("peers") or {}).items():
                if srv not in self.hosts or self.running(srv) is None or self.up_now(srv) > t0 - 2 * US:
                    continue
                if any(x[1] == srv and x[2] == job and x[0] >= t0 and (x[6] is None or not x[6]["server"]) and not self.pushed(x, host) for x in self.revlog):
                    continue
                if pc["token"] not in (self.running(srv).cfgs[-1][1].get("tokens") or {}):
                    continue
                known = job in self.running(srv).cfgs[-1][1]["jobs"] or self.dead_known(srv, job)
                if known is None:
                    continue
                theirs = {u: m for u, m in self.revs[srv][job].items() if not m["server"] and m["complete"]} if known else {}
                copies = {u: m for u, m in mine.items() if m["server"] == srv}
                self.res.probes["views-compared"] += 1
                self.res.probes["copies-compared"] += len(theirs)
                own = {u for u, m in mine.items() if not m["server"]}
                for u in sorted(set(theirs) | set(copies)):
                    a, b = copies.get(u), theirs.get(u)
                    if a is None and u in own:
                        continue
                    if b is None:
                        self.violate("not-converged", f"{host}/{job} still lists revision {u} of {srv} with tags {sorted(a['tags'])}, which is not there")
                    elif a is None:
                        self.violate("not-converged", f"{host}/{job} does not list revision {u} of {srv} with tags {sorted(b['tags'])}")
                    elif a["orig"] != b["tags"] or abs(a["ts"] - b["ts"]) > 0.001 or a["stats"] != b["stats"] or a["trust"] != b["trust"]:
                        self.violate("not-converged", f"{host}/{job} lists revision {u} of {srv} as {a}, there it is {b}")
                    elif a["tags"] != a["orig"] and known and job not in self.running(srv).cfgs[-1][1]["jobs"]:
                        self.violate("not-pushed", f"{host}/{job}: the change of the tags of {srv}'s revision {u} from {sorted(a['orig'])} to {sorted(a['tags'])} has not been made there")
                    elif known:
                        self.res.probes["nothing-to-push"] += 1
            for u, m in mine.items():
                if m["server"] and m["server"] not in (cfg.get("peers") or {}):
                    self.violate("not-converged", f"{host}/{job} still lists revision {u} of {m['server']} which is not a peer")

    def pushed(self, x, host):
        """Is this change of the log one that `host` has made there?"""
        t, h, job, uuid, who, old, new = x
        return old is not None and (new is None or new["tags"] != old["tags"]) and any(
            m is not None and m["server"] == h and m["tags"] == (new["tags"] if new else frozenset()) and m["orig"] == old["tags"]
            for m in self.states(host, job, uuid, t - NEAR, t))

    def up_now(self, host):
        i = self.running(host)
        return i.t0 if i else INF

    def dead_known(self, srv, job):
        """A directory without a job: is it known to the daemon?  None: unsure"""
        inc = self.running(srv)
        t = inc.cfgs[-1][0]
        fs = self.fs(srv)
        if not fs.exists(f"{BASE}/{job}"):
            return False
        # known if it existed when the configuration was read last
        was = any(j == job for h, j, u in self.tl if h == srv and self.tl[h, j, u][0][0] < t - US) or any(job in c["jobs"] for tt, c in inc.cfgs)
        return True if was else None

    def an_collected(self):
        t = self.k.now
        for host in self.hosts:
            inc = self.running(host)
            if inc is None:
                continue
            for tt, h, job, uuid in self.owner_removed:
                if h != host or (host, job) in self.dirwatch:
                    continue
                if any(job in c["jobs"] for c in [c for a, c in inc.cfgs if a > tt - US] + [self.cfg_in_force(host, tt)]):
                    continue
                since = self.service_window(host, job, t)
                if since is None:
                    continue
                due = max([since, tt] + [q[2][2] or t for q in self.gcs if q[0] == host and q[1] == job and q[2][3] != 0])
                if t - due < 25 * 3600 * US or not self.fs(host).exists(f"{BASE}/{job}/config"):
                    continue
                if self.fs(host).exists(f"{BASE}/{job}/{uuid}"):
                    self.violate("remote-expired-data-left", f"{host}/{job}: revision {uuid} was removed at {tt/US:.0f} on behalf of another server, its data is still there {((t - tt)/US/3600):.1f} h later")
                else:
                    self.res.probes["remote-expired-collected"] += 1

    # ------------------------------------------------------------ analysis

    def analyse(self):
        super().analyse()
        self.an_double()
        self.an_failover()
        self.an_stalled()

    def an_stalled(self):
        """After a successful backup, expiry and collection follow."""
        for r in self.runs:
            if r.rc != 0 or r.t1 is None:
                continue
            inc = next(i for i in self.incs if i.proc is r.daemon)
            cfg = [c for t, c in inc.cfgs if t <= r.t0][-1]
            n = 1
            for m in self.state_at(r.host, r.job, r.t1).values():
                n += bool(m["server"])
            gc = [x for x in r.parts if x[0] == "gc"]
            t = gc[0][1] if gc else self.k.now
            bound = (60 + 30 * (n + 1) + 40) * US
            end = min([inc.t1] + [tt for tt, c in inc.cfgs if tt > r.t0 and not same_job(cfg, c, r.job)])
            if self.disturbed(r.host, r.job, r.t1, min(t, r.t1 + bound), ("run-now",)):
                continue
            if end > r.t1 + bound and t > r.t1 + bound:
                self.violate("run-stalled", f"{r}: backup done at {r.t1/US:.1f}, gc {'only at %.1f' % (t/US) if gc else 'never'} follows, allowed are {bound/US:.0f} s with {n - 1} remote revisions")
            elif gc:
                self.res.probes["run-not-stalled"] += 1

    def count(self, host, job, t):
        return sum(1 for m in self.state_at(host, job, t).values() if m["complete"] and not m["server"])

    def inc_at(self, host, t):
        for i in self.incs:
            if i.host == host and i.expect == "run" and i.t0 <= t <= i.t1:
                return i
        return None

    def cfg_at(self, inc, t):
        return [c for tt, c in inc.cfgs if tt <= t][-1]

    def calm(self, host, job, t0, t1):
        """One undisturbed life with one configuration during [t0, t1]."""
        i = self.inc_at(host, t0)
        if i is None or i.t1 < t1 or i.t0 > t0 - 10 * US:
            return None
        c = self.cfg_at(i, t0)
        if any(t0 < tt <= t1 for tt, c2 in i.cfgs):
            return None
        if self.disturbed(host, job, t0, t1):
            return None
        return c

    def link_up(self, a, b, t0, t1):
        pair = frozenset((a, b))
        return not any(c[0] == pair and c[1] <= t1 and (c[2] or INF) + 2 * US >= t0 for c in self.cuts) and not any(
            p == pair and t0 <= t <= t1 for p, t in self.resets)

    def an_double(self):
        for r in self.runs:
            a, job, t = r.host, r.job, r.t0
            prev = [x for x in self.byjob[a, job] if x.t0 < t]
            w0 = max(prev[-1].end if prev else 0, t - 6 * 3600 * US, 0)
            if w0 > t - 60 * US:
                continue
            inc = next(i for i in self.incs if i.proc is r.daemon)
            ca = self.calm(a, job, w0, t)
            if ca is None or any(x.host == a and x is not r and x.end > t - 600 * US and x.t0 < t for x in self.runs):
                continue
            # requests to run now are remembered
            if any(h == a and j == job and w == "run-now" and (prev[-1].t0 if prev else 0) - 400 * US <= x <= t for h, j, x, y, w in self.dist):
                continue
            best = None
            counts = {}
            ok = True
            for b in (ca.get("peers") or {}):
                if b not in self.hosts:
                    continue
                cb = self.calm(b, job, w0, min(t + 300 * US, self.t_fin))
                if cb is None or not self.link_up(a, b, w0, t):
                    ok = False
                    break
                if ca["peers"][b]["token"] not in (cb.get("tokens") or {}) or self.evil_near(b, t, 6 * 3600 * US):
                    ok = False
                    break
                if job in cb["jobs"]:
                    counts[b] = cb
            if not ok or not counts:
                continue
            pts = sorted({w0, t - US} | {x[0] for x in self.revlog if x[2] == job and w0 < x[0] < t - US})
            leaders = set()
            for x in pts:
                c = {h: self.count(h, job, x) for h in [a, *counts]}
                m = max(c.values())
                l = [h for h in c if c[h] == m]
                leaders.add(l[0] if len(l) == 1 else None)
            if len(leaders) != 1 or None in leaders or a in leaders:
                continue
            b = leaders.pop()
            if not same_job(ca, counts[b], job):
                continue
            self.res.probes["follower-attempts-judged"] += 1
            skew = abs(self.k.hosts[a].clock_offset - self.k.hosts[b].clock_offset)
            if skew > 200 * US:
                continue
            mine = self.byjob[b, job]
            now = [x for x in mine if x.t0 < t - 45 * US and (x.t1 is None or x.t1 > t)]
            if now:
                self.violate("double-backup", f"{r} was started while {b}, which has more backups and is reachable, makes the backup {now[-1]}")
                continue
            done = [x for x in mine if t - 290 * US + skew < x.t0 and x.t1 is not None and x.t1 < t - 45 * US and x.rc == 0 and self.timeline(b, job, x.uuid)[1][-1] is not None]
            if done:
                self.violate("double-backup", f"{r} was started although {b}, which has more backups and is reachable, has just made the backup {done[-1]}")
                continue
            nxt = [x for x in mine if t + 10 * US < x.t0 < t + 280 * US - skew]
            idle = not any(x.t0 <= t + 10 * US and x.end > t - 45 * US for x in mine)
            asked = any(h == b and j == job and w == "run-now" and t - 3600 * US <= x <= t + 300 * US for h, j, x, y, w in self.dist)
            blocked = any(x.host == b and x.t0 <= t + 290 * US and x.end > t - 600 * US and x.job != job for x in self.runs)
            failing = any(x.rc != 0 and x.end > w0 - 1200 * US for x in mine if x.t0 < t + 280 * US)
            if nxt and idle and not asked and not blocked and not failing:
                # it may have been made because of what the follower has done
                self.violate("double-backup", f"{r} was started although {b}, which has more backups and is reachable, was about to make {nxt[0]}")

    def an_failover(self):
        """Somebody makes the backup."""
        for inc, job, cfg, c0, c1 in self.stretches():
            host = inc.host
            if not cfg.get("peers"):
                continue
            imin = sd.imin_of(cfg, job) * US
            lim = min(c.get("limit", 1) for t, c in inc.cfgs)
            c1 = min(c1, self.t_fin)
            pts = [(r.t0, r.end) for r in self.byjob[host, job] if r.daemon is inc.proc and c0 <= r.t0 <= c1]
            for h in self.hosts:
                if h != host:
                    pts += [(r.t0, r.end) for r in self.byjob[h, job] if (r.rc == 0 or any(m and m["complete"] for m in self.timeline(h, job, r.uuid)[1])) and c0 - imin <= r.t0 <= c1]
            pts.sort()
            busy = [(r.t0, r.end) for h in self.hosts if h != host for r in self.byjob[h, job]]
            x = c0
            fails = 0
            for t0, t1 in pts + [(c1, c1)]:
                gap = t0 - x
                if gap > imin and not self.disturbed(host, job, x - 7 * 3600 * US, t0, ("run-now", "reload")):
                    # an other server may be waiting for a slot instead
                    wait = sum(self.blocked_time(h, x, t0, min([lim] + [c.get("limit", 1) for i in self.incs if i.host == h for t, c in i.cfgs]), job) for h in self.hosts)
                    run = self.cover(busy, x, t0)
                    # own failures are retried with increasing pauses
                    pause = 0
                    for r in reversed([r for r in self.byjob[host, job] if r.daemon is inc.proc and r.t0 <= x]):
                        if r.rc == 0:
                            break
                        pause += 1
                    pause = min(2 ** pause, 360) * 60 * US if pause else 0
                    skew = max(abs(self.k.hosts[host].clock_offset - self.k.hosts[h].clock_offset) for h in self.hosts)
                    bound = max(imin, pause) + wait + run + skew + 1800 * US
                    if gap > bound:
                        self.violate("no-failover", f"{host}/{job}: no backup anywhere between {x/US:.1f} and {t0/US:.1f} ({gap/US:.0f} s), shortest interval {imin/US:.0f} s, others busy {run/US:.0f} s, wait {wait/US:.0f} s")
                    else:
                        self.res.probes["failover-checked"] += 1
                x = max(x, t1)


# -------------------------------------------------------------- generation

SCHEDS = [0, 1, 2, 3, 5, 6]


def peers(names, i):
    return {n: {"url": f"http://10.0.0.{j + 1}:6023", "token": f"tok-{names[i]}"} for j, n in enumerate(names) if j != i}


def cluster(rng, njobs, nhosts, pick=None):
    cfg = sd.gen_cfg(rng, njobs, pick=pick or SCHEDS)
    names = [f"h{i}" for i in range(nhosts)]
    hosts = []
    for i, n in enumerate(names):
        c = copy.deepcopy(cfg)
        c["addrs"] = ["127.0.0.1", f"10.0.0.{i + 1}"]
        c["tokens"] = dict({"tok-cli": "cli"}, **{f"tok-{m}": m for m in names if m != n})
        c["peers"] = peers(names, i)
        hosts.append(dict(name=n, start=rng.choice([0, 0, 0, 1, 300]), cfg=c, seeds={}))
    return cfg, hosts


def with_copies(rng, hosts, job, p=0.6):
    """Let the servers have copies of each other's seeded revisions."""
    for h in hosts:
        for o in hosts:
            if o is h or job not in o["seeds"]:
                continue
            for i, r in enumerate(o["seeds"][job]):
                if r.get("server") or r.get("duration") is None or rng.random() > p:
                    continue
                c = dict(r, server=o["name"], orig=list(r["tags"]))
                c["uuid"] = r["uuid"]
                if rng.random() < 0.2:
                    c["orig"] = rng.choice([[], ["daily"], ["manual:z"]])
                if rng.random() < 0.2:
                    c["tags"] = rng.choice([[], ["daily"], list(r["tags"]) + ["manual:w"], list(r["tags"])[:1]])
                h["seeds"].setdefault(job, []).append(c)


def seed_all(rng, hosts, cfg, jobs, sizes, wild=False, copies=0.6):
    for h in hosts:
        for j in jobs:
            n = rng.choice(sizes)
            if n:
                l = sd.gen_history(rng, cfg, j, n, wild=wild and rng.random() < 0.5)
                for i, r in enumerate(l):
                    r["uuid"] = sd.mkuuid("c", h["name"], j, i, rng.randrange(1 << 30))
                    # the same clock shows the same time in all of the cluster
                h["seeds"][j] = l
    for j in jobs:
        with_copies(rng, hosts, j, copies)


def net_events(rng, plan, end, names, n, kinds):
    for _ in range(n):
        t = rng.uniform(5, end)
        x = rng.choice(kinds)
        pair = rng.sample(names, 2)
        h = rng.choice(names)
        if x == "cut":
            plan["events"].append(dict(t=t, ev="cut", pair=pair))
            plan["events"].append(dict(t=t + rng.choice([1, 20, 60, 600, 5 * 3600, 2 * 86400]), ev="heal", pair=pair))
        elif x == "reset":
            plan["events"].append(dict(t=t, ev="reset", pair=pair))
        elif x == "outage":
            plan["events"] += sd.outage(rng, t, host=h)
        elif x == "evil":
            plan["events"].append(evil_event(rng, t, h, plan["kind"] == "lead"))


def evil_event(rng, t, host, lead=False):
    e = dict(t=t, ev="evil", host=host, dur=rng.choice([600, 3600, 7 * 3600, 30 * 3600, 3 * 86400]), salt=rng.randrange(1 << 20),
                default=rng.choice(evil.FAIL),
                modes={k: rng.choice(v) for k, v in (("status", evil.STATUS), ("revs", evil.REVS), ("touch", evil.DONE + ["204"] * 20), ("tags", evil.DONE + ["204"] * 20), ("purge", evil.DONE))
                       if rng.random() < 0.85})
    if lead and rng.random() < 0.35:
        e["modes"]["status"] = rng.choice(["halts", "halts", "vanishes", "stopped"])
        e["dur"] = rng.choice([7 * 3600, 30 * 3600, 3 * 86400])
    return e


def aimed(rng, plan, names, jobs, n):
    """Faults close to the moment something happens."""
    for _ in range(n):
        pair = rng.sample(names, 2)
        at = dict(when=[rng.choice(["backup", "backup", "gc"]), pair[0], rng.choice(jobs), rng.randrange(0, 8)], delay=rng.choice([0, 500, 3000, rng.randrange(0, 40_000), 30 * US, rng.randrange(0, 400 * US)]))
        x = rng.random()
        if x < 0.4:
            plan["events"].append(dict(at, ev="cut", pair=pair))
            plan["events"].append(dict(at, delay=at["delay"] + rng.choice([2000, US, 29 * US, 31 * US, 100 * US, 4000 * US]), ev="heal", pair=pair))
        elif x < 0.6:
            plan["events"].append(dict(at, ev="reset", pair=pair))
        elif x < 0.8:
            plan["events"].append(dict(at, ev=rng.choice(["kill", "power", "term"]), host=pair[1], restart=rng.choice([6, 60, 3600])))
        else:
            plan["events"].append(dict(at, ev="run", host=pair[1], job=at["when"][2]))


def behaviour(rng, plan, names, jobs, cfg, end, **kw):
    for n in names:
        for j in jobs:
            k = int(end / sd.imin_of(cfg, j)) + 12
            if rng.random() < 0.7:
                plan["attempts"][f"{n}/{j}"] = sd.gen_durations(rng, min(k, 80), **kw)


def base(rng, kind, hosts, cfg, jobs, end):
    plan = sd.base_plan(rng, kind, hosts, end)
    plan["finale"] = 400
    for h in hosts:
        h["alljobs"] = sorted(jobs)
    return plan


def gen_lead(rng, prof, tier):
    nh = rng.choice([2, 2, 3])
    nj = rng.choice([1, 1, 2])
    cfg, hosts = cluster(rng, nj, nh)
    jobs = sorted(cfg["jobs"])
    end = sd.horizon(rng, [cfg], 45 // nh * 2, lo=6 * 3600)
    seed_all(rng, hosts, cfg, jobs, [0, 1, 2, 5])
    names = [h["name"] for h in hosts]
    plan = base(rng, "lead", hosts, cfg, jobs, end)
    if rng.random() < 0.3:
        for h in hosts[1:]:
            h["skew"] = rng.choice([0, 30, -30, 100, -100, 240, -240, 600])
    behaviour(rng, plan, names, jobs, cfg, end, slow=0.3, fail=rng.choice([0, 0, 0.1, 0.4]), burst=rng.choice([0, 0.05]), long=rng.choice([0, 0.03]))
    if rng.random() < 0.3:
        # one of them is configured differently
        h = rng.choice(hosts)
        c = h["cfg"]
        x = rng.random()
        if x < 0.5:
            c["jobs"].pop(rng.choice(jobs))
        elif x < 0.8:
            s = rng.choice(sorted(c["schedules"]))
            c["schedules"][s] = sd.gen_sched(rng, SCHEDS)
        else:
            c["tokens"] = {"tok-cli": "cli"}
    if rng.random() < 0.8:
        net_events(rng, plan, end, names, rng.choice([1, 2, 4]), ["cut", "cut", "reset", "outage", "outage", "evil"])
    if rng.random() < 0.4:
        aimed(rng, plan, names, jobs, rng.choice([1, 2]))
    if rng.random() < 0.25:
        for _ in range(rng.choice([1, 3])):
            plan["events"].append(dict(t=rng.uniform(5, end), ev="run", host=rng.choice(names), job=rng.choice(jobs)))
    if rng.random() < 0.2:
        h = rng.choice(hosts)
        c = copy.deepcopy(h["cfg"])
        if len(c["jobs"]) and rng.random() < 0.6:
            c["jobs"].pop(sorted(c["jobs"])[0])
        else:
            c["peers"] = {}
        t = rng.uniform(5, end)
        plan["events"].append(dict(t=t, ev="hup", host=h["name"], cfg=c))
        plan["events"].append(dict(t=t + rng.choice([3600, 86400]), ev="hup", host=h["name"], cfg=h["cfg"]))
    return plan


def gen_leadrun(rng, prof, tier):
    """Runs are requested from a server that leaves backups to another one."""
    cfg, hosts = cluster(rng, rng.choice([1, 1, 2]), 2)
    jobs = sorted(cfg["jobs"])
    end = sd.horizon(rng, [cfg], 30, lo=6 * 3600)
    seed_all(rng, hosts, cfg, jobs, [0, 1, 2, 5])
    names = [h["name"] for h in hosts]
    plan = base(rng, "leadrun", hosts, cfg, jobs, end)
    behaviour(rng, plan, names, jobs, cfg, end, slow=0.3, fail=rng.choice([0, 0, 0.2]), burst=0)
    for _ in range(rng.choice([3, 6, 12, 25])):
        e = dict(host=rng.choice(names), job=rng.choice(jobs))
        x = rng.random()
        if x < 0.5:
            e.update(ev="runat", t=rng.uniform(5, end), delta=rng.choice([-US, -rng.randrange(0, 20_000), -rng.randrange(500, 2500), -rng.randrange(500, 2500), -rng.randrange(500, 2500), rng.randrange(0, 500), 299 * US, 301 * US]))
        elif x < 0.8:
            e.update(ev="run", when=[rng.choice(["backup", "gc", "cb"]), rng.choice(names), e["job"], rng.randrange(0, 8)],
                     delay=rng.choice([0, 3000, rng.randrange(0, 40_000), 30 * US, rng.randrange(0, 400 * US)]))
        else:
            e.update(ev="run", t=rng.uniform(5, end))
        plan["events"].append(e)
    if rng.random() < 0.3:
        net_events(rng, plan, end, names, 1, ["cut", "reset", "outage"])
    return plan


TAGCMDS = [["tags", "add", "-r", "all", "manual:x"], ["tags", "remove", "-r", "all", "daily"], ["tags", "set", "-r", "last", "manual:y"], ["rm", "-r", "first"],
           ["tags", "remove", "-r", "all", "manual:x"], ["tags", "set", "-f", "-r", "remote", "manual:p"], ["rm", "-r", "remote"], ["rm", "-r", "local"],
           ["tags", "add", "-f", "-r", "remote", "x"], ["distrust", "-r", "local"], ["tags", "remove", "-r", "remote", "daily", "hourly"]]


def gen_sync(rng, prof, tier):
    nh = rng.choice([2, 2, 3])
    nj = rng.choice([1, 2])
    cfg, hosts = cluster(rng, nj, nh)
    jobs = sorted(cfg["jobs"])
    end = sd.horizon(rng, [cfg], 36 // nh * 2, lo=4 * 3600, hi=20 * 86400)
    seed_all(rng, hosts, cfg, jobs, [0, 1, 2, 5], wild=True)
    names = [h["name"] for h in hosts]
    plan = base(rng, "sync", hosts, cfg, jobs, end)
    behaviour(rng, plan, names, jobs, cfg, end, slow=0.2, fail=rng.choice([0, 0.05]), burst=0)
    for h in hosts:
        if rng.random() < 0.25 and len(jobs) > 1:
            h["cfg"]["jobs"].pop(rng.choice(sorted(h["cfg"]["jobs"])))
        if rng.random() < 0.15:
            h["cfg"]["peers"].pop(rng.choice(sorted(h["cfg"]["peers"])))
    net_events(rng, plan, end, names, rng.choice([0, 1, 2, 4]), ["cut", "reset", "outage", "evil", "evil", "evil"])
    aimed(rng, plan, names, jobs, rng.choice([0, 1, 3]))
    for _ in range(rng.choice([0, 1, 3])):
        plan["events"].append(dict(t=rng.uniform(5, end), ev="cli", host=rng.choice(names), job=rng.choice(jobs), argv=rng.choice(TAGCMDS)))
    for _ in range(rng.choice([0, 0, 1, 2])):
        h = rng.choice(hosts)
        c = copy.deepcopy(h["cfg"])
        if rng.random() < 0.5 and c["peers"]:
            c["peers"].pop(rng.choice(sorted(c["peers"])))
        elif c["jobs"]:
            c["jobs"].pop(rng.choice(sorted(c["jobs"])))
        plan["events"].append(dict(t=rng.uniform(5, end), ev="hup", host=h["name"], cfg=c))
    return plan


def gen_push(rng, prof, tier):
    """A job has moved: one server makes backups, others still hold old ones."""
    nh = rng.choice([2, 2, 3])
    cfg, hosts = cluster(rng, rng.choice([1, 1, 2]), nh, pick=rng.choice([[1], [5], [0, 2, 3], SCHEDS]))
    jobs = sorted(cfg["jobs"])
    end = sd.horizon(rng, [cfg], 30, lo=4 * 3600, hi=12 * 86400)
    seed_all(rng, hosts, cfg, jobs, [1, 2, 4, 7], wild=True, copies=0.5)
    names = [h["name"] for h in hosts]
    plan = base(rng, "push", hosts, cfg, jobs, end)
    plan["linger"] = True
    active = {}
    for j in jobs:
        active[j] = set(rng.sample(names, rng.choice([1, 1, 2]) if nh > 2 else 1))
        for h in hosts:
            if h["name"] not in active[j]:
                h["cfg"]["jobs"].pop(j, None)
    behaviour(rng, plan, names, jobs, cfg, end, slow=0.1, fail=rng.choice([0, 0.05]), burst=0)
    net_events(rng, plan, end, names, rng.choice([0, 1, 2]), ["cut", "reset", "outage"])
    aimed(rng, plan, names, jobs, rng.choice([1, 2, 4]))
    for _ in range(rng.choice([2, 5, 10])):
        j = rng.choice(jobs)
        e = dict(ev="cli", host=rng.choice(sorted(active[j]) * 2 + names), job=j, argv=rng.choice(TAGCMDS))
        if rng.random() < 0.5:
            e["t"] = rng.uniform(5, end)
        else:
            a = rng.choice(sorted(active[j]))
            e["when"] = [rng.choice(["backup", "gc"]), a, j, rng.randrange(0, 8)]
            e["delay"] = rng.choice([0, 2000, rng.randrange(0, 60_000), rng.randrange(0, 60_000), 5 * US])
        plan["events"].append(e)
    if rng.random() < 0.4:
        # it moves once more
        j = rng.choice(jobs)
        a = rng.choice(sorted(active[j]))
        b = rng.choice([n for n in names if n != a])
        t = rng.uniform(5, end)
        for n in (a, b):
            h = next(x for x in hosts if x["name"] == n)
            c = copy.deepcopy(h["cfg"])
            if n == a:
                c["jobs"].pop(j, None)
            else:
                c["jobs"][j] = dict(cfg["jobs"][j])
            plan["events"].append(dict(t=t + rng.choice([0, 1, 600]), ev="hup", host=n, cfg=c))
    return plan


GENS = dict(lead=gen_lead, leadrun=gen_leadrun, sync=gen_sync, push=gen_push)


def gen(rng, prof, tier):
    plan = GENS[prof["kind"]](rng, prof, tier)
    for key in ("attempts", "gcs", "cbs"):
        plan[key] = {k: v for k, v in plan[key].items() if v}
    plan["events"] = [e for e in plan["events"] if "when" in e or e["t"] < plan["end"]]
    return plan


def shrinks(plan):
    for q in sd.shrinks(plan):
        names = {h["name"] for h in q["hosts"]}
        for h in q["hosts"]:
            p = h["cfg"].get("peers")
            if p:
                h["cfg"]["peers"] = {k: v for k, v in p.items() if k in names}
        yield q
    for hi, h in enumerate(plan["hosts"]):
        for key, val in (("skew", 0), ("start", 0)):
            if h.get(key):
                q = copy.deepcopy(plan)
                q["hosts"][hi][key] = val
                yield q
    if plan.get("linger"):
        q = copy.deepcopy(plan)
        q["linger"] = False
        yield q
    for i, e in enumerate(plan.get("events", [])):
        if e["ev"] == "evil":
            for k in list(e["modes"]):
                q = copy.deepcopy(plan)
                del q["events"][i]["modes"][k]
                yield q


def run(plan, debug=False, record=False):
    return sd.run(plan, debug, record, Harness)
