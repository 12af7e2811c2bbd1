"""Seeded search, minimisation, replay and evidence for every check.

    run.py C02                 search (VERIF_SEED, VERIF_TIER)
    run.py --replay FILE       run one replay file again
    run.py --lane ...          (internal) one lane of a search

A search is split into LANES lanes.  A lane is one fresh interpreter with its
own PYTHONHASHSEED; what lane i does depends on VERIF_SEED, the property and i
only, never on the number of processors or on timing (except that a lane stops
early when its wall-clock cap is reached).
"""

import argparse
import collections
import gc
import glob
import hashlib
import importlib
import json
import os
import queue
import signal
import subprocess
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
PYTHON = "/opt/venv/bin/python"
if not os.path.exists(PYTHON):
    PYTHON = sys.executable
LANES = 8
COLLECT = bool(os.environ.get("VERIF_COLLECT"))  # triage: list all violations, no search stop
RUN_WALL = 90  # seconds of real time one simulated run may take
REPLAYS = os.path.join(VERIF, "replays")

from sim.kernel import derive, derive_int  # noqa: E402


ALWAYS = ("hang", "budget", "wall")  # no property holds if commands do not end


class WallTimeout(BaseException):
    pass


class Result:
    """What one simulated run produced."""

    def __init__(self):
        self.viol = []  # dicts: cls, msg, key
        self.harness = []
        self.fired = []
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.sim_us = 0
        self.switches = 0
        self.steps = 0
        self.hist = ""
        self.inj = []  # (proc, index, kind, obj)
        self.stubs = []  # (child, argv)
        self.switch_log = []
        self.trace = []
        self.nontrivial = False
        self.info = {}

    def violate(self, cls, msg, key=None):
        for v in self.viol:
            if v["cls"] == cls and v["key"] == (key or cls):
                return
        self.viol.append(dict(cls=cls, msg=str(msg)[:1500], key=key or cls))

    def collect(self, w):
        """Take over the counters of a finished world."""
        k = w.k
        self.fired = list(k.fired)
        self.faults.update(k.stat_faults)
        self.sim_us = k.now
        self.switches = k.switches
        self.steps = k.steps
        h = k.hist.copy()
        for f in k.fired:
            h.update(repr(sorted((a, str(b)) for a, b in f.items() if a != "t")).encode())
        self.hist = h.hexdigest()[:16]
        self.switch_log = list(k.switch_log)
        self.harness = list(k.harness_errors)
        for p in k.procs:
            if p.exit_code == 71:
                self.violate("budget", f"{p.name} {p.argv} exceeded the step budget", "budget")


def scenario(name):
    return importlib.import_module("checks." + name)


def execute(plan, debug=False, record=False):
    """One run.  Must be called from the main thread."""
    mod = scenario(plan["scenario"])

    def on_alarm(*a):
        raise WallTimeout()

    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(RUN_WALL)
    try:
        return mod.run(plan, debug=debug, record=record)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def relevant(prop, res, known):
    """(new violations, known ones) of this property in a result."""
    from checks.registry import CHECKS

    classes = CHECKS[prop]["classes"]
    new, kn = [], []
    for v in res.viol:
        if v["cls"] not in ALWAYS and not any(v["cls"] == c or (c.endswith("*") and v["cls"].startswith(c[:-1])) for c in classes):
            continue
        hit = None
        for f in known:
            if f["property"] == prop and f.get("class") == v["cls"] and f.get("key", v["key"]) == v["key"]:
                hit = f
        (kn if hit else new).append(v)
    return new, kn


def load_known():
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [x for x in json.load(f)["findings"] if x.get("status") == "open"]


# ------------------------------------------------------------------- lane


def lane_main(prop, tier, seed, lane, runs, cap):
    from checks.registry import CHECKS

    spec = CHECKS[prop]
    known = load_known()
    t0 = time.time()
    # claim real stdout before anything is intercepted
    out = os.fdopen(os.dup(1), "w")

    def emit(kind, **kw):
        out.write(json.dumps(dict(kind=kind, **kw), default=str) + "\n")
        out.flush()

    stats = collections.Counter()
    faults = collections.Counter()
    probes = collections.Counter()
    hists = set()
    samples = []
    gens = spec["gens"]
    total_w = sum(g[1] for g in gens)
    harness = []
    knownhits = set()
    n = 0
    last = None
    idx = lane
    tm = 0

    def one(plan, record):
        nonlocal n
        n += 1
        try:
            res = execute(plan, record=record)
        except WallTimeout:
            emit("violation", plan=plan, viol=dict(cls="wall", key="wall", msg="run did not end within %d s of real time" % RUN_WALL))
            emit("done", stats=stats, faults=faults, probes=probes, hists=sorted(hists),
                 samples=samples, harness=harness, known=sorted(knownhits))
            out.flush()
            os._exit(0)
        stats["runs"] += 1
        stats["sim_us"] += res.sim_us
        stats["switches"] += res.switches
        stats["steps"] += res.steps
        faults.update(res.faults)
        probes.update(res.probes)
        if res.nontrivial:
            stats["nontrivial"] += 1
            hists.add(res.hist)
        if res.harness:
            harness.append(dict(plan=plan, err=[str(h)[-1500:] for h in res.harness[:2]]))
            return res
        if len(samples) < 1 and res.nontrivial and n > 3:
            samples.append(dict(summary=res.info, plan=plan if len(json.dumps(plan, default=str)) < 4000 else "large",
                                fired=res.fired[:4]))
        new, kn = relevant(prop, res, known)
        for v in kn:
            knownhits.add(v["cls"] + "|" + v["key"])
        if new:
            for x in new if COLLECT else new[:1]:
                emit("violation", plan=plan, viol=x)
            stats["violations"] += 1
        return res

    while n < runs and time.time() - t0 < cap:
        # deterministic choice of the generator for this index
        x = derive_int(total_w, "gen", seed, prop, idx)
        for mod, wgt, prof in gens:
            if x < wgt:
                break
            x -= wgt
        rng = derive("plan", seed, prop, idx)
        sc = scenario(mod)
        plan = sc.gen(rng, prof, tier)
        plan["scenario"] = mod
        plan.setdefault("seed", rng.randrange(1 << 30))
        nvar = prof.get("variants", 0)
        stats["seeds"] += 1
        try:
            res = one(plan, record=nvar > 0)
            last = (plan, res)
            if not res.viol or prof.get("vary_always"):
                for v in range(nvar):
                    if n >= runs + 5 or time.time() - t0 > cap:
                        break
                    p2 = sc.vary(rng, prof, plan, res, v)
                    if p2 is None:
                        break
                    one(p2, record=False)
        except Exception:
            harness.append(dict(plan=plan, err=[traceback.format_exc()[-3000:]]))
            if len(harness) > 20:
                break
        if stats["violations"] >= 3 and not COLLECT:
            break
        idx += LANES
        tm += 1
        if tm % 25 == 0:
            gc.collect()
    if last is not None:
        # the same plan again must give the same execution
        try:
            again = execute(last[0], record=prof.get("variants", 0) > 0)
            stats["replayed"] += 1
            if again.hist == last[1].hist and again.steps == last[1].steps:
                stats["replayed_same"] += 1
        except (WallTimeout, Exception):
            pass
    stats["wall_ms"] = int((time.time() - t0) * 1000)
    emit("done", stats=stats, faults=faults, probes=probes, hists=sorted(hists),
         samples=samples, harness=harness[:10], known=sorted(knownhits), nharness=len(harness))


# --------------------------------------------------------------- minimise


def same(prop, plan, cls, known, record=False):
    try:
        res = execute(plan)
    except WallTimeout:
        return "wall" == cls and "wall"
    except Exception:
        return False
    if res.harness:
        return False
    new, _ = relevant(prop, res, known)
    for v in new:
        if v["cls"] == cls:
            return res
    return False


def minimise(prop, plan, cls, budget):
    """Greedy delta debugging over the plan."""
    known = load_known()
    t0 = time.time()
    tries = 0
    cur = plan
    res = same(prop, cur, cls, known)
    if not res or res == "wall":
        return cur, 0
    # explicit schedule
    def explicit(p, r):
        q = json.loads(json.dumps(p))
        q["sched"] = {"mode": "explicit", "switches": r.switch_log}
        return q

    if cur.get("sched", {}).get("mode") != "explicit":
        q = json.loads(json.dumps(cur))
        q["sched"] = {"mode": "explicit", "switches": []}
        r = same(prop, q, cls, known)
        if r and r != "wall":
            cur, res = q, r
        else:
            q = explicit(cur, res)
            r = same(prop, q, cls, known)
            if r:
                cur, res = q, r
    mod = scenario(plan["scenario"])
    progress = True
    while progress and time.time() - t0 < budget:
        progress = False
        for cand in mod.shrinks(cur):
            if time.time() - t0 > budget:
                break
            tries += 1
            r = same(prop, cand, cls, known)
            if r and r != "wall":
                cur, res = cand, r
                progress = True
                break
        if not progress:
            sw = cur.get("sched", {}).get("switches")
            if sw:
                step = max(1, len(sw) // 2)
                while step >= 1 and time.time() - t0 < budget:
                    i = 0
                    while i < len(sw) and time.time() - t0 < budget:
                        cand = json.loads(json.dumps(cur))
                        cand["sched"]["switches"] = sw[:i] + sw[i + step:]
                        tries += 1
                        r = same(prop, cand, cls, known)
                        if r and r != "wall":
                            cur, res = cand, r
                            sw = cand["sched"]["switches"]
                            progress = True
                        else:
                            i += step
                    step //= 2
                if progress:
                    continue
    return cur, tries


def minimise_main(prop, infile, outfile, budget):
    with open(infile) as f:
        d = json.load(f)
    plan, tries = minimise(prop, d["plan"], d["viol"]["cls"], budget)
    d["original_size"] = len(json.dumps(d["plan"]))
    d["plan"] = plan
    d["tries"] = tries
    res = None
    try:
        res = execute(plan)
        d["fired"] = res.fired
        for v in res.viol:
            if v["cls"] == d["viol"]["cls"]:
                d["viol"] = v
                break
    except WallTimeout:
        pass
    with open(outfile, "w") as f:
        json.dump(d, f, indent=1, default=str)
    os._exit(0)


# ----------------------------------------------------------------- replay


def replay_main(path, verbose):
    with open(path) as f:
        d = json.load(f)
    want = str(d["hashseed"])
    if os.environ.get("PYTHONHASHSEED") != want:
        os.environ["PYTHONHASHSEED"] = want
        os.execv(PYTHON, [PYTHON] + sys.argv)
    prop = d["property"]
    try:
        res = execute(d["plan"], debug=verbose)
    except WallTimeout:
        res = None
    if res is None:
        found = [dict(cls="wall", key="wall", msg="run did not end")]
    else:
        if res.harness:
            print("HARNESS", res.harness)
            os._exit(2)
        found = res.viol
        if verbose:
            for t in res.trace:
                print(t)
        print(f"interleaving={res.hist} steps={res.steps} sim_us={res.sim_us}")
        for f in res.fired:
            print("fault:", f)
    for v in found:
        print("found:", v["cls"], v["key"], v["msg"])
    if any(v["cls"] == d["viol"]["cls"] for v in found):
        print(f"VIOLATION property={prop} replay={path}")
        sys.stdout.flush()
        os._exit(1)
    print("not reproduced")
    sys.stdout.flush()
    os._exit(0)


# ------------------------------------------------------------------- main


def sub(args, hashseed, timeout):
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
    return subprocess.run([PYTHON, os.path.join(HERE, "run.py")] + args, env=env,
                          stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)


def search(prop):
    from checks.registry import CHECKS

    spec = CHECKS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    runs, cap = spec["budget"][tier]
    if os.environ.get("VERIF_RUNS"):
        runs = int(os.environ["VERIF_RUNS"])
    if os.environ.get("VERIF_CAP"):
        cap = float(os.environ["VERIF_CAP"])
    per_lane = max(1, runs // LANES)
    procs = []
    q = queue.Queue()
    lanes = {}
    for i in range(LANES):
        hs = 1 + derive_int(4_000_000, "hash", seed, prop, i)
        env = dict(os.environ, PYTHONHASHSEED=str(hs))
        err = open(os.path.join("/tmp", f"lane-{os.getpid()}-{i}.err"), "w+b")
        p = subprocess.Popen(
            [PYTHON, os.path.join(HERE, "run.py"), "--lane", str(i), prop, tier, str(seed), str(per_lane), str(cap)],
            env=env, stdout=subprocess.PIPE, stderr=err)
        procs.append(p)
        lanes[i] = dict(hashseed=hs, done=None, err=err)

        def reader(i=i, p=p):
            for line in p.stdout:
                try:
                    q.put((i, json.loads(line)))
                except ValueError:
                    pass
            q.put((i, None))

        threading.Thread(target=reader, daemon=True).start()
    open_lanes = set(range(LANES))
    viols = []
    first = None
    hard = cap + RUN_WALL + 60
    while open_lanes:
        try:
            i, m = q.get(timeout=1)
        except queue.Empty:
            if time.time() - t0 > hard:
                break
            if first and time.time() - first > 8 and not COLLECT:
                break
            continue
        if m is None:
            open_lanes.discard(i)
        elif m["kind"] == "violation":
            viols.append((i, m))
            first = first or time.time()
        elif m["kind"] == "done":
            lanes[i]["done"] = m
    stopped = bool(open_lanes)
    for p in procs:
        if p.poll() is None:
            p.kill()
        p.wait()
    errors = []
    for i, l in lanes.items():
        l["err"].seek(0)
        txt = l["err"].read().decode(errors="replace")
        l["err"].close()
        try:
            os.unlink(l["err"].name)
        except OSError:
            pass
        if l["done"] is None and not (first and i in open_lanes):
            errors.append(f"lane {i} gave no result: {txt[-2000:]}")
    stats = collections.Counter()
    faults = collections.Counter()
    probes = collections.Counter()
    hists = set()
    samples = []
    nharness = 0
    knownhits = set()
    for l in lanes.values():
        d = l["done"]
        if not d:
            continue
        stats.update(d["stats"])
        faults.update(d["faults"])
        probes.update(d["probes"])
        hists.update(d["hists"])
        samples.extend(d["samples"][:1])
        knownhits.update(d["known"])
        nharness += d.get("nharness", len(d["harness"]))
        for h in d["harness"][:3]:
            errors.append("harness: " + "\n".join(h["err"]) + "\nplan: " + json.dumps(h["plan"], default=str)[:3000])
    code = 0
    reported = None
    unrepro = []
    if COLLECT:
        by = collections.defaultdict(list)
        for i, m in viols:
            by[m["viol"]["cls"], m["viol"]["key"]].append((i, m))
        for (cls, key), l in sorted(by.items(), key=lambda x: -len(x[1])):
            l.sort(key=lambda x: len(json.dumps(x[1]["plan"], default=str)))
            i, m = l[0]
            f = f"/tmp/collect-{prop}-{key.replace('/', '_')[:60]}.json"
            with open(f, "w") as fh:
                json.dump(dict(property=prop, hashseed=lanes[i]["hashseed"], viol=m["viol"], plan=m["plan"], verif_seed=seed, tier=tier, lane=i), fh)
            print(f"{len(l):5} {cls} [{key}] {m['viol']['msg'][:300]}\n      {f}")
            if COLLECT and os.environ["VERIF_COLLECT"] == "min":
                sub(["--minimise", prop, f, f, "40"], lanes[i]["hashseed"], 300)
        viols = []
    if viols:
        os.makedirs(REPLAYS, exist_ok=True)
        # smallest plan first, one attempt per class
        viols.sort(key=lambda x: len(json.dumps(x[1]["plan"], default=str)))
        tried = collections.Counter()
        for i, m in viols:
            cls = m["viol"]["cls"]
            if tried[cls] >= 3:
                continue
            tried[cls] += 1
            name = hashlib.sha256(json.dumps(m["plan"], sort_keys=True, default=str).encode()).hexdigest()[:10]
            raw = os.path.join(REPLAYS, f"{prop}-{name}.raw.json")
            rep = os.path.join(REPLAYS, f"{prop}-{name}.json")
            doc = dict(property=prop, hashseed=lanes[i]["hashseed"], viol=m["viol"], plan=m["plan"],
                       verif_seed=seed, tier=tier, lane=i)
            with open(raw, "w") as f:
                json.dump(doc, f, indent=1, default=str)
            r = sub(["--replay", raw], doc["hashseed"], 200)
            if r.returncode != 1:
                unrepro.append(dict(cls=cls, msg=m["viol"]["msg"], out=r.stdout.decode(errors="replace")[-500:]))
                os.unlink(raw)
                continue
            budget = 60 if tier == "quick" else 240
            try:
                sub(["--minimise", prop, raw, rep, str(budget)], doc["hashseed"], budget + RUN_WALL + 60)
                r2 = sub(["--replay", rep], doc["hashseed"], 200)
                ok = r2.returncode == 1
            except (subprocess.TimeoutExpired, OSError):
                ok = False
            final = rep if ok else raw
            if not ok:
                if os.path.exists(rep):
                    os.unlink(rep)
            else:
                os.unlink(raw)
            with open(final) as f:
                doc = json.load(f)
            if spec.get("confirm") and not spec["confirm"](doc, final, sub):
                unrepro.append(dict(cls=cls, msg="not confirmed: " + doc["viol"]["msg"]))
                continue
            reported = (doc, final)
            break
    for f in load_known():
        if f["property"] == prop:
            print(f"KNOWN-FINDING: property={prop} {f['what']}")
    wall = time.time() - t0
    n = stats["runs"]
    ev = dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=n,
            distinct_nontrivial=len(hists),
            rule=spec.get("rule", RULE),
            samples=samples[:3] or [dict(note="no sample")],
            seeds=stats["seeds"],
            runs_per_hour=int(n / wall * 3600) if wall else 0,
            seeds_per_hour=int(stats["seeds"] / wall * 3600) if wall else 0,
            replayed_again=stats["replayed"],
            replayed_identically=stats["replayed_same"],
            simulated_seconds=round(stats["sim_us"] / 1e6, 1),
            system_calls_simulated=stats["steps"],
            context_switches=stats["switches"],
            nontrivial_runs=stats["nontrivial"],
            faults_injected=dict(faults),
            probes=dict(probes),
            real_components=spec.get("real", REAL),
            stub_components=spec.get("stub", STUB),
            known_findings_hit=sorted(knownhits),
            violations_not_reproduced=unrepro,
            harness_errors=nharness,
            lanes=LANES,
        ),
        assumptions=ASSUME + spec.get("assume", []),
        wall_s=round(wall, 1),
        violations=1 if reported else 0,
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{prop}: {n} runs, {len(hists)} distinct, {sum(faults.values())} faults, "
          f"{stats['sim_us']/1e6:.0f} simulated s, {wall:.1f} s")
    if reported:
        doc, final = reported
        print(f"  {doc['viol']['cls']}: {doc['viol']['msg']}")
        print(f"VIOLATION property={prop} replay={final}")
        code = 1
    elif errors:
        seen = set()
        for e in errors:
            k = e.split("plan:")[0][-200:]
            if k not in seen and len(seen) < 4:
                seen.add(k)
                print("ERROR", e[:4000], file=sys.stderr)
        code = 2 if (n == 0 or nharness > max(3, n // 100) or any(l["done"] is None for l in lanes.values())) else 0
    for u in unrepro:
        print("not reproduced:", u, file=sys.stderr)
    sys.stdout.flush()
    os._exit(code)


RULE = ("a case is one simulated execution drawn from (seed, lane, index): workload, schedule and faults; "
        "non-trivial if at least one fault fired or one process was preempted or an oracle compared restored data; "
        "distinct by the hash of all context switches (which process, at which of its system calls) and fired faults")
REAL = ["backy CLI", "backy-rbd", "backy-file", "repository, revision, schedule, chunk store", "backyd scheduler and API (daemon scenarios)",
        "asyncio, aiohttp, aiofiles, PyYAML, Python I/O stack above system calls"]
STUB = ["file system and flock (in-memory, journal-ordered crash model)", "Ceph cluster and rbd tool", "Consul",
        "TCP network", "clocks", "process table and signals", "cp", "backup-completed callback script"]
ASSUME = ["the simulated file system offers POSIX semantics with metadata journalled in order and data written back after at most 40 s",
          "fsync and sync are honoured by the simulated disk",
          "processes share one Python interpreter; module globals of backy are shared between simulated processes"]


def main():
    a = sys.argv[1:]
    if a and a[0] == "--lane":
        lane_main(a[2], a[3], int(a[4]), int(a[1]), int(a[5]), float(a[6]))
        sys.stdout.flush()
        os._exit(0)
    if a and a[0] == "--minimise":
        minimise_main(a[1], a[2], a[3], float(a[4]))
    if a and a[0] == "--replay":
        replay_main(a[1], "-v" in a)
    if a and not a[0].startswith("-"):
        search(a[0])
    print(__doc__)
    os._exit(2)
