"""Which scenarios and oracles decide which property, and how long."""

R = "scen_repo"


def repo(kind, **kw):
    return dict(kind=kind, **kw)


CHECKS = {
    "C01": dict(tech="restored bytes compared with the simulated cluster's snapshot record",
                note="Sampled histories of backups, edits, resizes, rm, gc, distrust, verify and killed backups on real code from the CLI down to system calls; every complete revision is restored and compared. Trusts the Ceph stub's export formats and the simulated file system.",
                gens=[(R, 8, repo("fidelity", bigp=0.25, units=True, filep=0.1))],
                classes=["restore-wrong", "restore-fails", "backup-lost", "backup-fails", "complete-without-snapshot", "revision-vanished"],
                budget=dict(quick=(1600, 45), thorough=(60000, 1800))),
    "C02": dict(tech='power-loss crash model, restores compared with the snapshot record',
                note='Power fails at sampled system calls; what reaches the disk is drawn from the orders a metadata-journalled, write-back file system allows. Trusts that model (no lying disk).',
                gens=[(R, 1, repo("power", variants=8, faults=["powerfail"], single=0.9, filep=0.12))],
                classes=["restore-wrong", "restore-fails", "backup-lost", "log-failed", "revision-vanished", "complete-without-snapshot", "no-recovery"],
                budget=dict(quick=(1600, 45), thorough=(60000, 1800))),
    "C03": dict(tech='faulty source and disk, exit status and restores compared with the snapshot record',
                note="Failing, truncated, stalling and garbage source commands, device and disk errors at sampled points, two per run at most. Trusts the stub's exit behaviour to be representative of rbd.",
                gens=[(R, 1, repo("source", variants=8, faults=["source", "source", "devread", "eio", "enospc", "short", "capacity", "consul", "interrupt"], filep=0.08))],
                classes=["failed-source-*", "restore-wrong", "restore-fails", "no-recovery", "incomplete-left", "backup-lost", "revision-vanished", "hang", "complete-without-snapshot"],
                budget=dict(quick=(1600, 45), thorough=(60000, 1800))),
    "C04": dict(tech='concurrent processes, restores and reference scan as oracle',
                note='Sampled interleavings of 2-4 processes at system-call granularity with kills, stalls and I/O errors; completeness of gc is judged by what restores read and mappings refer to.',
                gens=[(R, 1, repo("gc", variants=4, faults=["kill", "pause", "pause", "eio"]))],
                classes=["restore-wrong", "restore-fails", "gc-garbage", "gc-fails", "backup-lost", "hang"],
                budget=dict(quick=(1200, 45), thorough=(60000, 1800))),
    "C05": dict(tech='injected stored-data damage, restores compared with the snapshot record',
                note='Bit flips, truncation, zeroing, deletion and swapped objects at sampled points of sampled histories.',
                gens=[(R, 1, repo("corrupt"))],
                classes=["restore-wrong", "verify-*", "not-healed", "no-recovery", "complete-without-snapshot"],
                budget=dict(quick=(1200, 45), thorough=(60000, 1800))),
    "C06": dict(tech='concurrent processes with kills and stalls, overlap and side-effect monitors',
                note='Windows of source activity and metadata changes are compared per run at system-call granularity.',
                gens=[(R, 1, repo("lock", variants=4, faults=["kill", "pause"]))],
                classes=["backups-overlap", "lock-waits", "change-during-backup", "loser-side-effect", "no-recovery", "hang", "incomplete-left"],
                budget=dict(quick=(1200, 45), thorough=(60000, 1800))),
    "C07": dict(tech='crash, power-loss and error points inside metadata changes, old-or-new oracle',
                note='Kill, power loss, EIO, ENOSPC, short and torn writes at sampled system calls of every metadata-changing command, with concurrent readers.',
                gens=[(R, 1, repo("meta", variants=8, faults=["kill", "powerfail", "eio", "enospc", "torn", "short"]))],
                classes=["log-failed", "log-garbage", "meta-*", "reader-*", "no-recovery", "hang"],
                budget=dict(quick=(1600, 45), thorough=(60000, 1800))),
    "C08": dict(tech='concurrent commands, linearizability check against a small state model',
                note='Histories of up to 6 operations are checked for a one-at-a-time order by depth-first search, with kills and stalls.',
                gens=[(R, 1, repo("tags", variants=2, faults=["kill", "pause", "pause"]))],
                classes=["not-linearizable", "wrong-success", "wrong-failure", "log-failed"],
                budget=dict(quick=(1600, 45), thorough=(60000, 1800))),
    "C22": dict(tech='faulty external commands, inventory of the simulated cluster as oracle',
                note='Snapshots, mappings and Consul keys are inspected after every backup.',
                gens=[(R, 1, repo("snap", variants=6, faults=["source", "source", "source", "devread", "consul", "kill", "eio"]))],
                classes=["mapped-left", "request-left", "snaps-left", "snap-missing", "foreign-*", "backup-fails"],
                budget=dict(quick=(1200, 45), thorough=(60000, 1800))),
    "C23": dict(tech='crash and error points during the conversion, restores compared with the snapshot record',
                note='Old-layout stores are made from real ones by rearranging files; conversions are interrupted up to twice.',
                gens=[(R, 1, repo("v1", variants=8, faults=["kill", "kill", "powerfail", "eio"]))],
                classes=["restore-wrong", "restore-fails", "no-recovery", "gc-garbage", "revision-vanished", "backup-lost"],
                budget=dict(quick=(1200, 45), thorough=(60000, 1800))),
    "C24": dict(tech='faulty and crashing restores, target content and durability as oracle',
                note='Targets are files, dirty files, devices and standard output; durability is judged by what the simulated disk holds.',
                gens=[(R, 1, repo("restore", variants=8, faults=["eio", "eio", "enospc", "short", "capacity", "powerfail"], filep=0.1))],
                classes=["restore-wrong", "restore-not-durable", "restore-changes-repo"],
                budget=dict(quick=(1600, 45), thorough=(60000, 1800))),
}

D = "scen_daemon"
DTRUST = " Daemon, scheduler, API, command line and file source run as shipped; processes, disk, clock, sockets and the HTTP codec below them are simulated."


def daemon(*kinds):
    return [(D, w, dict(kind=k)) for k, w in kinds]


CHECKS.update({
    "C09": dict(tech="months of simulated scheduling with failures, every metadata change judged against the retention rule",
                note="Sampled schedules, histories, failing runs, clock steps, outages and tag edits; the rule is evaluated independently at every change of a revision file and after every successful run." + DTRUST,
                gens=daemon(("retention", 4), ("schedule", 1), ("lifecycle", 1)),
                classes=["tagged-revision-removed", "manual-tag-removed", "tag-removed-early", "local-revision-changed", "meta-invalid", "data-removed", "tag-not-expired",
                         "incomplete-left", "untagged-left", "garbage-left", "stale-remote", "backup-lost", "data-lost"],
                budget=dict(quick=(2000, 60), thorough=(60000, 1800))),
    "C10": dict(tech="months of simulated scheduling, gaps between backups per tag judged against the schedule",
                note="Bounds take the observed waiting for slots and run times into account; schedules whose intervals do not divide each other get a wider bound." + DTRUST,
                gens=daemon(("schedule", 4), ("limits", 1), ("backoff", 1)),
                classes=["too-rare", "too-often", "tag-gap", "catch-up-late", "missed-not-included", "foreign-tag", "phase-changes", "no-spread", "no-tags", "job-stuck"],
                budget=dict(quick=(2000, 60), thorough=(60000, 1800))),
    "C11": dict(tech="failures injected at every step of the job loop, retry times judged against the back-off rule",
                note="Failing, killed and stalling subprocesses, I/O error windows, unreadable files, lock holders." + DTRUST,
                gens=daemon(("backoff", 4), ("retention", 1), ("purge", 1)),
                classes=["job-stuck", "backoff-long", "backoff-short", "daemon-died"],
                budget=dict(quick=(2000, 60), thorough=(60000, 1800))),
    "C12": dict(tech="simulated worker pools with failures, reloads and run-now requests, occupancy monitor",
                note="Occupancy is judged by the backup, gc and callback processes between the start of a run and the end of its last process." + DTRUST,
                gens=daemon(("limits", 4), ("runnow", 1), ("lifecycle", 1)),
                classes=["limit-exceeded", "job-stuck", "too-rare", "run-now-lost", "backoff-long"],
                budget=dict(quick=(2000, 60), thorough=(60000, 1800))),
    "C13": dict(tech="run-now requests at sampled and at critical moments, following attempts judged",
                note="Requests are also aimed at the microseconds around starts, ends and wake-ups." + DTRUST,
                gens=daemon(("runnow", 4), ("limits", 1), ("lifecycle", 1)),
                classes=["run-now-lost"],
                budget=dict(quick=(2000, 60), thorough=(60000, 1800))),
    "C17": dict(tech="months of simulated time over directory trees with errors and concurrent changes, removals judged against newest change",
                note="Every unlink of the daemon below the base directory is judged by the newest change seen at the scan." + DTRUST,
                gens=daemon(("purge", 1)),
                classes=["active-removed", "purged-too-early", "not-purged", "touch-ignored", "daemon-died"],
                budget=dict(quick=(2000, 45), thorough=(60000, 1800))),
    "C18": dict(tech="purge requests with failures and restarts, remaining data judged a day later",
                note="File source only; gc of the block device source is C04." + DTRUST,
                gens=daemon(("purge", 1)),
                classes=["purge-not-done", "data-removed", "data-lost"],
                budget=dict(quick=(2000, 45), thorough=(60000, 1800))),
    "C19": dict(tech="status replies, check command and report commands compared with the simulated disk",
                note="Replies are compared with the state before and after; ages within 10 s of the limit are not judged." + DTRUST,
                gens=daemon(("status", 1)),
                classes=["answer-malformed", "status-*", "check-wrong", "report-*"],
                budget=dict(quick=(2000, 60), thorough=(60000, 1800))),
    "C20": dict(tech="sampled requests with token rotations and reloads, answers and side effects judged",
                note="Requests go through aiohttp's real application, router and parser; requests overlapping a reload are judged by both configurations." + DTRUST,
                gens=daemon(("api", 1)),
                classes=["answer-malformed", "api-address", "token-refused", "unauthorized-*", "reload-refused"],
                budget=dict(quick=(2000, 45), thorough=(60000, 1800))),
    "C21": dict(tech="signals, kills, power loss and reloads at sampled and at critical moments, process table as oracle",
                note="Shutdown must be complete within five seconds." + DTRUST,
                gens=daemon(("lifecycle", 4), ("limits", 1)),
                classes=["second-daemon", "slow-shutdown", "child-survives", "reload-not-exact", "daemon-died", "reload-refused", "job-stuck"],
                budget=dict(quick=(2000, 60), thorough=(60000, 1800))),
})

CHECKS["C26"] = dict(tech="commands with job filters against live daemons that reload, stall and die; effects on every repository judged",
                     note="Every change a command makes is attributed to it at the simulated disk; success is judged by the state of all selected repositories." + DTRUST,
                     gens=daemon(("multi", 1)),
                     classes=["multi-*", "run-now-lost", "reload-refused"],
                     budget=dict(quick=(2000, 45), thorough=(60000, 1800)))

K = "scen_cluster"
KTRUST = " Two to three complete daemons on simulated hosts talk through aiohttp's real client and server over a simulated network."


def cluster(*kinds):
    return [(K, w, dict(kind=k)) for k, w in kinds]


CHECKS.update({
    "C14": dict(tech="several daemons with different histories, partitions, crashes and misbehaving peers; starts of backups on all servers compared",
                note="A backup counts as doubled only if the leader was reachable and undisturbed around that time; fail-over is judged with bounds that take slots, run times, own failures and clock skew into account." + KTRUST,
                gens=cluster(("lead", 4), ("sync", 1)),
                classes=["double-backup", "no-failover", "follow-loop", "job-stuck", "daemon-died"],
                budget=dict(quick=(2000, 75), thorough=(60000, 1800))),
    "C15": dict(tech="daemons synchronising with misbehaving, hanging, restarting and partitioned peers, views and own data compared with the peers' disks",
                note="The misbehaving peer is a program of the simulation that answers each request in one of some forty wrong ways; convergence is judged after faults have stopped." + KTRUST,
                gens=cluster(("sync", 3), ("push", 1), ("lead", 1)),
                classes=["run-stalled", "not-converged", "copy-dropped", "copy-wrong", "peer-escapes", "local-revision-changed", "tagged-revision-removed", "stale-remote",
                         "meta-invalid", "data-removed", "data-lost", "backup-lost", "daemon-died", "job-stuck"],
                budget=dict(quick=(2000, 75), thorough=(60000, 1800))),
    "C16": dict(tech="local and remote tag changes under message loss, resets and restarts, every change on the owner's disk traced back to a change elsewhere",
                note="Collection of the data is judged a day after the removal." + KTRUST,
                gens=cluster(("push", 3), ("sync", 1)),
                classes=["unfounded-change", "pending-dropped", "not-pushed", "changed-while-active", "copy-wrong", "remote-expired-data-left", "not-converged", "tagged-revision-removed"],
                budget=dict(quick=(2000, 75), thorough=(60000, 1800))),
})

CHECKS["C13"]["gens"] += cluster(("leadrun", 2), ("lead", 1))
CHECKS["C11"]["gens"] += cluster(("sync", 1), ("lead", 1))
CHECKS["C21"]["gens"] += cluster(("lead", 1))

CHECKS["C27"] = dict(tech="what daemons hold after long faulty histories counted by the simulator that owns their tasks, files, sockets and processes",
                     note="Counts are taken when the faults have stopped and again after a last round of backups; the bound depends on the number of jobs and servers only." + DTRUST,
                     gens=daemon(("lifecycle", 2), ("backoff", 1), ("runnow", 1), ("multi", 1), ("limits", 1)) + cluster(("lead", 1), ("sync", 1)),
                     classes=["leak-*"],
                     budget=dict(quick=(2000, 45), thorough=(60000, 1800)))

NOT_APPLICABLE = {
    "C25": "A pure function of the specification string and the revision list: no schedule, clock, fault, I/O or second party takes part in it, so there is nothing for a simulation to control.",
}
