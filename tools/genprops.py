"""Writes properties.jsonl (kept as a script so that the file stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
                     mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=observe, hook_needed=None)))

R="src/backy/"
prop("C01","A complete revision restores exactly the snapshot it was taken from",
 "Whenever a revision is listed as complete and its stored data has not been damaged from outside, restoring it (to a file, a block device or standard output) yields byte for byte the source's content at the moment of that revision's snapshot, including its size. This holds for full and differential backups, after any sequence of source changes (writes, zeroed areas, growing, shrinking), other backups, removals, expiries and garbage collections, and for as long as the revision stays listed.",
 ["inputs","histories","configurations"],"all image contents and sizes, all write/zero/resize sequences between backups, all sequences of backup, rm, expire, gc, distrust and verify, whole-object and fine-grained diffs",
 "Tests back up a handful of fixed contents one to three times; chunk-cache flushing, resizes in the middle of a chunk, zero records, parent selection after removals and their combinations are not reached.",
 [R+"rbd/__init__.py",R+"rbd/rbd.py",R+"rbd/chunked/file.py",R+"rbd/chunked/chunk.py",R+"rbd/chunked/store.py",R+"file/__init__.py",R+"utils.py"],
 [("differential integration",R+"rbd/rbd.py RBDDiffV1.integrate"),("content addressed chunks and mapping",R+"rbd/chunked/file.py File"),("parent selection",R+"rbd/__init__.py CephRBD.get_parent")],
 ["backy log --json","backy restore"])
prop("C02","Successful backups survive power loss and never come back damaged",
 "When the machine loses power at any moment and is restarted, every revision that is then listed as complete still restores exactly, and every backup that had reported success before the power loss is still listed as complete. Data left behind by interrupted work never makes a later successful backup unrestorable.",
 ["crash_points","histories"],"every system call as the power-loss point, all legal orders in which unsynced data and directory updates reach the disk, all later backups",
 "No test loses power: the tests run on a live file system where everything written is visible, so missing or misplaced syncs cannot be seen.",
 [R+"rbd/__init__.py",R+"rbd/chunked/chunk.py",R+"rbd/chunked/file.py",R+"utils.py",R+"file/__init__.py"],
 [("sync before declaring success",R+"rbd/__init__.py RBDSource.backup"),("fsync + rename",R+"utils.py SafeFile"),("chunk files written beside and renamed",R+"rbd/chunked/chunk.py Chunk.flush")],
 ["backy log --json","backy restore"])
prop("C03","A failed or truncated source read is never recorded as a good backup",
 "If taking the snapshot, mapping it, or exporting it fails or ends early at any point, the backup command reports failure and leaves no new revision listed as complete; a failing write to the repository never leads to a complete revision that does not restore exactly. Revisions that were complete before are unaffected, and once the faults stop the next backup succeeds without manual repair.",
 ["fault_sequences","histories"],"every external command invocation failing, hanging, or cutting its output at any byte; every write, fsync, rename or open failing with EIO or ENOSPC",
 "Tests replace the rbd tool with fixed successful answers and a few hand-written errors; truncation positions, exit codes at the end of a stream and disk errors are never varied.",
 [R+"rbd/__init__.py",R+"rbd/rbd.py",R+"cli/__init__.py",R+"source.py",R+"repository.py",R+"file/__init__.py"],
 [("exit status and stream checks",R+"rbd/rbd.py export/export_diff"),("sample verification against the snapshot",R+"utils.py files_are_roughly_equal"),("removal of incomplete revisions",R+"repository.py _clean")],
 ["exit status of backy backup","backy log --json","backy restore"])
prop("C04","Garbage collection never removes needed data and removes all unneeded data",
 "No interleaving of garbage collection, verification, removal, expiry, backups and restores, and no crash in them, ever deletes stored data that a listed complete revision, a backup that goes on to succeed, or a running restore of a revision that stays listed needs. A garbage collection that runs to its end while nothing else is active leaves no stored image data (for the block device source) that no listed revision refers to.",
 ["schedules","crash_points","histories"],"all interleavings of gc, verify, rm, gc --expire, backup and restore processes on one repository, all crash points within them",
 "The tests call gc and verify one after the other in one process; overlapping processes with stale views of the revision list are never produced.",
 [R+"rbd/__init__.py",R+"rbd/chunked/store.py",R+"repository.py",R+"file/__init__.py"],
 [("purge lock",R+"repository.py lock/locked"),("mark and sweep",R+"rbd/__init__.py gc, "+R+"rbd/chunked/store.py purge")],
 ["chunks directory","backy restore","backy log --json"])
prop("C05","Stored-data corruption is detected, contained and healed",
 "If stored data has been damaged or lost on disk, a restore that needs it fails instead of delivering wrong content, and verification never marks an affected revision as verified but removes it together with the damaged data. A backup whose parent data turns out to be unreadable marks existing revisions as distrusted, and while revisions are distrusted new backups rewrite the data they store, so that backups which succeed after all damaged revisions have been distrusted restore exactly. A backup never fails twice in a row because of damaged data.",
 ["fault_sequences","histories"],"which stored objects are damaged how (bit flips, truncation, zeroing, deletion), at which point of any history of backups, verifications, distrust and restores",
 "Tests damage one chunk in one fixed way and check one immediate reaction; the follow-up (does the next backup heal, is anything wrong delivered later) is not explored.",
 [R+"rbd/__init__.py",R+"rbd/chunked/chunk.py",R+"repository.py",R+"revision.py"],
 [("hash check on read",R+"rbd/chunked/chunk.py _read_existing"),("distrust on backend error and forced rewriting",R+"rbd/__init__.py backup/open"),("verify",R+"rbd/__init__.py verify")],
 ["backy restore","backy verify","backy log --json"])
prop("C06","Operations on one repository exclude each other and survive dead holders",
 "At most one backup of a repository makes progress on its source at any time, and metadata changes never run inside another process's backup or change of the same repository. An operation that finds the repository busy reports failure at once, instead of waiting, without changing complete revisions, and no lock outlives the process that held it, however that process ended.",
 ["schedules","crash_points"],"all interleavings and crash points of concurrent backup, restore, gc, verify, expire, tags, rm and distrust processes",
 "Tests take locks from one process and check the immediate exception; real overlaps and dying holders are not exercised.",
 [R+"repository.py",R+"rbd/__init__.py",R+"cli/__init__.py",R+"daemon/scheduler.py"],
 [("flock based locks",R+"repository.py lock/locked")],["order of rbd commands and file changes","exit status"])
prop("C07","Metadata updates are atomic under crashes, errors and concurrent readers",
 "A revision's metadata, the job configuration and problem reports are always seen either in their complete old or their complete new version, by concurrent readers as well as after a crash or power loss at any point and after any failed write. An interrupted or failed metadata update never makes revisions unlistable or the repository unusable.",
 ["crash_points","schedules","fault_sequences"],"every system call of every metadata-changing command as kill, power-loss or I/O-error point, every interleaving with readers",
 "Tests never interrupt a metadata write.",
 [R+"utils.py",R+"revision.py",R+"source.py",R+"report.py",R+"repository.py"],
 [("write beside, fsync, rename",R+"utils.py SafeFile")],["backy log --json","*.rev files","config"])
prop("C08","Tag and trust changes are never lost and compare-and-set is atomic",
 "Concurrent tag changes, trust changes, backups, verifications, removals and expiries of a repository leave it in a state that some one-at-a-time order of the successful operations would have produced (applied to the revisions selected when the operation started); a change reported as successful is never silently undone and a removed revision never reappears. A tag change with an expectation succeeds only if every selected revision had exactly the expected tags at that point in the order, and otherwise changes nothing.",
 ["schedules","crash_points"],"all interleavings of tags set/add/remove (with and without expectation), distrust, rm, expire, verify and backup, with kills at any point",
 "Tests run tag operations one at a time.",
 [R+"repository.py",R+"revision.py",R+"schedule.py",R+"rbd/__init__.py",R+"cli/__init__.py"],
 [("rescan under the backup lock",R+"repository.py tags/distrust/rm/expire")],["backy log --json","exit status"])
prop("C09","Retention keeps what the schedule promises and expires the rest",
 "For every tag of the schedule, expiry never removes that tag from any of its newest 'keep' complete revisions nor from a revision younger than keep times the interval, never touches manual tags, and never removes a revision that still carries a tag. Revisions beyond both limits lose the tag and untagged revisions disappear by the end of the next successful run.",
 ["histories","configurations"],"all schedules (any tags, intervals, keeps and later changes to them), all histories of runs, failures, outages, clock steps and manual tagging, over months of simulated time",
 "Tests check expiry on a few hand-built revision lists; they do not reach histories with failed and incomplete runs, outages and schedule changes.",
 [R+"schedule.py",R+"repository.py",R+"daemon/scheduler.py",R+"cli/__init__.py"],
 [("expire",R+"schedule.py expire")],["backy log --json","*.rev files"])
prop("C10","Every job is backed up on schedule and catches up after interruptions",
 "While the daemon runs and backups succeed, every configured job gets for every tag of its schedule a complete revision carrying the tag at least once per interval (plus bounded waiting for worker slots and run time), spread deterministically, and not more often than the schedule asks. After an outage, a restart or a failure series, tags that were missed are made up for promptly.",
 ["histories","schedules","configurations"],"all schedules, job sets, worker limits, backup durations, daemon stops and restarts at any time, and reloads, over weeks of simulated time",
 "Tests ask the scheduler for single next times; the long-run behaviour of the running daemon is not covered.",
 [R+"schedule.py",R+"daemon/scheduler.py",R+"daemon/__init__.py"],
 [("next/_missed",R+"schedule.py"),("job loop",R+"daemon/scheduler.py run_forever")],["backy log --json over time"])
prop("C11","Job failures are retried with bounded back-off and never end or spread",
 "Whatever error a job's backup, expiry, garbage collection, callback or repository access meets, the job is tried again, after at most six hours of back-off that grows from two minutes while failures repeat and is gone after a success. Other jobs and the daemon are not affected.",
 ["fault_sequences","histories"],"every failure kind (failing or killed subprocess, I/O errors, vanished or unreadable files, locked repository) at every step of the loop, in any sequence",
 "One test makes three runs fail with a mock exception; failures elsewhere in the loop are not produced.",
 [R+"daemon/scheduler.py",R+"daemon/__init__.py",R+"repository.py"],
 [("exponential back-off",R+"daemon/scheduler.py run_forever")],["start times of backup processes"])
prop("C12","Worker limits hold and no worker slot is ever lost",
 "With an unchanged configuration, at no time do more jobs run than the worker limit allows for fast jobs and for slow jobs each, with jobs classified by the duration of their last complete backup. Whenever a job is due and slots are free, it starts, whatever failures, cancellations and reloads happened before.",
 ["schedules","fault_sequences","configurations"],"all job sets, worker limits, durations, failures, stops, reloads and run-now requests",
 "Tests run the pool with mocked instantaneous jobs.",
 [R+"daemon/scheduler.py",R+"daemon/__init__.py"],
 [("semaphores",R+"daemon/__init__.py _apply_config, "+R+"daemon/scheduler.py run_forever")],["running backup processes"])
prop("C13","An accepted run-now request is followed by a backup attempt",
 "After the daemon has accepted a request to run a job now, an attempt to back up that job starts after the request, as soon as a worker slot is free and any run in progress has ended, regardless of its schedule, back-off state, or of another server leading the job.",
 ["schedules","histories"],"all arrival times of requests relative to deadlines, running backups, back-off, monitoring of a leader, and other requests",
 "Tests set the event and check it once.",
 [R+"daemon/api.py",R+"daemon/scheduler.py",R+"utils.py"],
 [("run_immediately event",R+"daemon/scheduler.py _wait_for_deadline/_wait_for_leader")],["API reply","start times of backup processes"])
prop("C14","Servers sharing a job coordinate and fail over",
 "When several servers are configured for the same job and can reach each other, a server that sees another one with more backups of the job, which has just made or is about to make the scheduled backup, does not also make it. When the leading server is down, unreachable, stopped, does not know the job or answers nonsense, another server makes the backup within bounded time.",
 ["schedules","fault_sequences","histories"],"all cluster sizes up to three, partitions, message delays, server crashes and restarts, clock skew of some minutes, differing configurations",
 "Tests mock the answers of one peer; no two schedulers ever run against each other.",
 [R+"daemon/scheduler.py",R+"daemon/api.py",R+"daemon/__init__.py"],
 [("_wait_for_leader",R+"daemon/scheduler.py"),("status API",R+"daemon/__init__.py status")],["start times of backup processes on each server"])
prop("C15","Synchronisation with peers is safe, converges and cannot stall local work",
 "A server's view of the revisions on its peers converges, once they are reachable and quiet, to exactly the complete revisions the peers report, and never changes or removes its own revisions or the data behind them. No behaviour of a peer or the network (errors, hanging, garbage, resets, partitions) makes the local run fail, prevents expiry or garbage collection, or delays it by more than the request timeouts.",
 ["fault_sequences","schedules","histories"],"all peer and network failures at any message, any sequence of revision changes on both sides",
 "Tests run against one in-process peer with fixed replies and connection errors, never a hanging one.",
 [R+"daemon/scheduler.py",R+"daemon/api.py"],
 [("pull_metadata/push_metadata",R+"daemon/scheduler.py")],["backy log --json on each server","*.rev files"])
prop("C16","Tag changes for remote revisions reach the owner exactly or not at all",
 "A change of tags made on one server for a revision that lives on another is applied there only if the tags there are still those the change was based on and the job is not active there; otherwise nothing is changed there. Until it has been applied or the owner has changed the tags itself, the change is kept and offered again with every run. Revisions expired this way are removed on the owner and their data is collected there eventually.",
 ["schedules","fault_sequences","histories"],"all interleavings of local and remote tag changes, message loss after the change was applied, and restarts",
 "Tests push against mocked or static servers.",
 [R+"daemon/scheduler.py",R+"daemon/api.py",R+"repository.py"],
 [("compare-and-set put_tags",R+"daemon/api.py put_tags, "+R+"repository.py tags")],["backy log --json on each server"])
prop("C17","Deleted jobs' data is removed only after three months without changes",
 "The daemon removes a directory below its base directory only if nothing in it has changed for 93 days, and it removes such directories within about a day while it runs. Directories that are active, freshly touched (also by a peer), or reached only through symbolic links are never removed, and errors in one candidate or run do not end this service.",
 ["histories","fault_sequences","configurations"],"all directory trees and modification times, months of simulated time, I/O errors and concurrent changes during the scan",
 "One test checks one directory with faked times.",
 [R+"daemon/__init__.py",R+"utils.py",R+"daemon/api.py"],
 [("purge_old_files",R+"daemon/__init__.py"),("has_recent_changes",R+"utils.py")],["directory tree"])
prop("C18","Accepted purge requests for deleted jobs are carried out",
 "After the daemon has accepted a purge request for a repository that is no longer configured as a job, the unneeded data of that repository is removed within about a day while the daemon runs, across restarts and in spite of failures in other repositories. Data needed by its remaining revisions is kept.",
 ["histories","fault_sequences"],"all sequences of requests, restarts, failures and crash points",
 "The test mocks the garbage collection call and so does not notice that it cannot run.",
 [R+"daemon/__init__.py",R+"daemon/api.py",R+"daemon/scheduler.py",R+"rbd/__init__.py"],
 [("purge_pending_backups",R+"daemon/__init__.py")],["chunks directory","API reply"])
prop("C19","SLA checks and status tell the truth",
 "The check command and the status API report a job as overdue exactly if its newest complete revision is older than one and a half times its shortest interval, for every history including incomplete, failed and remote revisions, and report manual tags, unsynced revisions and problem reports as they are on disk. A problem report stays visible until deleted, and deleting one works.",
 ["histories","inputs"],"all histories, ages around the limit, clock steps, concurrent changes",
 "Tests probe two or three fixed ages.",
 [R+"repository.py",R+"cli/__init__.py",R+"daemon/__init__.py",R+"report.py"],
 [("sla/sla_overdue",R+"repository.py"),("check/reports",R+"cli/__init__.py")],["exit status and output of backy check","GET /v1/status"])
prop("C20","API access needs a currently configured token",
 "No API request without a bearer token that is configured at that time has any effect or discloses any information, whatever the path, method or header, and every request with a configured token is served. After a reload exactly the new tokens, addresses and port are in force.",
 ["inputs","histories","schedules"],"all requests, tokens, reloads and token rotations, with requests in flight during a reload",
 "Tests try a fixed list of wrong tokens against one configuration.",
 [R+"daemon/api.py",R+"daemon/__init__.py"],
 [("require_auth middleware",R+"daemon/api.py"),("reconfigure",R+"daemon/api.py")],["HTTP replies"])
prop("C21","Daemon start, reload and shutdown are orderly",
 "At most one daemon runs per base directory and a dead daemon never blocks the next. A reload starts exactly the added, stops exactly the removed, and restarts exactly the changed jobs; a termination signal ends the daemon within seconds at any moment, telling running backup processes to stop.",
 ["schedules","crash_points","histories"],"signals and reloads at any time, in any state of the jobs, in any order; restarts after kills and power loss",
 "Tests reload once in a quiet state and check lists of jobs.",
 [R+"daemon/__init__.py",R+"daemon/scheduler.py",R+"source.py"],
 [("lock",R+"daemon/__init__.py lock"),("_apply_config/terminate/shutdown_loop",R+"daemon/__init__.py")],["process table","start times of backup processes"])
prop("C22","Source snapshots, device mappings and snapshot requests do not pile up",
 "After a backup command has ended in any way short of being killed, no snapshot device is left mapped and no snapshot request of its own is left in Consul (unless the unmapping or Consul itself failed), and once a later backup succeeds at most the snapshot of the newest revision is left (none at all if the source always makes full backups). Snapshots not made by backy, and requests of other virtual machines, are never touched.",
 ["fault_sequences","histories","crash_points"],"all failing or hanging external commands, read errors, garbage in Consul, kills, followed by later backups",
 "Tests check the command sequence of undisturbed runs.",
 [R+"rbd/__init__.py",R+"rbd/rbd.py"],
 [("_delete_old_snapshots",R+"rbd/__init__.py CephRBD"),("image_reader",R+"rbd/rbd.py"),("create_snapshot",R+"rbd/__init__.py CephRBD")],["snapshots, mappings and Consul keys in the simulated cluster"])
prop("C23","Upgrading an old chunk store loses nothing at any crash point",
 "Opening a repository whose chunk store still has the old directory layout converts it, and if this is interrupted at any point (kill, power loss, I/O error), a later opening completes it. Every revision restores exactly afterwards.",
 ["crash_points","inputs","fault_sequences"],"every system call of the conversion as crash or error point, several in a row, all store contents, leftover files",
 "One test converts one small store without interruption.",
 [R+"rbd/chunked/store.py"],[("convert_to_v2",R+"rbd/chunked/store.py")],["backy restore","chunks directory"])
prop("C24","A restore that reports success has fully and durably written its target",
 "If the restore command exits with success, the target holds exactly the revision's content and, for files and block devices, it has been written to stable storage; every read error in the repository and every write, size or sync error on the target makes it exit with failure. A restore changes nothing in the repository.",
 ["fault_sequences","crash_points","inputs"],"every read, write, truncate and sync of the restore failing; short writes; full targets; larger, smaller and dirty targets; power loss right after success",
 "Tests restore to healthy files only.",
 [R+"rbd/__init__.py",R+"utils.py",R+"file/__init__.py",R+"source.py",R+"cli/__init__.py"],
 [("copy",R+"utils.py copy"),("restore_file/restore_stdout",R+"rbd/__init__.py")],["exit status","target content after power loss"])
prop("C25","The revision specification language selects exactly what it says",
 "Every revision specification (numbers, UUIDs, tags, trust, server, ranges, dates, set operations and functions) selects exactly the revisions its documentation describes or is rejected.",
 ["inputs"],"all specification strings and revision lists","Tests try some dozens of specifications on one fixed history.",
 [R+"repository.py"],[("find_revisions",R+"repository.py")],["backy rev-parse"])
prop('C26','Commands for several jobs act on exactly the selected ones and report failures',
 "A command with a job filter acts on all jobs the running daemon has configured whose names match the filter, whatever characters the names contain, and on nothing else. It succeeds only if the change, request or output it was asked for has been made for every one of them; if the daemon can't be reached or does not answer, nothing matches, or a repository is locked or unreadable, it ends with an error within bounded time. Status overviews list every configured job and every other directory exactly once.",
 ['inputs', 'schedules', 'fault_sequences'],'all filters, job names and commands, at any time relative to reloads, daemon deaths and stalls, running backups and other commands',
 'Tests call the command functions with one job and a mocked API; no command line process meets a live daemon that reloads, stalls or dies.',
 ['src/backy/cli/__init__.py', 'src/backy/daemon/api.py', 'src/backy/daemon/__init__.py'],
 [('get_repos/__call__', 'src/backy/cli/__init__.py Command'), ('jobs, backups and run requests', 'src/backy/daemon/api.py Client')],['exit status and output of backy', '*.rev files of all repositories', 'backup attempts after `backup --bg`'])
prop('C27','A long-running daemon does not pile up tasks, connections, files or processes',
 'However long a daemon has run, whatever has failed and however often it was reloaded, the number of asyncio tasks, network connections to other servers, listening sockets, open files and child processes it holds while nothing but its jobs is going on is bounded by the number of configured jobs and servers.',
 ['histories', 'schedules', 'fault_sequences'],'all histories of backups, failures, reloads, API requests, run-now requests, synchronisation with failing peers and signals',
 'Tests end long before a leak of one object per backup matters and never count what is left.',
 ['src/backy/utils.py', 'src/backy/daemon/__init__.py', 'src/backy/daemon/scheduler.py', 'src/backy/daemon/api.py'],
 [('delay_or_event', 'src/backy/utils.py delay_or_event'), ('run_forever/stop', 'src/backy/daemon/scheduler.py Job'), ('api_server_loop', 'src/backy/daemon/__init__.py'), ('ClientManager.close', 'src/backy/daemon/api.py')],['tasks of the event loop', 'open descriptors and sockets', 'process table'])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
