"""Writes known-findings.json."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
F = [
 ("C05", "54e5a85", "a backup made while revisions are distrusted reused damaged chunks and was reported as good"),
 ("C02", "ec28e2a", "chunk files were renamed into place without having been synced: power loss left empty chunks that later backups reused"),
 ("C02", "5c4cc9b", "revisions were marked complete before their data had been written to stable storage"),
 ("C03", "b9dace7", "a full export that ended early with an error status was recorded as a complete backup"),
 ("C07", "cc75236", "listing the history failed when a revision disappeared while it was read"),
 ("C06", "a8d2f72", "the cleanup of incomplete revisions removed a revision another process was just completing"),
 ("C08", "9fcd426", "rm, distrust and expire wrote back stale revisions and undid concurrent changes"),
 ("C04", "533ac64", "gc removed chunks of revisions that were completed after its scan; a leftover incomplete revision without a mapping made gc fail for ever"),
 ("C04", "86cc468", "a backup used a parent that had been removed (and collected) meanwhile"),
 ("C04", "3361776", "verify ran unlocked against backups and metadata changes and removed chunks in use"),
 ("C04", "fe2f0c0", "partial chunk files of interrupted backups were never removed"),
 ("C23", "db66558", "the upgrade of old chunk stores failed for ever if a partial chunk file was present"),
 ("C04", "44307d7", "gc of a file source removed the data of all revisions"),
 ("C24", "91db23c", "restores and backups of the file source were not synced"),
 ("C24", "df66326", "errors when punching holes or finishing a restore were ignored and success was reported"),
 ("C22", "afa3529", "the snapshot device stayed mapped when reading or checking it failed"),
 ("C22", "6e4b234", "snapshot requests stayed in Consul after errors, and garbage in Consul broke all backups"),
 ("C19", "db8f798", "`reports delete` used a wrong file name and never deleted anything"),
 ("C01", "4343090", "an interrupted backup could become the parent of a differential backup: the result was a mix of both"),
 ("C04", "0bc2941", "a read error of the repository directory looked like an empty history: gc then removed everything"),
 ("C23", "4636ce1", "a read error while upgrading a chunk store made it drop all chunks from the store"),
 ("C24", "122d44c", "a read error when looking for a revision made restore deliver nothing with success and gc take its data for unneeded"),
 ("C21", "97e27bc", "a reload changing only a schedule left waiting jobs with the old deadline"),
 ("C11", "74cafb7", "an I/O error or damaged revision file when going to wait ended the job's loop for good, on start or reload the whole daemon"),
 ("C19", "3972b75", "the status reported the number of problem reports as of the last connect"),
 ("C18", "d168618", "purging a deleted job always failed for lack of a source and stopped the purge of all others"),
 ("C17", "c7569ba", "a job that is still configured was removed when nothing in it had changed for 93 days; one failing directory stopped the purge"),
 ("C17", "596073c", "an I/O error when accessing a directory made it count as unchanged, so it was removed"),
 ("C15", "8b82e3a", "a peer that hung or answered with garbage made the whole run of the job fail (no expiry, no gc, no callback)"),
 ("C14", "5e74237", "a peer without the job, or with a strange answer, voided the coordination with all other peers"),
 ("C14", "31cd15b", "servers followed a leader with a revision from the future instead of making backups"),
 ("C16", "3569075", "the data of remotely expired revisions was never collected if the request to purge was lost"),
 ("C16", "bf2c4da", "a request to purge that arrived during a purge was forgotten"),
 ("C15", "55aefe2", "metadata received from peers was used unchecked: files outside of the repository and own revisions were overwritten, own runs failed"),
 ("C14", "81d625a", "a follower polled in a busy loop if the leader's backup did not have the tags that are due"),
 ("C14", "771ab50", "two servers of which each waited for the other as the responsible one never backed up or polled again"),
 ("C20", "de8a9c2", "an address the API could not use (at the moment) ended its main loop: no later change of tokens, addresses or port came into force"),
 ("C20", "230af6f", "a reload that came while the API was still being reconfigured was lost: revoked tokens stayed valid"),
 ("C13", "584aacf", "a run requested at the moment of the job's deadline was forgotten if the job then left the backup to another server"),
 ("C26", "a1f7ac8", "requests for jobs whose names contain characters like %, # or ? failed or reached a different job"),
 ("C27", "1846378", "the daemon leaked one task for every backup of every job"),
 ("C22", "1ad9885", "a single malformed snapshot request in Consul made the backups of all VMs fail"),
 ("C16", "2df5b6f", "a successful change of tags or removal of a remote revision was reset by the next run instead of being pushed to the owner"),
 ("C16", "1cb021d", "changes of tags or removals made while a job synchronised with its peers, or since it last read its revisions, were lost"),
]
d = dict(findings=[dict(property=p, status="fixed", commit=c, what=w, line=f"fixed: property={p} {c} {w}") for p, c, w in F] + [])
with open(os.path.join(V, "known-findings.json"), "w") as f:
    json.dump(d, f, indent=1)
    f.write("\n")
