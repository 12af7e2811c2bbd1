From 54e5a8503b5dfbfce241c06a84cee3654c8f7a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:51 +0000
Subject: [PATCH 01/44] fix: rewrite chunks while a revision is distrusted

contains_distrusted compared revisions with a trust state, which is never
equal, so backups made after a distrust reused possibly damaged chunks.
---
 src/backy/repository.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backy/repository.py b/src/backy/repository.py
index 2513762..b282a9b 100644
--- a/src/backy/repository.py
+++ b/src/backy/repository.py
@@ -254,7 +254,7 @@ class Repository(object):
     def contains_distrusted(self) -> bool:
         return any(
             (
-                r == Trust.DISTRUSTED
+                r.trust == Trust.DISTRUSTED
                 for r in self.get_history(clean=True, local=True)
             )
         )
-- 
2.43.0


From ec28e2a15ea7161f842ab51d84d65d900fff6841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:42 +0000
Subject: [PATCH 02/44] fix: sync chunk data before renaming chunk files into
 place

After a power loss a chunk file could exist under its final name without
its data. Later backups reused it and were recorded as complete although
they cannot be restored.
---
 src/backy/rbd/chunked/chunk.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/backy/rbd/chunked/chunk.py b/src/backy/rbd/chunked/chunk.py
index 04b9aa8..7144a84 100644
--- a/src/backy/rbd/chunked/chunk.py
+++ b/src/backy/rbd/chunked/chunk.py
@@ -128,6 +128,11 @@ class Chunk(object):
                 with os.fdopen(fd, mode="wb") as f:
                     data = lzo.compress(self.data.getvalue())
                     f.write(data)
+                    # The chunk must not become visible under its final name
+                    # before its data is on disk: after a power loss later
+                    # backups would otherwise reuse a damaged chunk.
+                    f.flush()
+                    os.fsync(f.fileno())
                 # Micro-optimization: chmod before rename to help against
                 # metadata flushes and then changing metadata again.
                 os.chmod(tmpfile_name, 0o440)
-- 
2.43.0


From 5c4cc9b9754f57dad63f590519bf5412588d1694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:42 +0000
Subject: [PATCH 03/44] fix: sync backup data before marking the revision
 complete

The revision info is synced on its own, so a power loss could leave a
complete revision whose data had not been written yet.
---
 src/backy/rbd/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/backy/rbd/__init__.py b/src/backy/rbd/__init__.py
index 86d6a7b..2c98069 100644
--- a/src/backy/rbd/__init__.py
+++ b/src/backy/rbd/__init__.py
@@ -166,6 +166,9 @@ class RBDSource(Source[RBDRestoreArgs]):
             revision.remove()
         else:
             self.log.info("verification-ok", revision_uuid=revision.uuid)
+            # The revision must not be marked as complete on disk before the
+            # data it refers to has arrived there.
+            os.sync()
             revision.stats["duration"] = time.time() - start
             revision.write_info()
             revision.readonly()
-- 
2.43.0


From b9dace7423492272f25b322d206e11d8e3d645ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:51 +0000
Subject: [PATCH 04/44] fix: fail backups whose rbd export exits with an error

A full export that ended early because rbd failed was taken for a smaller
image and could be recorded as a complete revision.
---
 src/backy/rbd/rbd.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/backy/rbd/rbd.py b/src/backy/rbd/rbd.py
index f53cee1..21aa32b 100644
--- a/src/backy/rbd/rbd.py
+++ b/src/backy/rbd/rbd.py
@@ -27,6 +27,13 @@ except Exception:
     CEPH_RBD_SUPPORTS_WHOLE_OBJECT_DIFF = False
 
 
+def check_exit_status(proc: subprocess.Popen) -> None:
+    """An export that failed must not be mistaken for one that has ended."""
+    match proc.wait():
+        case int(code) if code != 0:
+            raise subprocess.CalledProcessError(code, proc.args)
+
+
 class RBDClient(object):
     log: BoundLogger
 
@@ -149,6 +156,7 @@ class RBDClient(object):
         finally:
             proc.stdout.close()
             proc.wait()
+        check_exit_status(proc)
 
     @contextlib.contextmanager
     def image_reader(self, image: str) -> Iterator[BinaryIO]:
@@ -177,6 +185,7 @@ class RBDClient(object):
         finally:
             proc.stdout.close()
             proc.wait()
+        check_exit_status(proc)
 
 
 def unpack_from(fmt, f):
-- 
2.43.0


From cc7523642e5152019204d46faefdd79244f9209d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:29 +0000
Subject: [PATCH 05/44] fix: tolerate revisions that disappear while the
 history is read

Revisions removed by another process between listing and loading them made
unrelated commands and the daemon's job loop fail.
---
 src/backy/repository.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/backy/repository.py b/src/backy/repository.py
index b282a9b..f6430b4 100644
--- a/src/backy/repository.py
+++ b/src/backy/repository.py
@@ -214,7 +214,11 @@ class Repository(object):
             if f.is_symlink():
                 # Ignore links that are used to create readable pointers
                 continue
-            r = Revision.load(f, self, self.log)
+            try:
+                r = Revision.load(f, self, self.log)
+            except FileNotFoundError:
+                # Removed by another process since we listed the directory
+                continue
             if r.uuid not in self._by_uuid:
                 self._by_uuid[r.uuid] = r
                 self.history.append(r)
-- 
2.43.0


From a8d2f723e23bcb61caf830f7895f1f5ffc6b8fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:26 +0000
Subject: [PATCH 06/44] fix: look for incomplete revisions while holding the
 backup lock

_clean removed revisions that another process had completed since the
history was read, and missed the incomplete revision of the caller.
---
 src/backy/repository.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/backy/repository.py b/src/backy/repository.py
index f6430b4..0c29550 100644
--- a/src/backy/repository.py
+++ b/src/backy/repository.py
@@ -299,6 +299,8 @@ class Repository(object):
     @locked(target=".backup", mode="exclusive")
     def _clean(self) -> None:
         """Clean-up incomplete revisions."""
+        # A revision may have been completed since we last looked.
+        self.scan()
         for revision in self.local_history:
             if "duration" not in revision.stats:
                 self.log.warning(
-- 
2.43.0


From 9fcd426b79a06467ff2512a9c56bb6006c542da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:13 +0000
Subject: [PATCH 07/44] fix: apply rm, distrust and expire to the current state
 of the revisions

They worked on a history read before the lock was taken, undoing tag
changes made in between and bringing removed revisions back.
---
 src/backy/repository.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/backy/repository.py b/src/backy/repository.py
index 0c29550..b0fe657 100644
--- a/src/backy/repository.py
+++ b/src/backy/repository.py
@@ -308,13 +308,24 @@ class Repository(object):
                 )
                 revision.remove()
 
+    def _refresh(self, revs: Iterable[Revision]) -> List[Revision]:
+        """Return the current state of the given revisions.
+
+        Revisions which have been removed in the meantime are left out.
+        Requires the `.backup` lock.
+        """
+        uuids = [r.uuid for r in revs]
+        self.scan()
+        return [self._by_uuid[u] for u in uuids if u in self._by_uuid]
+
     @locked(target=".backup", mode="exclusive")
     def rm(self, revs: Iterable[Revision]) -> None:
-        for r in revs:
+        for r in self._refresh(revs):
             r.remove()
 
     @locked(target=".backup", mode="exclusive")
     def expire(self):
+        self.scan()
         self.schedule.expire(self)
 
     @locked(target=".backup", mode="exclusive")
@@ -353,7 +364,7 @@ class Repository(object):
 
     @locked(target=".backup", mode="exclusive")
     def distrust(self, revs: Iterable[Revision]) -> None:
-        for r in revs:
+        for r in self._refresh(revs):
             assert not r.server
             r.distrust()
             r.write_info()
-- 
2.43.0


From 533ac641d41c6d889c931f6eedfbb1f3eeb296e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:27 +0000
Subject: [PATCH 08/44] fix: collect garbage based on the current revisions

gc used a history read before it got the lock and deleted chunks of
revisions completed since then. It also failed as long as an interrupted
backup without a readable mapping was around.
---
 src/backy/rbd/__init__.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/backy/rbd/__init__.py b/src/backy/rbd/__init__.py
index 2c98069..08319e9 100644
--- a/src/backy/rbd/__init__.py
+++ b/src/backy/rbd/__init__.py
@@ -261,8 +261,20 @@ class RBDSource(Source[RBDRestoreArgs]):
         used_chunks: Set[Hash] = set()
         # TODO: also remove mapping file
         # TODO: purge quarantine store
+        # The history may have changed while we were waiting for the lock.
+        self.repository.scan()
         for revision in self.repository.local_history:
-            used_chunks.update(self.open(revision)._mapping.values())
+            try:
+                mapping = self.open(revision)._mapping
+            except (FileNotFoundError, ValueError):
+                if "duration" in revision.stats:
+                    raise
+                # The backup was interrupted before it stored a mapping.
+                self.log.warning(
+                    "gc-ignoring-incomplete", revision_uuid=revision.uuid
+                )
+                continue
+            used_chunks.update(mapping.values())
         self.store.purge(used_chunks)
         # TODO: move this to cli/daemon?
         self.repository.clear_purge_pending()
-- 
2.43.0


From 86cc4684c12327ae1d18f774afba8e5ebb0ce38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:18 +0000
Subject: [PATCH 09/44] fix: choose the parent of a backup from the current
 revisions

With a history read before the lock was taken, a backup could be based on
a parent whose chunks had been removed since.
---
 src/backy/rbd/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/backy/rbd/__init__.py b/src/backy/rbd/__init__.py
index 08319e9..0e55e47 100644
--- a/src/backy/rbd/__init__.py
+++ b/src/backy/rbd/__init__.py
@@ -135,6 +135,11 @@ class RBDSource(Source[RBDRestoreArgs]):
 
         start = time.time()
 
+        # The history may have changed while we were waiting for the lock. Our
+        # parent needs to be one that still exists and is trusted.
+        self.repository.scan()
+        revision = self.repository._by_uuid.get(revision.uuid, revision)
+
         if not self.ceph_rbd.ready():
             raise RuntimeError(
                 "Source is not ready (does it exist? can you access it?)"
-- 
2.43.0


From 3361776a0d60b6d20a705993f28bdf524cbfed2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:09 +0000
Subject: [PATCH 10/44] fix: do not verify while a backup or metadata change is
 running

verify purges chunks and rewrites revisions, but only took a shared lock:
it deleted chunks a running backup had just written and undid concurrent
tag changes.
---
 src/backy/rbd/__init__.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/backy/rbd/__init__.py b/src/backy/rbd/__init__.py
index 0e55e47..d0cc8c8 100644
--- a/src/backy/rbd/__init__.py
+++ b/src/backy/rbd/__init__.py
@@ -192,13 +192,20 @@ class RBDSource(Source[RBDRestoreArgs]):
         ):
             if revision.trust == Trust.DISTRUSTED:
                 self.log.warning("inconsistent")
-                self.verify(revision, skip_lock=True)
+                self._verify(revision)
                 break
         return verified
 
+    # Verifying removes chunks and changes revisions. This must not happen while
+    # a backup is using those chunks or someone else changes the revisions.
+    @locked(target=".backup", mode="exclusive")
     @locked(target=".purge", mode="shared")
-    @report_status
     def verify(self, revision: Revision):
+        self.repository.scan()
+        return self._verify(self.repository.find_by_uuid(revision.uuid))
+
+    @report_status
+    def _verify(self, revision: Revision):
         log = self.log.bind(revision_uuid=revision.uuid)
         log.info("verify-start")
         verified_chunks: Set[Hash] = set()
-- 
2.43.0


From fe2f0c0f8deee6fe96a7bc6e0d6afb96acd9b1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:09 +0000
Subject: [PATCH 11/44] fix: remove partial chunk files of interrupted backups

---
 src/backy/rbd/chunked/store.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/backy/rbd/chunked/store.py b/src/backy/rbd/chunked/store.py
index 18d310b..fdea684 100644
--- a/src/backy/rbd/chunked/store.py
+++ b/src/backy/rbd/chunked/store.py
@@ -65,6 +65,9 @@ class Store(object):
                 continue
             self.chunk_path(file_hash).unlink(missing_ok=True)
             self.seen.discard(file_hash)
+        # Partial chunks of interrupted backups (see Chunk.flush)
+        for tmpfile in self.path.glob("*/tmp*"):
+            tmpfile.unlink(missing_ok=True)
 
     def chunk_path(self, hash: Hash) -> Path:
         dir1 = hash[:2]
-- 
2.43.0


From db665584d687c7c1509efa784d4bb99f03dd517f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:47 +0000
Subject: [PATCH 12/44] fix: upgrade chunk stores that contain partial chunk
 files

Left-over temporary files made removing the old directories fail, so such
a repository could not be opened any more.
---
 src/backy/rbd/chunked/store.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/backy/rbd/chunked/store.py b/src/backy/rbd/chunked/store.py
index fdea684..813e703 100644
--- a/src/backy/rbd/chunked/store.py
+++ b/src/backy/rbd/chunked/store.py
@@ -1,3 +1,4 @@
+import shutil
 from pathlib import Path
 from typing import Iterable, Set
 
@@ -46,7 +47,9 @@ class Store(object):
             path.rename(new)
         for path in self.path.glob("*/??"):
             if path.is_dir():
-                path.rmdir()
+                # All chunks are gone from here, but partial files of
+                # interrupted backups may be left.
+                shutil.rmtree(path)
         with self.path.joinpath("store").open("wb") as f:
             f.write(b"v2")
         self.log.info("to-v2-finished")
-- 
2.43.0


From 44307d7d52d96957f03cd81409d2bad69713b9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:57 +0000
Subject: [PATCH 13/44] fix: garbage collection of the file source deleted all
 revisions

It compared the metadata files with the names of the data files and so
removed the metadata of every revision, without any lock. Remove the data
of revisions that are gone instead, and exclude backups and restores
meanwhile.
---
 src/backy/file/__init__.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/backy/file/__init__.py b/src/backy/file/__init__.py
index 768c0cb..3034c1e 100644
--- a/src/backy/file/__init__.py
+++ b/src/backy/file/__init__.py
@@ -1,11 +1,13 @@
+import re
 import shutil
 import sys
 import time
 from argparse import _ActionsContainer
 from dataclasses import dataclass
 from pathlib import Path
-from typing import Any, Iterable
+from typing import Any, Iterable, Literal
 
+import shortuuid
 from structlog.stdlib import BoundLogger
 
 from backy.revision import Revision
@@ -14,6 +16,13 @@ from backy.source import RestoreArgs, Source
 from ..repository import Repository
 
 
+UUID_PATTERN = re.compile(f"[{shortuuid.get_alphabet()}]{{22}}")
+
+
+def locked(target: str, mode: Literal["shared", "exclusive"]):
+    return Repository.locked(target, mode, repo_attr="repository")
+
+
 @dataclass(frozen=True)
 class FileRestoreArgs(RestoreArgs):
     target: Path
@@ -58,6 +67,8 @@ class FileSource(Source[FileRestoreArgs]):
     def _path_for_revision(self, revision: Revision) -> Path:
         return self.repository.path / revision.uuid
 
+    @locked(target=".backup", mode="exclusive")
+    @locked(target=".purge", mode="shared")
     def backup(self, revision: Revision):
         backup = self._path_for_revision(revision)
         assert not backup.exists()
@@ -68,17 +79,23 @@ class FileSource(Source[FileRestoreArgs]):
         revision.readonly()
         return True
 
+    @locked(target=".purge", mode="shared")
     def restore(self, revision: Revision, args: FileRestoreArgs):
         shutil.copy(self._path_for_revision(revision), args.target)
 
+    @locked(target=".purge", mode="exclusive")
     def gc(self):
-        files = set(self.repository.path.glob("*.rev"))
+        self.repository.scan()
         expected_files = set(
-            (self.repository.path / r.uuid)
-            for r in self.repository.get_history()
+            self._path_for_revision(r)
+            for r in self.repository.get_history(local=True)
         )
-        for file in files - expected_files:
-            file.unlink()
+        for file in list(self.repository.path.iterdir()):
+            # The data of a revision is named after its UUID. Do not touch
+            # anything else, specifically not the metadata.
+            if UUID_PATTERN.fullmatch(file.name) and file not in expected_files:
+                file.unlink(missing_ok=True)
+        self.repository.clear_purge_pending()
 
     def verify(self, revision: Revision):
         assert self._path_for_revision(revision).exists()
-- 
2.43.0


From 91db23c55ce1d0ea26a1cb6c7c5b19b19f375681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:36 +0000
Subject: [PATCH 14/44] fix: sync backups and restores of the file source

After a power loss complete revisions and restored files could be empty
or truncated.
---
 src/backy/file/__init__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/backy/file/__init__.py b/src/backy/file/__init__.py
index 3034c1e..158b1d9 100644
--- a/src/backy/file/__init__.py
+++ b/src/backy/file/__init__.py
@@ -1,3 +1,4 @@
+import os
 import re
 import shutil
 import sys
@@ -74,14 +75,19 @@ class FileSource(Source[FileRestoreArgs]):
         assert not backup.exists()
         start = time.time()
         shutil.copy(self.filename, backup)
+        # The data must be on disk before the revision is marked complete.
+        os.sync()
         revision.stats["duration"] = time.time() - start
         revision.write_info()
         revision.readonly()
+        os.sync()
         return True
 
     @locked(target=".purge", mode="shared")
     def restore(self, revision: Revision, args: FileRestoreArgs):
-        shutil.copy(self._path_for_revision(revision), args.target)
+        target = shutil.copy(self._path_for_revision(revision), args.target)
+        with open(target, "rb") as f:
+            os.fsync(f)
 
     @locked(target=".purge", mode="exclusive")
     def gc(self):
-- 
2.43.0


From df663261eb5350e4c0fc14a3cab2b7689e954f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:19 +0000
Subject: [PATCH 15/44] fix: do not ignore errors when finishing a restore

---
 src/backy/utils.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/backy/utils.py b/src/backy/utils.py
index d4c8fa2..ba614df 100644
--- a/src/backy/utils.py
+++ b/src/backy/utils.py
@@ -4,6 +4,7 @@ import contextlib
 import ctypes
 import ctypes.util
 import datetime
+import errno
 import hashlib
 import mmap
 import os
@@ -43,6 +44,9 @@ TiB = GiB * 1024
 PUNCH_SIZE = 4 * MiB
 CHUNK_SIZE = 4 * MiB
 
+# Errors of operations that are not supported, e.g. on special files.
+UNSUPPORTED = (errno.EINVAL, errno.ENOTSUP)
+
 END = object()
 
 
@@ -285,12 +289,16 @@ def copy_overwrite(source: IO, target: IO):
     target.flush()
     try:
         target.truncate(size)
-    except OSError:
-        pass  # truncate may not be supported, i.e. on special files
+    except OSError as e:
+        # truncate may not be supported, i.e. on special files
+        if e.errno not in UNSUPPORTED:
+            raise
     try:
         os.fsync(target)
-    except OSError:
-        pass  # fsync may not be supported, i.e. on special files
+    except OSError as e:
+        # fsync may not be supported, i.e. on special files
+        if e.errno not in UNSUPPORTED:
+            raise
     yield END
     yield size
 
@@ -325,12 +333,16 @@ def copy(source: IO, target: IO):
     target.flush()
     try:
         target.truncate(size)
-    except OSError:
-        pass  # truncate may not be supported, i.e. on special files
+    except OSError as e:
+        # truncate may not be supported, i.e. on special files
+        if e.errno not in UNSUPPORTED:
+            raise
     try:
         os.fsync(target)
-    except OSError:
-        pass  # fsync may not be supported, i.e. on special files
+    except OSError as e:
+        # fsync may not be supported, i.e. on special files
+        if e.errno not in UNSUPPORTED:
+            raise
     yield END
     yield size
 
-- 
2.43.0


From afa35295dc0a71fe43a35805f4179de336716cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:51 +0000
Subject: [PATCH 16/44] fix: unmap the device of a snapshot if it cannot be
 read

---
 src/backy/rbd/rbd.py | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/backy/rbd/rbd.py b/src/backy/rbd/rbd.py
index 21aa32b..cefddff 100644
--- a/src/backy/rbd/rbd.py
+++ b/src/backy/rbd/rbd.py
@@ -94,17 +94,6 @@ class RBDClient(object):
 
         self._rbd(["map", image, "--read-only" if readonly else ""])
 
-        mappings_raw = self._rbd(["showmapped"], format="json")
-
-        if "nautilus" in versionstring:
-            mapping = parse_mappings_since_nautilus(mappings_raw)
-        elif "luminous" in versionstring:
-            mapping = parse_mappings_pre_nautilus(mappings_raw)
-        else:
-            # our jewel build provides no version info
-            # this will break with releases newer than nautilus
-            mapping = parse_mappings_pre_nautilus(mappings_raw)
-
         def scrub_mapping(mapping):
             SPEC = {"pool", "name", "snap", "device"}
             # Ensure all specced keys exist
@@ -119,7 +108,23 @@ class RBDClient(object):
                     del mapping[key]
             return mapping
 
-        return scrub_mapping(mapping)
+        try:
+            mappings_raw = self._rbd(["showmapped"], format="json")
+
+            if "nautilus" in versionstring:
+                mapping = parse_mappings_since_nautilus(mappings_raw)
+            elif "luminous" in versionstring:
+                mapping = parse_mappings_pre_nautilus(mappings_raw)
+            else:
+                # our jewel build provides no version info
+                # this will break with releases newer than nautilus
+                mapping = parse_mappings_pre_nautilus(mappings_raw)
+
+            return scrub_mapping(mapping)
+        except BaseException:
+            # Nobody knows the device, so nobody else can unmap it.
+            self.unmap(image)
+            raise
 
     def unmap(self, device):
         self._rbd(["unmap", device])
@@ -161,11 +166,10 @@ class RBDClient(object):
     @contextlib.contextmanager
     def image_reader(self, image: str) -> Iterator[BinaryIO]:
         mapped = self.map(image, readonly=True)
-        source = open(mapped["device"], "rb", buffering=CHUNK_SIZE)
         try:
-            yield source
+            with open(mapped["device"], "rb", buffering=CHUNK_SIZE) as source:
+                yield source
         finally:
-            source.close()
             self.unmap(mapped["device"])
 
     @contextlib.contextmanager
-- 
2.43.0


From 6e4b23421e88107c524013025e667a36e2796f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:51 +0000
Subject: [PATCH 17/44] fix: remove snapshot requests in spite of garbage and
 errors

---
 src/backy/rbd/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/backy/rbd/__init__.py b/src/backy/rbd/__init__.py
index d0cc8c8..966c518 100644
--- a/src/backy/rbd/__init__.py
+++ b/src/backy/rbd/__init__.py
@@ -460,10 +460,10 @@ class CephRBD:
             snapshot_key=snapshot_key,
         )
 
-        consul.kv[snapshot_key] = {"vm": self.vm, "snapshot": name}
-
-        time.sleep(3)
         try:
+            consul.kv[snapshot_key] = {"vm": self.vm, "snapshot": name}
+
+            time.sleep(3)
             timeout = TimeOut(
                 self.snapshot_timeout, interval=2, raise_on_timeout=True
             )
@@ -497,6 +497,7 @@ class CephRBD:
                         snapshot_key=key,
                     )
                     del consul.kv[key]
+                    continue
                 if s["vm"] != self.vm:
                     continue
                 # The knowledge about the `backy-` prefix  isn't properly
-- 
2.43.0


From db8f79892c92fc2c1e604e6feb92ea6b143ca201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:43 +0000
Subject: [PATCH 18/44] fix: reports delete used a wrong file name

---
 src/backy/cli/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backy/cli/__init__.py b/src/backy/cli/__init__.py
index 48c1d72..f2f3408 100644
--- a/src/backy/cli/__init__.py
+++ b/src/backy/cli/__init__.py
@@ -343,7 +343,7 @@ class Command(object):
         else:
             ids = reports.split(",")
         for id in ids:
-            path = repo.report_path.joinpath(id).with_suffix("report")
+            path = repo.report_path.joinpath(id).with_suffix(".report")
             path.unlink()
             log.info("report-deleted", id=id)
 
-- 
2.43.0


From 43430905931e92dfbc798eaab9624e76ad2230e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:43 +0000
Subject: [PATCH 19/44] fix: do not use interrupted backups as parents

---
 src/backy/rbd/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/backy/rbd/__init__.py b/src/backy/rbd/__init__.py
index 966c518..ed3c947 100644
--- a/src/backy/rbd/__init__.py
+++ b/src/backy/rbd/__init__.py
@@ -139,6 +139,11 @@ class RBDSource(Source[RBDRestoreArgs]):
         # parent needs to be one that still exists and is trusted.
         self.repository.scan()
         revision = self.repository._by_uuid.get(revision.uuid, revision)
+        # Backups that were interrupted since then may have left a snapshot, but
+        # their data must not be used as a base.
+        for r in self.repository.local_history:
+            if r.uuid != revision.uuid and "duration" not in r.stats:
+                self.repository.history.remove(r)
 
         if not self.ceph_rbd.ready():
             raise RuntimeError(
-- 
2.43.0


From 0bc29419bb08c4a3305e31ef561fcd4029aa7bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:25 +0000
Subject: [PATCH 20/44] fix: do not overlook revisions if the directory cannot
 be read

---
 src/backy/repository.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/backy/repository.py b/src/backy/repository.py
index b0fe657..1377b1a 100644
--- a/src/backy/repository.py
+++ b/src/backy/repository.py
@@ -210,8 +210,10 @@ class Repository(object):
     def scan(self) -> None:
         self.history = []
         self._by_uuid = {}
-        for f in self.path.glob("*.rev"):
-            if f.is_symlink():
+        # Path.glob() would ignore errors and pretend that there are no (more)
+        # revisions, whose data would then be considered garbage.
+        for f in self.path.iterdir():
+            if f.suffix != ".rev" or f.is_symlink():
                 # Ignore links that are used to create readable pointers
                 continue
             try:
-- 
2.43.0


From 4636ce15fcffc7eddefaaf9ceda6d54e6df05e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:25 +0000
Subject: [PATCH 21/44] fix: do not overlook chunks when upgrading the chunk
 store

---
 src/backy/rbd/chunked/store.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/backy/rbd/chunked/store.py b/src/backy/rbd/chunked/store.py
index 813e703..d147f31 100644
--- a/src/backy/rbd/chunked/store.py
+++ b/src/backy/rbd/chunked/store.py
@@ -40,16 +40,20 @@ class Store(object):
 
     def convert_to_v2(self) -> None:
         self.log.info("to-v2")
-        for path in self.path.glob("*/*/*.chunk.lzo"):
-            new = path.relative_to(self.path)
-            dir, _, c = new.parts
-            new = self.path / dir / c
-            path.rename(new)
-        for path in self.path.glob("*/??"):
-            if path.is_dir():
-                # All chunks are gone from here, but partial files of
-                # interrupted backups may be left.
-                shutil.rmtree(path)
+        # Path.glob() would ignore errors and thus overlook chunks.
+        for dir in self.path.iterdir():
+            if not dir.is_dir():
+                continue
+            for subdir in dir.iterdir():
+                if not subdir.is_dir():
+                    continue
+                for path in subdir.iterdir():
+                    if path.name.endswith(".chunk.lzo"):
+                        path.rename(dir / path.name)
+                if len(subdir.name) == 2:
+                    # All chunks are gone from here, but partial files of
+                    # interrupted backups may be left.
+                    shutil.rmtree(subdir)
         with self.path.joinpath("store").open("wb") as f:
             f.write(b"v2")
         self.log.info("to-v2-finished")
-- 
2.43.0


From 122d44c306a34726ea0de8f4753dc438be6ca986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:23 +0000
Subject: [PATCH 22/44] fix: do not take an unreadable revision for a new one

---
 src/backy/rbd/chunked/file.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/backy/rbd/chunked/file.py b/src/backy/rbd/chunked/file.py
index ced489e..a7152d5 100644
--- a/src/backy/rbd/chunked/file.py
+++ b/src/backy/rbd/chunked/file.py
@@ -1,7 +1,6 @@
 import io
 import json
 import os
-import os.path
 import time
 from collections import defaultdict
 from typing import TYPE_CHECKING, Optional, Tuple
@@ -69,17 +68,18 @@ class File(object):
             self.mode += "w"
         self.mode = "".join(set(self.mode))
 
-        if not os.path.exists(name) and "w" not in self.mode:
-            raise FileNotFoundError("File not found: {}".format(self.name))
-
-        if not os.path.exists(name):
+        try:
+            f = open(self.name, "r")
+        except FileNotFoundError:
+            if "w" not in self.mode:
+                raise FileNotFoundError("File not found: {}".format(self.name))
             self._mapping = {}
             self.size = 0
         else:
             # The mapping stores its chunk IDs as strings, because JSON can't
             # have ints as keys. We convert them explicitly back to integers
             # because we keep computing with them.
-            with open(self.name, "r") as f:
+            with f:
                 # Safeguard: Make sure the file looks like json.
                 if f.read(2) != '{"':
                     raise ValueError(
-- 
2.43.0


From 97e27bc334a32402adcfb8bc1fee48ec78c829ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:12 +0000
Subject: [PATCH 23/44] fix: restart jobs whose schedule definition changed

A reload reconfigured the Schedule object in place but a job already
waiting kept the deadline computed from the old definition, up to a whole
old interval too late.
---
 src/backy/daemon/__init__.py  | 6 +++++-
 src/backy/daemon/scheduler.py | 2 ++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/backy/daemon/__init__.py b/src/backy/daemon/__init__.py
index 34ba879..988754b 100644
--- a/src/backy/daemon/__init__.py
+++ b/src/backy/daemon/__init__.py
@@ -125,7 +125,11 @@ class BackyDaemon(object):
                 self.jobs[name] = Job(self, name, self.log)
                 self.log.debug("added-job", job_name=name)
             job = self.jobs[name]
-            if config != job.last_config:
+            schedule = self.schedules[config["schedule"]]
+            if (
+                config != job.last_config
+                or schedule.config != job.last_schedule
+            ):
                 self.log.info("changed-job", job_name=name)
                 job.stop()
                 job.configure(config)
diff --git a/src/backy/daemon/scheduler.py b/src/backy/daemon/scheduler.py
index 9fea1d6..7d86310 100644
--- a/src/backy/daemon/scheduler.py
+++ b/src/backy/daemon/scheduler.py
@@ -40,6 +40,7 @@ class Job(object):
     path: Path
     logfile: Path
     last_config: Optional[dict] = None
+    last_schedule: Optional[dict] = None
     daemon: "BackyDaemon"
     run_immediately: asyncio.Event
     errors: int = 0
@@ -65,6 +66,7 @@ class Job(object):
         self.source = AsyncCmdLineSource(repository, config["source"], self.log)
         self.source.store()
         self.last_config = config
+        self.last_schedule = self.schedule.config
 
     @property
     def spread(self) -> int:
-- 
2.43.0


From 74cafb7a462e80bbd212d0a940d1ad93931b7472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:39 +0000
Subject: [PATCH 24/44] fix: do not let an unusable repository end its job's
 loop or the daemon

Errors when connecting to the repository or determining the next time
(I/O errors, damaged revision files) ended the job's task for good, and the
whole daemon if they occured on start or reload.
---
 src/backy/daemon/scheduler.py | 60 +++++++++++++++++++++++++++--------
 1 file changed, 47 insertions(+), 13 deletions(-)

diff --git a/src/backy/daemon/scheduler.py b/src/backy/daemon/scheduler.py
index 7d86310..7899a6b 100644
--- a/src/backy/daemon/scheduler.py
+++ b/src/backy/daemon/scheduler.py
@@ -31,6 +31,13 @@ def locked(target: str, mode: Literal["shared", "exclusive"]):
     return Repository.locked(target, mode, repo_attr="repository")
 
 
+def backoff_seconds(errors: int) -> int:
+    # Our retry series (in minutes). We converge on waiting
+    # 6 hours maximum for retries.
+    # 2, 4, 8, 16, 32, 65, ..., 6*60, 6*60, ...
+    return min([2**errors, 6 * 60]) * 60
+
+
 class Job(object):
     name: str
     source: AsyncCmdLineSource
@@ -45,6 +52,7 @@ class Job(object):
     run_immediately: asyncio.Event
     errors: int = 0
     backoff: int = 0
+    prepared: bool = False
     taskid: str = ""
     log: BoundLogger
 
@@ -62,11 +70,21 @@ class Job(object):
         repository = Repository(
             self.path, self.daemon.schedules[config["schedule"]], self.log
         )
-        repository.connect()
         self.source = AsyncCmdLineSource(repository, config["source"], self.log)
-        self.source.store()
         self.last_config = config
         self.last_schedule = self.schedule.config
+        self.prepared = False
+        try:
+            self.prepare()
+        except Exception:
+            # Do not stop other jobs. This will be retried by our own loop.
+            self.log.exception("prepare-failed")
+
+    def prepare(self) -> None:
+        self.repository.connect()
+        if not self.prepared:
+            self.source.store()
+            self.prepared = True
 
     @property
     def spread(self) -> int:
@@ -207,11 +225,25 @@ class Job(object):
             self.repository.log = self.repository.log.bind(
                 job_name=self.name, sub_taskid=self.taskid
             )
-            self.repository.connect()
-
-            next_time, next_tags = self.schedule.next(
-                backy.utils.now(), self.spread, self.repository
-            )
+            prepare_errors = 0
+            run_requested = None
+            while True:
+                try:
+                    self.prepare()
+                    next_time, next_tags = self.schedule.next(
+                        backy.utils.now(), self.spread, self.repository
+                    )
+                    break
+                except Exception:
+                    # The repository is not usable at the moment.
+                    self.log.exception("exception")
+                    self.update_status("failed")
+                    prepare_errors += 1
+                    self.next_time = backy.utils.now() + timedelta(
+                        seconds=backoff_seconds(self.errors + prepare_errors)
+                    )
+                    if await self._wait_for_deadline():
+                        run_requested = True
 
             if self.errors:
                 # We're retrying - do not pay attention to the schedule but
@@ -221,7 +253,10 @@ class Job(object):
                 # not able to make backups for a longer period.
                 # This way we also use the queuing mechanism correctly so that
                 # one can still manually trigger a run if one wishes to.
-                next_time = backy.utils.now() + timedelta(seconds=self.backoff)
+                next_time = backy.utils.now() + timedelta(
+                    # We have already waited if we couldn't get here at once.
+                    seconds=0 if prepare_errors else self.backoff
+                )
 
             self.next_time = next_time
             self.next_tags = next_tags
@@ -230,7 +265,9 @@ class Job(object):
                 next_time=format_datetime_local(self.next_time)[0],
                 next_tags=", ".join(next_tags),
             )
-            run_immediately = await self._wait_for_deadline()
+            run_immediately = (
+                run_requested or await self._wait_for_deadline()
+            )
 
             # The UI shouldn't show a next any longer now that we have already
             # triggered.
@@ -277,10 +314,7 @@ class Job(object):
                 # of external reasons (i.e. the VM is shut down and properly
                 # making a snapshot fails
                 self.errors += 1
-                # Our retry series (in minutes). We converge on waiting
-                # 6 hours maximum for retries.
-                # 2, 4, 8, 16, 32, 65, ..., 6*60, 6*60, ...
-                self.backoff = min([2**self.errors, 6 * 60]) * 60
+                self.backoff = backoff_seconds(self.errors)
                 self.log.warning("backoff", backoff=self.backoff)
             else:
                 self.errors = 0
-- 
2.43.0


From 3972b75e9b91fec56875d429a08bf315d1588707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:26 +0000
Subject: [PATCH 25/44] fix: report the current number of problem reports in
 the status

---
 src/backy/daemon/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/backy/daemon/__init__.py b/src/backy/daemon/__init__.py
index 988754b..d35d311 100644
--- a/src/backy/daemon/__init__.py
+++ b/src/backy/daemon/__init__.py
@@ -344,6 +344,7 @@ class BackyDaemon(object):
             if filter_re and not filter_re.search(job.name):
                 continue
             job.repository.scan()
+            job.repository.scan_reports()
             manual_tags = set()
             unsynced_revs = 0
             history = job.repository.clean_history
-- 
2.43.0


From d168618da167e298981b9c33f0bcfacc334e3d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:26 +0000
Subject: [PATCH 26/44] fix: carry out pending purges of deleted jobs

The job used for this had no source, so it always failed, and kept the
other repositories from being purged, too.
---
 src/backy/daemon/__init__.py  | 9 ++++++++-
 src/backy/daemon/scheduler.py | 4 ++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/backy/daemon/__init__.py b/src/backy/daemon/__init__.py
index d35d311..49cb4a4 100644
--- a/src/backy/daemon/__init__.py
+++ b/src/backy/daemon/__init__.py
@@ -326,7 +326,14 @@ class BackyDaemon(object):
                     ):
                         continue
                     self.log.info("purging-pending", job=candidate.name)
-                    await Job(self, candidate.name, self.log).run_gc()
+                    try:
+                        job = Job(self, candidate.name, self.log)
+                        job.load()
+                        await job.run_gc()
+                    except Exception:
+                        self.log.exception(
+                            "purge-pending", job_name=candidate.name
+                        )
                 self.log.info("purge-pending-finished")
             except Exception:
                 self.log.exception("purge-pending")
diff --git a/src/backy/daemon/scheduler.py b/src/backy/daemon/scheduler.py
index 7899a6b..c4f8387 100644
--- a/src/backy/daemon/scheduler.py
+++ b/src/backy/daemon/scheduler.py
@@ -80,6 +80,10 @@ class Job(object):
             # Do not stop other jobs. This will be retried by our own loop.
             self.log.exception("prepare-failed")
 
+    def load(self) -> None:
+        """Use the stored configuration (of a job which is not active)."""
+        self.source = AsyncCmdLineSource.load(self.path, self.log)
+
     def prepare(self) -> None:
         self.repository.connect()
         if not self.prepared:
-- 
2.43.0


From c7569ba70a008ace01aa91ee064dd531136cecd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:53 +0000
Subject: [PATCH 27/44] fix: never purge active jobs and do not let one
 directory stop the purge

A job that hasn't changed for three months (because of a long interval, or
because another server makes the backups) lost its whole directory. An error
in one directory left all later ones unpurged.
---
 src/backy/daemon/__init__.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/backy/daemon/__init__.py b/src/backy/daemon/__init__.py
index 49cb4a4..0e428d2 100644
--- a/src/backy/daemon/__init__.py
+++ b/src/backy/daemon/__init__.py
@@ -296,15 +296,26 @@ class BackyDaemon(object):
             try:
                 self.log.info("purge-scanning")
                 for candidate in await aos.scandir(self.base_dir):
-                    if not await is_dir_no_symlink(candidate.path):
+                    if candidate.name in self.jobs:
                         continue
-                    self.log.debug("purge-candidate", candidate=candidate.path)
-                    reference_time = time.time() - 3 * 31 * 24 * 60 * 60
-                    if not await has_recent_changes(
-                        candidate.path, reference_time
-                    ):
-                        self.log.info("purging", candidate=candidate.path)
-                        await aioshutil.rmtree(candidate)
+                    try:
+                        if not await is_dir_no_symlink(candidate.path):
+                            continue
+                        self.log.debug(
+                            "purge-candidate", candidate=candidate.path
+                        )
+                        reference_time = time.time() - 3 * 31 * 24 * 60 * 60
+                        if (
+                            not await has_recent_changes(
+                                candidate.path, reference_time
+                            )
+                            # may have been added in the meantime
+                            and candidate.name not in self.jobs
+                        ):
+                            self.log.info("purging", candidate=candidate.path)
+                            await aioshutil.rmtree(candidate)
+                    except Exception:
+                        self.log.exception("purge", candidate=candidate.path)
                 self.log.info("purge-finished")
             except Exception:
                 self.log.exception("purge")
-- 
2.43.0


From 596073c3a2433d1f1b1ba065f75eebbcda1971e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:59 +0000
Subject: [PATCH 28/44] fix: do not purge a directory because of a read error

is_dir_no_symlink() returns False if the directory cannot be accessed, which
was taken for a directory without recent changes.
---
 src/backy/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/backy/utils.py b/src/backy/utils.py
index ba614df..a95a5dc 100644
--- a/src/backy/utils.py
+++ b/src/backy/utils.py
@@ -9,6 +9,7 @@ import hashlib
 import mmap
 import os
 import random
+import stat
 import subprocess
 import sys
 import tempfile
@@ -472,7 +473,8 @@ async def has_recent_changes(path: str, reference_time: float) -> bool:
     st = await aos.stat(path, follow_symlinks=False)
     if st.st_mtime >= reference_time:
         return True
-    if not await is_dir_no_symlink(path):
+    # Do not use is_dir_no_symlink() here: it takes errors for "no directory".
+    if not stat.S_ISDIR(st.st_mode):
         return False
     candidates = list(await aos.scandir(path))
     # First pass: stat all direct entries
-- 
2.43.0


From 8b82e3abfad8a2878d1396020071e1433e792821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:49 +0000
Subject: [PATCH 29/44] fix: keep the copies of a peer's revisions if it does
 not answer sensibly

A peer that accepts connections but doesn't answer in time, or answers
with something we do not understand, failed the whole run of the job:
no expiry and no garbage collection took place.
---
 src/backy/daemon/scheduler.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/backy/daemon/scheduler.py b/src/backy/daemon/scheduler.py
index c4f8387..3697430 100644
--- a/src/backy/daemon/scheduler.py
+++ b/src/backy/daemon/scheduler.py
@@ -443,7 +443,7 @@ class Job(object):
             except ClientResponseError:
                 log.warning("push-client-error", exc_style="short")
                 error = True
-            except ClientConnectionError:
+            except (ClientConnectionError, asyncio.TimeoutError):
                 log.warning("push-connection-error", exc_style="short")
                 error = True
             except ClientError:
@@ -458,7 +458,7 @@ class Job(object):
             except ClientResponseError:
                 log.warning("push-purge-client-error", exc_style="short")
                 error = True
-            except ClientConnectionError:
+            except (ClientConnectionError, asyncio.TimeoutError):
                 log.warning("push-purge-connection-error", exc_style="short")
                 error = True
             except ClientError:
@@ -507,13 +507,13 @@ class Job(object):
                 log.warning("pull-client-error", exc_style="short")
                 error = True
             remote_revs = []
-        except ClientConnectionError:
+        except (ClientConnectionError, asyncio.TimeoutError):
             log.warning("pull-connection-error", exc_style="short")
             return True
-        except ClientError:
+        except Exception:
+            # We did not get a (sensible) answer.
             log.exception("pull-error")
-            error = True
-            remote_revs = []
+            return True
 
         local_uuids = {
             r.uuid
-- 
2.43.0


From 5e742373270b669b8f4e58f02de1174f7e5ffc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:49 +0000
Subject: [PATCH 30/44] fix: coordinate with the other servers if one doesn't
 know the job

A peer which has no such job, or which answers with something we can't
work with, kept us from noticing that another peer is leading.  The name
of the job isn't a regular expression either.
---
 src/backy/daemon/scheduler.py | 36 ++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/src/backy/daemon/scheduler.py b/src/backy/daemon/scheduler.py
index 3697430..46686f0 100644
--- a/src/backy/daemon/scheduler.py
+++ b/src/backy/daemon/scheduler.py
@@ -2,6 +2,7 @@ import asyncio
 import datetime
 import hashlib
 import random
+import re
 import subprocess
 from collections import defaultdict
 from datetime import timedelta
@@ -128,12 +129,29 @@ class Job(object):
         self.log.info("woken", trigger=trigger)
         return trigger
 
+    async def _fetch_peer_status(self, api: Client) -> "Optional[StatusDict]":
+        """Status of this job on another server, None if it isn't known there.
+
+        Raises an exception if we can't make sense of the answer.
+        """
+        for status in await api.fetch_status(f"^{re.escape(self.name)}$"):
+            if status["job"] != self.name:
+                continue
+            if not isinstance(status["local_revs"], int):
+                raise ValueError("invalid number of revisions")
+            for time in (status["last_time"], status["next_time"]):
+                if time and not time.tzinfo:
+                    raise ValueError("invalid time")
+            status["status"]
+            return status
+        return None
+
     async def _wait_for_leader(self, next_time: datetime.datetime) -> bool:
         api = None
         try:
             api = ClientManager(self.daemon.peers, self.taskid, self.log)
             statuses = await asyncio.gather(
-                *[api[server].fetch_status(f"^{self.name}$") for server in api],
+                *[self._fetch_peer_status(api[server]) for server in api],
                 return_exceptions=True,
             )
             leader = None
@@ -151,12 +169,15 @@ class Job(object):
                         exc_style="short",
                     )
                     continue
-                num_remote_revs = status[0]["local_revs"]
+                if status is None:
+                    log.info("server-job-unknown")
+                    continue
+                num_remote_revs = status["local_revs"]
                 log.info("duplicate-job", remote_revs=num_remote_revs)
                 if num_remote_revs > leader_revs:
                     leader_revs = num_remote_revs
                     leader = server
-                    leader_status = status[0]
+                    leader_status = status
 
             log = self.log.bind(leader=leader)
             log.info("leader-found", leader_revs=leader_revs)
@@ -166,6 +187,9 @@ class Job(object):
             self.update_status(f"monitoring ({leader})")
             res = leader_status
             while True:
+                if res is None:
+                    log.info("leader-job-unknown")
+                    return False
                 if (
                     res["last_time"]
                     and (next_time - res["last_time"]).total_seconds() < 5 * 60
@@ -188,8 +212,10 @@ class Job(object):
                     log.info("run-immediately-triggered")
                     return False
                 try:
-                    res = (await api[leader].fetch_status(f"^{self.name}$"))[0]
-                except ClientError:
+                    res = await self._fetch_peer_status(api[leader])
+                except asyncio.CancelledError:
+                    raise
+                except Exception:
                     log.warning("leader-failed", exc_style="short")
                     return False
         except asyncio.CancelledError:
-- 
2.43.0


From 31cd15b4de5d0d4a5845a7c16a318d919b056111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:37 +0000
Subject: [PATCH 31/44] fix: don't rely on a leader's backup that is dated in
 the future

Servers followed a leader that has a revision from the future (made while
its clock was wrong) instead of making backups until that time came.
---
 src/backy/daemon/scheduler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/backy/daemon/scheduler.py b/src/backy/daemon/scheduler.py
index 46686f0..36cf356 100644
--- a/src/backy/daemon/scheduler.py
+++ b/src/backy/daemon/scheduler.py
@@ -193,6 +193,11 @@ class Job(object):
                 if (
                     res["last_time"]
                     and (next_time - res["last_time"]).total_seconds() < 5 * 60
+                    # Nothing to rely on if it's from the future.
+                    and (
+                        res["last_time"] - backy.utils.now()
+                    ).total_seconds()
+                    < 5 * 60
                 ):
                     # there was a backup in the last 5min
                     log.info("leader-finished")
-- 
2.43.0


From 3569075a73f9da62d67eef84aab8ff9c07d13684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:55 +0000
Subject: [PATCH 32/44] fix: collect the data of remotely expired revisions if
 the purge request is lost

---
 src/backy/repository.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/backy/repository.py b/src/backy/repository.py
index 1377b1a..130c849 100644
--- a/src/backy/repository.py
+++ b/src/backy/repository.py
@@ -359,6 +359,8 @@ class Repository(object):
                 case _:
                     raise ValueError(f"invalid action '{action}'")
             if not r.tags and autoremove:
+                # There is data to collect even if nobody asks for it later.
+                self.set_purge_pending()
                 r.remove()
             else:
                 r.write_info()
-- 
2.43.0


From bf2c4dab6a22f113b5f745d0e52409af5ba8f588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:35 +0000
Subject: [PATCH 33/44] fix: don't forget requests to purge that arrive during
 a purge

The marker was removed at the end, even if it was set again after the
list of the used data was made.
---
 src/backy/daemon/__init__.py | 10 ++++++++--
 src/backy/file/__init__.py   |  1 +
 src/backy/rbd/__init__.py    |  1 +
 src/backy/repository.py      | 12 +++++++++++-
 4 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/backy/daemon/__init__.py b/src/backy/daemon/__init__.py
index 0e428d2..daf7015 100644
--- a/src/backy/daemon/__init__.py
+++ b/src/backy/daemon/__init__.py
@@ -331,8 +331,14 @@ class BackyDaemon(object):
                     if (
                         candidate.name in self.jobs  # will get purged anyway
                         or not await is_dir_no_symlink(candidate.path)
-                        or not await aos.path.exists(
-                            p.join(candidate.path, ".purge_pending")
+                        or not (
+                            await aos.path.exists(
+                                p.join(candidate.path, ".purge_pending")
+                            )
+                            # interrupted
+                            or await aos.path.exists(
+                                p.join(candidate.path, ".purge_running")
+                            )
                         )
                     ):
                         continue
diff --git a/src/backy/file/__init__.py b/src/backy/file/__init__.py
index 158b1d9..9eb9675 100644
--- a/src/backy/file/__init__.py
+++ b/src/backy/file/__init__.py
@@ -91,6 +91,7 @@ class FileSource(Source[FileRestoreArgs]):
 
     @locked(target=".purge", mode="exclusive")
     def gc(self):
+        self.repository.start_purge()
         self.repository.scan()
         expected_files = set(
             self._path_for_revision(r)
diff --git a/src/backy/rbd/__init__.py b/src/backy/rbd/__init__.py
index ed3c947..6a8b1ed 100644
--- a/src/backy/rbd/__init__.py
+++ b/src/backy/rbd/__init__.py
@@ -278,6 +278,7 @@ class RBDSource(Source[RBDRestoreArgs]):
         used_chunks: Set[Hash] = set()
         # TODO: also remove mapping file
         # TODO: purge quarantine store
+        self.repository.start_purge()
         # The history may have changed while we were waiting for the lock.
         self.repository.scan()
         for revision in self.repository.local_history:
diff --git a/src/backy/repository.py b/src/backy/repository.py
index 130c849..d2e9d10 100644
--- a/src/backy/repository.py
+++ b/src/backy/repository.py
@@ -233,8 +233,18 @@ class Repository(object):
     def set_purge_pending(self):
         self.path.joinpath(".purge_pending").touch()
 
+    def start_purge(self):
+        # Requests that arrive from now on may come too late for this purge.
+        try:
+            self.path.joinpath(".purge_pending").rename(
+                self.path.joinpath(".purge_running")
+            )
+        except FileNotFoundError:
+            pass
+
     def clear_purge_pending(self):
-        self.path.joinpath(".purge_pending").unlink(missing_ok=True)
+        """The purge that was announced using `start_purge` has finished."""
+        self.path.joinpath(".purge_running").unlink(missing_ok=True)
 
     def get_history(
         self, *, clean: bool = False, local: bool = False
-- 
2.43.0


From 55aefe266f63824c6774216dd91bb31b674d3662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:14 +0000
Subject: [PATCH 34/44] fix: refuse invalid metadata of revisions from other
 servers

They were used to build file names without any checks and they were able
to replace our own revisions. Some made our own backups fail.
---
 src/backy/daemon/api.py       | 27 +++++++++++++++++++++++++++
 src/backy/daemon/scheduler.py |  7 +++++++
 2 files changed, 34 insertions(+)

diff --git a/src/backy/daemon/api.py b/src/backy/daemon/api.py
index f20afcd..a76645c 100644
--- a/src/backy/daemon/api.py
+++ b/src/backy/daemon/api.py
@@ -28,6 +28,8 @@ if TYPE_CHECKING:
 
     from .scheduler import Job
 
+REVISION_PATTERN = re.compile("[A-Za-z0-9][A-Za-z0-9_-]{0,63}")
+
 
 def to_json(response: Any) -> aiohttp.web.StreamResponse:
     if response is None:
@@ -35,6 +37,29 @@ def to_json(response: Any) -> aiohttp.web.StreamResponse:
     return web.json_response(response, dumps=BackyJSONEncoder().encode)
 
 
+def validate_revision(metadata: dict) -> None:
+    """Check the metadata of a revision that another server sent to us.
+
+    Those end up in files which are named after the revision and are treated
+    like our own afterwards.
+    """
+    if not isinstance(metadata["uuid"], str) or not REVISION_PATTERN.fullmatch(
+        metadata["uuid"]
+    ):
+        raise ValueError("invalid uuid")
+    if not isinstance(metadata["timestamp"], str):
+        raise ValueError("invalid timestamp")
+    tags = metadata.get("tags", [])
+    if not isinstance(tags, list) or not all(isinstance(t, str) for t in tags):
+        raise ValueError("invalid tags")
+    stats = metadata.get("stats", {})
+    if not isinstance(stats, dict) or not all(
+        isinstance(stats.get(k, 0), (int, float))
+        for k in ("bytes_written", "duration")
+    ):
+        raise ValueError("invalid stats")
+
+
 class BackyAPI:
     daemon: "BackyDaemon"
     sites: dict[Tuple[str, int], TCPSite]
@@ -370,6 +395,8 @@ class Client:
             params={"only_clean": int(only_clean)},
         ) as response:
             json = await response.json()
+            for r in json:
+                validate_revision(r)
             revs = [Revision.from_dict(r, repository, self.log) for r in json]
             for r in revs:
                 r.orig_tags = r.tags
diff --git a/src/backy/daemon/scheduler.py b/src/backy/daemon/scheduler.py
index 36cf356..808940a 100644
--- a/src/backy/daemon/scheduler.py
+++ b/src/backy/daemon/scheduler.py
@@ -551,6 +551,13 @@ class Job(object):
             for r in self.repository.history
             if r.server == api.server_name
         }
+        # Leave alone what belongs to us or to another server.
+        foreign_uuids = {
+            r.uuid
+            for r in self.repository.history
+            if r.server != api.server_name
+        }
+        remote_revs = [r for r in remote_revs if r.uuid not in foreign_uuids]
         remote_uuids = {r.uuid for r in remote_revs}
         for uuid in local_uuids - remote_uuids:
             log.warning("pull-removing-unknown-rev", rev_uuid=uuid)
-- 
2.43.0


From 81d625af073b295c6d20fd405bc19e2405eca02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:18 +0000
Subject: [PATCH 35/44] fix: don't follow another server in a busy loop

If the backup of the leading server doesn't have the tags that are due
(a manual one, or one we couldn't pull) then the job was due again at
once, until five minutes had passed since that backup.
---
 src/backy/daemon/scheduler.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/backy/daemon/scheduler.py b/src/backy/daemon/scheduler.py
index 808940a..5cbc769 100644
--- a/src/backy/daemon/scheduler.py
+++ b/src/backy/daemon/scheduler.py
@@ -248,6 +248,7 @@ class Job(object):
         """
         self.errors = 0
         self.backoff = 0
+        followed = False
         self.log.debug("loop-started")
         while True:
             self.taskid = generate_taskid()
@@ -293,6 +294,14 @@ class Job(object):
                     seconds=0 if prepare_errors else self.backoff
                 )
 
+            if followed:
+                # The other server's backup doesn't have all the tags we need
+                # (yet). Don't ask again and again.
+                next_time = max(
+                    next_time, backy.utils.now() + timedelta(seconds=60)
+                )
+                followed = False
+
             self.next_time = next_time
             self.next_tags = next_tags
             self.log.info(
@@ -314,6 +323,7 @@ class Job(object):
                 if not run_immediately and await self._wait_for_leader(
                     next_time
                 ):
+                    followed = True
                     await self.pull_metadata()
                     await self.run_callback()
                 else:
-- 
2.43.0


From 771ab508912f30238eac578867209f52f1f9f692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:35 +0000
Subject: [PATCH 36/44] fix: don't wait for a server that is waiting itself

Two servers that considered each other to be leading, because the number
of their revisions has changed meanwhile, waited for each other for ever.
---
 src/backy/daemon/scheduler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/backy/daemon/scheduler.py b/src/backy/daemon/scheduler.py
index 5cbc769..48b8442 100644
--- a/src/backy/daemon/scheduler.py
+++ b/src/backy/daemon/scheduler.py
@@ -205,6 +205,10 @@ class Job(object):
                 if not res["status"]:
                     log.info("leader-stopped")
                     return False
+                if res["status"].startswith("monitoring ("):
+                    # It waits for someone else, which may be us.
+                    log.info("leader-follows")
+                    return False
                 if res["next_time"] and (
                     (res["next_time"] - next_time).total_seconds() > 5 * 60
                 ):
-- 
2.43.0


From de8a9c27ea7ca7ac69741949927dae5cd2e2e666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:16 +0000
Subject: [PATCH 37/44] fix: keep the API working if an address can't be used

An address which can't be bound (at the moment) ended the API's main loop:
neither the other addresses nor any later change of tokens, addresses or
port came into force.
---
 src/backy/daemon/__init__.py | 23 ++++++++++++++++++-----
 src/backy/daemon/api.py      | 25 +++++++++++++++++--------
 2 files changed, 35 insertions(+), 13 deletions(-)

diff --git a/src/backy/daemon/__init__.py b/src/backy/daemon/__init__.py
index daf7015..5bcb8e1 100644
--- a/src/backy/daemon/__init__.py
+++ b/src/backy/daemon/__init__.py
@@ -21,7 +21,11 @@ from backy import logging
 from backy.repository import Repository, StatusDict
 from backy.revision import filter_manual_tags
 from backy.schedule import Schedule
-from backy.utils import has_recent_changes, is_dir_no_symlink
+from backy.utils import (
+    delay_or_event,
+    has_recent_changes,
+    is_dir_no_symlink,
+)
 
 from .api import BackyAPI
 from .scheduler import Job
@@ -251,11 +255,20 @@ class BackyDaemon(object):
             await api.start()
             while True:
                 self.log.info("api-reconfigure")
-                await api.reconfigure(
-                    self.api_tokens, self.api_addrs, self.api_port
-                )
+                retry = False
+                try:
+                    await api.reconfigure(
+                        self.api_tokens, self.api_addrs, self.api_port
+                    )
+                except Exception:
+                    # An address may not be usable at the moment.
+                    self.log.exception("api-reconfigure-failed")
+                    retry = True
                 self.reload_api.clear()
-                await self.reload_api.wait()
+                if retry:
+                    await delay_or_event(60, self.reload_api)
+                else:
+                    await self.reload_api.wait()
         except Exception:
             self.log.exception("api_server_loop")
 
diff --git a/src/backy/daemon/api.py b/src/backy/daemon/api.py
index a76645c..e3b190a 100644
--- a/src/backy/daemon/api.py
+++ b/src/backy/daemon/api.py
@@ -105,20 +105,29 @@ class BackyAPI:
         self.log.debug("reconfigure")
         self.tokens = tokens
         bind_addrs = [(addr, port) for addr in addrs if addr and port]
-        for bind_addr in bind_addrs:
-            if bind_addr in self.sites:
-                continue
-            self.sites[bind_addr] = site = TCPSite(
-                self.runner, bind_addr[0], bind_addr[1]
-            )
-            await site.start()
-            self.log.info("added-site", site=site.name)
+        # Do this first as the new ones may refer to the same address.
         for bind_addr, site in list(self.sites.items()):
             if bind_addr in bind_addrs:
                 continue
             await site.stop()
             del self.sites[bind_addr]
             self.log.info("deleted-site", site=site.name)
+        error = None
+        for bind_addr in bind_addrs:
+            if bind_addr in self.sites:
+                continue
+            site = TCPSite(self.runner, bind_addr[0], bind_addr[1])
+            try:
+                await site.start()
+            except Exception as e:
+                # Do not let down the other addresses.
+                await site.stop()
+                error = e
+                continue
+            self.sites[bind_addr] = site
+            self.log.info("added-site", site=site.name)
+        if error:
+            raise error
 
     @middleware
     async def log_conn(self, request: web.Request, handler):
-- 
2.43.0


From 230af6f54128ac49acd4019561c4bbd7496d6704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:16 +0000
Subject: [PATCH 38/44] fix: don't lose a reload while the API is being
 reconfigured

---
 src/backy/daemon/__init__.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/backy/daemon/__init__.py b/src/backy/daemon/__init__.py
index 5bcb8e1..4caddab 100644
--- a/src/backy/daemon/__init__.py
+++ b/src/backy/daemon/__init__.py
@@ -255,15 +255,21 @@ class BackyDaemon(object):
             await api.start()
             while True:
                 self.log.info("api-reconfigure")
+                settings = self.api_tokens, self.api_addrs, self.api_port
                 retry = False
                 try:
-                    await api.reconfigure(
-                        self.api_tokens, self.api_addrs, self.api_port
-                    )
+                    await api.reconfigure(*settings)
                 except Exception:
                     # An address may not be usable at the moment.
                     self.log.exception("api-reconfigure-failed")
                     retry = True
+                if settings != (
+                    self.api_tokens,
+                    self.api_addrs,
+                    self.api_port,
+                ):
+                    # There was another reload in the meantime.
+                    continue
                 self.reload_api.clear()
                 if retry:
                     await delay_or_event(60, self.reload_api)
-- 
2.43.0


From 584aacfe923b0d79330b5da52a859ae1e8025c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:07 +0000
Subject: [PATCH 39/44] fix: don't lose a run request at the moment of the
 deadline

The request was taken back although the job then left the backup to another
server.
---
 src/backy/daemon/scheduler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/backy/daemon/scheduler.py b/src/backy/daemon/scheduler.py
index 48b8442..dcdc531 100644
--- a/src/backy/daemon/scheduler.py
+++ b/src/backy/daemon/scheduler.py
@@ -125,6 +125,9 @@ class Job(object):
         assert self.next_time
         self.update_status("waiting for deadline")
         trigger = await time_or_event(self.next_time, self.run_immediately)
+        if self.run_immediately.is_set():
+            # It may have been requested just after the deadline.
+            trigger = True
         self.run_immediately.clear()
         self.log.info("woken", trigger=trigger)
         return trigger
-- 
2.43.0


From a1f7ac8a6b6cbc199aef719669bf99acbd1ddb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:26 +0000
Subject: [PATCH 40/44] fix: address jobs with special characters in their
 names on the API

The names were put into the URL as they are, so requests for a job named
"50%", "db#2" or "what?" failed or affected a different job.
---
 src/backy/daemon/api.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/backy/daemon/api.py b/src/backy/daemon/api.py
index e3b190a..c64f361 100644
--- a/src/backy/daemon/api.py
+++ b/src/backy/daemon/api.py
@@ -2,6 +2,7 @@ import datetime
 import re
 from asyncio import get_running_loop
 from typing import TYPE_CHECKING, Any, Dict, Iterator, List, Tuple
+from urllib.parse import quote
 
 import aiohttp
 from aiohttp import ClientTimeout, TCPConnector, hdrs, web
@@ -381,7 +382,7 @@ class Client:
             return await response.json()
 
     async def run_job(self, name: str):
-        async with self.session.post(f"/v1/jobs/{name}/run"):
+        async with self.session.post(f"/v1/jobs/{quote(name, '')}/run"):
             return
 
     async def list_backups(self) -> List[str]:
@@ -389,18 +390,18 @@ class Client:
             return await response.json()
 
     async def run_purge(self, name: str):
-        async with self.session.post(f"/v1/backups/{name}/purge"):
+        async with self.session.post(f"/v1/backups/{quote(name, '')}/purge"):
             return
 
     async def touch_backup(self, name: str):
-        async with self.session.post(f"/v1/backups/{name}/touch"):
+        async with self.session.post(f"/v1/backups/{quote(name, '')}/touch"):
             return
 
     async def get_revs(
         self, repository: "backy.repository.Repository", only_clean: bool = True
     ) -> List[Revision]:
         async with self.session.get(
-            f"/v1/backups/{repository.name}/revs",
+            f"/v1/backups/{quote(repository.name, '')}/revs",
             params={"only_clean": int(only_clean)},
         ) as response:
             json = await response.json()
@@ -414,7 +415,7 @@ class Client:
 
     async def put_tags(self, rev: Revision, autoremove: bool = False):
         async with self.session.put(
-            f"/v1/backups/{rev.repository.name}/revs/{rev.uuid}/tags",
+            f"/v1/backups/{quote(rev.repository.name, '')}/revs/{rev.uuid}/tags",
             json={"old_tags": list(rev.orig_tags), "new_tags": list(rev.tags)},
             params={"autoremove": int(autoremove)},
         ):
-- 
2.43.0


From 184637811e3ec7898497b146117cfd3f17230e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:39 +0000
Subject: [PATCH 41/44] fix: don't leave tasks behind for every wait

Waiting for a point in time or an event left a task behind that waited for
the event (or slept) forever, one for every backup of every job.
---
 src/backy/utils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/backy/utils.py b/src/backy/utils.py
index a95a5dc..e465b9b 100644
--- a/src/backy/utils.py
+++ b/src/backy/utils.py
@@ -490,9 +490,12 @@ async def has_recent_changes(path: str, reference_time: float) -> bool:
 
 
 async def delay_or_event(delay: float, event: Event) -> Optional[Literal[True]]:
-    return await next(
-        asyncio.as_completed([asyncio.sleep(delay), event.wait()])
-    )
+    waiter = asyncio.ensure_future(event.wait())
+    try:
+        done, _ = await asyncio.wait([waiter], timeout=delay)
+    finally:
+        waiter.cancel()
+    return True if done else None
 
 
 async def time_or_event(
-- 
2.43.0


From 2df5b6fe08fe86ddfb46b3095f297a020031250e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:09 +0000
Subject: [PATCH 42/44] fix: don't drop changes of remote revisions before they
 are pushed

Tags that were changed (or revisions that were removed) locally have been reset
by pulling the revisions at the begin of the run that would have pushed them.
---
 src/backy/daemon/scheduler.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/backy/daemon/scheduler.py b/src/backy/daemon/scheduler.py
index dcdc531..bdc0591 100644
--- a/src/backy/daemon/scheduler.py
+++ b/src/backy/daemon/scheduler.py
@@ -582,10 +582,11 @@ class Job(object):
 
         for r in remote_revs:
             if r.uuid in local_uuids:
-                if (
-                    r.to_dict()
-                    == self.repository.find_by_uuid(r.uuid).to_dict()
-                ):
+                local = self.repository.find_by_uuid(r.uuid)
+                if local.pending_changes and local.orig_tags == r.tags:
+                    # Still to be pushed.
+                    r.tags = local.tags
+                if r.to_dict() == local.to_dict():
                     continue
                 log.debug("pull-updating-rev", rev_uid=r.uuid)
             else:
-- 
2.43.0


From 1cb021d8cef3fb2d36947bad8237b8dca30a95e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:08 +0000
Subject: [PATCH 43/44] fix: hold the lock while synchronising with other
 servers

The lock was released as soon as the coroutine had been created, so tags
changed while waiting for a peer (or since the last scan) were overwritten.
---
 src/backy/daemon/scheduler.py |  2 ++
 src/backy/repository.py       | 11 +++++++++++
 2 files changed, 13 insertions(+)

diff --git a/src/backy/daemon/scheduler.py b/src/backy/daemon/scheduler.py
index bdc0591..e7f34c9 100644
--- a/src/backy/daemon/scheduler.py
+++ b/src/backy/daemon/scheduler.py
@@ -528,6 +528,8 @@ class Job(object):
             return False
 
         self.log.info("pull-start")
+        # Tags may have been changed since we last looked.
+        self.repository.scan()
         async with ClientManager(
             self.daemon.peers, self.taskid, self.log
         ) as apis:
diff --git a/src/backy/repository.py b/src/backy/repository.py
index d2e9d10..9d92a46 100644
--- a/src/backy/repository.py
+++ b/src/backy/repository.py
@@ -1,6 +1,7 @@
 import contextlib
 import datetime
 import fcntl
+import inspect
 import re
 from math import ceil, floor
 from pathlib import Path
@@ -154,6 +155,16 @@ class Repository(object):
                 with repo.lock(target, mode, f.__name__):
                     return f(self, *args, **kw)
 
+            async def locked_coroutine(self, *args, skip_lock=False, **kw):
+                if skip_lock:
+                    return await f(self, *args, **kw)
+                repo = getattr(self, repo_attr) if repo_attr else self
+                with repo.lock(target, mode, f.__name__):
+                    return await f(self, *args, **kw)
+
+            if inspect.iscoroutinefunction(f):
+                locked_function = locked_coroutine
+
             locked_function.__name__ = "locked({}, {})".format(
                 f.__qualname__, target
             )
-- 
2.43.0


From 1ad9885675757b6bae3e358c5b45140dfc018dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:43 +0000
Subject: [PATCH 44/44] fix: don't fail all backups because of a malformed
 snapshot request

---
 src/backy/rbd/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/backy/rbd/__init__.py b/src/backy/rbd/__init__.py
index 6a8b1ed..6403536 100644
--- a/src/backy/rbd/__init__.py
+++ b/src/backy/rbd/__init__.py
@@ -495,7 +495,7 @@ class CephRBD:
                 except KeyError:
                     continue
                 try:
-                    s = json.loads(s)
+                    s = json.loads(s or "")
                 except json.decoder.JSONDecodeError:
                     # Clean up garbage.
                     self.log.warning(
@@ -504,11 +504,11 @@ class CephRBD:
                     )
                     del consul.kv[key]
                     continue
-                if s["vm"] != self.vm:
+                if not isinstance(s, dict) or s.get("vm") != self.vm:
                     continue
                 # The knowledge about the `backy-` prefix  isn't properly
                 # encapsulated here.
-                if s["snapshot"].startswith("backy-"):
+                if str(s.get("snapshot")).startswith("backy-"):
                     self.log.info(
                         "create-snapshot-removing-request",
                         vm=s["vm"],
-- 
2.43.0

