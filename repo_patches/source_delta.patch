From 671b6117beaac2c458cce63438d0d0ece70399a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 01/14] fix: notice distrusted revisions when deciding about
 forced chunk writes

---
 src/backy/repository.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backy/repository.py b/src/backy/repository.py
index 2513762..b282a9b 100644
--- a/src/backy/repository.py
+++ b/src/backy/repository.py
@@ -254,7 +254,7 @@ class Repository(object):
     def contains_distrusted(self) -> bool:
         return any(
             (
-                r == Trust.DISTRUSTED
+                r.trust == Trust.DISTRUSTED
                 for r in self.get_history(clean=True, local=True)
             )
         )
-- 
2.43.0


From e3a021edd93355f5c5dd6614831186d39468ec33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 02/14] fix: do not delete the metadata of existing revisions
 in gc of file sources

---
 src/backy/file/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/backy/file/__init__.py b/src/backy/file/__init__.py
index 768c0cb..adc1eaf 100644
--- a/src/backy/file/__init__.py
+++ b/src/backy/file/__init__.py
@@ -73,9 +73,11 @@ class FileSource(Source[FileRestoreArgs]):
 
     def gc(self):
         files = set(self.repository.path.glob("*.rev"))
+        # Scan after listing, so that revisions which have been added in the
+        # meantime are known.
+        self.repository.scan()
         expected_files = set(
-            (self.repository.path / r.uuid)
-            for r in self.repository.get_history()
+            r.info_filename for r in self.repository.get_history()
         )
         for file in files - expected_files:
             file.unlink()
-- 
2.43.0


From 1cd837ee1d662b8a1ba2a81024d4f904004f84ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 03/14] fix: make deleting problem reports work

---
 src/backy/cli/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backy/cli/__init__.py b/src/backy/cli/__init__.py
index 48c1d72..f2f3408 100644
--- a/src/backy/cli/__init__.py
+++ b/src/backy/cli/__init__.py
@@ -343,7 +343,7 @@ class Command(object):
         else:
             ids = reports.split(",")
         for id in ids:
-            path = repo.report_path.joinpath(id).with_suffix("report")
+            path = repo.report_path.joinpath(id).with_suffix(".report")
             path.unlink()
             log.info("report-deleted", id=id)
 
-- 
2.43.0


From 7a80058ca278e459ac1f4f3a5cacad3d3c9eadd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 04/14] fix: accept the date of the first revision in ranges,
 do not print debug output

---
 src/backy/repository.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/backy/repository.py b/src/backy/repository.py
index b282a9b..48ea657 100644
--- a/src/backy/repository.py
+++ b/src/backy/repository.py
@@ -454,9 +454,10 @@ class Repository(object):
             spec, list
         ), "can only index a single revision specifier"
         if isinstance(spec, str):
-            return self.index_by_date(spec) or self.history.index(
-                self.find(spec)
-            )
+            index = self.index_by_date(spec)
+            if index is None:
+                index = self.history.index(self.find(spec))
+            return index
         else:
             return self.history.index(spec)
 
@@ -478,7 +479,6 @@ class Repository(object):
                 0,
                 len(self.history),
             )
-            print(spec, L, r)
             assert 0 <= r - L <= 1, (
                 "can not index with date if multiple revision have the same "
                 "timestamp"
-- 
2.43.0


From a7165ae6a76e9e91aa4dd14d16f3af94da311f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 05/14] fix: collect garbage based on the current revisions,
 not on those loaded before locking

---
 src/backy/rbd/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/backy/rbd/__init__.py b/src/backy/rbd/__init__.py
index 86d6a7b..1c081ed 100644
--- a/src/backy/rbd/__init__.py
+++ b/src/backy/rbd/__init__.py
@@ -255,6 +255,8 @@ class RBDSource(Source[RBDRestoreArgs]):
     @locked(target=".purge", mode="exclusive")
     def gc(self) -> None:
         self.log.debug("purge")
+        # The history may have changed since it has been loaded.
+        self.repository.scan()
         used_chunks: Set[Hash] = set()
         # TODO: also remove mapping file
         # TODO: purge quarantine store
-- 
2.43.0


From ec940bf7d5cf08a2f22321db5c5b914179f9e687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 06/14] fix: do not clean revisions that have been completed
 since the history was loaded

---
 src/backy/repository.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/backy/repository.py b/src/backy/repository.py
index 48ea657..cb4f73b 100644
--- a/src/backy/repository.py
+++ b/src/backy/repository.py
@@ -295,6 +295,8 @@ class Repository(object):
     @locked(target=".backup", mode="exclusive")
     def _clean(self) -> None:
         """Clean-up incomplete revisions."""
+        # A revision may have been completed since the history has been loaded.
+        self.scan()
         for revision in self.local_history:
             if "duration" not in revision.stats:
                 self.log.warning(
-- 
2.43.0


From 3c1c2ef162135e042ef91a3ad5e2b207301cb84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 07/14] fix: fail if exporting an image or a diff fails

---
 src/backy/rbd/rbd.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/backy/rbd/rbd.py b/src/backy/rbd/rbd.py
index f53cee1..d6dcfeb 100644
--- a/src/backy/rbd/rbd.py
+++ b/src/backy/rbd/rbd.py
@@ -27,6 +27,11 @@ except Exception:
     CEPH_RBD_SUPPORTS_WHOLE_OBJECT_DIFF = False
 
 
+def check_return_code(cmd: str, return_code: int) -> None:
+    if isinstance(return_code, int) and return_code != 0:
+        raise subprocess.CalledProcessError(return_code, [RBD, cmd])
+
+
 class RBDClient(object):
     log: BoundLogger
 
@@ -148,7 +153,8 @@ class RBDClient(object):
             yield RBDDiffV1(proc.stdout)
         finally:
             proc.stdout.close()
-            proc.wait()
+            return_code = proc.wait()
+        check_return_code("export-diff", return_code)
 
     @contextlib.contextmanager
     def image_reader(self, image: str) -> Iterator[BinaryIO]:
@@ -176,7 +182,8 @@ class RBDClient(object):
             yield proc.stdout
         finally:
             proc.stdout.close()
-            proc.wait()
+            return_code = proc.wait()
+        check_return_code("export", return_code)
 
 
 def unpack_from(fmt, f):
-- 
2.43.0


From 9c4a82bc026e44daed6e974981b064820d6b6a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 08/14] fix: hold the exclusive purge lock while verifying as
 this collects garbage

---
 src/backy/rbd/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/backy/rbd/__init__.py b/src/backy/rbd/__init__.py
index 1c081ed..d472c38 100644
--- a/src/backy/rbd/__init__.py
+++ b/src/backy/rbd/__init__.py
@@ -188,7 +188,8 @@ class RBDSource(Source[RBDRestoreArgs]):
                 break
         return verified
 
-    @locked(target=".purge", mode="shared")
+    # This collects garbage, so nothing else may happen in the meantime.
+    @locked(target=".purge", mode="exclusive")
     @report_status
     def verify(self, revision: Revision):
         log = self.log.bind(revision_uuid=revision.uuid)
-- 
2.43.0


From afd72d825501b6dd93439e02636e51d9011faa8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 09/14] fix: carry on after removing a garbage snapshot request

---
 src/backy/rbd/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/backy/rbd/__init__.py b/src/backy/rbd/__init__.py
index d472c38..64ead45 100644
--- a/src/backy/rbd/__init__.py
+++ b/src/backy/rbd/__init__.py
@@ -473,6 +473,7 @@ class CephRBD:
                         snapshot_key=key,
                     )
                     del consul.kv[key]
+                    continue
                 if s["vm"] != self.vm:
                     continue
                 # The knowledge about the `backy-` prefix  isn't properly
-- 
2.43.0


From 25409795c21f089da20771677b0818036e365865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 10/14] fix: never replace local revisions by those of a peer

---
 src/backy/daemon/scheduler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/backy/daemon/scheduler.py b/src/backy/daemon/scheduler.py
index 9fea1d6..c9e73f2 100644
--- a/src/backy/daemon/scheduler.py
+++ b/src/backy/daemon/scheduler.py
@@ -493,6 +493,12 @@ class Job(object):
                 ):
                     continue
                 log.debug("pull-updating-rev", rev_uid=r.uuid)
+            elif any(
+                r.uuid == o.uuid and not o.server
+                for o in self.repository.history
+            ):
+                log.warning("pull-ignoring-local-rev", rev_uuid=r.uuid)
+                continue
             else:
                 log.debug("pull-new-rev", rev_uid=r.uuid)
             r.write_info()
-- 
2.43.0


From a2de66c10661bda1e23669e3e29db57a0299d378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:27 +0000
Subject: [PATCH 11/14] fix: treat truncated chunked files and seeks relative
 to the end like flat files

---
 src/backy/rbd/chunked/file.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/backy/rbd/chunked/file.py b/src/backy/rbd/chunked/file.py
index ced489e..ac3a758 100644
--- a/src/backy/rbd/chunked/file.py
+++ b/src/backy/rbd/chunked/file.py
@@ -158,7 +158,7 @@ class File(object):
         if whence == io.SEEK_SET:
             position = offset
         elif whence == io.SEEK_END:
-            position = self.size - offset
+            position = self.size + offset
         elif whence == io.SEEK_CUR:
             position = position + offset
         else:
@@ -192,6 +192,11 @@ class File(object):
         assert "w" in self.mode and not self.closed
         if size is None:
             size = self._position
+        if size > self.size:
+            # Fill up the missing parts with zeroes.
+            position = self._position
+            self.seek(size)
+            self._position = position
         # Update content hash
         self.size = size
         # Remove chunks past the size
@@ -205,7 +210,7 @@ class File(object):
     def read(self, size: int = -1) -> bytes:
         assert "r" in self.mode and not self.closed
         result = io.BytesIO()
-        max_size = self.size - self._position
+        max_size = max([0, self.size - self._position])
         if size == -1:
             size = max_size
         else:
@@ -228,6 +233,9 @@ class File(object):
         assert "w" in self.mode and not self.closed
         self.stats.setdefault("bytes_written", 0)
         self.stats["bytes_written"] += len(data)
+        if data and self._position > self.size:
+            # The file has been truncated before our position.
+            self.seek(self._position)
         while data:
             chunk, _, offset = self._current_chunk()
             written, data = chunk.write(offset, data)
-- 
2.43.0


From abac57b5faa5fde6d684b26b66d5778bad3e2a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:41 +0000
Subject: [PATCH 12/14] fix: hold the repository lock until a locked coroutine
 has finished

---
 src/backy/repository.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/backy/repository.py b/src/backy/repository.py
index cb4f73b..092b3e4 100644
--- a/src/backy/repository.py
+++ b/src/backy/repository.py
@@ -1,6 +1,7 @@
 import contextlib
 import datetime
 import fcntl
+import inspect
 import re
 from math import ceil, floor
 from pathlib import Path
@@ -154,6 +155,19 @@ class Repository(object):
                 with repo.lock(target, mode, f.__name__):
                     return f(self, *args, **kw)
 
+            if inspect.iscoroutinefunction(f):
+                # The lock has to be held until the coroutine has finished.
+                async def locked_coroutine(
+                    self, *args, skip_lock=False, **kw
+                ):
+                    if skip_lock:
+                        return await f(self, *args, **kw)
+                    repo = getattr(self, repo_attr) if repo_attr else self
+                    with repo.lock(target, mode, f.__name__):
+                        return await f(self, *args, **kw)
+
+                locked_function = locked_coroutine
+
             locked_function.__name__ = "locked({}, {})".format(
                 f.__qualname__, target
             )
-- 
2.43.0


From ad8372fb7b9f97442558d219e23293dd38167b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:44 +0000
Subject: [PATCH 13/14] fix: do not report success if a source command has been
 ended by a signal

---
 src/backy/cli/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/backy/cli/__init__.py b/src/backy/cli/__init__.py
index f2f3408..095c932 100644
--- a/src/backy/cli/__init__.py
+++ b/src/backy/cli/__init__.py
@@ -99,7 +99,8 @@ class Command(object):
                         r = await r
                     if not isinstance(r, int):
                         r = 0
-                    ret = max(ret, r)
+                    # source commands ended by signals have negative codes
+                    ret = max(ret, r, key=abs)
             elif (
                 "repos" in params
                 and params["repos"].annotation == List[Repository]
@@ -280,7 +281,8 @@ class Command(object):
         # TODO support multiple repos
         ret = 0
         for r in self.source.repository.find_revisions(revision):
-            ret = max(ret, self.source.verify(r))
+            # commands ended by signals have negative codes
+            ret = max(ret, self.source.verify(r), key=abs)
         return ret
 
     def rm(self, repo: Repository, revision: str) -> None:
-- 
2.43.0


From 0a6c9591375b9529fc1417e559b1a19a2cd4ec06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:44 +0000
Subject: [PATCH 14/14] fix: report a failed garbage collection by the exit
 code

---
 src/backy/cli/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/backy/cli/__init__.py b/src/backy/cli/__init__.py
index 095c932..632defa 100644
--- a/src/backy/cli/__init__.py
+++ b/src/backy/cli/__init__.py
@@ -313,7 +313,7 @@ class Command(object):
         )
         return int(not success)
 
-    def gc(self, repo: Repository, expire: bool, local: bool) -> None:
+    def gc(self, repo: Repository, expire: bool, local: bool) -> int:
         if expire and not local:
             assert False  # request pull from daemon
             # XXX needs to update from remote API peers first (pull)
@@ -322,7 +322,7 @@ class Command(object):
             repo.expire()
         if expire and not local:
             assert False  # request push from daemon
-        self.source.gc()
+        return self.source.gc()
 
     def reports_list(self, repo: Repository):
         for id in repo.report_ids:
-- 
2.43.0

