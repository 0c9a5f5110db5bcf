From bda0da95e957c1dd761dae63afae0b29b6cc73e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:06 +0000
Subject: [PATCH 01/50] fix: fsck must not trust objects whose upload was
 interrupted

When the file system crashes while a block is being uploaded, the objects table
already has the hash of the block but the object does not exist. fsck.s3ql took
the cache file for clean, deleted it, and then removed the block from the file.
---
 src/s3ql/fsck.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index 097b095..8c8677f 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -270,7 +270,7 @@ class Fsck:
             # Check if stored object has same checksum
             try:
                 row = self.conn.get_row(
-                    'SELECT obj_id, hash '
+                    'SELECT obj_id, hash, phys_size '
                     'FROM inode_blocks JOIN objects ON obj_id = objects.id '
                     'WHERE inode=? AND blockno=?',
                     (
@@ -281,11 +281,15 @@ class Fsck:
             except NoSuchRowError:
                 pass
             else:
-                (obj_id, hash_is) = row
+                (obj_id, hash_is, phys_size) = row
                 assert isinstance(obj_id, int)
                 assert hash_is is None or isinstance(hash_is, bytes)
                 if hash_is is None:
                     log.debug('Object %d has NULL hash, treating cached block as dirty', obj_id)
+                elif phys_size == -1:
+                    # The upload had not completed when the file system crashed, so the object may
+                    # not exist and the cache file may be the only copy of the data.
+                    log.debug('Object %d not fully uploaded, treating block as dirty', obj_id)
                 elif hash_should == hash_is:
                     if not keep_cache:
                         os.unlink(os.path.join(self.cachedir, filename))
@@ -295,8 +299,8 @@ class Fsck:
             self.log_error("Writing dirty block %d of inode %d to backend", blockno, inode)
 
             try:
-                obj_id = self.conn.get_int_val(
-                    'SELECT id FROM objects WHERE hash=?', (hash_should,)
+                (obj_id, phys_size) = self.conn.get_row_typed(
+                    (int, int), 'SELECT id, phys_size FROM objects WHERE hash=?', (hash_should,)
                 )
 
             except NoSuchRowError:
@@ -304,14 +308,17 @@ class Fsck:
                     'INSERT INTO objects (refcount, phys_size, length, hash) VALUES(1, -1, ?, ?)',
                     (size, hash_should),
                 )
+                phys_size = -1
+            else:
+                self.conn.execute('UPDATE objects SET refcount=refcount+1 WHERE id=?', (obj_id,))
 
+            # No object with this hash, or its upload was interrupted
+            if phys_size == -1:
                 with open(os.path.join(self.cachedir, filename), "rb") as fh:
                     size = os.fstat(fh.fileno()).st_size
                     obj_size = await self.backend.write_fh('s3ql_data_%d' % obj_id, fh, size)
 
                 self.conn.execute('UPDATE objects SET phys_size=? WHERE id=?', (obj_size, obj_id))
-            else:
-                self.conn.execute('UPDATE objects SET refcount=refcount+1 WHERE id=?', (obj_id,))
 
             try:
                 old_obj_id = self.conn.get_int_val(
-- 
2.43.0


From e2178d5378c3ee1188cb6ed35c629ce49b529f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:53 +0000
Subject: [PATCH 02/50] fix: recover from crash between updating local and
 remote parameters

When mount.s3ql or fsck.s3ql were interrupted after writing the local parameters
but before uploading them, mount.s3ql failed with an AssertionError, and fsck.s3ql
considered the file system clean and did not correct the remote parameters.
---
 src/s3ql/fsck.py  | 3 ++-
 src/s3ql/mount.py | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index 8c8677f..d941da3 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -1324,12 +1324,13 @@ async def fsck(
     local_param = read_cached_params(cachepath, min_seq=param.seq_no)
     if local_param is not None:
         log.info('Using cached metadata.')
+        remote_outdated = local_param != param
         param = local_param
         db = Connection(cachepath + '.db', param.metadata_block_size)
         if param.is_mounted:
             log.info('File system was not unmounted cleanly')
             param.needs_fsck = True
-        if local_param.seq_no > param.seq_no:
+        if remote_outdated:
             log.info('Remote metadata is outdated.')
             param.needs_fsck = True
 
diff --git a/src/s3ql/mount.py b/src/s3ql/mount.py
index 2b23796..d9abbf3 100644
--- a/src/s3ql/mount.py
+++ b/src/s3ql/mount.py
@@ -585,8 +585,10 @@ async def get_metadata(
     if local_param is not None:
         if local_param.seq_no > param.seq_no:
             raise QuietError("File system not unmounted cleanly, run fsck!", exitcode=30)
+        if local_param != param:
+            # Crash after updating the local, but before updating the remote parameters
+            raise QuietError("File system not unmounted cleanly, run fsck!", exitcode=30)
         log.info('Using cached metadata.')
-        assert local_param == param
         db = Connection(cachepath + '.db', param.metadata_block_size)
 
     if param.is_mounted:
-- 
2.43.0


From 5a3e70b0c53567ac6401075ce82d91076a62cc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:25 +0000
Subject: [PATCH 03/50] fix: delete object that is dereferenced while it is
 being uploaded

_deref_obj() read phys_size before waiting for the upload, found it to be -1, and
left the uploaded object in the backend.
---
 src/s3ql/block_cache.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/s3ql/block_cache.py b/src/s3ql/block_cache.py
index 1f0d588..6530098 100644
--- a/src/s3ql/block_cache.py
+++ b/src/s3ql/block_cache.py
@@ -539,6 +539,13 @@ class BlockCache:
         If reference counter drops to zero, remove object.
         '''
 
+        # If an upload of this object is still in flight, wait for it to finish
+        # before looking at the row. After the wait, the upload has either
+        # succeeded (and the backend object exists, ready to be deleted) or
+        # failed (signalled by phys_size remaining -1, handled below).
+        if (event := self.in_flight_uploads.get(obj_id)) is not None:
+            await event.wait()
+
         (refcount, size) = self.db.get_row_typed(
             (int, int), 'SELECT refcount, phys_size FROM objects WHERE id=?', (obj_id,)
         )
@@ -552,13 +559,6 @@ class BlockCache:
 
         log.debug('adding %d to removal queue', obj_id)
 
-        # If an upload of this object is still in flight, wait for it to finish
-        # before queuing the removal. After the wait, the upload has either
-        # succeeded (and the backend object exists, ready to be deleted) or
-        # failed (signalled by phys_size remaining -1, handled below).
-        if (event := self.in_flight_uploads.get(obj_id)) is not None:
-            await event.wait()
-
         if size == -1:
             # size == -1 indicates that object has not yet been uploaded.
             # However, since we just waited for the in-flight upload, we know
-- 
2.43.0


From 7878a01dd0633feffa43b21fb924b310c569068d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:12 +0000
Subject: [PATCH 04/50] fix: do not deduplicate against an object that is still
 being uploaded

If the upload failed later (or the file system crashed), the second block had been
considered clean although its data had never been stored, and was lost once
its cache file had been evicted.
---
 src/s3ql/block_cache.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/s3ql/block_cache.py b/src/s3ql/block_cache.py
index 6530098..76175fa 100644
--- a/src/s3ql/block_cache.py
+++ b/src/s3ql/block_cache.py
@@ -472,6 +472,13 @@ class BlockCache:
             try:
                 obj_id = self.db.get_int_val('SELECT id FROM objects WHERE hash=?', (hash_,))
 
+                # If the object is still being uploaded, wait. Until the upload has succeeded,
+                # this cache entry may be the only good copy of the data and must stay dirty.
+                while (event := self.in_flight_uploads.get(obj_id)) is not None:
+                    log.debug('waiting for upload of %d', obj_id)
+                    await event.wait()
+                    obj_id = self.db.get_int_val('SELECT id FROM objects WHERE hash=?', (hash_,))
+
             # No object with same hash
             except NoSuchRowError:
                 obj_id = self.db.rowid(
-- 
2.43.0


From 29d9d01eb215f0f0007c689eca11d5b90ef39402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:14 +0000
Subject: [PATCH 05/50] fix: keep name reference counts right when setting and
 removing xattrs

Overwriting an extended attribute leaked a reference to the name. Removing an attribute
that the inode does not have dropped a reference to the name, which could belong to
a directory entry, so that the entry became inaccessible.
---
 src/s3ql/fs.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 8e15a4d..9b57a8c 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -351,9 +351,15 @@ class Operations(pyfuse3.Operations):
             if self.failsafe or self.inodes[id_].locked:
                 raise FUSEError(errno.EPERM)
 
+            try:
+                # When overwriting, the attribute already holds a reference to the name
+                name_id = self._get_xattr_name_id(id_, name)
+            except NoSuchRowError:
+                name_id = self._add_name(name)
+
             self.db.execute(
                 'INSERT OR REPLACE INTO ext_attributes (inode, name_id, value) VALUES(?, ?, ?)',
-                (id_, self._add_name(name), value),
+                (id_, name_id, value),
             )
             self.inodes[id_].ctime_ns = time_ns()
 
@@ -364,15 +370,12 @@ class Operations(pyfuse3.Operations):
             raise FUSEError(errno.EPERM)
 
         try:
-            name_id = self._del_name(name)
+            name_id = self._get_xattr_name_id(id_, name)
         except NoSuchRowError:
             raise FUSEError(pyfuse3.ENOATTR)
 
-        changes = self.db.execute(
-            'DELETE FROM ext_attributes WHERE inode=? AND name_id=?', (id_, name_id)
-        )
-        if changes == 0:
-            raise FUSEError(pyfuse3.ENOATTR)
+        self.db.execute('DELETE FROM ext_attributes WHERE inode=? AND name_id=?', (id_, name_id))
+        self._del_name(name)
 
         self.inodes[id_].ctime_ns = time_ns()
 
@@ -803,6 +806,18 @@ class Operations(pyfuse3.Operations):
             self._rename(id_p_old, name_old, id_p_new, name_new)
             await self.forget([(inode_old.id, 1)])
 
+    def _get_xattr_name_id(self, id_: InodeT, name: bytes) -> int:
+        '''Return name id of extended attribute *name* of inode *id_*
+
+        Raises `NoSuchRowError` if the inode does not have this attribute.
+        '''
+
+        return self.db.get_int_val(
+            'SELECT name_id FROM ext_attributes JOIN names ON names.id = name_id '
+            'WHERE inode=? AND name=?',
+            (id_, name),
+        )
+
     def _add_name(self, name: bytes) -> int:
         '''Get id for *name* and increase refcount
 
-- 
2.43.0


From c8339e3d613775e143853670d2f028c151550603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:47 +0000
Subject: [PATCH 06/50] fix: release inode reference when unlink, rmdir or
 rename fail

The reference taken by the lookup was leaked, so that the inode was neither removed nor its
space released until unmount if it was deleted later.
---
 src/s3ql/fs.py | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 9b57a8c..85a5ca9 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -647,12 +647,13 @@ class Operations(pyfuse3.Operations):
 
         inode = self._lookup(id_p, name, ctx)
 
-        if stat.S_ISDIR(inode.mode):
-            raise FUSEError(errno.EISDIR)
-
-        await self._remove(id_p, name, inode.id)
+        try:
+            if stat.S_ISDIR(inode.mode):
+                raise FUSEError(errno.EISDIR)
 
-        await self.forget([(inode.id, 1)])
+            await self._remove(id_p, name, inode.id)
+        finally:
+            await self.forget([(inode.id, 1)])
 
     async def rmdir(self, id_p: InodeT, name: bytes, ctx: RequestContext) -> None:
         log.debug('started with %d, %r', id_p, name)
@@ -661,15 +662,16 @@ class Operations(pyfuse3.Operations):
 
         inode = self._lookup(id_p, name, ctx)
 
-        if self.inodes[id_p].locked:
-            raise FUSEError(errno.EPERM)
-
-        if not stat.S_ISDIR(inode.mode):
-            raise FUSEError(errno.ENOTDIR)
+        try:
+            if self.inodes[id_p].locked:
+                raise FUSEError(errno.EPERM)
 
-        await self._remove(id_p, name, inode.id)
+            if not stat.S_ISDIR(inode.mode):
+                raise FUSEError(errno.ENOTDIR)
 
-        await self.forget([(inode.id, 1)])
+            await self._remove(id_p, name, inode.id)
+        finally:
+            await self.forget([(inode.id, 1)])
 
     async def _purge_inode(self, id_: InodeT, size: int) -> None:
         '''Remove an inode that has no more references.
@@ -800,8 +802,12 @@ class Operations(pyfuse3.Operations):
             target_exists = True
 
         if target_exists:
-            await self._replace(id_p_old, name_old, id_p_new, name_new, inode_old.id, inode_new.id)
-            await self.forget([(inode_old.id, 1), (inode_new.id, 1)])
+            try:
+                await self._replace(
+                    id_p_old, name_old, id_p_new, name_new, inode_old.id, inode_new.id
+                )
+            finally:
+                await self.forget([(inode_old.id, 1), (inode_new.id, 1)])
         else:
             self._rename(id_p_old, name_old, id_p_new, name_new)
             await self.forget([(inode_old.id, 1)])
-- 
2.43.0


From 28185063b308c37e488c926dacf73c93e6f71f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:40 +0000
Subject: [PATCH 07/50] fix: restore-metadata must not leave a half-written
 database that looks current

---
 src/s3ql/adm.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/s3ql/adm.py b/src/s3ql/adm.py
index 01871b3..ddd2211 100644
--- a/src/s3ql/adm.py
+++ b/src/s3ql/adm.py
@@ -560,6 +560,11 @@ async def restore_metadata(
 
     params = await read_remote_params(backend, seq_no=seq_no)
 
+    # The local database is about to be overwritten, so if we do not get to the end it must not be
+    # mistaken for what the local parameters describe.
+    if os.path.exists(cachepath + '.params'):
+        os.unlink(cachepath + '.params')
+
     log.info('Downloading metadata...')
     conn = await download_metadata(
         backend,
-- 
2.43.0


From ba13a38147b2347a889c30e79c860d998e1207a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:11 +0000
Subject: [PATCH 08/50] fix: remove stale write-ahead log before downloading
 metadata

---
 src/s3ql/database.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/s3ql/database.py b/src/s3ql/database.py
index d392a2d..6474a1e 100644
--- a/src/s3ql/database.py
+++ b/src/s3ql/database.py
@@ -928,6 +928,12 @@ class DownloadMetadata(ParallelPipeline[_BlockJob]):
     )
 
     async def discover_blocks(self) -> dict[int, list[int]]:
+        # If the previous user of this file crashed, SQLite would apply its write-ahead log to the
+        # downloaded data.
+        for suffix in ('-wal', '-shm', '-journal'):
+            if os.path.exists(self.db_file + suffix):
+                os.unlink(self.db_file + suffix)
+
         # Workers seek into this file independently, so it must exist before
         # they run.
         with open(self.db_file, 'w+b', buffering=0):
-- 
2.43.0


From 4b961da3d2fbc354b81b82af4197ab4a162300ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:17 +0000
Subject: [PATCH 09/50] fix: restore-metadata must not keep cached data of the
 replaced metadata

---
 src/s3ql/adm.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/s3ql/adm.py b/src/s3ql/adm.py
index ddd2211..01af674 100644
--- a/src/s3ql/adm.py
+++ b/src/s3ql/adm.py
@@ -9,6 +9,7 @@ This work can be distributed under the terms of the GNU GPLv3.
 from __future__ import annotations
 
 import dataclasses
+import itertools
 import logging
 import os
 import re
@@ -565,6 +566,19 @@ async def restore_metadata(
     if os.path.exists(cachepath + '.params'):
         os.unlink(cachepath + '.params')
 
+    # Cached data belongs to the metadata that is being replaced.
+    cachedir = cachepath + '-cache'
+    if os.path.exists(cachedir) and os.listdir(cachedir):
+        for i in itertools.count():
+            bak_name = '%s.bak%d' % (cachedir, i)
+            if not os.path.exists(bak_name):
+                break
+        log.warning('Renaming outdated cache directory %s to .bak%d', cachedir, i)
+        log.warning(
+            'You should delete this directory once you are sure that everything is in order.'
+        )
+        os.rename(cachedir, bak_name)
+
     log.info('Downloading metadata...')
     conn = await download_metadata(
         backend,
-- 
2.43.0


From cef6d6b955e9fcfce2250ad031f7ea1d205773c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:40 +0000
Subject: [PATCH 10/50] fix: ignore local metadata if another system has
 mounted and unmounted since

---
 src/s3ql/database.py | 21 ++++++++++++++++++++-
 src/s3ql/fsck.py     |  2 +-
 src/s3ql/mount.py    |  2 +-
 3 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/s3ql/database.py b/src/s3ql/database.py
index 6474a1e..448ae05 100644
--- a/src/s3ql/database.py
+++ b/src/s3ql/database.py
@@ -1300,7 +1300,14 @@ def write_params(cachepath: str, params: FsAttributes) -> None:
         os.close(dirfd)
 
 
-def read_cached_params(cachepath: str, min_seq: int | None = None) -> FsAttributes | None:
+def read_cached_params(
+    cachepath: str, min_seq: int | None = None, remote: FsAttributes | None = None
+) -> FsAttributes | None:
+    '''Return locally cached parameters, or None if there are none that are current
+
+    If *remote* is specified, also compare with the parameters stored in the backend.
+    '''
+
     filename = cachepath + '.params'
     if not os.path.exists(filename):
         return None
@@ -1315,6 +1322,18 @@ def read_cached_params(cachepath: str, min_seq: int | None = None) -> FsAttribut
         log.info('Ignoring locally cached metadata (outdated).')
         return None
 
+    # The local parameters are always updated first. Therefore, if only they say that the file
+    # system is mounted, we crashed before anything else happened - and if the sequence number is
+    # the same nevertheless, someone else has mounted and unmounted the file system since.
+    if (
+        remote is not None
+        and params.seq_no == remote.seq_no
+        and params.is_mounted
+        and not remote.is_mounted
+    ):
+        log.info('Ignoring locally cached metadata (outdated).')
+        return None
+
     return params
 
 
diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index d941da3..13fa5a2 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -1321,7 +1321,7 @@ async def fsck(
     db = None
 
     param = await read_remote_params(backend)
-    local_param = read_cached_params(cachepath, min_seq=param.seq_no)
+    local_param = read_cached_params(cachepath, min_seq=param.seq_no, remote=param)
     if local_param is not None:
         log.info('Using cached metadata.')
         remote_outdated = local_param != param
diff --git a/src/s3ql/mount.py b/src/s3ql/mount.py
index d9abbf3..91e3e08 100644
--- a/src/s3ql/mount.py
+++ b/src/s3ql/mount.py
@@ -581,7 +581,7 @@ async def get_metadata(
 
     db = None
     param = await read_remote_params(backend)
-    local_param = read_cached_params(cachepath, min_seq=param.seq_no)
+    local_param = read_cached_params(cachepath, min_seq=param.seq_no, remote=param)
     if local_param is not None:
         if local_param.seq_no > param.seq_no:
             raise QuietError("File system not unmounted cleanly, run fsck!", exitcode=30)
-- 
2.43.0


From 7b5affdc8f881783651f26b964eb12f5bc275360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:19 +0000
Subject: [PATCH 11/50] fix: report lost block as I/O error when truncating

---
 src/s3ql/fs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 85a5ca9..51d1e1a 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -1020,7 +1020,9 @@ class Operations(pyfuse3.Operations):
                     log.warning(
                         'Backend lost block %d of inode %d (id %s)!', last_block, id_, exc.key
                     )
-                    raise
+                    self.failsafe = True
+                    self.broken_blocks[id_].add(last_block)
+                    raise FUSEError(errno.EIO)
 
                 except CorruptedObjectError as exc:
                     log.warning(
-- 
2.43.0


From e6ce969c6d98b83c3acf435359759f02848bcb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:19 +0000
Subject: [PATCH 12/50] fix: treat unencrypted object in encrypted file system
 as corrupted

---
 src/s3ql/backends/comprenc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/s3ql/backends/comprenc.py b/src/s3ql/backends/comprenc.py
index 1c93410..f9cab43 100644
--- a/src/s3ql/backends/comprenc.py
+++ b/src/s3ql/backends/comprenc.py
@@ -225,7 +225,7 @@ class AsyncComprencBackend(AsyncBackend):
             raise CorruptedObjectError('Encrypted object and no passphrase supplied')
 
         elif not encrypted and self.passphrase is not None:
-            raise ObjectNotEncrypted()
+            raise ObjectNotEncrypted('Object %s is not encrypted' % key)
 
         meta_buf = metadata['data']
         if not isinstance(meta_buf, bytes):
@@ -642,7 +642,7 @@ def decompress_buf(decomp: DecompressorProtocol, buf: bytes) -> bytes:
         raise
 
 
-class ObjectNotEncrypted(Exception):
+class ObjectNotEncrypted(CorruptedObjectError):
     '''
     Raised by the backend if an object was requested from an encrypted
     backend, but the object was stored without encryption.
-- 
2.43.0


From 46eb1af2f599147f66b2127e43f11dab056505ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:44 +0000
Subject: [PATCH 13/50] fix: report malformed object headers and streams as
 corrupted objects

---
 src/s3ql/backends/comprenc.py | 31 ++++++++++++-------------------
 src/s3ql/common.py            |  4 +++-
 2 files changed, 15 insertions(+), 20 deletions(-)

diff --git a/src/s3ql/backends/comprenc.py b/src/s3ql/backends/comprenc.py
index f9cab43..8c54ec0 100644
--- a/src/s3ql/backends/comprenc.py
+++ b/src/s3ql/backends/comprenc.py
@@ -294,15 +294,12 @@ class AsyncComprencBackend(AsyncBackend):
         else:
             data_key = None
         compr_token = meta_raw['compression']
-        assert isinstance(compr_token, str)
         encr_alg = meta_raw['encryption']
-        assert isinstance(encr_alg, str)
         if encr_alg != 'AES_v2' and encr_alg != 'None':
-            raise RuntimeError('Unsupported encryption: %r' % encr_alg)
-        try:
-            compr_alg = _ALGORITHM_BY_TOKEN[compr_token]
-        except KeyError:
-            raise RuntimeError('Unsupported compression: %r' % compr_token)
+            raise CorruptedObjectError('Unsupported encryption: %r' % encr_alg)
+        if not isinstance(compr_token, str) or compr_token not in _ALGORITHM_BY_TOKEN:
+            raise CorruptedObjectError('Unsupported compression: %r' % compr_token)
+        compr_alg = _ALGORITHM_BY_TOKEN[compr_token]
 
         # The `payload_offset` key only exists if the storage object was created with on old S3QL
         # version. In order to avoid having to download and re-upload the entire object during the
@@ -310,7 +307,8 @@ class AsyncComprencBackend(AsyncBackend):
         # of the object we have to skip to get to the payload.
         if 'payload_offset' in meta_raw:
             off = meta_raw['payload_offset']
-            assert isinstance(off, int)
+            if not isinstance(off, int) or off < 0:
+                raise CorruptedObjectError('Invalid payload offset: %r' % off)
             buf.seek(off)
         else:
             buf.seek(0)
@@ -318,7 +316,8 @@ class AsyncComprencBackend(AsyncBackend):
         # __size was introduced without bumping the filesystem revision, so some objects
         # may not have it. If it's available, use that instead of the size_hint.
         if v := meta.pop('__size', None):
-            assert isinstance(v, int)
+            if not isinstance(v, int):
+                raise CorruptedObjectError('Invalid size: %r' % v)
             size_hint = v
 
         # In contrast to write_fh, we potentially use sync decompression/decryption here even
@@ -630,16 +629,10 @@ def decompress_buf(decomp: DecompressorProtocol, buf: bytes) -> bytes:
         if exc.args[0].lower().startswith('invalid data stream'):
             raise CorruptedObjectError('Invalid compressed stream')
         raise
-    except lzma.LZMAError as exc:
-        if exc.args[0].lower().startswith('corrupt input data') or exc.args[0].startswith(
-            'Input format not supported'
-        ):
-            raise CorruptedObjectError('Invalid compressed stream')
-        raise
-    except zlib.error as exc:
-        if exc.args[0].lower().startswith('error -3 while decompressing'):
-            raise CorruptedObjectError('Invalid compressed stream')
-        raise
+    except (lzma.LZMAError, zlib.error):
+        raise CorruptedObjectError('Invalid compressed stream')
+    except EOFError:
+        raise CorruptedObjectError('Data after end of compressed stream')
 
 
 class ObjectNotEncrypted(CorruptedObjectError):
diff --git a/src/s3ql/common.py b/src/s3ql/common.py
index 4d2180c..5a2fd57 100644
--- a/src/s3ql/common.py
+++ b/src/s3ql/common.py
@@ -341,7 +341,9 @@ def thaw_basic_mapping(buf: bytes | bytearray) -> BasicMappingT:
 
     try:
         d = literal_eval(buf.decode('utf-8'))
-    except (UnicodeDecodeError, SyntaxError, ValueError):
+    except (UnicodeDecodeError, SyntaxError, ValueError, TypeError):
+        raise ThawError()
+    if not isinstance(d, dict):
         raise ThawError()
 
     # Decode bytes values
-- 
2.43.0


From 3f8b0570e277f5e2415f251c27d6b1eb735e382a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:44 +0000
Subject: [PATCH 14/50] fix: do not fail when expiring metadata if an old
 version is incomplete

---
 src/s3ql/database.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/database.py b/src/s3ql/database.py
index 448ae05..ca17627 100644
--- a/src/s3ql/database.py
+++ b/src/s3ql/database.py
@@ -1098,7 +1098,10 @@ async def expire_objects(backend: AsyncBackend, versions_to_keep: int = 32) -> N
             log.debug('block %d has candidates %s', blockno, candidates)
             if blockno > max_blockno:
                 continue
-            to_keep[blockno].add(first_le_than(candidates, seq_no))
+            try:
+                to_keep[blockno].add(first_le_than(candidates, seq_no))
+            except ValueError:
+                log.warning('Metadata block %d of version %010x has been lost', blockno, seq_no)
 
     # Remove what's no longer needed
     for blockno, candidates in block_list.items():
-- 
2.43.0


From c0dfb454a727f20aa47c75076d6e11cf518ab8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:45 +0000
Subject: [PATCH 15/50] fix: restore cache limit after concurrent cache drops

---
 src/s3ql/block_cache.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/s3ql/block_cache.py b/src/s3ql/block_cache.py
index 76175fa..445d816 100644
--- a/src/s3ql/block_cache.py
+++ b/src/s3ql/block_cache.py
@@ -210,6 +210,8 @@ class BlockCache:
     block_lock: MultiLock[tuple[InodeT, int]]
     in_flight_uploads: dict[int, trio.Event]
     _in_transit_count: int
+    _drops_active: int
+    _saved_max_entries: int
     transfer_completed: trio.Condition
     _upload_send: UploadChannelSend
     _remove_send: RemovalChannelSend
@@ -236,6 +238,8 @@ class BlockCache:
         self.block_lock = MultiLock()
         self.in_flight_uploads = {}
         self._in_transit_count = 0
+        self._drops_active = 0
+        self._saved_max_entries = max_entries
         self.transfer_completed = trio.Condition()
         self._upload_send = upload_send
         self._remove_send = remove_send
@@ -894,10 +898,19 @@ class BlockCache:
         """Drop cache."""
 
         log.debug('started')
-        bak = self.cache.max_entries
-        self.cache.max_entries = 0
-        await self.evict()
-        self.cache.max_entries = bak
+
+        # There may be several concurrent calls. Only the last one must restore the limit, and it
+        # must not mistake the temporary limit for the real one.
+        if self._drops_active == 0:
+            self._saved_max_entries = self.cache.max_entries
+            self.cache.max_entries = 0
+        self._drops_active += 1
+        try:
+            await self.evict()
+        finally:
+            self._drops_active -= 1
+            if self._drops_active == 0:
+                self.cache.max_entries = self._saved_max_entries
         log.debug('finished')
 
     def get_usage(self) -> tuple[int, int, int, int, int]:
-- 
2.43.0


From 897963d77702feb28a46e11f9485ba492864ca9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:10 +0000
Subject: [PATCH 16/50] fix: do not store empty cache files in fsck.s3ql

---
 src/s3ql/fsck.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index 13fa5a2..b051a49 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -279,7 +279,12 @@ class Fsck:
                     ),
                 )
             except NoSuchRowError:
-                pass
+                if size == 0:
+                    # Created when accessing a hole, but not written to yet. Storing an empty block
+                    # would leave behind an object that may be located after the end of the file
+                    # (and is thus not removed together with it).
+                    os.unlink(os.path.join(self.cachedir, filename))
+                    continue
             else:
                 (obj_id, hash_is, phys_size) = row
                 assert isinstance(obj_id, int)
-- 
2.43.0


From 0b28f09f689d94c26503b69b1ed5283b01fd0347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:46 +0000
Subject: [PATCH 17/50] fix: remove unreferenced objects of deleted inodes in
 first fsck.s3ql run

---
 src/s3ql/fsck.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index b051a49..d09a9e4 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -154,13 +154,15 @@ class Fsck:
 
             self.check_objects_temp()
             self.check_objects_hash()
+
+            # May leave behind unreferenced objects
+            self.check_inode_blocks_inode()
             await self.check_objects_refcount()
             await self.check_objects_id()
             await self.check_objects_phys_size()
             # TODO: Are there any checks we could do on objects.length?
 
             self.check_inode_blocks_obj_id()
-            self.check_inode_blocks_inode()
 
             self.check_inodes_refcount()
             self.check_inodes_size()
-- 
2.43.0


From 4c5d72f9ab147df97ed3c2c9515438057ac198cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:23 +0000
Subject: [PATCH 18/50] fix: release MultiLock even when cancelled

---
 src/s3ql/multi_lock.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/s3ql/multi_lock.py b/src/s3ql/multi_lock.py
index b9a2b83..74c8922 100644
--- a/src/s3ql/multi_lock.py
+++ b/src/s3ql/multi_lock.py
@@ -84,9 +84,11 @@ class MultiLock(Generic[K]):
         not locked.
         """
 
-        async with self.cond:
-            if noerror:
-                self.locked_keys.discard(key)
-            else:
-                self.locked_keys.remove(key)
-            self.cond.notify_all()
+        # Must not be interrupted by cancellation, because then the lock would remain locked.
+        with trio.CancelScope(shield=True):
+            async with self.cond:
+                if noerror:
+                    self.locked_keys.discard(key)
+                else:
+                    self.locked_keys.remove(key)
+                self.cond.notify_all()
-- 
2.43.0


From ffa420f3ce469232b93e4066dd5b6429d2bc742e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:23 +0000
Subject: [PATCH 19/50] fix: create symlinks and their targets atomically

---
 src/s3ql/fs.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 51d1e1a..a445311 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -758,10 +758,12 @@ class Operations(pyfuse3.Operations):
         # with this size. If the kernel ever learns to open and read
         # symlinks directly, it will read the corresponding number of \0
         # bytes.
-        inode = self._create(id_p, name, mode, ctx, size=len(target))
-        self.db.execute(
-            'INSERT INTO symlink_targets (inode, target) VALUES(?,?)', (inode.id, target)
-        )
+        # Use a transaction (savepoint), so that a crash cannot leave behind a symlink without target.
+        with self.db.conn:
+            inode = self._create(id_p, name, mode, ctx, size=len(target))
+            self.db.execute(
+                'INSERT INTO symlink_targets (inode, target) VALUES(?,?)', (inode.id, target)
+            )
         self.open_inodes[inode.id] += 1
         return inode.entry_attributes()
 
-- 
2.43.0


From 37db19555b5e0e5aae4e78560e17764fd8a12e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:45 +0000
Subject: [PATCH 20/50] fix: do not lose data, or changes of other processes,
 in s3qlcp

Blocks that were still dirty (or being uploaded) were missing in the copy
unless the inode was open. Data that was changed while it was being flushed
could be copied in part.

Yielding to other tasks in the middle of a transaction also made their changes
part of that transaction, so that they were not durable and a concurrent
metadata upload or batch failed.
---
 src/s3ql/block_cache.py |  18 +++++-
 src/s3ql/database.py    |  14 ++++-
 src/s3ql/fs.py          | 129 ++++++++++++++++++++++++++++++++--------
 3 files changed, 132 insertions(+), 29 deletions(-)

diff --git a/src/s3ql/block_cache.py b/src/s3ql/block_cache.py
index 445d816..11e7644 100644
--- a/src/s3ql/block_cache.py
+++ b/src/s3ql/block_cache.py
@@ -13,7 +13,7 @@ import os
 import re
 import sys
 import time
-from collections.abc import AsyncIterator
+from collections.abc import AsyncIterator, Collection
 from contextlib import asynccontextmanager
 from io import BufferedRandom
 from typing import TYPE_CHECKING, cast
@@ -874,8 +874,18 @@ class BlockCache:
                 continue
             await self.upload_if_dirty(el)
 
-    async def flush(self) -> None:
-        """Upload all dirty blocks."""
+    def is_dirty(self, inode: InodeT, no_blocks: int) -> bool:
+        """Return True if one of the first *no_blocks* blocks of *inode* is not stored yet"""
+
+        if no_blocks > len(self.cache):
+            return any(
+                el.dirty or el.in_transit for el in self.cache.values() if el.inode == inode
+            )
+        els = (self.cache.get((inode, blockno)) for blockno in range(no_blocks))
+        return any(el is not None and (el.dirty or el.in_transit) for el in els)
+
+    async def flush(self, inodes: Collection[InodeT] | None = None) -> None:
+        """Upload all dirty blocks, or those of the given inodes."""
 
         log.debug('started')
 
@@ -883,6 +893,8 @@ class BlockCache:
             sth_in_transit = False
 
             for el in self.cache.mutable_values():
+                if inodes is not None and el.inode not in inodes:
+                    continue
                 if await self.upload_if_dirty(el):
                     sth_in_transit = True
 
diff --git a/src/s3ql/database.py b/src/s3ql/database.py
index ca17627..b3fc8ad 100644
--- a/src/s3ql/database.py
+++ b/src/s3ql/database.py
@@ -630,14 +630,24 @@ class BatchedTransactionManager:
         self.conn.execute('BEGIN TRANSACTION')
         self.in_tx = True
 
+    def commit(self) -> None:
+        '''Commit changes without finishing the batch
+
+        This must be called before yielding to other tasks. Otherwise, their changes become part of
+        the current transaction, and other users of the connection (like a second batch, or a
+        metadata upload) fail.
+        '''
+
+        self.conn.execute('COMMIT')
+        self.in_tx = False
+
     async def finish_batch(self, processed: int) -> None:
         '''Finish current batch and checkpoint.'''
 
         if not self.in_tx:
             raise RuntimeError('No active batch')
 
-        self.conn.execute('COMMIT')
-        self.in_tx = False
+        self.commit()
         await self.conn.checkpoint()
         dt = time.time() - self.stamp
         self.batch_size = max(
diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index a445311..5679acd 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -9,6 +9,7 @@ This work can be distributed under the terms of the GNU GPLv3.
 from __future__ import annotations
 
 import collections
+import contextlib
 import errno
 import logging
 import math
@@ -16,11 +17,12 @@ import os
 import stat
 import struct
 import time
-from collections.abc import Sequence
+from collections.abc import AsyncIterator, Sequence
 from io import BytesIO
 from typing import TYPE_CHECKING, cast, overload
 
 import pyfuse3
+import trio
 from pyfuse3 import EntryAttributes, FileHandleT, FUSEError, InodeT, RequestContext
 
 from . import CTRL_INODE, CTRL_NAME
@@ -106,6 +108,8 @@ class Operations(pyfuse3.Operations):
                     attempts to retrieve them. This attribute is a dict (indexed by inodes)
                     of sets of block indices. Broken blocks are removed from the cache
                     when an inode is forgotten.
+    :data_changes: Number of operations in progress that change the contents of each inode
+    :frozen_inodes: Inodes whose contents must not change at the moment
 
     Directory Entry Types
     ----------------------
@@ -128,6 +132,9 @@ class Operations(pyfuse3.Operations):
     max_obj_size: int
     cache: BlockCache
     failsafe: bool
+    data_changes: collections.Counter[InodeT]
+    frozen_inodes: set[InodeT]
+    data_changes_lot: trio.lowlevel.ParkingLot
     broken_blocks: dict[InodeT, set[int]]
 
     def __init__(
@@ -148,6 +155,9 @@ class Operations(pyfuse3.Operations):
         self.cache = block_cache
         self.failsafe = False
         self.broken_blocks = collections.defaultdict(set)
+        self.data_changes = collections.Counter()
+        self.frozen_inodes = set()
+        self.data_changes_lot = trio.lowlevel.ParkingLot()
 
         # Root inode is always open
         self.open_inodes[pyfuse3.ROOT_INODE] += 1
@@ -504,6 +514,43 @@ class Operations(pyfuse3.Operations):
         await self.forget([(id0, 1)])
         log.debug('finished')
 
+    @contextlib.asynccontextmanager
+    async def _change_data(self, id_: InodeT) -> AsyncIterator[None]:
+        '''Must be active while the contents or size of an inode are being changed'''
+
+        while id_ in self.frozen_inodes:
+            await self.data_changes_lot.park()
+        self.data_changes[id_] += 1
+        try:
+            yield
+        finally:
+            self.data_changes[id_] -= 1
+            if not self.data_changes[id_]:
+                del self.data_changes[id_]
+                self.data_changes_lot.unpark_all()
+
+    def _in_flux(self, id_: InodeT) -> bool:
+        '''Return True if the database does not have the current contents of *id_*'''
+
+        return id_ in self.data_changes or self.cache.is_dirty(
+            id_, math.ceil(self.inodes[id_].size / self.max_obj_size)
+        )
+
+    async def _freeze(self, ids: set[InodeT], frozen: set[InodeT]) -> None:
+        '''Hold off changes to the contents of *ids*, and upload what has been changed so far'''
+
+        frozen |= ids
+        self.frozen_inodes |= ids
+        while not ids.isdisjoint(self.data_changes):
+            await self.data_changes_lot.park()
+        await self.cache.flush(ids)
+
+    def _thaw(self, frozen: set[InodeT]) -> None:
+        if frozen:
+            self.frozen_inodes -= frozen
+            frozen.clear()
+            self.data_changes_lot.unpark_all()
+
     async def copy_tree(self, src_id: InodeT, target_id: InodeT) -> None:
         '''Efficiently copy directory tree'''
 
@@ -541,22 +588,30 @@ class Operations(pyfuse3.Operations):
         # error, because in that case the database gets out of sync with the inode cache (which
         # probably makes things worse).
         processed = 0
-        async with db.batch(CHECKPOINT_INTERVAL) as batch_mgr:
-            while queue:
-                (src_id, target_id, off) = queue.pop()
-                # log.debug('Processing directory (%d, %d, %d)', src_id, target_id, off)
-
-                with db.query(
-                    'SELECT name_id, inode FROM contents WHERE parent_inode=? '
-                    'AND name_id > ? ORDER BY name_id',
-                    (src_id, off),
-                ) as res:
-                    for row in res:
+        frozen: set[InodeT] = set()
+        try:
+            async with db.batch(CHECKPOINT_INTERVAL) as batch_mgr:
+                while queue:
+                    (src_id, target_id, off) = queue.pop()
+                    # log.debug('Processing directory (%d, %d, %d)', src_id, target_id, off)
+
+                    rows = db.get_list(
+                        'SELECT name_id, inode FROM contents WHERE parent_inode=? '
+                        'AND name_id > ? ORDER BY name_id LIMIT %d' % batch_mgr.batch_size,
+                        (src_id, off),
+                    )
+                    subdirs: list[tuple[InodeT, InodeT, int]] = []
+                    in_flux: set[InodeT] = set()
+                    for row in rows:
                         name_id = cast(int, row[0])
                         id_ = cast(InodeT, row[1])
-                        # Make sure that all blocks are in the database
-                        if id_ in self.open_inodes:
-                            await self.cache.start_flush(id_)
+
+                        # Make sure that all blocks are in the database. They may also be dirty if
+                        # the inode is not open (anymore).
+                        if self._in_flux(id_):
+                            remaining = (cast(InodeT, x[1]) for x in rows if x[0] >= name_id)
+                            in_flux = {x for x in remaining if self._in_flux(x)}
+                            break
 
                         if id_ not in id_cache:
                             inode = self.inodes[id_]
@@ -609,7 +664,7 @@ class Operations(pyfuse3.Operations):
                             )
 
                             if db.has_val('SELECT 1 FROM contents WHERE parent_inode=?', (id_,)):
-                                queue.append((id_, id_new, -1))
+                                subdirs.append((id_, id_new, -1))
                         else:
                             id_new = id_cache[id_]
                             self.inodes[id_new].refcount += 1
@@ -620,19 +675,32 @@ class Operations(pyfuse3.Operations):
                         )
                         db.execute('UPDATE names SET refcount=refcount+1 WHERE id=?', (name_id,))
 
-                        # Can't finish batch here because there's an active DB query.
+                        off = name_id
                         processed += 1
                         if processed >= batch_mgr.batch_size:
-                            queue.append((src_id, target_id, name_id))
                             break
 
-                if processed >= batch_mgr.batch_size:
-                    await batch_mgr.finish_batch(processed)
-                    processed = 0
-                    await batch_mgr.start_batch()
+                    self._thaw(frozen)
+                    queue += subdirs
+                    if len(rows) == batch_mgr.batch_size or (rows and off != rows[-1][0]):
+                        queue.append((src_id, target_id, off))
+
+                    if processed >= batch_mgr.batch_size:
+                        await batch_mgr.finish_batch(processed)
+                        processed = 0
+                        await batch_mgr.start_batch()
+
+                    if in_flux:
+                        # This may take a while, so other changes to the database must not become
+                        # part of our transaction.
+                        batch_mgr.commit()
+                        await self._freeze(in_flux, frozen)
+                        await batch_mgr.start_batch()
+        finally:
+            self._thaw(frozen)
 
         # Make replication visible
-        self.db.execute(
+        db.execute(
             'UPDATE contents SET parent_inode=? WHERE parent_inode=?', (target_inode.id, tmp.id)
         )
         del self.inodes[tmp.id]
@@ -967,10 +1035,19 @@ class Operations(pyfuse3.Operations):
         ctx: RequestContext,
     ) -> EntryAttributes:
         """Handles FUSE setattr() requests"""
-        inode = self.inodes[id_]
         if fh is not None:
             fh_inode = cast(InodeT, fh)  # This filesystem re-uses InodeT values as FileHandleT
             assert fh_inode == id_
+
+        if fields.update_size:
+            async with self._change_data(id_):
+                return await self._setattr(id_, attr, fields)
+        return await self._setattr(id_, attr, fields)
+
+    async def _setattr(
+        self, id_: InodeT, attr: EntryAttributes, fields: pyfuse3.SetattrFields
+    ) -> EntryAttributes:
+        inode = self.inodes[id_]
         now_ns = time_ns()
 
         if self.failsafe or inode.locked:
@@ -1289,6 +1366,10 @@ class Operations(pyfuse3.Operations):
 
         # log.debug('started with %d, %d, datalen=%d', fh, offset, len(buf))
 
+        async with self._change_data(inode_id):
+            return await self._write(inode_id, offset, buf)
+
+    async def _write(self, inode_id: InodeT, offset: int, buf: bytes) -> int:
         if self.failsafe or self.inodes[inode_id].locked:
             raise FUSEError(errno.EPERM)
 
-- 
2.43.0


From 42505d3f999706a5726ec0990bd42b574d4401dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:45 +0000
Subject: [PATCH 21/50] fix: handle changes of the target directory during
 s3qlcp

If entries were created in the target directory while copying, or it was
removed, s3qlcp crashed or attached the copy to a non-existing directory.
---
 src/s3ql/fs.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 5679acd..3563d57 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -699,6 +699,24 @@ class Operations(pyfuse3.Operations):
         finally:
             self._thaw(frozen)
 
+        # If the target directory was changed or removed in the meantime, the copy can not be put
+        # there.
+        conflict = db.has_val(
+            'SELECT 1 FROM contents WHERE parent_inode=? AND name_id IN '
+            '(SELECT name_id FROM contents WHERE parent_inode=?)',
+            (target_inode.id, tmp.id),
+        )
+        if conflict or self.inodes[target_inode.id].refcount == 0:
+            name = b'.s3qlcp-%d' % tmp.id
+            self.inodes[tmp.id].refcount = 1
+            self.inodes[tmp.id].mode = stat.S_IFDIR
+            db.execute(
+                'INSERT INTO contents (name_id, inode, parent_inode) VALUES(?, ?, ?)',
+                (self._add_name(name), tmp.id, target_inode.id),
+            )
+            await self.remove_tree(target_inode.id, name)
+            raise FUSEError(errno.EEXIST if conflict else errno.ENOENT)
+
         # Make replication visible
         db.execute(
             'UPDATE contents SET parent_inode=? WHERE parent_inode=?', (target_inode.id, tmp.id)
-- 
2.43.0


From 0f66adc0e17e1989b1bf5faf2009d4390f9a8dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:34 +0000
Subject: [PATCH 22/50] fix: do not roll back changes of other inodes if
 symlink() fails

---
 src/s3ql/fs.py | 46 +++++++++++++++++++++++++---------------------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 3563d57..cc70cfe 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -844,12 +844,7 @@ class Operations(pyfuse3.Operations):
         # with this size. If the kernel ever learns to open and read
         # symlinks directly, it will read the corresponding number of \0
         # bytes.
-        # Use a transaction (savepoint), so that a crash cannot leave behind a symlink without target.
-        with self.db.conn:
-            inode = self._create(id_p, name, mode, ctx, size=len(target))
-            self.db.execute(
-                'INSERT INTO symlink_targets (inode, target) VALUES(?,?)', (inode.id, target)
-            )
+        inode = self._create(id_p, name, mode, ctx, size=len(target), target=target)
         self.open_inodes[inode.id] += 1
         return inode.entry_attributes()
 
@@ -1304,6 +1299,7 @@ class Operations(pyfuse3.Operations):
         ctx: RequestContext,
         rdev: int = 0,
         size: int = 0,
+        target: bytes | None = None,
     ) -> _Inode:
         if name == CTRL_NAME:
             log.warning(
@@ -1329,22 +1325,30 @@ class Operations(pyfuse3.Operations):
                 mode |= stat.S_ISGID
         else:
             gid = ctx.gid
-        inode = self.inodes.create_inode(
-            mtime_ns=now_ns,
-            ctime_ns=now_ns,
-            atime_ns=now_ns,
-            uid=ctx.uid,
-            gid=gid,
-            mode=mode,
-            refcount=1,
-            rdev=rdev,
-            size=size,
-        )
+        # Use a transaction (savepoint), so that a crash cannot leave behind a symlink without target.
+        # There must not be any expected errors in here: if the transaction is rolled back, we lose
+        # changes of unrelated inodes that were expired from the inode cache.
+        with self.db.conn:
+            inode = self.inodes.create_inode(
+                mtime_ns=now_ns,
+                ctime_ns=now_ns,
+                atime_ns=now_ns,
+                uid=ctx.uid,
+                gid=gid,
+                mode=mode,
+                refcount=1,
+                rdev=rdev,
+                size=size,
+            )
 
-        self.db.execute(
-            "INSERT INTO contents(name_id, inode, parent_inode) VALUES(?,?,?)",
-            (self._add_name(name), inode.id, id_p),
-        )
+            self.db.execute(
+                "INSERT INTO contents(name_id, inode, parent_inode) VALUES(?,?,?)",
+                (self._add_name(name), inode.id, id_p),
+            )
+            if target is not None:
+                self.db.execute(
+                    'INSERT INTO symlink_targets (inode, target) VALUES(?,?)', (inode.id, target)
+                )
 
         return inode
 
-- 
2.43.0


From 4789ea076808f2a88c6badbe07c046b6a4dabb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:40 +0000
Subject: [PATCH 23/50] fix: fsck.s3ql must not crash if the metadata it
 downloaded is corrupted

---
 src/s3ql/fsck.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index d09a9e4..5fc56f6 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -1422,12 +1422,20 @@ async def fsck(
         # When file system was not unmounted cleanly, the checksum and size may not have been
         # updated.
         log.info('Downloading metadata...')
-        db = await download_metadata(
-            backend,
-            cachepath + '.db',
-            param,
-            failsafe=param.is_mounted,
-        )
+        try:
+            db = await download_metadata(
+                backend,
+                cachepath + '.db',
+                param,
+                failsafe=param.is_mounted,
+            )
+        except (apsw.CorruptError, apsw.NotADBError):
+            # Can happen in failsafe mode, if a metadata upload was interrupted
+            raise QuietError(
+                'The most recent metadata in the backend is corrupted. Use "s3qladm restore-metadata"\n'
+                'to restore an older version, then re-run fsck.s3ql',
+                exitcode=43,
+            )
 
         # Don't download the same metadata again in verify_metadata_snapshots
         check_current_metadata = False
-- 
2.43.0


From 3048879b8c5cb8effcd7d7322a6a06d637e55631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:13 +0000
Subject: [PATCH 24/50] fix: make s3qlrm robust against changes by other
 processes

If entries were removed or renamed by other processes while s3qlrm was
running, it used outdated directory contents and crashed or left behind
inconsistent metadata. Furthermore, it yielded to other tasks while having a
transaction in progress, causing concurrent metadata uploads to fail.
---
 src/s3ql/fs.py | 51 ++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 43 insertions(+), 8 deletions(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index cc70cfe..fc0a561 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -447,9 +447,17 @@ class Operations(pyfuse3.Operations):
         if self.inodes[id_p0].locked:
             raise FUSEError(errno.EPERM)
 
-        conn = self.db
         id0 = self._lookup(id_p0, name0, ctx=None).id
+        try:
+            await self._remove_tree(id_p0, name0, id0)
+        finally:
+            await self.forget([(id0, 1)])
+        log.debug('finished')
+
+    async def _remove_tree(self, id_p0: InodeT, name0: bytes, id0: InodeT) -> None:
+        conn = self.db
         queue = [id0]  # Directories that we still need to delete
+        unreferenced: list[tuple[InodeT, int]] = []  # Inodes that we still need to purge
 
         # Batching updates makes things much faster when using WAL. We don't want to rollback on
         # error, because in that case the database gets out of sync with the inode cache (which
@@ -486,7 +494,9 @@ class Operations(pyfuse3.Operations):
                             pyfuse3.invalidate_entry_async(
                                 id_p, name, deleted=id_, ignore_enoent=True
                             )
-                        await self._remove(id_p, name, id_, force=True)
+                        inode = self._remove_entry(id_p, name, id_, force=True)
+                        if inode:
+                            unreferenced.append((id_, inode.size))
                     processed += 1
 
                 if len(query_chunk) == batch_mgr.batch_size and not reinserted:
@@ -494,11 +504,26 @@ class Operations(pyfuse3.Operations):
                     # contents and delete the directory itself.
                     queue.append(id_p)
 
+                if unreferenced:
+                    # This yields to other tasks, so we must not have a transaction in progress nor
+                    # rely on directory contents that we have retrieved earlier.
+                    batch_mgr.commit()
+                    while unreferenced:
+                        await self._purge_inode(*unreferenced.pop())
+                    await batch_mgr.start_batch()
+
                 if processed > batch_mgr.batch_size:
                     await batch_mgr.finish_batch(processed)
                     processed = 0
                     await batch_mgr.start_batch()
 
+        # May have been renamed or removed in the meantime
+        if not conn.has_val(
+            'SELECT 1 FROM contents_v WHERE name=? AND parent_inode=? AND inode=?',
+            (name0, id_p0, id0),
+        ):
+            raise FUSEError(errno.ENOENT)
+
         if id_p0 in self.open_inodes:
             log.debug('invalidate_entry(%d, %r)', id_p0, name0)
             # This may fail with ENOTEMPTY if the control file has been looked up underneath this
@@ -511,9 +536,6 @@ class Operations(pyfuse3.Operations):
             pyfuse3.invalidate_entry_async(id_p0, name0, deleted=id0, ignore_enoent=True)
         await self._remove(id_p0, name0, id0, force=True)
 
-        await self.forget([(id0, 1)])
-        log.debug('finished')
-
     @contextlib.asynccontextmanager
     async def _change_data(self, id_: InodeT) -> AsyncIterator[None]:
         '''Must be active while the contents or size of an inode are being changed'''
@@ -790,6 +812,18 @@ class Operations(pyfuse3.Operations):
         the `locked` attribute is ignored.
         '''
 
+        inode = self._remove_entry(id_p, name, id_, force)
+        if inode:
+            await self._purge_inode(id_, inode.size)
+
+    def _remove_entry(
+        self, id_p: InodeT, name: bytes, id_: InodeT, force: bool = False
+    ) -> _Inode | None:
+        '''Remove entry `name` with parent inode `id_p`
+
+        Like `_remove`, but if the inode needs to be purged, it is returned instead.
+        '''
+
         log.debug('started with %d, %r', id_p, name)
 
         now_ns = time_ns()
@@ -813,11 +847,12 @@ class Operations(pyfuse3.Operations):
         inode_p.mtime_ns = now_ns
         inode_p.ctime_ns = now_ns
 
-        if inode.refcount == 0 and id_ not in self.open_inodes:
-            await self._purge_inode(id_, inode.size)
-
         log.debug('finished')
 
+        if inode.refcount == 0 and id_ not in self.open_inodes:
+            return inode
+        return None
+
     async def symlink(
         self, id_p: InodeT, name: bytes, target: bytes, ctx: RequestContext
     ) -> EntryAttributes:
-- 
2.43.0


From 9b3f86bdeadc43560b4f1e767559907214225917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:13 +0000
Subject: [PATCH 25/50] fix: do not move files into a directory that has been
 removed

This was possible if the directory had just been removed by s3qlrm. The moved
entry became inaccessible.
---
 src/s3ql/fs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index fc0a561..1be52d4 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -907,6 +907,10 @@ class Operations(pyfuse3.Operations):
         if self.failsafe or self.inodes[id_p_old].locked or self.inodes[id_p_new].locked:
             raise FUSEError(errno.EPERM)
 
+        if self.inodes[id_p_new].refcount == 0:
+            log.warning('Attempted to move entry %s to unlinked parent %d', name_new, id_p_new)
+            raise FUSEError(errno.EINVAL)
+
         inode_old = self._lookup(id_p_old, name_old, ctx)
 
         try:
-- 
2.43.0


From 1a685e76dc39b5c94fd41c39b069baf8f10ffdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:12 +0000
Subject: [PATCH 26/50] fix: fsck.s3ql must not reuse the ids of lost names

---
 src/s3ql/fsck.py | 68 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 44 insertions(+), 24 deletions(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index 5fc56f6..a3f062b 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -420,12 +420,16 @@ class Fsck:
 
         log.info('Checking contents (names)...')
 
-        for rowid, name_id, inode_p, inode in self.conn.query_typed(
-            (int, int, InodeT, InodeT),
-            'SELECT contents.rowid, name_id, parent_inode, inode '
-            'FROM contents LEFT JOIN names ON %(dbf)sname_id = %(dbf)snames.id '
-            'WHERE %(dbf)snames.id IS NULL' % self.conn.fixes,
-        ):
+        # Changes to the tables must not affect the query
+        affected_rows = list(
+            self.conn.query_typed(
+                (int, int, InodeT, InodeT),
+                'SELECT contents.rowid, name_id, parent_inode, inode '
+                'FROM contents LEFT JOIN names ON %(dbf)sname_id = %(dbf)snames.id '
+                'WHERE %(dbf)snames.id IS NULL' % self.conn.fixes,
+            )
+        )
+        for rowid, name_id, inode_p, inode in affected_rows:
             self.found_errors = True
             try:
                 path = get_path(inode_p, self.conn)[1:]
@@ -453,13 +457,17 @@ class Fsck:
 
         log.info('Checking contents (parent inodes)...')
 
-        for rowid, inode_p, name_id in self.conn.query_typed(
-            (int, InodeT, int),
-            'SELECT contents.rowid, parent_inode, name_id '
-            'FROM contents LEFT JOIN inodes '
-            'ON %(dbf)sparent_inode = %(dbf)sinodes.id '
-            'WHERE %(dbf)sinodes.id IS NULL' % self.conn.fixes,
-        ):
+        # Changes to the tables must not affect the query
+        affected_rows = list(
+            self.conn.query_typed(
+                (int, InodeT, int),
+                'SELECT contents.rowid, parent_inode, name_id '
+                'FROM contents LEFT JOIN inodes '
+                'ON %(dbf)sparent_inode = %(dbf)sinodes.id '
+                'WHERE %(dbf)sinodes.id IS NULL' % self.conn.fixes,
+            )
+        )
+        for rowid, inode_p, name_id in affected_rows:
             self.found_errors = True
             name = self.conn.get_bytes_val('SELECT name FROM names WHERE id = ?', (name_id,))
             (id_p_new, newname) = self.resolve_free(
@@ -508,13 +516,17 @@ class Fsck:
 
         log.info('Checking extended attributes (names)...')
 
-        for rowid, orig_name_id, inode in self.conn.query_typed(
-            (int, int, InodeT),
-            'SELECT ext_attributes.rowid, name_id, inode '
-            'FROM ext_attributes LEFT JOIN names '
-            'ON %(dbf)sname_id = %(dbf)snames.id '
-            'WHERE %(dbf)snames.id IS NULL' % self.conn.fixes,
-        ):
+        # Changes to the tables must not affect the query
+        affected_rows = list(
+            self.conn.query_typed(
+                (int, int, InodeT),
+                'SELECT ext_attributes.rowid, name_id, inode '
+                'FROM ext_attributes LEFT JOIN names '
+                'ON %(dbf)sname_id = %(dbf)snames.id '
+                'WHERE %(dbf)snames.id IS NULL' % self.conn.fixes,
+            )
+        )
+        for rowid, orig_name_id, inode in affected_rows:
             self.found_errors = True
             for name, id_p in self.conn.query_typed(
                 (bytes, InodeT), 'SELECT name, parent_inode FROM contents_v WHERE inode=?', (inode,)
@@ -527,8 +539,9 @@ class Fsck:
                     orig_name_id,
                 )
 
+            suffix = rowid
             while True:
-                new_name_id = self._add_name('lost+found_%d' % rowid)
+                new_name_id = self._add_name(b'lost+found_%d' % suffix)
                 if not self.conn.has_val(
                     "SELECT 1 FROM ext_attributes WHERE name_id=? AND inode=?", (new_name_id, inode)
                 ):
@@ -537,7 +550,7 @@ class Fsck:
                     )
                     break
                 self._del_name(new_name_id)
-                rowid += 1
+                suffix += 1
 
     def check_ext_attributes_inode(self) -> None:
         """Check ext_attributes.inode"""
@@ -1235,7 +1248,7 @@ class Fsck:
 
         return (inode_p, newname)
 
-    def _add_name(self, name: bytes | str) -> int:
+    def _add_name(self, name: bytes) -> int:
         '''Get id for *name* and increase refcount
 
         Name is inserted in table if it does not yet exist.
@@ -1244,7 +1257,14 @@ class Fsck:
         try:
             name_id = self.conn.get_int_val('SELECT id FROM names WHERE name=?', (name,))
         except NoSuchRowError:
-            name_id = self.conn.rowid('INSERT INTO names (name, refcount) VALUES(?,?)', (name, 1))
+            # The id must not be one that other rows refer to even though there is no such name.
+            name_id = self.conn.rowid(
+                'INSERT INTO names (id, name, refcount) SELECT 1 + MAX(id), ?, 1 FROM '
+                '(SELECT 0 AS id UNION ALL SELECT MAX(id) FROM names '
+                ' UNION ALL SELECT MAX(name_id) FROM contents '
+                ' UNION ALL SELECT MAX(name_id) FROM ext_attributes)',
+                (name,),
+            )
         else:
             self.conn.execute('UPDATE names SET refcount=refcount+1 WHERE id=?', (name_id,))
         return name_id
-- 
2.43.0


From 7660d1ff3441889dda0e020eaabccdfd9067f878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:29 +0000
Subject: [PATCH 27/50] fix: fsck.s3ql must not crash if the root, lost+found
 or a parent directory is damaged

---
 src/s3ql/fsck.py | 79 ++++++++++++++++++++++++++++++++++--------------
 1 file changed, 57 insertions(+), 22 deletions(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index a3f062b..79dd1b6 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -359,6 +359,23 @@ class Fsck:
         log.info('Checking lost+found...')
 
         now_ns = time_ns()
+        root_mode = stat.S_IFDIR | stat.S_IRWXU | stat.S_IRGRP | stat.S_IXGRP | stat.S_IROTH | stat.S_IXOTH
+        try:
+            mode = self.conn.get_int_val('SELECT mode FROM inodes WHERE id=?', (ROOT_INODE,))
+        except NoSuchRowError:
+            self.found_errors = True
+            self.log_error("Recreating missing root directory")
+            self.conn.execute(
+                'INSERT INTO inodes (id,mode,uid,gid,mtime_ns,atime_ns,ctime_ns,refcount) '
+                'VALUES (?,?,?,?,?,?,?,?)',
+                (ROOT_INODE, root_mode, os.getuid(), os.getgid(), now_ns, now_ns, now_ns, 1),
+            )
+        else:
+            if not stat.S_ISDIR(mode):
+                self.found_errors = True
+                self.log_error("Root is not a directory, correcting")
+                self.conn.execute('UPDATE inodes SET mode=? WHERE id=?', (root_mode, ROOT_INODE))
+
         try:
             (inode_l, name_id) = self.conn.get_row_typed(
                 (InodeT, int),
@@ -394,7 +411,10 @@ class Fsck:
                     (self._add_name(b"lost+found"), inode_l, ROOT_INODE),
                 )
 
-        mode = self.conn.get_int_val('SELECT mode FROM inodes WHERE id=?', (inode_l,))
+        try:
+            mode = self.conn.get_int_val('SELECT mode FROM inodes WHERE id=?', (inode_l,))
+        except NoSuchRowError:
+            mode = 0
         if not stat.S_ISDIR(mode):
             self.found_errors = True
             self.log_error(
@@ -433,7 +453,7 @@ class Fsck:
             self.found_errors = True
             try:
                 path = get_path(inode_p, self.conn)[1:]
-            except NoSuchRowError:
+            except (NoSuchRowError, RuntimeError):
                 newname = ('-%d' % inode).encode()
             else:
                 newname = escape(path) + ('-%d' % inode).encode()
@@ -464,7 +484,8 @@ class Fsck:
                 'SELECT contents.rowid, parent_inode, name_id '
                 'FROM contents LEFT JOIN inodes '
                 'ON %(dbf)sparent_inode = %(dbf)sinodes.id '
-                'WHERE %(dbf)sinodes.id IS NULL' % self.conn.fixes,
+                'WHERE %(dbf)sinodes.id IS NULL OR parent_inode = ?' % self.conn.fixes,
+                (CTRL_INODE,),
             )
         )
         for rowid, inode_p, name_id in affected_rows:
@@ -499,7 +520,7 @@ class Fsck:
             self.found_errors = True
             try:
                 path: bytes | str = get_path(inode, self.conn)[1:]
-            except NoSuchRowError:
+            except (NoSuchRowError, RuntimeError):
                 path = '[inode %d, parent %d]' % (inode, inode_p)
 
             self.log_error(
@@ -531,7 +552,7 @@ class Fsck:
             for name, id_p in self.conn.query_typed(
                 (bytes, InodeT), 'SELECT name, parent_inode FROM contents_v WHERE inode=?', (inode,)
             ):
-                path = get_path(id_p, self.conn, name)
+                path = self._get_path(id_p, name)
                 self.log_error(
                     'Extended attribute %d of %s refers to non-existing name %d, renaming..',
                     rowid,
@@ -596,11 +617,16 @@ class Fsck:
         self.conn.execute('INSERT INTO loopcheck2 (inode) SELECT inode FROM loopcheck')
 
         def delete_tree(inode_p: InodeT) -> None:
-            for (inode,) in self.conn.query_typed(
-                (InodeT,), "SELECT inode FROM loopcheck WHERE parent_inode=?", (inode_p,)
-            ):
-                delete_tree(inode)
-            self.conn.execute('DELETE FROM loopcheck2 WHERE inode=?', (inode_p,))
+            todo = [inode_p]
+            while todo:
+                inode = todo.pop()
+                todo += [
+                    row[0]
+                    for row in self.conn.query_typed(
+                        (InodeT,), "SELECT inode FROM loopcheck WHERE parent_inode=?", (inode,)
+                    )
+                ]
+                self.conn.execute('DELETE FROM loopcheck2 WHERE inode=?', (inode,))
 
         root: InodeT = ROOT_INODE
         while True:
@@ -678,7 +704,7 @@ class Fsck:
                     "Size of inode %d (%s) does not agree with number of blocks, "
                     "setting from %d to %d",
                     id_,
-                    to_str(get_path(cast(InodeT, id_), self.conn)),
+                    to_str(self._get_path(cast(InodeT, id_))),
                     size_old,
                     size,
                 )
@@ -735,7 +761,7 @@ class Fsck:
                     self.log_error(
                         "Inode %d (%s) has wrong reference count, setting from %d to %d",
                         id_,
-                        to_str(get_path(cast(InodeT, id_), self.conn)),
+                        to_str(self._get_path(cast(InodeT, id_))),
                         cnt_old,
                         cnt,
                     )
@@ -798,7 +824,7 @@ class Fsck:
                 )
             )
             for name, name_id, id_p in affected_entries:
-                path = get_path(cast(InodeT, id_p), self.conn, name)
+                path = self._get_path(cast(InodeT, id_p), name)
                 self.log_error("File may lack data, moved to /lost+found: %s", to_str(path))
                 (lof_id, newname) = self.resolve_free(b"/lost+found", escape(path))
 
@@ -969,7 +995,7 @@ class Fsck:
                 self.log_error(
                     'Inode %d (%s): directory entry has no type, changed to %s.',
                     inode,
-                    to_str(get_path(inode, self.conn)),
+                    to_str(self._get_path(inode)),
                     made_to,
                 )
                 self.conn.execute('UPDATE inodes SET mode=? WHERE id=?', (mode, inode))
@@ -980,7 +1006,7 @@ class Fsck:
                     'Inode %d (%s): symlink does not have target. '
                     'This is probably going to confuse your system!',
                     inode,
-                    to_str(get_path(inode, self.conn)),
+                    to_str(self._get_path(inode)),
                 )
 
             if stat.S_ISLNK(mode) and target is not None and size != len(target):
@@ -989,7 +1015,7 @@ class Fsck:
                     'Inode %d (%s): symlink size (%d) does not agree with target '
                     'length (%d). This is probably going to confuse your system!',
                     inode,
-                    to_str(get_path(inode, self.conn)),
+                    to_str(self._get_path(inode)),
                     size,
                     len(target),
                 )
@@ -1002,7 +1028,7 @@ class Fsck:
                     'Inode %d (%s) is not regular file but has non-zero size. '
                     'This is may confuse your system!',
                     inode,
-                    to_str(get_path(inode, self.conn)),
+                    to_str(self._get_path(inode)),
                 )
 
             if target is not None and not stat.S_ISLNK(mode):
@@ -1011,7 +1037,7 @@ class Fsck:
                     'Inode %d (%s) is not symlink but has symlink target. '
                     'This is probably going to confuse your system!',
                     inode,
-                    to_str(get_path(inode, self.conn)),
+                    to_str(self._get_path(inode)),
                 )
 
             if rdev != 0 and not (stat.S_ISBLK(mode) or stat.S_ISCHR(mode)):
@@ -1020,7 +1046,7 @@ class Fsck:
                     'Inode %d (%s) is not device but has device number. '
                     'This is probably going to confuse your system!',
                     inode,
-                    to_str(get_path(inode, self.conn)),
+                    to_str(self._get_path(inode)),
                 )
 
             if has_children and not stat.S_ISDIR(mode):
@@ -1029,7 +1055,7 @@ class Fsck:
                     'Inode %d (%s) is not a directory but has child entries. '
                     'This is probably going to confuse your system!',
                     inode,
-                    to_str(get_path(inode, self.conn)),
+                    to_str(self._get_path(inode)),
                 )
 
             if not stat.S_ISREG(mode) and self.conn.has_val(
@@ -1040,13 +1066,13 @@ class Fsck:
                     'Inode %d (%s) is not a regular file but has data blocks. '
                     'This is probably going to confuse your system!',
                     inode,
-                    to_str(get_path(inode, self.conn)),
+                    to_str(self._get_path(inode)),
                 )
 
         for name, id_p in self.conn.query_typed(
             (bytes, InodeT), 'SELECT name, parent_inode FROM contents_v WHERE LENGTH(name) > 255'
         ):
-            path = get_path(id_p, self.conn, name)
+            path = self._get_path(id_p, name)
             self.log_error(
                 'Entry name %s... in %s has more than 255 characters, this could cause problems',
                 to_str(name[:40]),
@@ -1212,6 +1238,15 @@ class Fsck:
                 (await self.backend.get_size('s3ql_data_%d' % obj_id), obj_id),
             )
 
+    def _get_path(self, inode: InodeT, name: bytes | None = None) -> bytes:
+        '''Return path of *inode* for messages, even if it can not be reached from the root'''
+
+        try:
+            return get_path(inode, self.conn, name)
+        except (NoSuchRowError, RuntimeError):
+            path = b'/[inode %d]' % inode
+            return path if name is None else path + b'/' + name
+
     def resolve_free(self, path: bytes, name: bytes) -> tuple[InodeT, bytes]:
         '''Return parent inode and name of an unused directory entry
 
-- 
2.43.0


From dc83f45326c6af28244032e6928353287bdeb4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:46 +0000
Subject: [PATCH 28/50] fix: fsck.s3ql must not move lost+found into itself

---
 src/s3ql/fsck.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index 79dd1b6..d284f6f 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -361,7 +361,9 @@ class Fsck:
         now_ns = time_ns()
         root_mode = stat.S_IFDIR | stat.S_IRWXU | stat.S_IRGRP | stat.S_IXGRP | stat.S_IROTH | stat.S_IXOTH
         try:
-            mode = self.conn.get_int_val('SELECT mode FROM inodes WHERE id=?', (ROOT_INODE,))
+            (mode, refcount) = self.conn.get_row_typed(
+                (int, int), 'SELECT mode, refcount FROM inodes WHERE id=?', (ROOT_INODE,)
+            )
         except NoSuchRowError:
             self.found_errors = True
             self.log_error("Recreating missing root directory")
@@ -375,6 +377,10 @@ class Fsck:
                 self.found_errors = True
                 self.log_error("Root is not a directory, correcting")
                 self.conn.execute('UPDATE inodes SET mode=? WHERE id=?', (root_mode, ROOT_INODE))
+            if refcount < 1:
+                self.found_errors = True
+                self.log_error("Root has invalid reference count, correcting")
+                self.conn.execute('UPDATE inodes SET refcount=1 WHERE id=?', (ROOT_INODE,))
 
         try:
             (inode_l, name_id) = self.conn.get_row_typed(
@@ -816,6 +822,10 @@ class Fsck:
             )
             to_delete.append(rowid)
 
+            # Directories do not lose anything (and lost+found can not be moved into itself)
+            if stat.S_ISDIR(self.conn.get_int_val('SELECT mode FROM inodes WHERE id=?', (inode,))):
+                continue
+
             affected_entries = list(
                 self.conn.query_typed(
                     (bytes, int, int),
-- 
2.43.0


From e907a7ffad94af5cb77abbfe34f2b4c5429a5009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:04 +0000
Subject: [PATCH 29/50] fix: fsck.s3ql must not link dirty blocks to an object
 that has been lost

---
 src/s3ql/fsck.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index d284f6f..050e55d 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -318,8 +318,11 @@ class Fsck:
                 phys_size = -1
             else:
                 self.conn.execute('UPDATE objects SET refcount=refcount+1 WHERE id=?', (obj_id,))
+                if not await self.backend.contains('s3ql_data_%d' % obj_id):
+                    # Lost, so the cache file may be the only copy of the data.
+                    phys_size = -1
 
-            # No object with this hash, or its upload was interrupted
+            # No object with this hash, or its upload was interrupted, or it has been lost
             if phys_size == -1:
                 with open(os.path.join(self.cachedir, filename), "rb") as fh:
                     size = os.fstat(fh.fileno()).st_size
-- 
2.43.0


From 685673d0f27c18d3b510411b084f89df1914d806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:41 +0000
Subject: [PATCH 30/50] fix: local backend: concurrent writes of one object
 must not share a temporary file

---
 src/s3ql/backends/local.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/backends/local.py b/src/s3ql/backends/local.py
index ceff60c..efcc894 100644
--- a/src/s3ql/backends/local.py
+++ b/src/s3ql/backends/local.py
@@ -10,6 +10,7 @@ from __future__ import annotations
 
 import _thread
 import builtins
+import itertools
 import logging
 import os
 import struct
@@ -34,6 +35,9 @@ from .common import (
 
 log = logging.getLogger(__name__)
 
+# Distinguishes the temporary files of concurrent writes
+_tmp_counter = itertools.count()
+
 
 class AsyncBackend(AsyncBackendBase):
     '''
@@ -169,7 +173,12 @@ class AsyncBackend(AsyncBackendBase):
 
             # By renaming, we make sure that there are no
             # conflicts between parallel reads, the last one wins
-            tmpname = '%s#%d-%d.tmp' % (path, os.getpid(), _thread.get_ident())
+            tmpname = '%s#%d-%d%06d.tmp' % (
+                path,
+                os.getpid(),
+                _thread.get_ident(),
+                next(_tmp_counter),
+            )
 
             fh.seek(0)
             with ExitStack() as es:
-- 
2.43.0


From 385ea0c44968772644b29a85e2284521d0336614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:41 +0000
Subject: [PATCH 31/50] fix: local backend: do not store truncated objects if
 the disk is full

---
 src/s3ql/backends/local.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/s3ql/backends/local.py b/src/s3ql/backends/local.py
index efcc894..9f8a9ca 100644
--- a/src/s3ql/backends/local.py
+++ b/src/s3ql/backends/local.py
@@ -183,14 +183,14 @@ class AsyncBackend(AsyncBackendBase):
             fh.seek(0)
             with ExitStack() as es:
                 try:
-                    dest = es.enter_context(open(tmpname, 'wb', buffering=0))
+                    dest = es.enter_context(open(tmpname, 'wb'))
                 except FileNotFoundError:
                     try:  # noqa: SIM105 # auto-added, needs manual check!
                         os.makedirs(os.path.dirname(path))
                     except FileExistsError:
                         # Another thread may have created the directory already
                         pass
-                    dest = es.enter_context(open(tmpname, 'wb', buffering=0))
+                    dest = es.enter_context(open(tmpname, 'wb'))
 
                 dest.write(b's3ql_1\n')
                 dest.write(struct.pack('<H', len(buf)))
-- 
2.43.0


From 1a8cadc8376baa33728952022f655d16597437a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:41 +0000
Subject: [PATCH 32/50] fix: local backend: get_size() must raise NoSuchObject

---
 src/s3ql/backends/local.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/backends/local.py b/src/s3ql/backends/local.py
index 9f8a9ca..0064f4f 100644
--- a/src/s3ql/backends/local.py
+++ b/src/s3ql/backends/local.py
@@ -120,7 +120,10 @@ class AsyncBackend(AsyncBackendBase):
             raise NoSuchObject(key)
 
     async def get_size(self, key: str) -> int:
-        return os.path.getsize(self._key_to_path(key))
+        try:
+            return os.path.getsize(self._key_to_path(key))
+        except FileNotFoundError:
+            raise NoSuchObject(key)
 
     async def readinto_fh(self, key: str, ofh: BinaryOutput) -> BasicMappingT:
         '''Transfer data stored under *key* into *fh*, return metadata.
-- 
2.43.0


From fa610e175fd8c52ce335d1fcf57d2a0d82e4423c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:41 +0000
Subject: [PATCH 33/50] fix: local backend: list() must not omit objects if the
 prefix is long

---
 src/s3ql/backends/local.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/s3ql/backends/local.py b/src/s3ql/backends/local.py
index 0064f4f..31fc10d 100644
--- a/src/s3ql/backends/local.py
+++ b/src/s3ql/backends/local.py
@@ -240,8 +240,8 @@ class AsyncBackend(AsyncBackendBase):
         for path, dirnames, filenames in os.walk(base, topdown=True):
             # Do not look in wrong directories
             if prefix:
-                rpath = path[len(self.prefix) :]  # path relative to base
-                prefix_l = ''.join(rpath.split('/'))
+                # The name of each directory below s3ql_data_ includes those of its parents
+                prefix_l = '' if path == self.prefix else 's3ql_data_'
 
                 dirs_to_walk = list()
                 for name in dirnames:
-- 
2.43.0


From f4e5c26c93157525cf4f245fb5934d164f386dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:18 +0000
Subject: [PATCH 34/50] fix: http: skip unexpected 100 (Continue) responses

A server or proxy may send a 100 response even though the client has not asked for
it, or more than one. It was taken for the final response.
---
 src/s3ql/http.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/s3ql/http.py b/src/s3ql/http.py
index d70dfc0..a77eb3a 100644
--- a/src/s3ql/http.py
+++ b/src/s3ql/http.py
@@ -510,7 +510,7 @@ class HTTPConnection:
             return await self._read_response()
 
         if expect100:
-            resp = await self._read_response()
+            resp = await self._read_response(accept_100=True)
             if resp.status != 100:
                 # Server rejected the body before it was sent. Once the
                 # caller has consumed the response body, `_finish_cycle`
@@ -594,8 +594,12 @@ class HTTPConnection:
         if data is not None:
             await self._raw_write(data)
 
-    async def _read_response(self) -> HTTPResponse:
-        '''Read the response status line and headers and return an `HTTPResponse`.'''
+    async def _read_response(self, accept_100: bool = False) -> HTTPResponse:
+        '''Read the response status line and headers and return an `HTTPResponse`.
+
+        If *accept_100* is true, a 100 (Continue) response is returned as well. Otherwise
+        it is skipped like every other interim response.
+        '''
 
         log.debug('start')
 
@@ -612,7 +616,7 @@ class HTTPConnection:
                 raise InvalidResponse(str(exc))
 
             if isinstance(event, h11.InformationalResponse):
-                if event.status_code == 100:
+                if event.status_code == 100 and accept_100:
                     return HTTPResponse(
                         method=method,
                         path=path,
@@ -621,7 +625,7 @@ class HTTPConnection:
                         headers=email.message.Message(policy=email.policy.compat32),
                         length=0,
                     )
-                # Other 1xx (incl. 101 Upgrade) - skip per RFC 7231 §6.2.
+                # Other (or repeated) 1xx (incl. 101 Upgrade) - skip per RFC 7231 §6.2.
                 log.debug('skipping 1xx response %d', event.status_code)
                 continue
 
-- 
2.43.0


From 0a0626a779a842a0cb2bc2aa95270f35de2926ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:06 +0000
Subject: [PATCH 35/50] fix: s3c4: sign the Host header that is actually sent

When connecting without TLS to the standard port, http.py sends a Host
header without port, but the request was signed with "host:80".
---
 src/s3ql/backends/s3c4.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/s3ql/backends/s3c4.py b/src/s3ql/backends/s3c4.py
index 16c9af4..c29926f 100644
--- a/src/s3ql/backends/s3c4.py
+++ b/src/s3ql/backends/s3c4.py
@@ -170,7 +170,7 @@ class AsyncBackend(s3c.AsyncBackend):
         ymdhms = time.strftime('%Y%m%dT%H%M%SZ', now)
 
         # add non-standard port to host header, needed for correct signature
-        if self.port != 443:
+        if self.port != (443 if self.ssl_context else 80):
             headers['host'] = '%s:%s' % (self.hostname, self.port)
 
         headers['x-amz-date'] = ymdhms
-- 
2.43.0


From 09c41f377b3c1b79fcbbb9357a7c14d378b5d500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:06 +0000
Subject: [PATCH 36/50] fix: gs: start over at the original offset when a
 download is retried

Otherwise, the data received by the failed attempt is left in front of the
complete data.
---
 src/s3ql/backends/gs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/s3ql/backends/gs.py b/src/s3ql/backends/gs.py
index d47c740..682dd64 100644
--- a/src/s3ql/backends/gs.py
+++ b/src/s3ql/backends/gs.py
@@ -446,6 +446,7 @@ class AsyncBackend(AsyncBackendBase):
         try:
             async with self._pool.get() as conn:
                 await self._do_request(conn, 'GET', path, query_string={'alt': 'media'})
+                fh.seek(off)
                 await conn.readinto_fh(fh)
         except RequestError as exc:
             mapped_exc = _map_request_error(exc, key)
-- 
2.43.0


From cfb7983681f6aa7504629ee028286e98e5f65c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:06 +0000
Subject: [PATCH 37/50] fix: gs: retry when the server returns 429 (Too Many
 Requests)

---
 src/s3ql/backends/gs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/backends/gs.py b/src/s3ql/backends/gs.py
index 682dd64..5a0ccab 100644
--- a/src/s3ql/backends/gs.py
+++ b/src/s3ql/backends/gs.py
@@ -321,7 +321,9 @@ class AsyncBackend(AsyncBackendBase):
             # The pool drops the affected connection automatically.
             return True
 
-        elif isinstance(exc, RequestError) and (500 <= exc.code <= 599 or exc.code == 408):
+        elif isinstance(exc, RequestError) and (
+            500 <= exc.code <= 599 or exc.code in (408, 429)
+        ):
             return True
 
         elif isinstance(exc, AccessTokenExpired):
-- 
2.43.0


From e27d83a7640cea305cd07f187a8da4c6b35649da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:06 +0000
Subject: [PATCH 38/50] fix: gs: accept empty pages in object listings

---
 src/s3ql/backends/gs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/s3ql/backends/gs.py b/src/s3ql/backends/gs.py
index 5a0ccab..17acb1b 100644
--- a/src/s3ql/backends/gs.py
+++ b/src/s3ql/backends/gs.py
@@ -394,9 +394,9 @@ class AsyncBackend(AsyncBackendBase):
         next_token_obj = json_resp.get('nextPageToken', None)
         next_token: str | None = str(next_token_obj) if next_token_obj is not None else None
 
+        # A page may be empty even though more pages follow.
         if 'items' not in json_resp:
-            assert next_token is None
-            return ([], None)
+            return ([], next_token)
 
         items = json_resp['items']
         assert isinstance(items, list)
-- 
2.43.0


From c5b1393b61d731793074ffe1474cff068c7fb369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:37 +0000
Subject: [PATCH 39/50] fix: gs: retry when the token server has a temporary
 problem

Internal errors are reported as a JSON document as well, they must not be
mistaken for rejected credentials.
---
 src/s3ql/backends/gs.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/backends/gs.py b/src/s3ql/backends/gs.py
index 17acb1b..28a3787 100644
--- a/src/s3ql/backends/gs.py
+++ b/src/s3ql/backends/gs.py
@@ -611,7 +611,11 @@ class AsyncBackend(AsyncBackendBase):
             resp = await conn.send_request(
                 'POST', '/o/oauth2/token', headers=headers, body=[body.encode('utf-8')]
             )
-            json_resp = _parse_json_response(resp, await conn.readall())
+            resp_body = await conn.readall()
+
+        if resp.status >= 500 or resp.status in (408, 429):
+            raise _parse_error_response(resp, resp_body)
+        json_resp = _parse_json_response(resp, resp_body)
 
         if 'error' in json_resp:
             raise AuthenticationError(str(json_resp['error']))
-- 
2.43.0


From b5a9180bab8915cabd3edd767937749f8d27eb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:21 +0000
Subject: [PATCH 40/50] fix: s3c4: make delete_multi() keep its promises

- When an error was raised, deleted keys from this and earlier batches were
  not removed from the list.
- If the first error concerned an object that does not exist, all other
  errors were ignored. Keys of such objects were not removed.
- A lost connection while reading the response was not retried because
  discard() raised a different, permanent error.
- Errors in a response without XML namespace were not recognized.
---
 src/s3ql/backends/s3c4.py | 100 +++++++++++++++++++-------------------
 1 file changed, 50 insertions(+), 50 deletions(-)

diff --git a/src/s3ql/backends/s3c4.py b/src/s3ql/backends/s3c4.py
index c29926f..1735e5f 100644
--- a/src/s3ql/backends/s3c4.py
+++ b/src/s3ql/backends/s3c4.py
@@ -14,13 +14,11 @@ import urllib.parse
 from typing import Literal, overload
 from xml.sax.saxutils import escape as xml_escape
 
-from more_itertools import chunked
-
 from s3ql.http import CaseInsensitiveDict
 
 from . import s3c
 from .common import log_delete_progress, retry
-from .s3c import get_S3Error, md5sum_b64
+from .s3c import _tag_xmlns_uri, get_S3Error, md5sum_b64
 
 log = logging.getLogger(__name__)
 
@@ -88,15 +86,15 @@ class AsyncBackend(s3c.AsyncBackend):
     async def delete_multi(self, keys: list[str], *, log_progress: bool = False) -> None:
         log.debug('started with %s', keys)
         total = len(keys)
-        failures: list[str] = []
-        processed = 0
-        for batch in chunked(list(keys), MAX_KEYS):
-            await self._delete_multi(batch)
-            failures.extend(batch)
-            processed += len(batch)
+        while keys:
+            batch = keys[:MAX_KEYS]
+            try:
+                await self._delete_multi(batch)
+            finally:
+                # Only keys that have not been deleted are left in *batch*
+                keys[:MAX_KEYS] = batch
             if log_progress:
-                log_delete_progress(processed - len(failures), total)
-        keys[:] = failures
+                log_delete_progress(total - len(keys), total)
 
     @retry
     async def _delete_multi(self, keys: list[str]) -> None:
@@ -117,45 +115,47 @@ class AsyncBackend(s3c.AsyncBackend):
             resp = await self._do_request(
                 conn, 'POST', '/', subres='delete', body=[body], headers=headers
             )
-            try:
-                root = await self._parse_xml_response(conn, resp)
-                ns_p = self.xml_ns_prefix
-
-                error_tags = root.findall(ns_p + 'Error')
-                if not error_tags:
-                    del keys[:]
-                    return
-
-                offset = len(self.prefix)
-                for tag in root.findall(ns_p + 'Deleted'):
-                    key_elem = tag.find(ns_p + 'Key')
-                    assert key_elem is not None
-                    fullkey = key_elem.text
-                    assert fullkey is not None and fullkey.startswith(self.prefix)
-                    keys.remove(fullkey[offset:])
-
-                if log.isEnabledFor(logging.DEBUG):
-                    for errtag in error_tags:
-                        errkey_text = errtag.findtext(ns_p + 'Key')
-                        log.debug(
-                            'Delete %s failed with %s',
-                            errkey_text[offset:] if errkey_text else None,
-                            errtag.findtext(ns_p + 'Code'),
-                        )
-
-                errcode = error_tags[0].findtext(ns_p + 'Code')
-                errmsg = error_tags[0].findtext(ns_p + 'Message')
-                errkey_text = error_tags[0].findtext(ns_p + 'Key')
-                errkey = errkey_text[offset:] if errkey_text else '<unknown>'
-
-                if errcode == 'NoSuchKey':
-                    pass
-                else:
-                    raise get_S3Error(errcode, 'Error deleting %s: %s' % (errkey, errmsg))
-
-            except:
-                await conn.discard()
-                raise
+            root = await self._parse_xml_response(conn, resp)
+
+        xmlns_uri = _tag_xmlns_uri(root)
+        ns_p = '' if xmlns_uri is None else '{%s}' % (xmlns_uri,)
+
+        # An object that does not exist counts as deleted
+        gone_tags = root.findall(ns_p + 'Deleted')
+        error_tags = []
+        for tag in root.findall(ns_p + 'Error'):
+            if tag.findtext(ns_p + 'Code') == 'NoSuchKey':
+                gone_tags.append(tag)
+            else:
+                error_tags.append(tag)
+
+        if not error_tags:
+            del keys[:]
+            return
+
+        offset = len(self.prefix)
+        for tag in gone_tags:
+            key_elem = tag.find(ns_p + 'Key')
+            assert key_elem is not None
+            fullkey = key_elem.text
+            assert fullkey is not None and fullkey.startswith(self.prefix)
+            keys.remove(fullkey[offset:])
+
+        if log.isEnabledFor(logging.DEBUG):
+            for errtag in error_tags:
+                errkey_text = errtag.findtext(ns_p + 'Key')
+                log.debug(
+                    'Delete %s failed with %s',
+                    errkey_text[offset:] if errkey_text else None,
+                    errtag.findtext(ns_p + 'Code'),
+                )
+
+        errcode = error_tags[0].findtext(ns_p + 'Code')
+        errmsg = error_tags[0].findtext(ns_p + 'Message')
+        errkey_text = error_tags[0].findtext(ns_p + 'Key')
+        errkey = errkey_text[offset:] if errkey_text else '<unknown>'
+
+        raise get_S3Error(errcode, 'Error deleting %s: %s' % (errkey, errmsg))
 
     def _authorize_request(self, method, path, headers, subres, query_string):
         '''Add authorization information to *headers*'''
-- 
2.43.0


From 4d1101562d3100488de5ef5ca19cdd4c8e431959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:44 +0000
Subject: [PATCH 41/50] fix: gs: do not mix metadata and data of different
 objects

They are retrieved by separate requests, and the object may be replaced in
between.
---
 src/s3ql/backends/gs.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/backends/gs.py b/src/s3ql/backends/gs.py
index 28a3787..b4e75b8 100644
--- a/src/s3ql/backends/gs.py
+++ b/src/s3ql/backends/gs.py
@@ -447,7 +447,11 @@ class AsyncBackend(AsyncBackendBase):
         )
         try:
             async with self._pool.get() as conn:
-                await self._do_request(conn, 'GET', path, query_string={'alt': 'media'})
+                resp = await self._do_request(conn, 'GET', path, query_string={'alt': 'media'})
+                generation = resp.headers.get('X-Goog-Generation', None)
+                if generation is not None and generation != gs_meta.get('generation', generation):
+                    # Start over, metadata and data must belong together
+                    raise ServerResponseError(resp, error='object was replaced while reading it')
                 fh.seek(off)
                 await conn.readinto_fh(fh)
         except RequestError as exc:
-- 
2.43.0


From e3da1f08b1560273b0cea854fb2908c704c9210f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:44 +0000
Subject: [PATCH 42/50] fix: ignore data received by failed attempts to read an
 object

If a download is retried and the object has been replaced by a shorter one
in the meantime, the end of the old data was taken to belong to the new
object.
---
 src/s3ql/backends/common.py   | 2 ++
 src/s3ql/backends/comprenc.py | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/s3ql/backends/common.py b/src/s3ql/backends/common.py
index 0923d76..10642fd 100644
--- a/src/s3ql/backends/common.py
+++ b/src/s3ql/backends/common.py
@@ -321,6 +321,7 @@ class AsyncBackend(metaclass=ABCMeta):
 
         fh = BytesIO()
         metadata = await self.readinto_fh(key, fh)
+        fh.truncate()  # remove left-overs of failed attempts
         return (fh.getvalue(), metadata)
 
     async def read(self, key: str) -> bytes:
@@ -328,6 +329,7 @@ class AsyncBackend(metaclass=ABCMeta):
 
         fh = BytesIO()
         await self.readinto_fh(key, fh)
+        fh.truncate()  # remove left-overs of failed attempts
         return fh.getvalue()
 
     async def store(self, key: str, val: bytes, metadata: BasicMappingT | None = None) -> int:
diff --git a/src/s3ql/backends/comprenc.py b/src/s3ql/backends/comprenc.py
index 8c54ec0..6fc584c 100644
--- a/src/s3ql/backends/comprenc.py
+++ b/src/s3ql/backends/comprenc.py
@@ -287,6 +287,7 @@ class AsyncComprencBackend(AsyncBackend):
 
         buf = io.BytesIO()
         meta_raw = await self.backend.readinto_fh(key, buf)
+        buf.truncate()  # remove left-overs of failed attempts
         (nonce, meta) = self._verify_meta(key, meta_raw)
         if nonce:
             assert self.passphrase is not None
-- 
2.43.0


From 5d3f6746b19bbb5cc8d5836ac05429c6e1fb0b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:43 +0000
Subject: [PATCH 43/50] fix: swift: do not take unprocessed objects for deleted

If the server breaks off a bulk deletion, objects that it did not get to are
neither deleted nor listed as failed.
---
 src/s3ql/backends/swift.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/s3ql/backends/swift.py b/src/s3ql/backends/swift.py
index 3b9396a..16b6bdc 100644
--- a/src/s3ql/backends/swift.py
+++ b/src/s3ql/backends/swift.py
@@ -731,9 +731,15 @@ class AsyncBackend(AsyncBackendBase):
             key = urllib.parse.unquote(fullkey[offset:])
             failed_keys.append(key)
             log.debug('Delete %s failed with %s', key, error[1])
-        for key in keys[:]:
-            if key not in failed_keys:
-                keys.remove(key)
+        # If the server gave up before processing all keys, we do not know which ones have been
+        # deleted.
+        processed = (
+            resp_dict['Number Deleted'] + resp_dict['Number Not Found'] + len(resp_dict['Errors'])
+        )
+        if processed >= len(keys):
+            for key in keys[:]:
+                if key not in failed_keys:
+                    keys.remove(key)
 
         # At this point it is clear that the server has sent some kind of error response.
         # Swift is not very consistent in returning errors.
-- 
2.43.0


From 22c72685a963d4c9ae72ba87365aa3e2e6150603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:00 +0000
Subject: [PATCH 44/50] fix: s3c, swift: treat unparseable metadata as damaged
 in transit

A bit flip in a metadata header may not only change its value but also make
it unparseable. This resulted in a SyntaxError that was not retried instead
of a BadDigestError.
---
 src/s3ql/backends/s3c.py   | 31 +++++++++++++++++++------------
 src/s3ql/backends/swift.py | 31 +++++++++++++++++++------------
 2 files changed, 38 insertions(+), 24 deletions(-)

diff --git a/src/s3ql/backends/s3c.py b/src/s3ql/backends/s3c.py
index 579fd12..64ab66d 100644
--- a/src/s3ql/backends/s3c.py
+++ b/src/s3ql/backends/s3c.py
@@ -707,17 +707,25 @@ class AsyncBackend(AsyncBackendBase):
                 break
             parts.append(part)
         buf = unquote(''.join(parts))
-        meta = literal_eval('{ %s }' % buf)
+        try:
+            meta = literal_eval('{ %s }' % buf)
 
-        # Decode bytes values
-        for k, v in meta.items():
-            if not isinstance(v, bytes):
-                continue
-            try:
-                meta[k] = b64decode(v)
-            except binascii.Error:
-                # This should trigger a MD5 mismatch below
-                meta[k] = None
+            # Decode bytes values
+            for k, v in meta.items():
+                if not isinstance(v, bytes):
+                    continue
+                try:
+                    meta[k] = b64decode(v)
+                except binascii.Error:
+                    # This should trigger a MD5 mismatch below
+                    meta[k] = None
+
+            md5 = b64encode(checksum_basic_mapping(meta)).decode('ascii')
+
+        except (SyntaxError, ValueError, TypeError, AttributeError, AssertionError):
+            # Not something that we would ever store, so it must have been
+            # damaged. This should trigger a MD5 mismatch below.
+            md5 = None
 
         # Check MD5. There is a case to be made for treating a mismatch as a
         # `CorruptedObjectError` rather than a `BadDigestError`, because the MD5
@@ -726,8 +734,7 @@ class AsyncBackend(AsyncBackendBase):
         # sent over the wire. However, it seems more likely for the data to get
         # accidentally corrupted in transit than to get accidentally corrupted
         # on the server (which hopefully checksums its storage devices).
-        md5 = b64encode(checksum_basic_mapping(meta)).decode('ascii')
-        if md5 != resp.headers.get('%smeta-md5' % self.hdr_prefix, None):
+        if md5 is None or md5 != resp.headers.get('%smeta-md5' % self.hdr_prefix, None):
             log.warning('MD5 mismatch in metadata for %s', obj_key)
 
             # When trying to read file system revision 23 or earlier, we will
diff --git a/src/s3ql/backends/swift.py b/src/s3ql/backends/swift.py
index 16b6bdc..8655432 100644
--- a/src/s3ql/backends/swift.py
+++ b/src/s3ql/backends/swift.py
@@ -168,17 +168,25 @@ class AsyncBackend(AsyncBackendBase):
                 break
             parts.append(part)
         buf = unquote(''.join(parts))
-        meta = literal_eval('{ %s }' % buf)
+        try:
+            meta = literal_eval('{ %s }' % buf)
 
-        # Decode bytes values
-        for k, v in meta.items():
-            if not isinstance(v, bytes):
-                continue
-            try:
-                meta[k] = b64decode(v)
-            except binascii.Error:
-                # This should trigger a MD5 mismatch below
-                meta[k] = None
+            # Decode bytes values
+            for k, v in meta.items():
+                if not isinstance(v, bytes):
+                    continue
+                try:
+                    meta[k] = b64decode(v)
+                except binascii.Error:
+                    # This should trigger a MD5 mismatch below
+                    meta[k] = None
+
+            md5 = b64encode(checksum_basic_mapping(meta)).decode('ascii')
+
+        except (SyntaxError, ValueError, TypeError, AttributeError, AssertionError):
+            # Not something that we would ever store, so it must have been
+            # damaged. This should trigger a MD5 mismatch below.
+            md5 = None
 
         # Check MD5. There is a case to be made for treating a mismatch as a
         # `CorruptedObjectError` rather than a `BadDigestError`, because the MD5
@@ -187,8 +195,7 @@ class AsyncBackend(AsyncBackendBase):
         # sent over the wire. However, it seems more likely for the data to get
         # accidentally corrupted in transit than to get accidentally corrupted
         # on the server (which hopefully checksums its storage devices).
-        md5 = b64encode(checksum_basic_mapping(meta)).decode('ascii')
-        if md5 != resp.headers.get('%smeta-md5' % self.hdr_prefix, None):
+        if md5 is None or md5 != resp.headers.get('%smeta-md5' % self.hdr_prefix, None):
             log.warning('MD5 mismatch in metadata for %s', obj_key)
 
             # When trying to read file system revision 23 or earlier, we will
-- 
2.43.0


From 1fd0ddce9da471fd12810c9bc2c69b431b2cf1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:00 +0000
Subject: [PATCH 45/50] fix: swift: verify the checksum of uploads over
 unencrypted connections

The MD5 sum was only calculated when there was no SSL context, but the
context always exists (it is needed to tell what to do with an https storage
URL). And if it had been calculated, it would not have been compared with
anything.
---
 src/s3ql/backends/swift.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/s3ql/backends/swift.py b/src/s3ql/backends/swift.py
index 8655432..e700f7a 100644
--- a/src/s3ql/backends/swift.py
+++ b/src/s3ql/backends/swift.py
@@ -420,13 +420,10 @@ class AsyncBackend(AsyncBackendBase):
         query_string: Optional[dict[str, str]] = None,
         headers: Optional[CaseInsensitiveDict] = None,
         body: Sequence[bytes | BinaryInput] = (),
-        md5_hex: Optional[str] = None,
     ) -> HTTPResponse:
         '''Send request on *conn*, return the response object.
 
-        Modifies *headers* by adding the auth token. If *md5_hex* is
-        supplied, the server's ETag is verified against it after a
-        successful upload.
+        Modifies *headers* by adding the auth token.
         '''
 
         log.debug(
@@ -577,22 +574,30 @@ class AsyncBackend(AsyncBackendBase):
 
         headers['Content-Type'] = 'application/octet-stream'
 
-        if self.ssl_context:
-            md5_hex: str | None = None
-        else:
-            md5_hex = await hash_fh(fh, 'md5')
-            headers['Content-MD5'] = b64encode(bytes.fromhex(md5_hex)).decode('ascii')
-
         try:
             async with self._borrow_conn() as conn:
+                # With TLS, on-the-wire integrity is already provided; skip the extra
+                # read pass needed to pre-compute MD5.
+                md5_hex: str | None = None
+                if conn.ssl_context is None:
+                    md5_hex = await hash_fh(fh, 'md5')
+                    headers['Content-MD5'] = b64encode(bytes.fromhex(md5_hex)).decode('ascii')
+
                 resp = await self._do_request(
                     conn,
                     'PUT',
                     '/%s%s' % (self.prefix, key),
                     headers=headers,
                     body=[fh],
-                    md5_hex=md5_hex,
                 )
+                if md5_hex is not None:
+                    etag = resp.headers['ETag'].strip('"').lower()
+                    if etag != md5_hex:
+                        raise BadDigestError(
+                            'BadDigest',
+                            f'MD5 mismatch when uploading {key} '
+                            f'(received: {etag}, sent: {md5_hex})',
+                        )
                 await assert_empty_response(conn, resp)
         except BadDigestError:
             # Object was corrupted in transit, make sure to delete it
-- 
2.43.0


From 163bf4bcf59a5f1feb0216f3f4f34a9289d4a57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:19 +0000
Subject: [PATCH 46/50] fix: s3qladm upgrade: resume an interrupted upgrade

If the command was killed, or a request failed, between updating the local
parameters and replacing the old metadata object, every later attempt ended
with KeyError, and neither this version nor the previous one could use the
file system.
---
 src/s3ql/adm.py | 44 ++++++++++++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/src/s3ql/adm.py b/src/s3ql/adm.py
index 01af674..f3bf074 100644
--- a/src/s3ql/adm.py
+++ b/src/s3ql/adm.py
@@ -33,6 +33,7 @@ from s3ql.database import (
     download_metadata,
     expire_objects,
     get_available_seq_nos,
+    read_cached_params,
     read_remote_params,
     upload_metadata,
     upload_params,
@@ -43,7 +44,7 @@ from s3ql.mount import determine_threads, get_metadata
 from . import CURRENT_FS_REV, REV_VER_MAP
 from .authinfo import Authinfo
 from .backends import open_backend, open_raw_backend
-from .backends.common import NoSuchObject
+from .backends.common import AsyncBackend, NoSuchObject
 from .backends.comprenc import AsyncComprencBackend
 from .common import (
     is_mounted,
@@ -410,6 +411,24 @@ async def upgrade(
     assert isinstance(local_seq_no, int) and isinstance(remote_seq_no, int)
     assert isinstance(local_revision, int)
 
+    # The local parameters are updated before anything that an older version could use is replaced
+    have_new_params = await backend.contains('s3ql_params')
+    if local_revision >= CURRENT_FS_REV or have_new_params:
+        remote_revision = remote_params['revision']
+        assert isinstance(remote_revision, int)
+        if local_revision < CURRENT_FS_REV or remote_revision >= CURRENT_FS_REV:
+            print('File system already at most-recent revision')
+            return
+
+        log.info('Resuming interrupted upgrade...')
+        if not have_new_params:
+            cached_params = read_cached_params(cachepath)
+            assert cached_params is not None
+            await upload_params(backend, cached_params)
+        await _disable_old_metadata(backend, remote_params)
+        print('File system upgrade complete.')
+        return
+
     if local_seq_no < remote_seq_no:
         print(
             'Local metadata copy is not up-to-date. To upgrade the filesystem, first download',
@@ -441,10 +460,6 @@ async def upgrade(
         print(get_old_rev_msg(local_revision + 1, 's3qladm'))
         raise QuietError()
 
-    elif local_revision >= CURRENT_FS_REV:
-        print('File system already at most-recent revision')
-        return
-
     print(
         textwrap.dedent(
             f'''
@@ -491,21 +506,26 @@ async def upgrade(
     write_params(cachepath, params)
     await upload_params(backend, params)
 
-    # Re-upload the old metadata object to make sure that we don't accidentally
-    # re-mount the filesystem with an older S3QL version.
+    await _disable_old_metadata(backend, local_params)
+
+    print('File system upgrade complete.')
+
+
+async def _disable_old_metadata(backend: AsyncBackend, old_params: BasicMappingT) -> None:
+    """Make sure that older S3QL versions don't accidentally mount the file system"""
+
     log.info('Backing up old metadata...')
-    local_params['revision'] = CURRENT_FS_REV
-    local_params['seq_no'] = local_seq_no + 1
+    new_params = dict(old_params)
+    new_params['revision'] = CURRENT_FS_REV
+    new_params['seq_no'] = cast(int, old_params['seq_no']) + 1
     with tempfile.TemporaryFile() as tmpfh:
         await backend.readinto_fh('s3ql_metadata', tmpfh)
         len_ = tmpfh.tell()
         tmpfh.seek(0)
         await backend.write_fh(
-            "s3ql_metadata", tmpfh, len_, metadata=local_params, dont_compress=True
+            "s3ql_metadata", tmpfh, len_, metadata=new_params, dont_compress=True
         )
 
-    print('File system upgrade complete.')
-
 
 @app.command(name='restore-metadata')
 @trio_command
-- 
2.43.0


From 01578058e76c544774be3363cc032a67085bf7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:13 +0000
Subject: [PATCH 47/50] fix: s3qllock: flush the write cache before locking

Data written to a file that is still open may not have been sent to the
file system yet when the tree is locked. It was then rejected with EPERM
and lost, although the write had been successful before the tree was
locked. s3qlcp and s3qlrm flush the cache for the same reason.
---
 src/s3ql/lock.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/s3ql/lock.py b/src/s3ql/lock.py
index 9996f5a..035f45c 100644
--- a/src/s3ql/lock.py
+++ b/src/s3ql/lock.py
@@ -58,6 +58,10 @@ async def lock(
             raise QuietError('%s is a mount point.' % name)
         ctrlfile = assert_fs_owner(name)
         fstat = os.stat(name)
+
+        # Data that is still in the kernel's write cache could not be written any more
+        pyfuse3.syncfs(name)
+
         pyfuse3.setxattr(ctrlfile, 'lock', ('%d' % fstat.st_ino).encode())
 
 
-- 
2.43.0


From f1dadf8a68c0ee54ad5e65ad3eff4048754e4261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:50 +0000
Subject: [PATCH 48/50] fix: expire_backups.py: replace the state file
 atomically

If the program was terminated between the two renames there was no state
file at all and the next run refused to work.
---
 contrib/expire_backups.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/contrib/expire_backups.py b/contrib/expire_backups.py
index dafcfbf..8980457 100755
--- a/contrib/expire_backups.py
+++ b/contrib/expire_backups.py
@@ -101,8 +101,7 @@ async def expire_backups(
         saved_state = upgrade_to_state(backup_list)
         if not dry_run:
             log.info('Saving reconstructed state..')
-            with open(state, 'wb') as fh:
-                fh.write(freeze_basic_mapping(saved_state))
+            save_state(state, saved_state)
     elif not os.path.exists(state):
         log.warning('Creating state file..')
         saved_state = dict()
@@ -130,11 +129,19 @@ async def expire_backups(
         log.info('Dry run, not saving state.')
     else:
         log.info('Saving state..')
-        with open(state + '.new', 'wb') as fh:
-            fh.write(freeze_basic_mapping(saved_state))
-        if os.path.exists(state):
-            os.rename(state, state + '.bak')
-        os.rename(state + '.new', state)
+        save_state(state, saved_state)
+
+
+def save_state(path, state):
+    '''Atomically replace state file, keeping the previous one as backup'''
+
+    with open(path + '.new', 'wb') as fh:
+        fh.write(freeze_basic_mapping(state))
+        fh.flush()
+        os.fsync(fh.fileno())
+    if os.path.exists(path):
+        shutil.copyfile(path, path + '.bak')
+    os.rename(path + '.new', path)
 
 
 def main(args: Sequence[str] | None = None) -> None:
-- 
2.43.0


From 840f4975546f2a1576ab2308076a85832fe85f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:18 +0000
Subject: [PATCH 49/50] fix: expire_backups.py: cope with being terminated
 while removing backups

What is left of a partially removed backup was still taken for a backup, and
could even be kept in the next run in place of a complete one. Also, backups
that were found and removed in the interrupted run were not counted as cycles.
---
 contrib/expire_backups.py | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/contrib/expire_backups.py b/contrib/expire_backups.py
index 8980457..db9cf9b 100755
--- a/contrib/expire_backups.py
+++ b/contrib/expire_backups.py
@@ -117,13 +117,30 @@ async def expire_backups(
             'Would remove more than %d%% of backups, aborting' % (proportion_delete * 100)
         )
 
-    for x in to_delete:
+    def remove(path):
+        if use_s3qlrm:
+            s3qlrm([path])
+        else:
+            shutil.rmtree(path)
+
+    if not dry_run:
+        # Remember the ages of all backups (including those that are about to be removed), so that
+        # they are correct even if we do not get to the end.
+        save_state(state, saved_state)
+
+        # Left behind if we were terminated before
+        for x in os.listdir('.'):
+            if re.match(r'^\d{4}-\d\d-\d\d_\d\d:\d\d:\d\d\.expired$', x):
+                log.info('Removing remainder of backup %s', x)
+                remove(x)
+
+    for x in sorted(to_delete):
         log.info('Backup %s is no longer needed, removing...', x)
         if not dry_run:
-            if use_s3qlrm:
-                s3qlrm([x])
-            else:
-                shutil.rmtree(x)
+            # What is left after an interrupted removal must not be taken for a backup
+            os.rename(x, x + '.expired')
+            remove(x + '.expired')
+        del saved_state[x]
 
     if dry_run:
         log.info('Dry run, not saving state.')
@@ -258,11 +275,7 @@ def process_backups(backup_list, state, cycles):
             format_list(missing[range_]),
         )
 
-    to_delete = set(state) - keep
-    for x in to_delete:
-        del state[x]
-
-    return to_delete
+    return set(state) - keep
 
 
 def format_list(l):  # noqa: E741
-- 
2.43.0


From ac6bce1bd3ba771f479e4c1d980e2ac4c873ac79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:42 +0000
Subject: [PATCH 50/50] fix: expire_backups.py: make --use-s3qlrm work

s3qlrm runs trio itself, which is not possible from within a running trio loop.
---
 contrib/expire_backups.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/contrib/expire_backups.py b/contrib/expire_backups.py
index db9cf9b..338c6ef 100755
--- a/contrib/expire_backups.py
+++ b/contrib/expire_backups.py
@@ -27,7 +27,6 @@ from s3ql.parse_args import (
     LogDest,
     QuietFlag,
     run_app,
-    trio_command,
 )
 from s3ql.remove import main as s3qlrm
 
@@ -45,8 +44,7 @@ app = typer.Typer(
 
 
 @app.command()
-@trio_command
-async def expire_backups(
+def expire_backups(
     cycles: Annotated[
         list[int],
         typer.Argument(metavar='<age>', help='Age range boundaries in terms of backup cycles'),
-- 
2.43.0

