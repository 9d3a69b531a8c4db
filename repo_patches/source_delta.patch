From c7f5a6b39efea8ec7f4e0f6825130b79b247d8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:15 +0000
Subject: [PATCH 01/41] fix: refuse (or repair) a shelf whose last record is
 cut short

read_transaction_offsets() skipped over record bodies with seek(), which
succeeds beyond the end of the file, so a file cut inside the last record
of the last transaction was accepted and the record could not be loaded.
---
 durus/shelf.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/durus/shelf.py b/durus/shelf.py
index e1416b9..45464a5 100755
--- a/durus/shelf.py
+++ b/durus/shelf.py
@@ -298,6 +298,11 @@ def read_transaction_offsets(file, repair=False):
     try:
         transaction_length = read_int8(file)
         transaction_end = transaction_start + 8 + transaction_length
+        file.seek(0, 2)
+        if file.tell() < transaction_end:
+            # The last part of this transaction is missing.
+            raise ShortRead
+        file.seek(transaction_start + 8)
         transaction_offsets = {}
         while file.tell() < transaction_end:
             position = file.tell()
-- 
2.43.0


From 98df714601751159a75fc92eeba04c266d8a33aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:15 +0000
Subject: [PATCH 02/41] fix: recognize a shelf transaction whose length was
 never written

The placeholder for the length was 0, which reads as an empty transaction.
The records after it were then parsed as transactions, so a crash during a
commit could bring up wrong records, or records under another oid, without
any error.
---
 durus/shelf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/durus/shelf.py b/durus/shelf.py
index 45464a5..0dcf00e 100755
--- a/durus/shelf.py
+++ b/durus/shelf.py
@@ -195,7 +195,9 @@ class Shelf (object):
         """
         self.file.seek_end()
         start = self.file.tell()
-        write_int8(self.file, 0)
+        # Write an impossible length as the placeholder, so that a transaction
+        # that is not completely written is always recognized as malformed.
+        write_int8(self.file, 0xffffffffffffffff)
         result = []
         index = {}
         try:
-- 
2.43.0


From 244a89213b93c0e8394d53085baf81eaeaae2d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:30 +0000
Subject: [PATCH 03/41] fix: leave nothing of a failed write in the buffer of a
 File

The bytes of a write that failed stayed in the buffer and were written
again, perhaps elsewhere, by a later read, seek or write.
---
 durus/file.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/durus/file.py b/durus/file.py
index 8b941b6..f8de893 100755
--- a/durus/file.py
+++ b/durus/file.py
@@ -113,9 +113,14 @@ class File (object):
 
     def write(self, s):
         self.obtain_lock()
-        self.file.write(s)
-        # This flush helps the file knows where it ends.
+        # Write directly, so that no part of a write that fails remains in
+        # the buffer, to be written somewhere else later.
         self.file.flush()
+        view = memoryview(s)
+        while len(view) > 0:
+            view = view[self.file.raw.write(view):]
+        # This helps the file know where it is.
+        self.file.tell()
 
     def truncate(self):
         self.obtain_lock()
-- 
2.43.0


From 9048cc6afa7d772111a29592bf2c356e657b6b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:22 +0000
Subject: [PATCH 04/41] fix: make a shelf transaction durable before it is
 acknowledged

Shelf.store() neither reverted when writing the length failed, nor synced the
file, so that an acknowledged commit could be lost by a power failure.  What
a failed revert leaves behind is removed by the next store.
---
 durus/file_storage.py |  6 ++----
 durus/shelf.py        | 25 +++++++++++++++++--------
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/durus/file_storage.py b/durus/file_storage.py
index 5fed0ca..3302da3 100644
--- a/durus/file_storage.py
+++ b/durus/file_storage.py
@@ -157,10 +157,8 @@ class FileStorage (Storage):
             yield "invalidations identified %s" % datetime.now()
             for oid in self.pack_extra:
                 seen.discard(str_to_int8(oid))
-            for oid in self.pack_extra:
-                shelf.store(self.gen_oid_record(start_oid=oid, seen=seen))
-            file.flush()
-            file.fsync()
+            shelf.store(item for oid in self.pack_extra
+                for item in self.gen_oid_record(start_oid=oid, seen=seen))
             if not self.shelf.get_file().is_temporary():
                 self.shelf.get_file().rename(file_path + '.prepack')
                 self.shelf.get_file().close()
diff --git a/durus/shelf.py b/durus/shelf.py
index 0dcf00e..583c1c7 100755
--- a/durus/shelf.py
+++ b/durus/shelf.py
@@ -96,6 +96,7 @@ class Shelf (object):
                 break
             self.memory_index.update(transaction_offsets)
         self.file.seek_end()
+        self.end = self.file.tell() # the end of the last good transaction
         self.unused_name_generator = None
 
     @classmethod
@@ -193,14 +194,19 @@ class Shelf (object):
         Return a list of triples, each giving a name, an old position (or None
         if this is a new name), and a new position.
         """
+        start = self.end
         self.file.seek_end()
-        start = self.file.tell()
-        # Write an impossible length as the placeholder, so that a transaction
-        # that is not completely written is always recognized as malformed.
-        write_int8(self.file, 0xffffffffffffffff)
+        if self.file.tell() != start:
+            # Remove what a store that failed was not able to remove.
+            self.file.seek(start)
+            self.file.truncate()
         result = []
         index = {}
         try:
+            # Write an impossible length as the placeholder, so that a
+            # transaction that is not completely written is always
+            # recognized as malformed.
+            write_int8(self.file, 0xffffffffffffffff)
             for name, value in name_value_sequence:
                 new_position = self.file.tell()
                 old_position = self.get_position(name)
@@ -209,15 +215,18 @@ class Shelf (object):
                 write_int8(self.file, len(name) + len(value))
                 write(self.file, name)
                 write(self.file, value)
+            end = self.file.tell()
+            self.file.seek(start)
+            write_int8(self.file, end - start - 8)
+            self.file.flush()
+            self.file.fsync()
+            self.file.seek(end)
         except:
             # Revert before raising.
             self.file.seek(start)
             self.file.truncate()
             raise
-        end = self.file.tell()
-        self.file.seek(start)
-        write_int8(self.file, end - start - 8)
-        self.file.seek(end)
+        self.end = end
         self.memory_index.update(index)
         return result
 
-- 
2.43.0


From cda5fbaa5a452e36291c6e12d4f282099b1c8253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:17 +0000
Subject: [PATCH 05/41] fix: leave no trace of a failed or abandoned commit in
 a FileStorage2

The records of a commit that was begun and given up were stored with the next
one, and a commit that failed while writing left a partial transaction.
---
 durus/file_storage2.py | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/durus/file_storage2.py b/durus/file_storage2.py
index 63e4500..61f66c0 100644
--- a/durus/file_storage2.py
+++ b/durus/file_storage2.py
@@ -134,7 +134,7 @@ class FileStorage2(Storage):
         return self._read_block()
 
     def begin(self):
-        pass
+        self.pending_records.clear()
 
     def store(self, oid, record):
         """Add a record during a commit."""
@@ -148,11 +148,24 @@ class FileStorage2(Storage):
         """Complete a commit.
         """
         index = {}
-        for z in self._write_transaction(
-            self.fp, self._generate_pending_records(), index):
-            pass
-        self.fp.flush()
-        self.fp.fsync()
+        self.fp.seek(0, 2)
+        if self.fp.tell() != self.transaction_end:
+            # Remove what a commit that failed was not able to remove.
+            self.fp.seek(self.transaction_end)
+            self.fp.truncate()
+        try:
+            for z in self._write_transaction(
+                self.fp, self._generate_pending_records(), index):
+                pass
+            self.fp.flush()
+            self.fp.fsync()
+        except:
+            # Revert before raising.
+            self.begin()
+            self.fp.seek(self.transaction_end)
+            self.fp.truncate()
+            raise
+        self.transaction_end = self.fp.tell()
         if is_logging(20):
             log(20, "Transaction at [%s] end=%s" % (datetime.now(),
                                                     self.fp.tell()))
@@ -249,6 +262,8 @@ class FileStorage2(Storage):
             self.fp.rename(prepack_name)
         packed.rename(name)
         self.fp = packed
+        self.fp.seek(0, 2)
+        self.transaction_end = self.fp.tell()
         for oid in self.index:
             if oid not in index:
                 self.invalid.add(oid)
@@ -320,6 +335,7 @@ class FileStorage2(Storage):
                     self.fp.seek(transaction_offset)
                     self.fp.truncate()
                 break
+        self.transaction_end = transaction_offset
 
     def _write_index(self, fp, index):
         index_offset = fp.tell()
@@ -340,3 +356,5 @@ class FileStorage2(Storage):
         self._write_index(self.fp, index)
         self.fp.flush()
         self.fp.fsync()
+        self.fp.seek(0, 2)
+        self.transaction_end = self.fp.tell()
-- 
2.43.0


From 201037d279012beca76f2346a34e67b4ff266755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:17 +0000
Subject: [PATCH 06/41] fix: return an iterator from get_packer() when there is
 nothing to do

The storage server calls next() on it, which ended the server.
---
 durus/file_storage2.py  | 2 +-
 durus/sqlite_storage.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/durus/file_storage2.py b/durus/file_storage2.py
index 61f66c0..de1fd3b 100644
--- a/durus/file_storage2.py
+++ b/durus/file_storage2.py
@@ -278,7 +278,7 @@ class FileStorage2(Storage):
         assert not self.fp.is_temporary()
         assert not self.fp.is_readonly()
         if self.pack_extra is not None or self.pending_records:
-            return ()
+            return iter(()) # Don't pack.
         else:
             self.pack_extra = []
             return self._packer()
diff --git a/durus/sqlite_storage.py b/durus/sqlite_storage.py
index 03f1998..55cb2d0 100644
--- a/durus/sqlite_storage.py
+++ b/durus/sqlite_storage.py
@@ -202,7 +202,7 @@ class SqliteStorage(Storage):
             self.pack_extra is not None or
             self.is_temporary() or
             self.is_readonly()):
-            return [x for x in []] # Don't pack.
+            return (x for x in []) # Don't pack.
         self.pack_extra = []
         alive = set() # will contain OIDs of all reachable from root
         def packer():
-- 
2.43.0


From 4bfe21e1bcfe33b1596d797fe27662487d9875fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:47 +0000
Subject: [PATCH 07/41] fix: exchange the files of a pack without a moment
 without a database

A crash or an error between the two renames of a pack left no file with the
name of the database, and meanwhile another process could create and lock a
new one.  The lock is now kept through a rename, and a lock on a file that
has been replaced is refused.
---
 durus/file.py          | 63 ++++++++++++++++++++++++++++++++++++------
 durus/file_storage.py  |  5 +---
 durus/file_storage2.py |  6 +---
 3 files changed, 57 insertions(+), 17 deletions(-)

diff --git a/durus/file.py b/durus/file.py
index f8de893..a8f4318 100755
--- a/durus/file.py
+++ b/durus/file.py
@@ -2,7 +2,9 @@
 $URL$
 $Id$
 """
+import errno
 import os, os.path
+import sys
 from os.path import exists
 from tempfile import NamedTemporaryFile, _TemporaryFileWrapper
 if os.name == 'nt':
@@ -27,13 +29,17 @@ class File (object):
             else:
                 if readonly:
                     raise OSError('No "%s" found.' % name)
-                self.file = open(name, 'w+b')
+                # Create it without truncating a file that someone else
+                # creates at the same time.
+                open(name, 'a+b').close()
+                self.file = open(name, 'r+b')
+        self.name = self.file.name
         if readonly:
             assert self.is_readonly()
         self.has_lock = False
 
     def get_name(self):
-        return self.file.name
+        return self.name
 
     def is_temporary(self):
         return isinstance(self.file, _TemporaryFileWrapper)
@@ -70,12 +76,47 @@ class File (object):
             return
         assert not self.is_temporary()
         self.obtain_lock()
-        self.close()
-        if exists(name):
-            os.unlink(name)
-        os.rename(old_name, name)
-        self.file = open(name, 'r+b')
-        self.obtain_lock()
+        if os.name == 'nt':
+            self.close()
+            if exists(name):
+                os.unlink(name)
+            os.rename(old_name, name)
+            self.file = open(name, 'r+b')
+            self.obtain_lock()
+        else:
+            # This replaces any other file of this name atomically, and it
+            # keeps our lock.
+            os.rename(old_name, name)
+        self.name = name
+
+    def replace(self, other, backup_name):
+        """(other:File, backup_name:str)
+        Take over the name of the other file, leave the contents of the other
+        file under the backup_name, and close it.
+        If possible, there is never a moment without a file of that name.
+        """
+        name = other.get_name()
+        if os.name == 'nt':
+            other.rename(backup_name)
+            other.close()
+            self.rename(name)
+            return
+        if exists(backup_name):
+            os.unlink(backup_name)
+        try:
+            os.link(name, backup_name)
+        except OSError:
+            if sys.exc_info()[1].errno not in (
+                errno.EPERM, errno.ENOSYS, errno.EOPNOTSUPP, errno.EMLINK):
+                raise
+            # Hard links are not supported here.
+            other.rename(backup_name)
+        try:
+            self.rename(name)
+        except:
+            other.rename(name)
+            raise
+        other.close()
 
     def obtain_lock(self):
         """
@@ -96,6 +137,12 @@ class File (object):
                     raise IOError("Unable to obtain lock")
             else:
                 fcntl.flock(self.file, fcntl.LOCK_EX | fcntl.LOCK_NB)
+                if not self.is_temporary() and not (
+                    exists(self.name) and os.path.samestat(
+                    os.stat(self.name), os.fstat(self.file.fileno()))):
+                    # The file was replaced after we opened it.
+                    fcntl.flock(self.file, fcntl.LOCK_UN)
+                    raise IOError("Unable to obtain lock")
             self.has_lock = True
 
     def release_lock(self):
diff --git a/durus/file_storage.py b/durus/file_storage.py
index 3302da3..09f207c 100644
--- a/durus/file_storage.py
+++ b/durus/file_storage.py
@@ -159,10 +159,7 @@ class FileStorage (Storage):
                 seen.discard(str_to_int8(oid))
             shelf.store(item for oid in self.pack_extra
                 for item in self.gen_oid_record(start_oid=oid, seen=seen))
-            if not self.shelf.get_file().is_temporary():
-                self.shelf.get_file().rename(file_path + '.prepack')
-                self.shelf.get_file().close()
-            shelf.get_file().rename(file_path)
+            file.replace(self.shelf.get_file(), file_path + '.prepack')
             self.shelf = shelf
             self.pack_extra = None
             yield "finished %s" % datetime.now()
diff --git a/durus/file_storage2.py b/durus/file_storage2.py
index de1fd3b..5a03fa9 100644
--- a/durus/file_storage2.py
+++ b/durus/file_storage2.py
@@ -256,11 +256,7 @@ class FileStorage2(Storage):
         self._write_index(packed, index)
         packed.flush()
         packed.fsync()
-        if self.fp.is_temporary():
-            self.fp.close()
-        else:
-            self.fp.rename(prepack_name)
-        packed.rename(name)
+        packed.replace(self.fp, prepack_name)
         self.fp = packed
         self.fp.seek(0, 2)
         self.transaction_end = self.fp.tell()
-- 
2.43.0


From 68cf569f9261f3c2facd7970af606f56cafe3cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:51 +0000
Subject: [PATCH 08/41] fix: let another pack start after a pack or a commit
 that failed

A pack that could not open its file, or failed later, was in progress for
ever, and the records of a failed commit silently disabled packing.
---
 durus/file_storage.py | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/durus/file_storage.py b/durus/file_storage.py
index 09f207c..4c6aefd 100644
--- a/durus/file_storage.py
+++ b/durus/file_storage.py
@@ -78,7 +78,11 @@ class FileStorage (Storage):
             raise ValueError("oid %r is a surprise" % oid)
 
     def end(self, handle_invalidations=None):
-        self.shelf.store(iteritems(self.pending_records))
+        try:
+            self.shelf.store(iteritems(self.pending_records))
+        except:
+            self.begin()
+            raise
         if is_logging(20):
             shelf_file = self.shelf.get_file()
             shelf_file.seek_end()
@@ -132,11 +136,15 @@ class FileStorage (Storage):
             self.shelf.get_file().is_temporary() or
             self.shelf.get_file().is_readonly()):
             return (x for x in []) # Don't pack.
-        self.pack_extra = set()
         file_path = self.shelf.get_file().get_name()
         file = File(file_path + '.pack')
-        file.truncate() # obtains lock and clears.
-        assert file.tell() == 0
+        try:
+            file.truncate() # obtains lock and clears.
+            assert file.tell() == 0
+        except:
+            file.close()
+            raise
+        self.pack_extra = set()
         def packer():
             yield "started %s" % datetime.now()
             seen = IntSet()
@@ -163,7 +171,16 @@ class FileStorage (Storage):
             self.shelf = shelf
             self.pack_extra = None
             yield "finished %s" % datetime.now()
-        return packer()
+        def guarded_packer():
+            try:
+                for step in packer():
+                    yield step
+            finally:
+                # If this pack failed, another one can be tried.
+                self.pack_extra = None
+                if self.shelf.get_file() is not file:
+                    file.close()
+        return guarded_packer()
 
     def pack(self):
         for iteration in self.get_packer():
-- 
2.43.0


From 0665f55827ebc4f8be80b9532b470c7414933d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:55 +0000
Subject: [PATCH 09/41] fix: report every object removed by a pack, when it has
 been removed

Removed identifiers above the range of the new offset map were not reported
as invalid, so that they could be used for new objects while clients still
had the old ones in their caches.
---
 durus/file_storage.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/durus/file_storage.py b/durus/file_storage.py
index 4c6aefd..08e995c 100644
--- a/durus/file_storage.py
+++ b/durus/file_storage.py
@@ -10,7 +10,7 @@ from durus.logger import log, is_logging
 from durus.serialize import unpack_record, split_oids
 from durus.shelf import Shelf
 from durus.storage import Storage
-from durus.utils import int8_to_str, str_to_int8, IntSet, iteritems
+from durus.utils import int8_to_str, str_to_int8, IntSet, iteritems, xrange
 import durus.connection
 
 
@@ -156,19 +156,32 @@ class FileStorage (Storage):
             shelf = Shelf(file)
             yield "base written %s" % datetime.now()
             # Invalidate oids that have been removed.
+            removed = set()
             for hole in shelf.get_offset_map().gen_holes():
                 yield hole
                 oid = int8_to_str(hole)
                 if self.shelf.get_position(oid) is not None:
                     assert shelf.get_position(oid) is None
-                    self.invalid.add(oid)
+                    removed.add(oid)
+            # Some may be above the range of the new offset map.
+            for hole in xrange(shelf.get_offset_map().get_array_size(),
+                self.shelf.get_offset_map().get_array_size()):
+                yield hole
+                if self.shelf.get_position(int8_to_str(hole)) is not None:
+                    removed.add(int8_to_str(hole))
+            for oid in list(self.shelf.memory_index):
+                yield 0
+                if shelf.get_position(oid) is None:
+                    removed.add(oid)
             yield "invalidations identified %s" % datetime.now()
             for oid in self.pack_extra:
                 seen.discard(str_to_int8(oid))
-            shelf.store(item for oid in self.pack_extra
+            stored = shelf.store(item for oid in self.pack_extra
                 for item in self.gen_oid_record(start_oid=oid, seen=seen))
+            removed.difference_update(item[0] for item in stored)
             file.replace(self.shelf.get_file(), file_path + '.prepack')
             self.shelf = shelf
+            self.invalid.update(removed)
             self.pack_extra = None
             yield "finished %s" % datetime.now()
         def guarded_packer():
-- 
2.43.0


From 2843911c6a594ad321b4cd1711a99772cf191c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:55 +0000
Subject: [PATCH 10/41] fix: let new_oid() go on after a read error

The generator of unused names ended with the first error, and every later
call raised StopIteration, which ends a server.
---
 durus/shelf.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/durus/shelf.py b/durus/shelf.py
index 583c1c7..cbe076e 100755
--- a/durus/shelf.py
+++ b/durus/shelf.py
@@ -186,7 +186,12 @@ class Shelf (object):
                         yield name
                     j += 1
             self.unused_name_generator = generate_unused_names()
-        return next(self.unused_name_generator)
+        try:
+            return next(self.unused_name_generator)
+        except:
+            # A generator that raised an error does not go on.
+            self.unused_name_generator = None
+            raise
 
     def store(self, name_value_sequence):
         """([(str, str)]) -> [(str, int|None, int)]
-- 
2.43.0


From 2edec0f521e480c41a94bfc9e59959b5b5bb9ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:54 +0000
Subject: [PATCH 11/41] fix: let another pack of a FileStorage2 start after a
 pack that failed

---
 durus/file_storage2.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/durus/file_storage2.py b/durus/file_storage2.py
index 5a03fa9..56cb4c4 100644
--- a/durus/file_storage2.py
+++ b/durus/file_storage2.py
@@ -210,11 +210,21 @@ class FileStorage2(Storage):
                 self, start_oid=start_oid, batch_size=batch_size):
                 yield item
 
-    def _packer(self):
+    def _guarded_packer(self):
+        packed = None
+        try:
+            packed = File(self.fp.get_name() + '.pack')
+            for z in self._packer(packed):
+                yield z
+        finally:
+            # If this pack failed, another one can be tried.
+            self.pack_extra = None
+            if packed is not None and packed is not self.fp:
+                packed.close()
+
+    def _packer(self, packed):
         name = self.fp.get_name()
         prepack_name = name + '.prepack'
-        pack_name = name + '.pack'
-        packed = File(pack_name)
         if len(packed) > 0:
             # packed contains data left from an incomplete pack attempt.
             packed.seek(0)
@@ -277,7 +287,7 @@ class FileStorage2(Storage):
             return iter(()) # Don't pack.
         else:
             self.pack_extra = []
-            return self._packer()
+            return self._guarded_packer()
 
     def pack(self):
         for z in self.get_packer():
-- 
2.43.0


From e7ddd72c12748e020a9964658eb4d7277b11b86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:54 +0000
Subject: [PATCH 12/41] fix: iterate over all records of an SqliteStorage

---
 durus/sqlite_storage.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/durus/sqlite_storage.py b/durus/sqlite_storage.py
index 55cb2d0..3390549 100644
--- a/durus/sqlite_storage.py
+++ b/durus/sqlite_storage.py
@@ -14,7 +14,7 @@ import collections
 from durus.logger import log, is_logging
 from durus.serialize import pack_record, unpack_record, split_oids
 from durus.storage import Storage
-from durus.utils import int8_to_str, str_to_int8, iteritems, as_bytes
+from durus.utils import int8_to_str, str_to_int8, as_bytes
 import durus.connection
 
 
@@ -146,13 +146,14 @@ class SqliteStorage(Storage):
 
     def _gen_records(self):
         c = self._conn.cursor()
-        c.execute('SELECT (id, data, refs) FROM objects ORDER BY id')
+        c.execute('SELECT id, data, refs FROM objects ORDER BY id')
         for oid, data, refs in c.fetchall():
-            yield int8_to_str(oid), pack_record(oid, data, refs)
+            oid = int8_to_str(oid)
+            yield oid, pack_record(oid, data, refs)
 
     def gen_oid_record(self, start_oid=None, **other):
         if start_oid is None:
-            for item in iteritems(self._gen_records()):
+            for item in self._gen_records():
                 yield item
         else:
             todo = [start_oid]
-- 
2.43.0


From 16581a9ee340b1e0a1478bc911f76bfb756deedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:54 +0000
Subject: [PATCH 13/41] fix: never use an identifier of an existing object in
 an SqliteStorage

After a restart the highest identifier in use was given to the next new
object.
---
 durus/sqlite_storage.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/durus/sqlite_storage.py b/durus/sqlite_storage.py
index 3390549..33a2afb 100644
--- a/durus/sqlite_storage.py
+++ b/durus/sqlite_storage.py
@@ -84,14 +84,14 @@ class SqliteStorage(Storage):
 
     def _get_last_oid(self):
         """() -> int
-        Return the highest OID in the database as integer.
+        Return an integer above every OID in the database.
         """
         c = self._conn.cursor()
         c.execute('SELECT max(id) FROM objects')
         v = c.fetchone()
-        if v is None:
+        if v[0] is None:
             return 0
-        return v[0]
+        return v[0] + 1
 
     def load(self, oid):
         """(str) -> str
@@ -260,3 +260,4 @@ class SqliteStorage(Storage):
             for oid, record in items:
                 yield record
         self._store_records(gen_recs(oid_records))
+        self._last_oid = self._get_last_oid()
-- 
2.43.0


From cdabf1ca888a632037648b33eecb5f1eccb4c684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:27 +0000
Subject: [PATCH 14/41] fix: make a commit of an SqliteStorage durable when it
 returns

With the default setting a power failure just after the commit may bring the
rollback journal back.
---
 durus/sqlite_storage.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/durus/sqlite_storage.py b/durus/sqlite_storage.py
index 33a2afb..29bd470 100644
--- a/durus/sqlite_storage.py
+++ b/durus/sqlite_storage.py
@@ -60,6 +60,8 @@ class SqliteStorage(Storage):
         else:
             self._conn = sqlite3.connect(filename)
             self._last_oid = self._get_last_oid()
+        # A commit must last even if the power fails immediately after it.
+        self._conn.execute('PRAGMA synchronous=EXTRA')
         self._conn.text_factory = bytes
         #self._conn.executescript(_PRAGMAS)
         self.pending_records = []
-- 
2.43.0


From 559d4b17771934db8923c2b7e4c1e09d92b39eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:27 +0000
Subject: [PATCH 15/41] fix: leave no trace of a failed commit in an
 SqliteStorage

Its statements stayed in the open transaction and became part of the next
commit.
---
 durus/sqlite_storage.py | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/durus/sqlite_storage.py b/durus/sqlite_storage.py
index 29bd470..30fc786 100644
--- a/durus/sqlite_storage.py
+++ b/durus/sqlite_storage.py
@@ -115,20 +115,30 @@ class SqliteStorage(Storage):
         self.pending_records.append(record)
 
     def _store_records(self, records):
+        stored = []
         def gen_items(records):
             for record in records:
                 oid, data, refdata = unpack_record(record)
                 yield str_to_int8(oid), as_bytes(data), as_bytes(refdata)
-                if self.pack_extra is not None:
-                    # ensure object and refs are marked alive and not removed
-                    self.pack_extra.append(oid)
+                stored.append(oid)
         c = self._conn.cursor()
-        c.executemany('INSERT OR REPLACE INTO objects (id, data, refs)'
-                      ' VALUES (?, ?, ?)', gen_items(records))
-        self._commit()
+        try:
+            c.executemany('INSERT OR REPLACE INTO objects (id, data, refs)'
+                          ' VALUES (?, ?, ?)', gen_items(records))
+            self._commit()
+        except:
+            self._conn.rollback()
+            raise
+        if self.pack_extra is not None:
+            # ensure object and refs are marked alive and not removed
+            self.pack_extra.extend(stored)
 
     def end(self, handle_invalidations=None):
-        self._store_records(self.pending_records)
+        try:
+            self._store_records(self.pending_records)
+        except:
+            self.begin()
+            raise
         if is_logging(20):
             log(20, "Transaction at [%s]" % datetime.now())
         self.begin()
@@ -196,9 +206,12 @@ class SqliteStorage(Storage):
             for oid in oids:
                 yield (str_to_int8(oid),)
         c = self._conn.cursor()
-        c.executemany('DELETE FROM objects WHERE id = ?', gen_ids())
-        self._commit()
-
+        try:
+            c.executemany('DELETE FROM objects WHERE id = ?', gen_ids())
+            self._commit()
+        except:
+            self._conn.rollback()
+            raise
 
     def get_packer(self):
         if (self.pending_records or
-- 
2.43.0


From 49d358064ec75c66ae46508e723ded4314e4570e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:47 +0000
Subject: [PATCH 16/41] fix: make a pack of an SqliteStorage safe with commits
 and errors

An object could be referenced again between the steps that found and deleted
it, clients were not told about removed objects, and after an error no other
pack could start.
---
 durus/sqlite_storage.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/durus/sqlite_storage.py b/durus/sqlite_storage.py
index 30fc786..cd75a0e 100644
--- a/durus/sqlite_storage.py
+++ b/durus/sqlite_storage.py
@@ -251,13 +251,21 @@ class SqliteStorage(Storage):
             for oid in self._list_all_oids():
                 if oid not in alive:
                     dead.add(oid)
-            self.pack_extra = None
-            # safe to yield now, we have finished identifying dead objects
-            yield None
+            # note we cannot yield before deleting them either, because one of
+            # them could get referenced again
             self._delete(dead)
+            self.invalid.update(dead)
+            self.pack_extra = None
             yield "finished %s, %d live objects, %d removed" % (
                     datetime.now(), len(alive), len(dead))
-        return packer()
+        def guarded_packer():
+            try:
+                for step in packer():
+                    yield step
+            finally:
+                # If this pack failed, another one can be tried.
+                self.pack_extra = None
+        return guarded_packer()
 
     def pack(self):
         for iteration in self.get_packer():
-- 
2.43.0


From 521bfab317bb2dead7232f5ac77ac49b5da2ba7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:18 +0000
Subject: [PATCH 17/41] fix: refuse a shelf that was cut just before its offset
 map

It was opened as an empty database, and an empty offset map written to it.
---
 durus/shelf.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/durus/shelf.py b/durus/shelf.py
index cbe076e..e6d342e 100755
--- a/durus/shelf.py
+++ b/durus/shelf.py
@@ -86,6 +86,13 @@ class Shelf (object):
         self.file.seek(len(self.prefix))
         n = read_int8(self.file) # bytes in first transaction
         self.file.seek(self.file.tell() + n)
+        if n > 0:
+            # Don't make an empty offset map for a file that was cut before it.
+            offset_map_start = self.file.tell()
+            self.file.seek_end()
+            if self.file.tell() <= offset_map_start:
+                raise ShortRead("The offset map is missing.")
+            self.file.seek(offset_map_start)
         self.offset_map = OffsetMap(self.file)
         # Initialize the memory index.
         self.memory_index = {}
-- 
2.43.0


From a026b14651216f9e1bac7e38473800aac6115cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:28 +0000
Subject: [PATCH 18/41] fix: refuse a shelf that was cut inside its offset map

The missing part was filled in when the file was opened, so that the file
was written to, and objects were not found.
---
 durus/shelf.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/durus/shelf.py b/durus/shelf.py
index e6d342e..954fa4f 100755
--- a/durus/shelf.py
+++ b/durus/shelf.py
@@ -87,11 +87,12 @@ class Shelf (object):
         n = read_int8(self.file) # bytes in first transaction
         self.file.seek(self.file.tell() + n)
         if n > 0:
-            # Don't make an empty offset map for a file that was cut before it.
+            # Don't complete the offset map of a file that was cut in it.
             offset_map_start = self.file.tell()
+            offset_map_end = read_int8(self.file) + self.file.tell()
             self.file.seek_end()
-            if self.file.tell() <= offset_map_start:
-                raise ShortRead("The offset map is missing.")
+            if self.file.tell() < offset_map_end:
+                raise ShortRead("The offset map is incomplete.")
             self.file.seek(offset_map_start)
         self.offset_map = OffsetMap(self.file)
         # Initialize the memory index.
-- 
2.43.0


From 59ca38785aea2511fb2708fa696826c9ae43774d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:06 +0000
Subject: [PATCH 19/41] fix: keep a BTree balanced when an item between two
 small nodes is deleted

The minimal item was deleted from the upper node although that node had the
minimal number of items itself, so that it could lose a level before it was
merged.  The tree was then damaged, or the deletion raised an error.
---
 durus/btree.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/durus/btree.py b/durus/btree.py
index 1b51ac2..4dd94a5 100644
--- a/durus/btree.py
+++ b/durus/btree.py
@@ -238,15 +238,16 @@ class BNode(PersistentObject):
                     self.items[p] = extreme
                 else:
                     # Case 2c.
-                    extreme = upper_sibling.get_min_item()
-                    upper_sibling.delete(extreme[0])
-                    node.items = node.items + [extreme] + upper_sibling.items
+                    node.items = (
+                        node.items + [self.items[p]] + upper_sibling.items
+                    )
                     if not node.is_leaf():
                         node.nodes = node.nodes + upper_sibling.nodes
-                    node._count += upper_sibling._count
-                    self._count -= 1
+                    node._count += upper_sibling._count + 1
                     del self.items[p]
                     del self.nodes[p + 1]
+                    node.delete(key)
+                    self._count -= 1
                 self._p_note_change()
             else:
                 if not is_big(node):
-- 
2.43.0


From d5bf21c7b6b711e372950a58315d9fe324e0ec6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:06 +0000
Subject: [PATCH 20/41] fix: make a DurusKeyError printable

---
 durus/error.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/durus/error.py b/durus/error.py
index 30632b8..07c5236 100644
--- a/durus/error.py
+++ b/durus/error.py
@@ -11,7 +11,7 @@ class DurusKeyError (KeyError, DurusError):
     """Key not found in database."""
 
     def __str__(self):
-        first_oid = self.oids[0]
+        first_oid = self.args[0]
         return str(first_oid and str_to_int8(first_oid))
 
 
-- 
2.43.0


From a27dac703fe80889a46c01c8c0685e27b6399f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:06 +0000
Subject: [PATCH 21/41] fix: tell the other clients of a commit even if its
 client has gone

When writing the status failed, the commit was in the storage but the other
clients never got the invalidations.
---
 durus/storage_server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/durus/storage_server.py b/durus/storage_server.py
index 44804bf..307f7ee 100755
--- a/durus/storage_server.py
+++ b/durus/storage_server.py
@@ -416,12 +416,12 @@ class StorageServer (object):
             self._report_load_record()
             log(20, 'Committed %3s objects %s bytes at %s',
                 len(oids), len(tdata), datetime.now())
-            write(s, STATUS_OKAY)
             client.unused_oids -= oid_set
             for c in self.clients:
                 if c is not client:
                     c.invalid.update(oids)
             self.bytes_since_pack += len(tdata) + 8
+            write(s, STATUS_OKAY)
 
     def _report_load_record(self):
         if self.load_record and is_logging(5):
-- 
2.43.0


From 49974154261038b37499e955c9b7ce392ffc8f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:06 +0000
Subject: [PATCH 22/41] fix: keep serving when a connection can not be accepted

---
 durus/storage_server.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/durus/storage_server.py b/durus/storage_server.py
index 307f7ee..dfedc2e 100755
--- a/durus/storage_server.py
+++ b/durus/storage_server.py
@@ -274,8 +274,16 @@ class StorageServer (object):
                 for s in r:
                     if s is sock:
                         # new connection
-                        conn, addr = s.accept()
-                        self.address.set_connection_options(conn)
+                        conn = None
+                        try:
+                            conn, addr = s.accept()
+                            self.address.set_connection_options(conn)
+                        except socket.error:
+                            # The client has gone, or there are too many.
+                            log(10, 'accept: %s', sys.exc_info()[1])
+                            if conn is not None:
+                                conn.close()
+                            continue
                         self.clients.append(_Client(conn, addr))
                         self.sockets.append(conn)
                     else:
-- 
2.43.0


From 1f1e9a69d17cc294617ac185fde6bce0389015ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:06 +0000
Subject: [PATCH 23/41] fix: keep serving after any error in the handling of a
 client

A malformed commit or an error of a storage that is not an IOError ended the
server.  What was stored of an incomplete commit is forgotten, because it
would keep a pack from being started.
---
 durus/storage_server.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/durus/storage_server.py b/durus/storage_server.py
index dfedc2e..705a34a 100755
--- a/durus/storage_server.py
+++ b/durus/storage_server.py
@@ -290,13 +290,14 @@ class StorageServer (object):
                         # command from client
                         try:
                             self.handle(s)
-                        except (ClientError, socket.error, socket.timeout,
-                            IOError):
+                        except Exception:
                             exc = sys.exc_info()[1]
                             log(10, '%s', ''.join(map(str, exc.args)))
                             self.sockets.remove(s)
                             self.clients.remove(self._find_client(s))
                             s.close()
+                            # Forget the records of an incomplete commit.
+                            self.storage.begin()
                 if (self.packer is None and
                     0 < self.gcbytes <= self.bytes_since_pack):
                     self.packer = self.storage.get_packer()
-- 
2.43.0


From bd8b3dc8e5df546ac24ab49c9bb39330ea42604a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:06 +0000
Subject: [PATCH 24/41] fix: keep serving when a pack fails

---
 durus/storage_server.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/durus/storage_server.py b/durus/storage_server.py
index 705a34a..7e49e13 100755
--- a/durus/storage_server.py
+++ b/durus/storage_server.py
@@ -300,7 +300,10 @@ class StorageServer (object):
                             self.storage.begin()
                 if (self.packer is None and
                     0 < self.gcbytes <= self.bytes_since_pack):
-                    self.packer = self.storage.get_packer()
+                    try:
+                        self.packer = self.storage.get_packer()
+                    except Exception:
+                        self._gc_failed()
                     if self.packer is not None:
                         log(20, 'gc started at %s' % datetime.now())
                 if not r and self.packer is not None:
@@ -312,9 +315,16 @@ class StorageServer (object):
                         log(20, 'gc at %s' % datetime.now())
                         self.packer = None # done packing
                         self.bytes_since_pack = 0 # reset
+                    except Exception:
+                        self._gc_failed()
         finally:
             self.address.close(sock)
 
+    def _gc_failed(self):
+        log(20, 'gc failed: %s', sys.exc_info()[1])
+        self.packer = None
+        self.bytes_since_pack = 0 # try again later
+
     def handle(self, s):
         command_byte = read(s, 1)[0]
         if type(command_byte) is int:
-- 
2.43.0


From 53b81fdf7af57f409e1805a51cad0c99ba2cd953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:06 +0000
Subject: [PATCH 25/41] fix: read all responses of a bulk load that ends in an
 error

The responses left in the stream were taken for those of later requests.
---
 durus/client_storage.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/durus/client_storage.py b/durus/client_storage.py
index dc14845..6cb9a50 100644
--- a/durus/client_storage.py
+++ b/durus/client_storage.py
@@ -12,6 +12,7 @@ from durus.storage_server import STATUS_OKAY, STATUS_KEYERROR, STATUS_INVALID
 from durus.utils import int4_to_str, read, write, join_bytes, write_all
 from durus.utils import read_int4, write_int4, write_int4_str, iteritems
 from durus.utils import as_bytes
+import sys
 
 
 class ClientStorage (Storage):
@@ -125,7 +126,16 @@ class ClientStorage (Storage):
         num_oids, remainder = divmod(len(oid_str), 8)
         assert remainder == 0, remainder
         write_all(self.s, 'B', int4_to_str(num_oids), oid_str)
-        records = [self._get_load_response(oid) for oid in oids]
+        records = []
+        error = None
+        for oid in oids:
+            # Read every response, to stay in step with the server.
+            try:
+                records.append(self._get_load_response(oid))
+            except (ReadConflictError, DurusKeyError):
+                error = error or sys.exc_info()[1]
+        if error is not None:
+            raise error
         for record in records:
             yield record
 
-- 
2.43.0


From 83868d5a98f931ade9cc7faa13a5a77ccf83d0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:20 +0000
Subject: [PATCH 26/41] fix: make new objects new again when a commit fails for
 any reason

After an error other than a conflict they kept their identifiers, so that
they were not stored by a later commit of objects that refer to them.
---
 durus/connection.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/durus/connection.py b/durus/connection.py
index 9045761..2d7dd5a 100644
--- a/durus/connection.py
+++ b/durus/connection.py
@@ -274,21 +274,33 @@ class Connection (ConnectionBase):
                         data, refs = writer.get_state(obj)
                         self.storage.store(oid, pack_record(oid, data, refs))
                         obj._p_set_status_saved()
+                except:
+                    for obj in writer.objects_found:
+                        new_objects[obj._p_oid] = obj
+                    self._forget_new_objects(new_objects)
+                    raise
                 finally:
                     writer.close()
             try:
                 self.storage.end(self._handle_invalidations)
-            except ConflictError:
-                for oid, obj in iteritems(new_objects):
-                    obj._p_oid = None
-                    del self.cache[oid]
-                    obj._p_set_status_unsaved()
-                    obj._p_connection = None
+            except:
+                self._forget_new_objects(new_objects)
                 raise
             self.changed.clear()
         self.shrink_cache()
         self.transaction_serial += 1
 
+    def _forget_new_objects(self, new_objects):
+        """({oid:str : PersistentObject})
+        These are not stored, because the commit failed.
+        """
+        for oid, obj in iteritems(new_objects):
+            obj._p_oid = None
+            del self.cache[oid]
+            obj._p_set_status_unsaved()
+            obj._p_connection = None
+        self.storage.begin() # Forget the records, too.
+
     def _handle_invalidations(self, oids, read_oid=None):
         """(oids:[str], read_oid:str=None)
         Check if any of the oids are for objects that were accessed during
-- 
2.43.0


From b1b9ef85a2b8949b23f02793605c9d7f622a5319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:20 +0000
Subject: [PATCH 27/41] fix: report a conflict on an object that was changed
 without being read

An invalidation of such an object in the course of a read conflict failed
with an AssertionError.
---
 durus/connection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/durus/connection.py b/durus/connection.py
index 2d7dd5a..6cbc15d 100644
--- a/durus/connection.py
+++ b/durus/connection.py
@@ -215,6 +215,8 @@ class Connection (ConnectionBase):
         made into ghosts, on abort.
         """
         # assert obj._p_connection is self
+        # A change is an access, even if no attribute has been read.
+        _setattribute(obj, '_p_serial', self.transaction_serial)
         self.changed[obj._p_oid] = obj
 
     def shrink_cache(self):
-- 
2.43.0


From 2d979a2ec01149d4bc3766b185f29957d33aa3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:20 +0000
Subject: [PATCH 28/41] fix: never give a crawled object the state of before a
 sync

The records of a batch are loaded at once.  When the generator was continued
after a commit, an abort or a read conflict, objects got obsolete states that
no invalidation would ever correct.
---
 durus/connection.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/durus/connection.py b/durus/connection.py
index 6cbc15d..c2b5cc5 100644
--- a/durus/connection.py
+++ b/durus/connection.py
@@ -60,6 +60,7 @@ class Connection (ConnectionBase):
         self.reader = ObjectReader(self)
         self.changed = {}
         self.invalid_oids = set()
+        self.sync_count = 0
         self.new_oid = storage.new_oid # needed by serialize
         self.cache = Cache(cache_size)
         self.root = self.get(ROOT_OID)
@@ -161,10 +162,18 @@ class Connection (ConnectionBase):
         """
         oid_record_sequence = self.storage.gen_oid_record(
             start_oid=start_oid, batch_size=batch_size)
+        serial = (self.transaction_serial, self.sync_count)
         for oid, record in oid_record_sequence:
             obj = self.cache.get(oid)
             if obj is not None and not obj._p_is_ghost():
                 yield obj
+            elif serial != (self.transaction_serial, self.sync_count):
+                # The record may have been loaded before the last sync.
+                obj = self.get(oid)
+                if obj is not None:
+                    if obj._p_is_ghost():
+                        self.load_state(obj)
+                    yield obj
             else:
                 record_oid, data, refdata = unpack_record(record)
                 if obj is None:
@@ -233,6 +242,7 @@ class Connection (ConnectionBase):
         Process all invalid_oids so that all non-ghost objects are current.
         """
         invalid_oids = self.storage.sync()
+        self.sync_count += 1
         self.invalid_oids.update(invalid_oids)
         for oid in self.invalid_oids:
             obj = self.cache.get(oid)
@@ -309,6 +319,7 @@ class Connection (ConnectionBase):
         this transaction.  If so, raise the appropriate conflict exception.
         """
         conflicts = []
+        self.sync_count += 1
         for oid in oids:
             obj = self.cache.get(oid)
             if obj is None:
-- 
2.43.0


From 8edd2d2d6256f1607cd69f8991019e65dab00dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:51 +0000
Subject: [PATCH 29/41] fix: never remove the socket of another server when a
 server ends

Between the close and the unlink, a new server could take the name over.
---
 durus/storage_server.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/durus/storage_server.py b/durus/storage_server.py
index 7e49e13..75993ae 100755
--- a/durus/storage_server.py
+++ b/durus/storage_server.py
@@ -204,9 +204,10 @@ class UnixDomainSocketAddress (UnixAbstractAddress):
             umask(old_umask)
 
     def close(self, s):
-        s.close()
+        # Unlink first: after the close another server may have the name.
         if exists(self.filename):
             unlink(self.filename)
+        s.close()
 
 
 class InheritedSocket(SocketAddress):
-- 
2.43.0


From 86e2694a292fa46baa91acacef85ab765dfe97e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:19 +0000
Subject: [PATCH 30/41] fix: let a traversal of a FileStorage2 continue over
 commits

---
 durus/file_storage2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/durus/file_storage2.py b/durus/file_storage2.py
index 56cb4c4..22fa864 100644
--- a/durus/file_storage2.py
+++ b/durus/file_storage2.py
@@ -203,7 +203,7 @@ class FileStorage2(Storage):
 
     def gen_oid_record(self, start_oid=None, batch_size=100):
         if start_oid is None:
-            for oid, offset in iteritems(self.index):
+            for oid in list(self.index):
                 yield oid, self.load(oid)
         else:
             for item in Storage.gen_oid_record(
-- 
2.43.0


From d1cced3eff2c73ec2ff582bccc1209862af3d5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:19 +0000
Subject: [PATCH 31/41] fix: store slots declared with a single string and
 private slots

---
 durus/persistent.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/durus/persistent.py b/durus/persistent.py
index 17aabb6..47e2dae 100644
--- a/durus/persistent.py
+++ b/durus/persistent.py
@@ -141,7 +141,15 @@ class PersistentObject (PersistentBase):
         """
         for klass in self.__class__.__mro__:
             if klass is not PersistentBase:
-                for name in getattr(klass, '__slots__', []):
+                names = klass.__dict__.get('__slots__', ())
+                if isinstance(names, str):
+                    names = (names,) # the declaration of a single slot
+                for name in names:
+                    if name.startswith('__') and not name.endswith('__'):
+                        # The attribute of a private slot has a mangled name.
+                        prefix = klass.__name__.lstrip('_')
+                        if prefix:
+                            name = '_%s%s' % (prefix, name)
                     if (name not in ('__weakref__', '__dict__') and
                         _hasattribute(self, name)):
                         yield name
-- 
2.43.0


From 824d2b88db037f8c81418e9af5133ad6980003ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:21 +0000
Subject: [PATCH 32/41] fix: never generate an item of a shelf twice

---
 durus/shelf.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/durus/shelf.py b/durus/shelf.py
index 954fa4f..990480e 100755
--- a/durus/shelf.py
+++ b/durus/shelf.py
@@ -277,13 +277,16 @@ class Shelf (object):
             return item[1]
 
     def iterindex(self):
+        # The memory_index may change between steps: an item of the
+        # offset_map that gets there must not be generated again.
+        names = dict(self.memory_index)
         for n, position in iteritems(self.offset_map):
             if position < self.offset_map.get_start():
                 name = int8_to_str(n)
-                if name not in self.memory_index:
-                    yield name, position
-        for item in list(self.memory_index.items()):
-            yield item
+                if name not in names:
+                    yield name, self.memory_index.get(name, position)
+        for name in names:
+            yield name, self.memory_index[name]
 
     def __iter__(self):
         for name, position in self.iterindex():
-- 
2.43.0


From 8bc8cf9639cecba927dbac437c5a02253c394fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:57 +0000
Subject: [PATCH 33/41] fix: never take a BTree for empty after deleting a
 missing key

---
 durus/btree.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/durus/btree.py b/durus/btree.py
index 4dd94a5..d30b95f 100644
--- a/durus/btree.py
+++ b/durus/btree.py
@@ -299,8 +299,15 @@ class BNode(PersistentObject):
                     node._p_note_change()
                 assert is_big(node)
                 old_count = node._count
-                node.delete(key)
-                self._count += node._count - old_count
+                try:
+                    node.delete(key)
+                finally:
+                    self._count += node._count - old_count
+                    if not self.items:
+                        # The root's last two nodes were merged above,
+                        # and maybe there is no item with this key.
+                        self.items = node.items
+                        self.nodes = node.nodes
             if not self.items:
                 # This can happen when self is the root node.
                 self.items = self.nodes[0].items
-- 
2.43.0


From fcb4b00565c975ae124736e02b3765b14b583ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:44 +0000
Subject: [PATCH 34/41] fix: never produce an object of a removed class in a
 traversal

---
 durus/connection.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/durus/connection.py b/durus/connection.py
index c2b5cc5..daa5a6f 100644
--- a/durus/connection.py
+++ b/durus/connection.py
@@ -136,6 +136,17 @@ class Connection (ConnectionBase):
         obj = self.cache.get(oid)
         if obj is not None:
             return obj
+        return self._get_loaded(oid)
+
+    def _get_loaded(self, oid):
+        """(oid:str) -> PersistentObject | None
+        Return object for `oid`, with its state loaded.
+        A ghost in the cache may be left of a removed object, of another
+        class, whose oid was used again: it is replaced.
+        """
+        obj = self.cache.get(oid)
+        if obj is not None and not obj._p_is_ghost():
+            return obj
         try:
             data = self.get_stored_pickle(oid)
         except KeyError:
@@ -169,16 +180,13 @@ class Connection (ConnectionBase):
                 yield obj
             elif serial != (self.transaction_serial, self.sync_count):
                 # The record may have been loaded before the last sync.
-                obj = self.get(oid)
+                obj = self._get_loaded(oid)
                 if obj is not None:
-                    if obj._p_is_ghost():
-                        self.load_state(obj)
                     yield obj
             else:
                 record_oid, data, refdata = unpack_record(record)
-                if obj is None:
-                    klass = loads(data)
-                    obj = self.cache.get_instance(oid, klass, self)
+                klass = loads(data)
+                obj = self.cache.get_instance(oid, klass, self)
                 state = self.reader.get_state(data, load=True)
                 obj.__setstate__(state)
                 obj._p_set_status_saved()
@@ -502,7 +510,7 @@ def touch_every_reference(connection, *words):
     of the given words.  This is useful when you move or rename a class,
     so that all references can be updated.
     """
-    get = connection.get
+    get = connection._get_loaded
     reader = ObjectReader(connection)
     words = [as_bytes(w) for w in words]
     for oid, record in connection.get_storage().gen_oid_record():
@@ -520,4 +528,4 @@ def gen_every_instance(connection, *classes):
         record_oid, state, refs = unpack_record(record)
         record_class = loads(state)
         if issubclass(record_class, classes):
-            yield connection.get(oid)
+            yield connection._get_loaded(oid)
-- 
2.43.0


From 7c823f1bc4aa30ff2d740c9110b3ea9667f9dbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:36 +0000
Subject: [PATCH 35/41] fix: forget new objects also when their oids had been
 used before

---
 durus/connection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/durus/connection.py b/durus/connection.py
index daa5a6f..c7c9fb0 100644
--- a/durus/connection.py
+++ b/durus/connection.py
@@ -316,7 +316,9 @@ class Connection (ConnectionBase):
         """
         for oid, obj in iteritems(new_objects):
             obj._p_oid = None
-            del self.cache[oid]
+            if self.cache.get(oid) is obj:
+                del self.cache[oid]
+            # (else, it is a ghost of a removed object)
             obj._p_set_status_unsaved()
             obj._p_connection = None
         self.storage.begin() # Forget the records, too.
-- 
2.43.0


From b3a61e0dc2a20f0c3b2ea3233865596dd13bbc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:11 +0000
Subject: [PATCH 36/41] fix: count the items of a subtree that moves between
 nodes of a BTree

---
 durus/btree.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/durus/btree.py b/durus/btree.py
index d30b95f..bfa50d5 100644
--- a/durus/btree.py
+++ b/durus/btree.py
@@ -207,7 +207,8 @@ class BNode(PersistentObject):
         """
         def is_big(node):
             # Precondition for recursively calling node.delete(key).
-            return node and len(node.items) >= node.minimum_degree
+            return (node is not None and
+                    len(node.items) >= node.minimum_degree)
         p = self.get_position(key)
         matches = p < len(self.items) and self.items[p][0] == key
         if self.is_leaf():
@@ -220,8 +221,9 @@ class BNode(PersistentObject):
                 raise KeyError(key)
         else:
             node = self.nodes[p]
-            lower_sibling = p > 0 and self.nodes[p - 1]
-            upper_sibling = p < len(self.nodes) - 1 and self.nodes[p + 1]
+            lower_sibling = self.nodes[p - 1] if p > 0 else None
+            upper_sibling = (
+                self.nodes[p + 1] if p < len(self.nodes) - 1 else None)
             if matches:
                 # Case 2.
                 if is_big(node):
@@ -253,27 +255,37 @@ class BNode(PersistentObject):
                 if not is_big(node):
                     if is_big(lower_sibling):
                         # Case 3a1: Shift an item from lower_sibling.
+                        if not node.is_leaf():
+                            moved = lower_sibling.nodes[-1]
+                            moved_count = moved._count
                         node.items.insert(0, self.items[p - 1])
                         node._count += 1
                         self.items[p - 1] = lower_sibling.items[-1]
                         del lower_sibling.items[-1]
                         lower_sibling._count -= 1
                         if not node.is_leaf():
-                            node.nodes.insert(0, lower_sibling.nodes[-1])
+                            node._count += moved_count
+                            lower_sibling._count -= moved_count
+                            node.nodes.insert(0, moved)
                             del lower_sibling.nodes[-1]
                         lower_sibling._p_note_change()
                     elif is_big(upper_sibling):
                         # Case 3a2: Shift an item from upper_sibling.
+                        if not node.is_leaf():
+                            moved = upper_sibling.nodes[0]
+                            moved_count = moved._count
                         node.items.append(self.items[p])
                         node._count += 1
                         self.items[p] = upper_sibling.items[0]
                         del upper_sibling.items[0]
                         upper_sibling._count -= 1
                         if not node.is_leaf():
-                            node.nodes.append(upper_sibling.nodes[0])
+                            node._count += moved_count
+                            upper_sibling._count -= moved_count
+                            node.nodes.append(moved)
                             del upper_sibling.nodes[0]
                         upper_sibling._p_note_change()
-                    elif lower_sibling:
+                    elif lower_sibling is not None:
                         # Case 3b1: Merge with lower_sibling
                         node.items = (
                             lower_sibling.items
-- 
2.43.0


From 13616d415a73af6940b8dba83ddfeaebbe2f33c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:34 +0000
Subject: [PATCH 37/41] fix: mark nodes of a BTree as changed before an
 operation may fail

---
 durus/btree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/durus/btree.py b/durus/btree.py
index bfa50d5..8614be7 100644
--- a/durus/btree.py
+++ b/durus/btree.py
@@ -175,11 +175,11 @@ class BNode(PersistentObject):
             bigger.nodes = child.nodes[middle + 1 :]
             child.nodes = child.nodes[: middle + 1]
             assert len(bigger.nodes) == len(child.nodes)
+        self._p_note_change() # bigger._update_count() may fail.
         self.items.insert(position, splitting_key)
         self.nodes.insert(position + 1, bigger)
         bigger._update_count()
         child._count -= bigger._count + 1
-        self._p_note_change()
 
     def get_min_item(self):
         """() -> (key:anything, value:anything)
@@ -248,6 +248,7 @@ class BNode(PersistentObject):
                     node._count += upper_sibling._count + 1
                     del self.items[p]
                     del self.nodes[p + 1]
+                    self._p_note_change() # node.delete() may fail.
                     node.delete(key)
                     self._count -= 1
                 self._p_note_change()
-- 
2.43.0


From 4816414656958511fd9e627f01f53c3f532a0502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:02 +0000
Subject: [PATCH 38/41] fix: describe a Unix socket address whose file vanishes
 meanwhile

str() of the address raised FileNotFoundError when a server removed its
socket between exists() and stat(), so that a waiting client ended with
that error.
---
 durus/storage_server.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/durus/storage_server.py b/durus/storage_server.py
index 75993ae..d9806ea 100755
--- a/durus/storage_server.py
+++ b/durus/storage_server.py
@@ -150,8 +150,11 @@ class UnixDomainSocketAddress (UnixAbstractAddress):
 
     def __str__(self):
         result = self.filename
-        if exists(self.filename):
+        try:
             filestat = stat(self.filename)
+        except OSError:
+            pass # There is no such file (any more).
+        else:
             uid = filestat.st_uid
             gid = filestat.st_gid
             rwx = ['---', '--x', '-w-', '-wx', 'r--', 'r-x', 'rw-', 'rwx']
-- 
2.43.0


From d1f41f0754fba2ae01a9235ee6dfcc722edffc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:32 +0000
Subject: [PATCH 39/41] fix: do not crash on an attribute name that is not
 valid in UTF-8

---
 durus/_persistent.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/durus/_persistent.c b/durus/_persistent.c
index c61a3ff..4fe0c6f 100644
--- a/durus/_persistent.c
+++ b/durus/_persistent.c
@@ -97,6 +97,11 @@ pb_clear(PersistentBaseObject *self)
 static int
 load_triggering_name(const char *s)
 {
+	if (s == NULL) {
+		/* The name can not be encoded, so it is none of these. */
+		PyErr_Clear();
+		return 1;
+	}
 	if (*s++ != '_')
 		return 1;
 	if (*s == 'p') {
-- 
2.43.0


From 5f5f0c549ad133e3fd95920d1f275e1b2a6a24d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:32 +0000
Subject: [PATCH 40/41] fix: revert values in the old nodes when
 set_bnode_minimum_degree() is aborted

---
 durus/btree.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/durus/btree.py b/durus/btree.py
index 8614be7..82955fe 100644
--- a/durus/btree.py
+++ b/durus/btree.py
@@ -611,6 +611,13 @@ class BTree(PersistentObject, collections.abc.MutableMapping):
                 if bnode_class.minimum_degree == degree:
                     new_tree = BTree(node_constructor=bnode_class)
                     new_tree.update(self)
+                    # The old nodes share their values with the new ones, so
+                    # an abort must revert them too.
+                    nodes = [self.root]
+                    while nodes:
+                        node = nodes.pop()
+                        node._p_note_change()
+                        nodes.extend(node.nodes or [])
                     self.root = new_tree.root
                     return True
         return False
-- 
2.43.0


From b53f08dced50234d880db14e9e2f25c877f03074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:15 +0000
Subject: [PATCH 41/41] fix: name an abstract socket inherited from systemd

---
 durus/storage_server.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/durus/storage_server.py b/durus/storage_server.py
index d9806ea..a491e83 100755
--- a/durus/storage_server.py
+++ b/durus/storage_server.py
@@ -218,9 +218,9 @@ class InheritedSocket(SocketAddress):
         self.name = sock.getsockname()
 
     def __str__(self):
-        if isinstance(self.name, bytes) and '\0' in self.name:
+        if isinstance(self.name, bytes) and b'\0' in self.name:
             # Linux extension, abstract namespace
-            path = self.name.replace('\0', '@')
+            path = self.name.replace(b'\0', b'@')
             try:
                 path = path.decode(sys.getfilesystemencoding())
             except:
-- 
2.43.0

