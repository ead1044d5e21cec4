From e168d6e2c22e2d3570d9a758fc341155a0bee3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:11 +0000
Subject: [PATCH 01/48] fix: DecompressMemMapReader.read returned more or less
 than requested

When part of a read was served from the header buffer, these bytes were
subtracted twice from what was left to read, which returned too few bytes, or
everything that remained if the difference became negative. A window into the
compressed data without any content made read() return nothing, which
signals the end of the stream, although more data follows.
---
 gitdb/stream.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index 1e0be84..1ec8bb1 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -281,6 +281,17 @@ class DecompressMemMapReader(LazyMixin):
         # get the actual window end to be sure we don't use it for computations
         self._cwe = self._cws + len(indata)
         dcompdat = self._zip.decompress(indata, size)
+
+        # a window may hold nothing but structural information of the compressed stream, like the header
+        # of a block. Move on until there is data, an empty result would signal the end of the stream.
+        while not dcompdat and not self._zip.eof and self._cwe < len(self._m):
+            self._cbr += len(indata)
+            self._cws = self._cwe
+            indata = self._m[self._cws:self._cws + max(size, 8)]
+            self._cwe = self._cws + len(indata)
+            dcompdat = self._zip.decompress(indata, size)
+        # END skip windows without data
+
         # update the amount of compressed bytes read
         # We feed possibly overlapping chunks, which is why the unconsumed tail
         # has to be taken into consideration, as well as the unused data
@@ -303,6 +314,9 @@ class DecompressMemMapReader(LazyMixin):
         self._cbr += len(indata) - unused_datalen
         self._br += len(dcompdat)
 
+        # 'size' is what is left to deliver after the cached data
+        size -= len(dcompdat)
+        progress = bool(dcompdat)
         if dat:
             dcompdat = dat + dcompdat
         # END prepend our cached data
@@ -313,8 +327,8 @@ class DecompressMemMapReader(LazyMixin):
         # Note: dcompdat can be empty even though we still appear to have bytes
         # to read, if we are called by compressed_bytes_read - it manipulates
         # us to empty the stream
-        if dcompdat and (len(dcompdat) - len(dat)) < size and self._br < self._s:
-            dcompdat += self.read(size - len(dcompdat))
+        if progress and size > 0 and self._br < self._s:
+            dcompdat += self.read(size)
         # END handle special case
         return dcompdat
 
-- 
2.43.0


From 0b0edc9a52b2b2c7c62ccb65719d5f55eac1dd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:11 +0000
Subject: [PATCH 02/48] fix: DecompressMemMapReader.seek kept data buffered
 before the rewind

The remainder of the header buffer was taken for the beginning of the stream,
so that parsing the header failed or read wrong information from it.
---
 gitdb/stream.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index 1ec8bb1..86e25f4 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -206,6 +206,8 @@ class DecompressMemMapReader(LazyMixin):
 
         self._zip = zlib.decompressobj()
         self._br = self._cws = self._cwe = self._cbr = 0
+        self._buf = None
+        self._buflen = 0
         if self._phi:
             self._phi = False
             del(self._s)        # trigger header parsing on first access
-- 
2.43.0


From 069b744af9fe99ce4b46d2bbf1c2e7b53a372313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:11 +0000
Subject: [PATCH 03/48] fix: DecompressMemMapReader.compressed_bytes_read never
 returned for empty objects

Reads are clamped to the size of the object, thus there was no progress in the
loop that looks for the end of the compressed stream, and iterating a pack with
an empty blob did not end.
---
 gitdb/stream.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index 86e25f4..530a9ff 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -183,6 +183,8 @@ class DecompressMemMapReader(LazyMixin):
             else:
                 # pass in additional pages, until we have unused data
                 while not self._zip.unused_data and self._cbr != len(self._m):
+                    # there always has to be a page left to read, even if the object is empty
+                    self._br = self._s - mmap.PAGESIZE
                     self.read(mmap.PAGESIZE)
                 # END scrub-loop default zlib
             # END handle stream scrubbing
-- 
2.43.0


From 46909a15c63b62634bae85346b5a4e86eb98faf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:11 +0000
Subject: [PATCH 04/48] fix: resolve offset deltas which are the base of a
 reference delta

The distance to the base was used as absolute offset into the pack.
---
 gitdb/pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index e559e11..31a7042 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -889,7 +889,7 @@ class PackEntity(LazyMixin):
                     # must be another OFS DELTA - this could happen if a REF
                     # delta we resolve previously points to an OFS delta. Who
                     # would do that ;) ? We can handle it though
-                    stream = self._pack.stream(stream.delta_info)
+                    stream = self._pack.stream(stream.pack_offset - stream.delta_info)
                     streams.append(stream)
                 # END handle ref delta
             # END resolve ref streams
-- 
2.43.0


From d19f2a1ddc39cc64b9bdc4fb8bfa364235781c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:11 +0000
Subject: [PATCH 05/48] fix: detect ambiguous abbreviated names within a single
 pack index

The following entry was compared to the found one instead of the prefix.
---
 gitdb/pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index 31a7042..206db2d 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -484,7 +484,7 @@ class PackIndexFile(LazyMixin):
                 next_sha = None
                 if lo + 1 < self.size():
                     next_sha = get_sha(lo + 1)
-                if next_sha and next_sha == cur_sha:
+                if next_sha and is_equal_canonical_sha(canonical_length, partial_bin_sha, next_sha):
                     raise AmbiguousObjectName(partial_bin_sha)
                 return lo
             # END if we have a match
-- 
2.43.0


From d0f8b612c549c4d1b9324a6a5a0a8dfdd4b0f568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:11 +0000
Subject: [PATCH 06/48] fix: PackIndexFile.offsets returned table indices in
 place of 64 bit offsets

This made verifying objects of packs larger than 2 GiB by their crc fail.
---
 gitdb/pack.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index 206db2d..197e942 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -409,6 +409,10 @@ class PackIndexFile(LazyMixin):
             # networkbyteorder to something array likes more
             if sys.byteorder == 'little':
                 a.byteswap()
+
+            # the high-bit marks an index into the table of 64 bit offsets
+            if any(offset & 0x80000000 for offset in a):
+                return tuple(self.offset(index) for index in range(self.size()))
             return a
         else:
             return tuple(self.offset(index) for index in range(self.size()))
-- 
2.43.0


From 22656c7a00cc27103b4c411d204dfd29a8d1c476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:12 +0000
Subject: [PATCH 07/48] fix: refuse deltas which do not fit their base

A copy from beyond the end of the base was ignored if it was the last
instruction, and neither the size of the base nor the size of the result were
compared to what the delta declares, so wrong data was returned.
---
 gitdb/fun.py    |  2 +-
 gitdb/stream.py | 11 ++++++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/gitdb/fun.py b/gitdb/fun.py
index a272e5c..40e65e2 100644
--- a/gitdb/fun.py
+++ b/gitdb/fun.py
@@ -664,7 +664,7 @@ def apply_delta_data(src_buf, src_buf_size, delta_buf, delta_buf_size, write):
             rbound = cp_off + cp_size
             if (rbound < cp_size or
                     rbound > src_buf_size):
-                break
+                raise ValueError("delta copies data from beyond the end of its base")
             write(src_buf[cp_off:cp_off + cp_size])
         elif c:
             write(db[i:i + c])
diff --git a/gitdb/stream.py b/gitdb/stream.py
index 530a9ff..a28c20f 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -449,6 +449,9 @@ class DeltaApplyReader(LazyMixin):
         # We need random access to it
         bbuf = allocate_memory(base_size)
         stream_copy(self._bstream.read, bbuf.write, base_size, 256 * mmap.PAGESIZE)
+        base_size = bbuf.tell()         # size of the data the next delta applies to
+        if base_size != self._bstream.size:
+            raise ValueError("delta base is incomplete")
 
         # allocate memory map large enough for the largest (intermediate) target
         # We will use it as scratch space for all delta ops. If the final
@@ -471,12 +474,18 @@ class DeltaApplyReader(LazyMixin):
             ddata.write(dbuf)
             # read the rest from the stream. The size we give is larger than necessary
             stream_copy(dstream.read, ddata.write, dstream.size, 256 * mmap.PAGESIZE)
+            if ddata.tell() != len(ddata):
+                raise ValueError("delta is incomplete")
+            if src_size != base_size:
+                raise ValueError("delta does not apply to a base of size %i" % base_size)
 
             #######################################################################
             if 'c_apply_delta' in globals():
                 c_apply_delta(bbuf, ddata, tbuf)
             else:
                 apply_delta_data(bbuf, src_size, ddata, len(ddata), tbuf.write)
+                if tbuf.tell() != target_size:
+                    raise ValueError("delta did not produce the expected amount of data")
             #######################################################################
 
             # finally, swap out source and target buffers. The target is now the
@@ -484,7 +493,7 @@ class DeltaApplyReader(LazyMixin):
             bbuf, tbuf = tbuf, bbuf
             bbuf.seek(0)
             tbuf.seek(0)
-            final_target_size = target_size
+            base_size = final_target_size = target_size
         # END for each delta to apply
 
         # its already seeked to 0, constrain it to the actual size
-- 
2.43.0


From 90d95da7bc4d0ea0b9eba150aada0e0513c01b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:31 +0000
Subject: [PATCH 08/48] fix: refuse delta chains which refer to themselves

Collecting the streams of such a chain did not end, using up all memory.
---
 gitdb/pack.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index 197e942..d9018de 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -613,6 +613,8 @@ class PackFile(LazyMixin):
             ostream = pack_object_at(c, offset, True)[1]
             out.append(ostream)
             if ostream.type_id == OFS_DELTA:
+                if not ostream.delta_info:
+                    raise ParseError("Offset delta at %i refers to itself" % offset)
                 offset = ostream.pack_offset - ostream.delta_info
             else:
                 # the only thing we can lookup are OFFSET deltas. Everything
@@ -879,6 +881,8 @@ class PackEntity(LazyMixin):
         if streams[-1].type_id == REF_DELTA:
             stream = streams[-1]
             while stream.type_id in delta_types:
+                if any(s.pack_offset == stream.pack_offset for s in streams[:-1]):
+                    raise ParseError("Delta chain at %i refers to itself" % offset)
                 if stream.type_id == REF_DELTA:
                     # smmap can return memory view objects, which can't be compared as buffers/bytes can ...
                     if isinstance(stream.delta_info, memoryview):
-- 
2.43.0


From 19746917007f526e628de381ca4cf2c235f76889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:31 +0000
Subject: [PATCH 09/48] fix: FDStream lost data on partial writes and could not
 read everything

os.write may write less than it was given. Reading without a count failed as
it accessed an attribute that does not exist.
---
 gitdb/stream.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index a28c20f..eec5fec 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -716,12 +716,16 @@ class FDStream:
         self._pos = 0
 
     def write(self, data):
-        self._pos += len(data)
-        os.write(self._fd, data)
+        data = memoryview(data)
+        while len(data):
+            written = os.write(self._fd, data)
+            self._pos += written
+            data = data[written:]
+        # END handle partial writes
 
     def read(self, count=0):
         if count == 0:
-            count = os.path.getsize(self._filepath)
+            count = os.fstat(self._fd).st_size
         # END handle read everything
 
         bytes = os.read(self._fd, count)
-- 
2.43.0


From 453ab1a15f89eeeb1ee3a5b4b61c9d72574c2304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:31 +0000
Subject: [PATCH 10/48] fix: FDCompressedSha1Writer.close leaked the file
 descriptor on error

---
 gitdb/stream.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index eec5fec..4043f73 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -696,10 +696,12 @@ class FDCompressedSha1Writer(Sha1Writer):
         return len(data)
 
     def close(self):
-        remainder = self.zip.flush()
-        if write(self.fd, remainder) != len(remainder):
-            raise self.exc
-        return close(self.fd)
+        try:
+            remainder = self.zip.flush()
+            if write(self.fd, remainder) != len(remainder):
+                raise self.exc
+        finally:
+            close(self.fd)
 
     #} END stream interface
 
-- 
2.43.0


From f1f0fd36bdeb5ffb5b99b95bf880712b55856580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:31 +0000
Subject: [PATCH 11/48] fix: FlexibleSha1Writer.write has to return the length
 of the data

Without it, it could not be used as output stream of a database.
---
 gitdb/stream.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index 4043f73..47a7652 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -625,9 +625,11 @@ class FlexibleSha1Writer(Sha1Writer):
         self.writer = writer
 
     def write(self, data):
-        Sha1Writer.write(self, data)
+        alen = Sha1Writer.write(self, data)
         self.writer(data)
 
+        return alen
+
 
 class ZippedStoreShaWriter(Sha1Writer):
 
-- 
2.43.0


From 8e15310cdb26e7d21f64e87275c571ee1c788b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:43 +0000
Subject: [PATCH 12/48] fix: do not take a short read for the end of a stream

Storing and packing stopped at the first read that returned less data than
requested, and objects with less content than their header announces were
written without an error.
---
 gitdb/fun.py  | 15 +++++++++------
 gitdb/pack.py |  3 ++-
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/gitdb/fun.py b/gitdb/fun.py
index 40e65e2..35505e6 100644
--- a/gitdb/fun.py
+++ b/gitdb/fun.py
@@ -501,9 +501,11 @@ def write_object(type, size, read, write, chunk_size=chunk_size):
 
     # WRITE HEADER: type SP size NULL
     tbw += write(loose_object_header(type, size))
-    tbw += stream_copy(read, write, size, chunk_size)
+    dbw = stream_copy(read, write, size, chunk_size)
+    if dbw != size:
+        raise OSError("Expected to read %i bytes of content, got %i" % (size, dbw))
 
-    return tbw
+    return tbw + dbw
 
 
 def stream_copy(read, write, size, chunk_size):
@@ -515,7 +517,7 @@ def stream_copy(read, write, size, chunk_size):
     dbw = 0                                             # num data bytes written
 
     # WRITE ALL DATA UP TO SIZE
-    while True:
+    while dbw < size:
         cs = min(chunk_size, size - dbw)
         # NOTE: not all write methods return the amount of written bytes, like
         # mmap.write. Its bad, but we just deal with it ... perhaps its not
@@ -524,11 +526,12 @@ def stream_copy(read, write, size, chunk_size):
         # dbw += data_len
         data = read(cs)
         data_len = len(data)
-        dbw += data_len
-        write(data)
-        if data_len < cs or dbw == size:
+        # NOTE: less data than requested is not the end of the stream
+        if not data_len:
             break
         # END check for stream end
+        dbw += data_len
+        write(data)
     # END duplicate data
     return dbw
 
diff --git a/gitdb/pack.py b/gitdb/pack.py
index d9018de..fb45810 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -153,7 +153,8 @@ def write_stream_to_pack(read, write, zstream, base_crc=None):
             crc = crc32(compressed, crc)
         # END handle crc
 
-        if len(chunk) != chunk_size:
+        # less data than requested is not the end of the stream
+        if not chunk:
             break
     # END copy loop
 
-- 
2.43.0


From 291c1b02c0dcb61712a32367fe6c171797b34964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:23 +0000
Subject: [PATCH 13/48] fix: PackEntity.create lost data on partial writes and
 left files behind

os.write may write less than it was given, which was ignored. On any error,
the temporary files were kept and their descriptors leaked.
---
 gitdb/pack.py | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index fb45810..a6d88cc 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -1020,20 +1020,32 @@ class PackEntity(LazyMixin):
         :return: PackEntity instance initialized with the new pack
 
         **Note:** for more information on the other parameters see the write_pack method"""
-        pack_fd, pack_path = tempfile.mkstemp('', 'pack', base_dir)
-        index_fd, index_path = tempfile.mkstemp('', 'index', base_dir)
-        pack_write = lambda d: os.write(pack_fd, d)
-        index_write = lambda d: os.write(index_fd, d)
-
-        pack_binsha, index_binsha = cls.write_pack(object_iter, pack_write, index_write, object_count, zlib_compression)
-        os.close(pack_fd)
-        os.close(index_fd)
-
-        fmt = "pack-%s.%s"
-        new_pack_path = os.path.join(base_dir, fmt % (bin_to_hex(pack_binsha), 'pack'))
-        new_index_path = os.path.join(base_dir, fmt % (bin_to_hex(pack_binsha), 'idx'))
-        os.rename(pack_path, new_pack_path)
-        os.rename(index_path, new_index_path)
+        paths = list()                      # files to remove on error
+        try:
+            pack_fd, pack_path = tempfile.mkstemp('', 'pack', base_dir)
+            paths.append(pack_path)
+            # file objects assure that everything is written, or an error is raised
+            with open(pack_fd, 'wb') as pack_file:
+                index_fd, index_path = tempfile.mkstemp('', 'index', base_dir)
+                paths.append(index_path)
+                with open(index_fd, 'wb') as index_file:
+                    pack_binsha, index_binsha = cls.write_pack(
+                        object_iter, pack_file.write, index_file.write, object_count, zlib_compression)
+
+            fmt = "pack-%s.%s"
+            new_pack_path = os.path.join(base_dir, fmt % (bin_to_hex(pack_binsha), 'pack'))
+            new_index_path = os.path.join(base_dir, fmt % (bin_to_hex(pack_binsha), 'idx'))
+            os.rename(pack_path, new_pack_path)
+            paths.remove(pack_path)
+            if not os.path.exists(new_index_path):
+                paths.append(new_pack_path)
+            # Readers ignore the pack until there is an index
+            os.rename(index_path, new_index_path)
+        except BaseException:
+            for path in paths:
+                os.remove(path)
+            raise
+        # END assure there are no leftovers on error
 
         return cls(new_pack_path)
 
-- 
2.43.0


From 39a53ff411d55cf049afb02c05f02fca83b70633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:52 +0000
Subject: [PATCH 14/48] fix: name created packs after their checksum

In python 3, the names contained the representation of a bytes object.
---
 gitdb/pack.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index a6d88cc..edc36f5 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -1033,8 +1033,9 @@ class PackEntity(LazyMixin):
                         object_iter, pack_file.write, index_file.write, object_count, zlib_compression)
 
             fmt = "pack-%s.%s"
-            new_pack_path = os.path.join(base_dir, fmt % (bin_to_hex(pack_binsha), 'pack'))
-            new_index_path = os.path.join(base_dir, fmt % (bin_to_hex(pack_binsha), 'idx'))
+            pack_hexsha = bin_to_hex(pack_binsha).decode('ascii')
+            new_pack_path = os.path.join(base_dir, fmt % (pack_hexsha, 'pack'))
+            new_index_path = os.path.join(base_dir, fmt % (pack_hexsha, 'idx'))
             os.rename(pack_path, new_pack_path)
             paths.remove(pack_path)
             if not os.path.exists(new_index_path):
-- 
2.43.0


From c7e9d5e6f0fa19a6631315d7a3203f4a7c4bd7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:52 +0000
Subject: [PATCH 15/48] fix: ignore packs that have no index

All queries of the database failed once there was such a pack, which is the
case while a pack is being created.
---
 gitdb/db/pack.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gitdb/db/pack.py b/gitdb/db/pack.py
index 274ea59..eae9cb1 100644
--- a/gitdb/db/pack.py
+++ b/gitdb/db/pack.py
@@ -146,7 +146,9 @@ class PackedDB(FileDBBase, ObjectDBR, CachingDB, LazyMixin):
 
         # packs are supposed to be prefixed with pack- by git-convention
         # get all pack files, figure out what changed
-        pack_files = set(glob.glob(os.path.join(self.root_path(), "pack-*.pack")))
+        # A pack without an index is still being written, or was left by an interrupted process
+        pack_files = {path for path in glob.glob(os.path.join(self.root_path(), "pack-*.pack"))
+                      if os.path.exists(os.path.splitext(path)[0] + ".idx")}
         our_pack_files = {item[1].pack().path() for item in self._entities}
 
         # new packs
-- 
2.43.0


From f4ade0a46511e1851d94a19907035e835e43a249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:52 +0000
Subject: [PATCH 16/48] fix: the in-operator of databases raised AttributeError

---
 gitdb/db/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdb/db/base.py b/gitdb/db/base.py
index 7312fe0..245bce2 100644
--- a/gitdb/db/base.py
+++ b/gitdb/db/base.py
@@ -28,7 +28,7 @@ class ObjectDBR:
     Objects are identified either by their 20 byte bin sha"""
 
     def __contains__(self, sha):
-        return self.has_obj
+        return self.has_object(sha)
 
     #{ Query Interface
     def has_object(self, sha):
-- 
2.43.0


From ce756342e219017ce1656293bc2a782ba0d70c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:52 +0000
Subject: [PATCH 17/48] fix: InvalidOInfo could not be instantiated

---
 gitdb/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdb/base.py b/gitdb/base.py
index 9a23a4f..aa95e24 100644
--- a/gitdb/base.py
+++ b/gitdb/base.py
@@ -291,7 +291,7 @@ class InvalidOInfo(tuple):
         return tuple.__new__(cls, (sha, exc))
 
     def __init__(self, sha, exc):
-        tuple.__init__(self, (sha, exc))
+        tuple.__init__(self)
 
     @property
     def binsha(self):
-- 
2.43.0


From 9784a5c6ef59df13b519bdf8c8cd56445fa38355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:52 +0000
Subject: [PATCH 18/48] fix: MemoryDB compressed streams which are in object
 format already

The objects could not be read when copied from one memory database to another.
---
 gitdb/db/mem.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/gitdb/db/mem.py b/gitdb/db/mem.py
index d4772fd..f7b849b 100644
--- a/gitdb/db/mem.py
+++ b/gitdb/db/mem.py
@@ -24,7 +24,10 @@ from gitdb.stream import (
     DecompressMemMapReader,
 )
 
+from gitdb.fun import stream_copy
+
 from io import BytesIO
+import sys
 
 __all__ = ("MemoryDB", )
 
@@ -47,12 +50,18 @@ class MemoryDB(ObjectDBR, ObjectDBW):
         raise UnsupportedOperation("MemoryDB's always stream into memory")
 
     def store(self, istream):
-        zstream = ZippedStoreShaWriter()
-        self._db.set_ostream(zstream)
-
-        istream = self._db.store(istream)
-        zstream.close()     # close to flush
-        zstream.seek(0)
+        if istream.binsha is not None:
+            # the stream is in object format already, it must not be compressed again
+            zstream = BytesIO()
+            stream_copy(istream.read, zstream.write, sys.maxsize, self._db.stream_chunk_size)
+        else:
+            zstream = ZippedStoreShaWriter()
+            self._db.set_ostream(zstream)
+
+            istream = self._db.store(istream)
+            zstream.close()     # close to flush
+            zstream.seek(0)
+        # END handle direct stream copies
 
         # don't provide a size, the stream is written in object format, hence the
         # header needs decompression
-- 
2.43.0


From 3cf525ce17a78534e54cc7482f78cf5e464253b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:33 +0000
Subject: [PATCH 19/48] fix: find packs in directories with pattern characters
 in their name

---
 gitdb/db/pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdb/db/pack.py b/gitdb/db/pack.py
index eae9cb1..67a3b78 100644
--- a/gitdb/db/pack.py
+++ b/gitdb/db/pack.py
@@ -147,7 +147,7 @@ class PackedDB(FileDBBase, ObjectDBR, CachingDB, LazyMixin):
         # packs are supposed to be prefixed with pack- by git-convention
         # get all pack files, figure out what changed
         # A pack without an index is still being written, or was left by an interrupted process
-        pack_files = {path for path in glob.glob(os.path.join(self.root_path(), "pack-*.pack"))
+        pack_files = {path for path in glob.glob(os.path.join(glob.escape(self.root_path()), "pack-*.pack"))
                       if os.path.exists(os.path.splitext(path)[0] + ".idx")}
         our_pack_files = {item[1].pack().path() for item in self._entities}
 
-- 
2.43.0


From c1e46ac3febb7ad84256422a47f2dfc502f0895f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:33 +0000
Subject: [PATCH 20/48] fix: LooseObjectDB.store left its temporary file if it
 could not be moved into place

---
 gitdb/db/loose.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/gitdb/db/loose.py b/gitdb/db/loose.py
index e6765cd..dbed1b8 100644
--- a/gitdb/db/loose.py
+++ b/gitdb/db/loose.py
@@ -220,14 +220,19 @@ class LooseObjectDB(FileDBBase, ObjectDBR, ObjectDBW):
         if tmp_path:
             obj_path = self.db_path(self.object_path(hexsha))
             obj_dir = dirname(obj_path)
-            os.makedirs(obj_dir, exist_ok=True)
-            # END handle destination directory
-            # rename onto existing doesn't work on NTFS
-            if isfile(obj_path):
+            try:
+                os.makedirs(obj_dir, exist_ok=True)
+                # END handle destination directory
+                # rename onto existing doesn't work on NTFS
+                if isfile(obj_path):
+                    remove(tmp_path)
+                else:
+                    rename(tmp_path, obj_path)
+                # end rename only if needed
+            except:
                 remove(tmp_path)
-            else:
-                rename(tmp_path, obj_path)
-            # end rename only if needed
+                raise
+            # END assure tmpfile removal on error
 
             # Ensure rename is actually done and file is stable
             # Retry up to 14 times - quadratic wait & retry in ms.
-- 
2.43.0


From 57f942483d8ba5c0c0a05ea917a85c0f033fc38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:33 +0000
Subject: [PATCH 21/48] fix: resolve abbreviated names of loose objects
 independently of their case

Packs do so already as they compare the binary representation.
---
 gitdb/db/loose.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdb/db/loose.py b/gitdb/db/loose.py
index dbed1b8..2ad9a3a 100644
--- a/gitdb/db/loose.py
+++ b/gitdb/db/loose.py
@@ -112,7 +112,7 @@ class LooseObjectDB(FileDBBase, ObjectDBR, ObjectDBW):
         :raise BadObject: """
         candidate = None
         for binsha in self.sha_iter():
-            if bin_to_hex(binsha).startswith(force_bytes(partial_hexsha)):
+            if bin_to_hex(binsha).startswith(force_bytes(partial_hexsha).lower()):
                 # it can't ever find the same object twice
                 if candidate is not None:
                     raise AmbiguousObjectName(partial_hexsha)
-- 
2.43.0


From 45b3ab45fe16a38e1d440b4623c9f38cdfb04b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:33 +0000
Subject: [PATCH 22/48] fix: LockedFD kept the lock forever if committing
 failed

---
 gitdb/util.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/gitdb/util.py b/gitdb/util.py
index bb6d879..9b07ef1 100644
--- a/gitdb/util.py
+++ b/gitdb/util.py
@@ -373,10 +373,16 @@ class LockedFD:
         if self._fd is None:
             return
 
-        os.close(self._fd)
-        self._fd = None
-
         lockfile = self._lockfilepath()
+        fd, self._fd = self._fd, None
+        try:
+            os.close(fd)
+        except OSError:
+            # it is closed nonetheless, but possibly without having written everything
+            remove(lockfile)
+            raise
+        # END assure we release the lock
+
         if self._write and successful:
             # on windows, rename does not silently overwrite the existing one
             if sys.platform == "win32":
@@ -384,7 +390,12 @@ class LockedFD:
                     remove(self._filepath)
                 # END remove if exists
             # END win32 special handling
-            os.rename(lockfile, self._filepath)
+            try:
+                os.rename(lockfile, self._filepath)
+            except OSError:
+                remove(lockfile)
+                raise
+            # END assure we release the lock
 
             # assure others can at least read the file - the tmpfile left it at rw--
             # We may also write that file, on windows that boils down to a remove-
-- 
2.43.0


From b39ddf3de8a92ddeda04ddadd6e1cd2e79bbf4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:16 +0000
Subject: [PATCH 23/48] fix: forget about removed loose objects when updating
 the cache

Once seen, an object was considered to exist until the end of the process.
---
 gitdb/db/loose.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gitdb/db/loose.py b/gitdb/db/loose.py
index 2ad9a3a..b180d98 100644
--- a/gitdb/db/loose.py
+++ b/gitdb/db/loose.py
@@ -7,7 +7,8 @@ from contextlib import suppress
 from gitdb.db.base import (
     FileDBBase,
     ObjectDBR,
-    ObjectDBW
+    ObjectDBW,
+    CachingDB
 )
 
 from gitdb.exc import (
@@ -60,7 +61,7 @@ import time
 __all__ = ('LooseObjectDB', )
 
 
-class LooseObjectDB(FileDBBase, ObjectDBR, ObjectDBW):
+class LooseObjectDB(FileDBBase, ObjectDBR, ObjectDBW, CachingDB):
 
     """A database which operates on loose object files"""
 
@@ -271,3 +272,8 @@ class LooseObjectDB(FileDBBase, ObjectDBR, ObjectDBW):
 
     def size(self):
         return len(tuple(self.sha_iter()))
+
+    def update_cache(self, force=False):
+        # objects may have been removed. As we always look at the filesystem otherwise, nothing new is found
+        self._hexsha_to_file = dict()
+        return False
-- 
2.43.0


From 5ad27224548ba5864931ba6105cdb7f7138dff95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:16 +0000
Subject: [PATCH 24/48] fix: PackedDB missed objects when used by multiple
 threads

The list of packs was changed in place while it was loaded, sorted or updated,
and is empty for others in the meantime, even though queries are supposed to be
possible from multiple threads.
---
 gitdb/db/pack.py | 44 ++++++++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/gitdb/db/pack.py b/gitdb/db/pack.py
index 67a3b78..66102a2 100644
--- a/gitdb/db/pack.py
+++ b/gitdb/db/pack.py
@@ -23,6 +23,7 @@ from functools import reduce
 
 import os
 import glob
+import threading
 
 __all__ = ('PackedDB', )
 
@@ -38,6 +39,9 @@ class PackedDB(FileDBBase, ObjectDBR, CachingDB, LazyMixin):
     # any effect, but it should have one
     _sort_interval = 500
 
+    # held when changing the list of entities
+    _lock = threading.RLock()
+
     def __init__(self, root_path):
         super().__init__(root_path)
         # list of lists with three items:
@@ -50,12 +54,16 @@ class PackedDB(FileDBBase, ObjectDBR, CachingDB, LazyMixin):
 
     def _set_cache_(self, attr):
         if attr == '_entities':
-            self._entities = list()
-            self.update_cache(force=True)
+            with self._lock:
+                # someone else may have been faster
+                if '_entities' not in self.__dict__:
+                    self._update_entities(list())
         # END handle entities initialization
 
     def _sort_entities(self):
-        self._entities.sort(key=lambda l: l[0], reverse=True)
+        # Never change the list, others may be using it right now
+        with self._lock:
+            self._entities = sorted(self._entities, key=lambda l: l[0], reverse=True)
 
     def _pack_info(self, sha):
         """:return: tuple(entity, index) for an item at the given sha
@@ -138,43 +146,51 @@ class PackedDB(FileDBBase, ObjectDBR, CachingDB, LazyMixin):
             does not appear to have changed according to its modification timestamp.
         :return: True if the packs have been updated so there is new information,
             False if there was no change to the pack database"""
-        stat = os.stat(self.root_path())
-        if not force and stat.st_mtime <= self._st_mtime:
-            return False
-        # END abort early on no change
-        self._st_mtime = stat.st_mtime
+        with self._lock:
+            stat = os.stat(self.root_path())
+            if not force and stat.st_mtime <= self._st_mtime:
+                return False
+            # END abort early on no change
+            self._update_entities(self._entities)
+            return True
+        # END assure others see a completed update
+
+    def _update_entities(self, entities):
+        """Set our entities to the given list of entities, adjusted to the packs on disk"""
+        entities = list(entities)
+        self._st_mtime = os.stat(self.root_path()).st_mtime
 
         # packs are supposed to be prefixed with pack- by git-convention
         # get all pack files, figure out what changed
         # A pack without an index is still being written, or was left by an interrupted process
         pack_files = {path for path in glob.glob(os.path.join(glob.escape(self.root_path()), "pack-*.pack"))
                       if os.path.exists(os.path.splitext(path)[0] + ".idx")}
-        our_pack_files = {item[1].pack().path() for item in self._entities}
+        our_pack_files = {item[1].pack().path() for item in entities}
 
         # new packs
         for pack_file in (pack_files - our_pack_files):
             # init the hit-counter/priority with the size, a good measure for hit-
             # probability. Its implemented so that only 12 bytes will be read
             entity = PackEntity(pack_file)
-            self._entities.append([entity.pack().size(), entity, entity.index().sha_to_index])
+            entities.append([entity.pack().size(), entity, entity.index().sha_to_index])
         # END for each new packfile
 
         # removed packs
         for pack_file in (our_pack_files - pack_files):
             del_index = -1
-            for i, item in enumerate(self._entities):
+            for i, item in enumerate(entities):
                 if item[1].pack().path() == pack_file:
                     del_index = i
                     break
                 # END found index
             # END for each entity
             assert del_index != -1
-            del(self._entities[del_index])
+            del(entities[del_index])
         # END for each removed pack
 
         # reinitialize prioritiess
-        self._sort_entities()
-        return True
+        entities.sort(key=lambda l: l[0], reverse=True)
+        self._entities = entities
 
     def entities(self):
         """:return: list of pack entities operated upon by this database"""
-- 
2.43.0


From 2d35ed0b173b5b4f46fa421e9b2294fd92729d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:04 +0000
Subject: [PATCH 25/48] fix: GitDB and ReferenceDB missed objects when used by
 multiple threads

The list of databases was visible to others before it was complete, and was
changed in place when the alternates changed.
---
 gitdb/db/git.py | 12 +++++++-----
 gitdb/db/ref.py | 18 ++++++++++--------
 2 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/gitdb/db/git.py b/gitdb/db/git.py
index a1ed142..45bb12a 100644
--- a/gitdb/db/git.py
+++ b/gitdb/db/git.py
@@ -43,30 +43,32 @@ class GitDB(FileDBBase, ObjectDBW, CompoundDB):
 
     def _set_cache_(self, attr):
         if attr == '_dbs' or attr == '_loose_db':
-            self._dbs = list()
+            # Don't set the attribute before the list is complete, other threads would use it
+            dbs = list()
             loose_db = None
             for subpath, dbcls in ((self.packs_dir, self.PackDBCls),
                                    (self.loose_dir, self.LooseDBCls),
                                    (self.alternates_dir, self.ReferenceDBCls)):
                 path = self.db_path(subpath)
                 if os.path.exists(path):
-                    self._dbs.append(dbcls(path))
+                    dbs.append(dbcls(path))
                     if dbcls is self.LooseDBCls:
-                        loose_db = self._dbs[-1]
+                        loose_db = dbs[-1]
                     # END remember loose db
                 # END check path exists
             # END for each db type
 
             # should have at least one subdb
-            if not self._dbs:
+            if not dbs:
                 raise InvalidDBRoot(self.root_path())
             # END handle error
 
             # we the first one should have the store method
             assert loose_db is not None and hasattr(loose_db, 'store'), "First database needs store functionality"
 
-            # finally set the value
+            # finally set the values
             self._loose_db = loose_db
+            self._dbs = dbs
         else:
             super()._set_cache_(attr)
         # END handle attrs
diff --git a/gitdb/db/ref.py b/gitdb/db/ref.py
index bd30156..670042c 100644
--- a/gitdb/db/ref.py
+++ b/gitdb/db/ref.py
@@ -25,13 +25,14 @@ class ReferenceDB(CompoundDB):
 
     def _set_cache_(self, attr):
         if attr == '_dbs':
-            self._dbs = list()
-            self._update_dbs_from_ref_file()
+            self._update_dbs_from_ref_file(list())
         else:
             super()._set_cache_(attr)
         # END handle attrs
 
-    def _update_dbs_from_ref_file(self):
+    def _update_dbs_from_ref_file(self, dbs):
+        # Never change the given list, other threads may be using it right now
+        dbs = list(dbs)
         dbcls = self.ObjectDBCls
         if dbcls is None:
             # late import
@@ -49,13 +50,13 @@ class ReferenceDB(CompoundDB):
         # END handle alternates
 
         ref_paths_set = set(ref_paths)
-        cur_ref_paths_set = {db.root_path() for db in self._dbs}
+        cur_ref_paths_set = {db.root_path() for db in dbs}
 
         # remove existing
         for path in (cur_ref_paths_set - ref_paths_set):
-            for i, db in enumerate(self._dbs[:]):
+            for i, db in enumerate(dbs[:]):
                 if db.root_path() == path:
-                    del(self._dbs[i])
+                    del(dbs[i])
                     continue
                 # END del matching db
         # END for each path to remove
@@ -70,13 +71,14 @@ class ReferenceDB(CompoundDB):
                 if isinstance(db, CompoundDB):
                     db.databases()
                 # END verification
-                self._dbs.append(db)
+                dbs.append(db)
             except Exception:
                 # ignore invalid paths or issues
                 pass
         # END for each path to add
+        self._dbs = dbs
 
     def update_cache(self, force=False):
         # re-read alternates and update databases
-        self._update_dbs_from_ref_file()
+        self._update_dbs_from_ref_file(self._dbs)
         return super().update_cache(force)
-- 
2.43.0


From 7ebc9fab22b85e9d969077403393be213ad3255d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:52 +0000
Subject: [PATCH 26/48] fix: GitDB did not find packs and alternates that were
 not there initially

The databases it consists of were determined once and for all, an update of
the cache did not change that.
---
 gitdb/db/git.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gitdb/db/git.py b/gitdb/db/git.py
index 45bb12a..e2e4a52 100644
--- a/gitdb/db/git.py
+++ b/gitdb/db/git.py
@@ -45,13 +45,14 @@ class GitDB(FileDBBase, ObjectDBW, CompoundDB):
         if attr == '_dbs' or attr == '_loose_db':
             # Don't set the attribute before the list is complete, other threads would use it
             dbs = list()
+            known = {type(db): db for db in self.__dict__.get('_dbs', ())}
             loose_db = None
             for subpath, dbcls in ((self.packs_dir, self.PackDBCls),
                                    (self.loose_dir, self.LooseDBCls),
                                    (self.alternates_dir, self.ReferenceDBCls)):
                 path = self.db_path(subpath)
                 if os.path.exists(path):
-                    dbs.append(dbcls(path))
+                    dbs.append(known.get(dbcls) or dbcls(path))
                     if dbcls is self.LooseDBCls:
                         loose_db = dbs[-1]
                     # END remember loose db
@@ -73,6 +74,12 @@ class GitDB(FileDBBase, ObjectDBW, CompoundDB):
             super()._set_cache_(attr)
         # END handle attrs
 
+    def update_cache(self, force=False):
+        # parts may have been created since we looked for them
+        previous = self._dbs
+        self._set_cache_('_dbs')
+        return super().update_cache(force) or len(self._dbs) != len(previous)
+
     #{ ObjectDBW interface
 
     def store(self, istream):
-- 
2.43.0


From 0864333d4a2fca088bfb141a914358f8acf53c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:52 +0000
Subject: [PATCH 27/48] fix: relative alternates are relative to the objects
 directory

They were looked up relative to the current working directory of the process.
---
 gitdb/db/ref.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gitdb/db/ref.py b/gitdb/db/ref.py
index 670042c..ca0fec0 100644
--- a/gitdb/db/ref.py
+++ b/gitdb/db/ref.py
@@ -3,6 +3,7 @@
 # This module is part of GitDB and is released under
 # the New BSD License: https://opensource.org/license/bsd-3-clause/
 import codecs
+import os
 from gitdb.db.base import (
     CompoundDB,
 )
@@ -44,7 +45,9 @@ class ReferenceDB(CompoundDB):
         ref_paths = list()
         try:
             with codecs.open(self._ref_file, 'r', encoding="utf-8") as f:
-                ref_paths = [l.strip() for l in f]
+                # relative paths are relative to the objects directory, our file is in its info directory
+                objects_dir = os.path.dirname(os.path.dirname(self._ref_file))
+                ref_paths = [os.path.join(objects_dir, l.strip()) for l in f if l.strip()]
         except OSError:
             pass
         # END handle alternates
-- 
2.43.0


From 03ed5e58940123f0af9e29b04977d814c967df17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:52 +0000
Subject: [PATCH 28/48] fix: map packs as a whole to be able to read objects
 anywhere in them

Objects across the boundary of two windows, which exist in packs larger than
1 GiB, were cut off, and verifying by crc only worked in the first window.
---
 gitdb/util.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gitdb/util.py b/gitdb/util.py
index 9b07ef1..0c98403 100644
--- a/gitdb/util.py
+++ b/gitdb/util.py
@@ -19,7 +19,12 @@ from smmap import (
 
 # initialize our global memory manager instance
 # Use it to free cached (and unused) resources.
-mman = SlidingWindowMapManager()
+# Large packs must be mapped as a whole, as data at the end of a window would be cut off otherwise.
+# There is not enough address space for this on 32 bit systems.
+if sys.maxsize > 2 ** 32:
+    mman = StaticWindowMapManager()
+else:
+    mman = SlidingWindowMapManager()
 # END handle mman
 
 import hashlib
-- 
2.43.0


From ba794b2b95d0c141052cb89186c409118c6b40ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:14 +0000
Subject: [PATCH 29/48] fix: refuse pack entries of unknown type and bases
 outside of the pack

A delta whose offset led to something that is no object at all was applied
to an empty base without type, one leading to the very start of the file to the
first object.
---
 gitdb/pack.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index edc36f5..85f1532 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -100,15 +100,19 @@ def pack_object_at(cursor, offset, as_stream):
             delta_offset += 1
             delta_offset = (delta_offset << 7) + (c & 0x7f)
         # END character loop
+        if offset - delta_offset < PackFile.first_object_offset:
+            raise ParseError("Delta at %i refers to a base before the first object" % offset)
         delta_info = delta_offset
         total_rela_offset = i
     # REF DELTA
     elif type_id == REF_DELTA:
         total_rela_offset = data_rela_offset + 20
         delta_info = data[data_rela_offset:total_rela_offset]
+    # UNKNOWN
+    elif not type_id_to_type_map[type_id]:
+        raise ParseError("Invalid type of object at %i: %i" % (offset, type_id))
     # BASE OBJECT
     else:
-        # assume its a base object
         total_rela_offset = data_rela_offset
     # END handle type id
     abs_data_offset = offset + total_rela_offset
-- 
2.43.0


From 63b51fe62183c595d39bf34dafd505a438e95a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:18 +0000
Subject: [PATCH 30/48] fix: count compressed bytes once if the stream ends
 within re-fed input

zlib reports the bytes following the stream both as unused and as unconsumed if the stream
ends while a previously unconsumed tail is handed in. The end of the entry was computed too
small then, and walking a pack continued in the middle of the object.
---
 gitdb/stream.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index 47a7652..38f1508 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -315,6 +315,12 @@ class DecompressMemMapReader(LazyMixin):
             unused_datalen = len(self._zip.unconsumed_tail) + len(self._zip.unused_data)
         # # end handle very special case ...
 
+        # If the stream ends while previously unconsumed input is handed in, zlib reports what follows the stream
+        # as unused as well as unconsumed
+        if self._zip.eof and self._zip.unused_data:
+            unused_datalen = len(self._zip.unused_data)
+        # END don't count the same bytes twice
+
         self._cbr += len(indata) - unused_datalen
         self._br += len(dcompdat)
 
-- 
2.43.0


From 8c760deec66a3bbdd371f792f7e85ef8d0f11bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:35 +0000
Subject: [PATCH 31/48] fix: release the lock if its file can't be closed when
 opening for reading

The exception was reported as failure to obtain the lock, while the lock file remained
and prevented everybody from accessing the file.
---
 gitdb/util.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gitdb/util.py b/gitdb/util.py
index 0c98403..ad5b158 100644
--- a/gitdb/util.py
+++ b/gitdb/util.py
@@ -327,7 +327,13 @@ class LockedFD:
         try:
             fd = os.open(self._lockfilepath(), lockmode, int("600", 8))
             if not write:
-                os.close(fd)
+                try:
+                    os.close(fd)
+                except OSError:
+                    # nobody would release it otherwise
+                    remove(self._lockfilepath())
+                    raise
+                # END assure we release the lock
             else:
                 self._fd = fd
             # END handle file descriptor
-- 
2.43.0


From e72cba189381f577555f42260a08025937f03ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:31 +0000
Subject: [PATCH 32/48] fix: drop alternates which vanished when refreshing

An alternate whose directory was removed made every further
update_cache() of the repository raise
---
 gitdb/db/ref.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gitdb/db/ref.py b/gitdb/db/ref.py
index ca0fec0..098bcf4 100644
--- a/gitdb/db/ref.py
+++ b/gitdb/db/ref.py
@@ -52,7 +52,8 @@ class ReferenceDB(CompoundDB):
             pass
         # END handle alternates
 
-        ref_paths_set = set(ref_paths)
+        # those which vanished are dropped, and added again once they are back
+        ref_paths_set = {path for path in ref_paths if os.path.isdir(path)}
         cur_ref_paths_set = {db.root_path() for db in dbs}
 
         # remove existing
-- 
2.43.0


From c0dd09a3b1eb504b386864e41b7301cee9169270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:54 +0000
Subject: [PATCH 33/48] fix: ignore alternates which refer back to a parent

Objects directories which are alternates of each other made queries
for absent objects, enumeration and refreshes recurse infinitely
---
 gitdb/db/git.py |  6 ++++++
 gitdb/db/ref.py | 13 ++++++++++---
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/gitdb/db/git.py b/gitdb/db/git.py
index e2e4a52..bdfc753 100644
--- a/gitdb/db/git.py
+++ b/gitdb/db/git.py
@@ -37,6 +37,9 @@ class GitDB(FileDBBase, ObjectDBW, CompoundDB):
     loose_dir = ''
     alternates_dir = os.path.join('info', 'alternates')
 
+    # Real paths of the objects directories which refer to us as alternate
+    _parents = ()
+
     def __init__(self, root_path):
         """Initialize ourselves on a git objects directory"""
         super().__init__(root_path)
@@ -56,6 +59,9 @@ class GitDB(FileDBBase, ObjectDBW, CompoundDB):
                     if dbcls is self.LooseDBCls:
                         loose_db = dbs[-1]
                     # END remember loose db
+                    if dbcls is self.ReferenceDBCls:
+                        dbs[-1]._parents = self._parents
+                    # END alternates may refer to each other
                 # END check path exists
             # END for each db type
 
diff --git a/gitdb/db/ref.py b/gitdb/db/ref.py
index 098bcf4..7ef5858 100644
--- a/gitdb/db/ref.py
+++ b/gitdb/db/ref.py
@@ -20,6 +20,9 @@ class ReferenceDB(CompoundDB):
     # file. If None, it defaults to the GitDB
     ObjectDBCls = None
 
+    # Real paths of the objects directories which lead to our file
+    _parents = ()
+
     def __init__(self, ref_file):
         super().__init__()
         self._ref_file = ref_file
@@ -43,17 +46,20 @@ class ReferenceDB(CompoundDB):
 
         # try to get as many as possible, don't fail if some are unavailable
         ref_paths = list()
+        # relative paths are relative to the objects directory, our file is in its info directory
+        objects_dir = os.path.dirname(os.path.dirname(self._ref_file))
+        parents = self._parents + (os.path.realpath(objects_dir), )
         try:
             with codecs.open(self._ref_file, 'r', encoding="utf-8") as f:
-                # relative paths are relative to the objects directory, our file is in its info directory
-                objects_dir = os.path.dirname(os.path.dirname(self._ref_file))
                 ref_paths = [os.path.join(objects_dir, l.strip()) for l in f if l.strip()]
         except OSError:
             pass
         # END handle alternates
 
         # those which vanished are dropped, and added again once they are back
-        ref_paths_set = {path for path in ref_paths if os.path.isdir(path)}
+        # Alternates which refer back to one of our parents have nothing to add
+        ref_paths_set = {path for path in ref_paths
+                         if os.path.isdir(path) and os.path.realpath(path) not in parents}
         cur_ref_paths_set = {db.root_path() for db in dbs}
 
         # remove existing
@@ -71,6 +77,7 @@ class ReferenceDB(CompoundDB):
         for path in added_paths:
             try:
                 db = dbcls(path)
+                db._parents = parents
                 # force an update to verify path
                 if isinstance(db, CompoundDB):
                     db.databases()
-- 
2.43.0


From ed1bde24c74b6edd7156735d59546e9e7f517b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:35 +0000
Subject: [PATCH 34/48] fix: take paths of alternates literally, in any
 encoding

A path which is not UTF-8 made every query raise, and one with leading or
trailing whitespace or unusual line separators was not found
---
 gitdb/db/ref.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gitdb/db/ref.py b/gitdb/db/ref.py
index 7ef5858..2e5f5d4 100644
--- a/gitdb/db/ref.py
+++ b/gitdb/db/ref.py
@@ -2,7 +2,6 @@
 #
 # This module is part of GitDB and is released under
 # the New BSD License: https://opensource.org/license/bsd-3-clause/
-import codecs
 import os
 from gitdb.db.base import (
     CompoundDB,
@@ -50,8 +49,10 @@ class ReferenceDB(CompoundDB):
         objects_dir = os.path.dirname(os.path.dirname(self._ref_file))
         parents = self._parents + (os.path.realpath(objects_dir), )
         try:
-            with codecs.open(self._ref_file, 'r', encoding="utf-8") as f:
-                ref_paths = [os.path.join(objects_dir, l.strip()) for l in f if l.strip()]
+            # each line is a path, in whichever encoding the filesystem has
+            with open(self._ref_file, 'rb') as f:
+                lines = [os.fsdecode(l.rstrip(b"\r\n")) for l in f]
+                ref_paths = [os.path.join(objects_dir, l) for l in lines if l.strip()]
         except OSError:
             pass
         # END handle alternates
-- 
2.43.0


From f8a283c03a678fa41922890c3dbe2c755b4f9f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:59 +0000
Subject: [PATCH 35/48] fix: notice changes of the pack directory if the clock
 was set back

Packs added while the clock was behind were not found, as the older
modification time was taken for no change
---
 gitdb/db/pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdb/db/pack.py b/gitdb/db/pack.py
index 66102a2..c1370db 100644
--- a/gitdb/db/pack.py
+++ b/gitdb/db/pack.py
@@ -148,7 +148,7 @@ class PackedDB(FileDBBase, ObjectDBR, CachingDB, LazyMixin):
             False if there was no change to the pack database"""
         with self._lock:
             stat = os.stat(self.root_path())
-            if not force and stat.st_mtime <= self._st_mtime:
+            if not force and stat.st_mtime == self._st_mtime:
                 return False
             # END abort early on no change
             self._update_entities(self._entities)
-- 
2.43.0


From f2b89c6255b3714ce69568f3081e4f2d20a47202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:08 +0000
Subject: [PATCH 36/48] fix: hand out independent streams of objects in memory

All streams of an object were one and the same, thus asking for
its information or copying it rewound a stream others were reading
---
 gitdb/db/mem.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gitdb/db/mem.py b/gitdb/db/mem.py
index f7b849b..a77f79a 100644
--- a/gitdb/db/mem.py
+++ b/gitdb/db/mem.py
@@ -80,13 +80,14 @@ class MemoryDB(ObjectDBR, ObjectDBW):
     def stream(self, sha):
         try:
             ostream = self._cache[sha]
-            # rewind stream for the next one to read
-            ostream.stream.seek(0)
-            return ostream
         except KeyError as e:
             raise BadObject(sha) from e
         # END exception handling
 
+        # everyone gets a stream of their own, as others may still be reading theirs
+        decomp_stream = DecompressMemMapReader(ostream.stream.data(), close_on_deletion=False)
+        return OStream(ostream.binsha, ostream.type, ostream.size, decomp_stream)
+
     def size(self):
         return len(self._cache)
 
-- 
2.43.0


From d293f0d8f34d4c72a2ae210561291cb49631f7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:40 +0000
Subject: [PATCH 37/48] fix: is_loose_object raised TypeError for any input

---
 gitdb/fun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdb/fun.py b/gitdb/fun.py
index 35505e6..85b12b6 100644
--- a/gitdb/fun.py
+++ b/gitdb/fun.py
@@ -395,7 +395,7 @@ def is_loose_object(m):
     """
     :return: True the file contained in memory map m appears to be a loose object.
         Only the first two bytes are needed"""
-    b0, b1 = map(ord, m[:2])
+    b0, b1 = map(byte_ord, m[:2])
     word = (b0 << 8) + b1
     return b0 == 0x78 and (word % 31) == 0
 
-- 
2.43.0


From 90f54f696a3c6763d0e181697b33e715538445a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:45 +0000
Subject: [PATCH 38/48] fix: keep regions of packs mapped while streams read
 from them

If more than 8 GiB are mapped, smmap unmaps regions which are not in use.
Streams didn't count as such, hence opening a pack raised a BufferError.
---
 gitdb/pack.py   | 6 ++++--
 gitdb/stream.py | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index 85f1532..e8bffa7 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -107,7 +107,7 @@ def pack_object_at(cursor, offset, as_stream):
     # REF DELTA
     elif type_id == REF_DELTA:
         total_rela_offset = data_rela_offset + 20
-        delta_info = data[data_rela_offset:total_rela_offset]
+        delta_info = data[data_rela_offset:total_rela_offset].tobytes()
     # UNKNOWN
     elif not type_id_to_type_map[type_id]:
         raise ParseError("Invalid type of object at %i: %i" % (offset, type_id))
@@ -118,6 +118,8 @@ def pack_object_at(cursor, offset, as_stream):
     abs_data_offset = offset + total_rela_offset
     if as_stream:
         stream = DecompressMemMapReader(data[total_rela_offset:], False, uncomp_size)
+        # the stream may outlive the given cursor, but the region must not be unmapped as long as it is read
+        stream._cursor = mman.make_cursor(cursor.path_or_fd()).use_region(offset)
         if delta_info is None:
             return abs_data_offset, OPackStream(offset, type_id, uncomp_size, stream)
         else:
@@ -594,7 +596,7 @@ class PackFile(LazyMixin):
 
     def checksum(self):
         """:return: 20 byte sha1 hash on all object sha's contained in this file"""
-        return self._cursor.use_region(self._cursor.file_size() - 20).buffer()[:]
+        return self._cursor.use_region(self._cursor.file_size() - 20).buffer().tobytes()
 
     def path(self):
         """:return: path to the packfile"""
diff --git a/gitdb/stream.py b/gitdb/stream.py
index 38f1508..7ca7e4c 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -62,7 +62,7 @@ class DecompressMemMapReader(LazyMixin):
         to better support streamed reading - it would only need to keep the mmap
         and decompress it into chunks, that's all ... """
     __slots__ = ('_m', '_zip', '_buf', '_buflen', '_br', '_cws', '_cwe', '_s', '_close',
-                 '_cbr', '_phi')
+                 '_cbr', '_phi', '_cursor')
 
     max_read_size = 512 * 1024        # currently unused
 
@@ -81,6 +81,7 @@ class DecompressMemMapReader(LazyMixin):
         self._cbr = 0                           # number of compressed bytes read
         self._phi = False                       # is True if we parsed the header info
         self._close = close_on_deletion         # close the memmap on deletion ?
+        self._cursor = None                     # keeps the mapped region we read from in use
 
     def _set_cache_(self, attr):
         assert attr == '_s'
-- 
2.43.0


From 79b3985b3d761a7adb99727f34d86a9f773f9dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:51 +0000
Subject: [PATCH 39/48] fix: read the header of loose objects without copying
 the whole file

---
 gitdb/fun.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/gitdb/fun.py b/gitdb/fun.py
index 85b12b6..6ec8162 100644
--- a/gitdb/fun.py
+++ b/gitdb/fun.py
@@ -406,7 +406,15 @@ def loose_object_header_info(m):
         object as well as its uncompressed size in bytes.
     :param m: memory map from which to read the compressed object data"""
     decompress_size = 8192      # is used in cgit as well
-    hdr = decompressobj().decompress(m, decompress_size)
+    decompress = decompressobj().decompress
+    hdr = b''
+    # hand in pieces of the map only, as what isn't needed would be copied otherwise
+    for start in range(0, len(m), decompress_size):
+        hdr += decompress(m[start:start + decompress_size], decompress_size)
+        if NULL_BYTE in hdr or len(hdr) >= decompress_size:
+            break
+        # END have header
+    # END for each piece
     type_name, size = hdr[:hdr.find(NULL_BYTE)].split(BYTE_SPACE)
 
     return type_name, int(size)
-- 
2.43.0


From 174aa49f1fcdfb982e4bfe7b812a5d4338734c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:12 +0000
Subject: [PATCH 40/48] fix: reject loose objects whose header has a negative
 size

The size limits what is read from the stream, so a negative one
disabled that limit altogether: everything in the file was delivered.
---
 gitdb/fun.py    | 5 ++++-
 gitdb/stream.py | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/gitdb/fun.py b/gitdb/fun.py
index 6ec8162..7cb399c 100644
--- a/gitdb/fun.py
+++ b/gitdb/fun.py
@@ -416,8 +416,11 @@ def loose_object_header_info(m):
         # END have header
     # END for each piece
     type_name, size = hdr[:hdr.find(NULL_BYTE)].split(BYTE_SPACE)
+    size = int(size)
+    if size < 0:
+        raise ValueError("Object header with negative size %i" % size)
 
-    return type_name, int(size)
+    return type_name, size
 
 
 def pack_object_header_info(data):
diff --git a/gitdb/stream.py b/gitdb/stream.py
index 7ca7e4c..45b36e7 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -106,6 +106,8 @@ class DecompressMemMapReader(LazyMixin):
         hdrend = hdr.find(NULL_BYTE)
         typ, size = hdr[:hdrend].split(BYTE_SPACE)
         size = int(size)
+        if size < 0:
+            raise ValueError("Object header with negative size %i" % size)
         self._s = size
 
         # adjust internal state to match actual header length that we ignore
-- 
2.43.0


From 5ff9a2ddc93501168dce3711fbecb4e657692f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:05 +0000
Subject: [PATCH 41/48] fix: keep known packs if their directory cannot be
 listed, and retry an incomplete refresh

A failing directory listing was taken for an empty directory, and the modification
time remembered before the update was complete. Packs were missing then until the
directory changed the next time.
---
 gitdb/db/pack.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/gitdb/db/pack.py b/gitdb/db/pack.py
index c1370db..6a708a9 100644
--- a/gitdb/db/pack.py
+++ b/gitdb/db/pack.py
@@ -22,7 +22,6 @@ from gitdb.pack import PackEntity
 from functools import reduce
 
 import os
-import glob
 import threading
 
 __all__ = ('PackedDB', )
@@ -158,13 +157,21 @@ class PackedDB(FileDBBase, ObjectDBR, CachingDB, LazyMixin):
     def _update_entities(self, entities):
         """Set our entities to the given list of entities, adjusted to the packs on disk"""
         entities = list(entities)
-        self._st_mtime = os.stat(self.root_path()).st_mtime
+        mtime = os.stat(self.root_path()).st_mtime
+        try:
+            names = set(os.listdir(self.root_path()))
+        except OSError:
+            # We don't know what's there, which isn't the same as having no packs. Keep what we have, and try again next time
+            self._entities = entities
+            self._st_mtime = 0
+            return
+        # END handle unreadable directory
 
         # packs are supposed to be prefixed with pack- by git-convention
         # get all pack files, figure out what changed
         # A pack without an index is still being written, or was left by an interrupted process
-        pack_files = {path for path in glob.glob(os.path.join(glob.escape(self.root_path()), "pack-*.pack"))
-                      if os.path.exists(os.path.splitext(path)[0] + ".idx")}
+        pack_files = {os.path.join(self.root_path(), name) for name in names
+                      if name.startswith("pack-") and name.endswith(".pack") and name[:-len("pack")] + "idx" in names}
         our_pack_files = {item[1].pack().path() for item in entities}
 
         # new packs
@@ -191,6 +198,8 @@ class PackedDB(FileDBBase, ObjectDBR, CachingDB, LazyMixin):
         # reinitialize prioritiess
         entities.sort(key=lambda l: l[0], reverse=True)
         self._entities = entities
+        # only now, as otherwise packs would be missed if we fail halfway
+        self._st_mtime = mtime
 
     def entities(self):
         """:return: list of pack entities operated upon by this database"""
-- 
2.43.0


From daa0f52679b2b20d6c00daa7236b2eda989a9f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:05 +0000
Subject: [PATCH 42/48] fix: read files completely if they cannot be mapped

A single read may deliver less than asked for.
---
 gitdb/util.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/gitdb/util.py b/gitdb/util.py
index ad5b158..d8afe2c 100644
--- a/gitdb/util.py
+++ b/gitdb/util.py
@@ -188,7 +188,16 @@ def file_contents_ro(fd, stream=False, allow_mmap=True):
     # END exception handling
 
     # read manually
-    contents = os.read(fd, os.fstat(fd).st_size)
+    # a single call may well deliver less than asked for
+    chunks = list()
+    size = os.fstat(fd).st_size
+    while size > 0:
+        chunks.append(os.read(fd, size))
+        if not chunks[-1]:
+            break
+        size -= len(chunks[-1])
+    # END read until the end
+    contents = b"".join(chunks)
     if stream:
         return _RandomAccessBytesIO(contents)
     return contents
-- 
2.43.0


From 3465f4ac2ad9e37238c7654f622eb380bb0391f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:05 +0000
Subject: [PATCH 43/48] fix: create temporary files in the database even if its
 path goes up from a link

tempfile makes paths absolute by removing '..' together with what precedes it, which is
another directory if this is a symbolic link.
---
 gitdb/db/loose.py | 3 ++-
 gitdb/pack.py     | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/gitdb/db/loose.py b/gitdb/db/loose.py
index b180d98..7d9c0e5 100644
--- a/gitdb/db/loose.py
+++ b/gitdb/db/loose.py
@@ -181,7 +181,8 @@ class LooseObjectDB(FileDBBase, ObjectDBR, ObjectDBW, CachingDB):
         writer = self.ostream()
         if writer is None:
             # open a tmp file to write the data to
-            fd, tmp_path = tempfile.mkstemp(prefix='obj', dir=self._root_path)
+            # tempfile would simplify the path, and end up elsewhere if there is a link followed by '..'
+            fd, tmp_path = tempfile.mkstemp(prefix='obj', dir=os.path.realpath(self._root_path))
 
             if istream.binsha is None:
                 writer = FDCompressedSha1Writer(fd)
diff --git a/gitdb/pack.py b/gitdb/pack.py
index e8bffa7..8841331 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -1028,11 +1028,13 @@ class PackEntity(LazyMixin):
         **Note:** for more information on the other parameters see the write_pack method"""
         paths = list()                      # files to remove on error
         try:
-            pack_fd, pack_path = tempfile.mkstemp('', 'pack', base_dir)
+            # tempfile would simplify the path, and end up elsewhere if there is a link followed by '..'
+            tmp_dir = os.path.realpath(base_dir)
+            pack_fd, pack_path = tempfile.mkstemp('', 'pack', tmp_dir)
             paths.append(pack_path)
             # file objects assure that everything is written, or an error is raised
             with open(pack_fd, 'wb') as pack_file:
-                index_fd, index_path = tempfile.mkstemp('', 'index', base_dir)
+                index_fd, index_path = tempfile.mkstemp('', 'index', tmp_dir)
                 paths.append(index_path)
                 with open(index_fd, 'wb') as index_file:
                     pack_binsha, index_binsha = cls.write_pack(
-- 
2.43.0


From 9dfe68e3c6ade9deed8df4ebcc35b4ba211a7f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:41 +0000
Subject: [PATCH 44/48] fix: keep what was found before a refresh out of the
 cache after it

A query of one thread could put a database into the cache of a compound
database after update_cache() of another one cleared it, which made objects
which are gone for good be reported as present.
---
 gitdb/db/base.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/gitdb/db/base.py b/gitdb/db/base.py
index 245bce2..2f92271 100644
--- a/gitdb/db/base.py
+++ b/gitdb/db/base.py
@@ -183,15 +183,17 @@ class CompoundDB(ObjectDBR, LazyMixin, CachingDB):
         :raise BadObject:"""
         # most databases use binary representations, prevent converting
         # it every time a database is being queried
+        # Whatever we find belongs into the cache we started with, it might be replaced meanwhile
+        cache = self._db_cache
         try:
-            return self._db_cache[sha]
+            return cache[sha]
         except KeyError:
             pass
         # END first level cache
 
         for db in self._dbs:
             if db.has_object(sha):
-                self._db_cache[sha] = db
+                cache[sha] = db
                 return db
         # END for each database
         raise BadObject(sha)
@@ -229,13 +231,16 @@ class CompoundDB(ObjectDBR, LazyMixin, CachingDB):
 
     def update_cache(self, force=False):
         # something might have changed, clear everything
-        self._db_cache.clear()
+        self._db_cache = dict()
         stat = False
         for db in self._dbs:
             if isinstance(db, CachingDB):
                 stat |= db.update_cache(force)
             # END if is caching db
         # END for each database to update
+
+        # drop what other threads found while we were updating
+        self._db_cache = dict()
         return stat
 
     def partial_to_complete_sha_hex(self, partial_hexsha):
-- 
2.43.0


From e4c69197e41300f7100dc23de1a85d92cc2dd9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:44 +0000
Subject: [PATCH 45/48] fix: do not leave a pack without index behind if
 interrupted while it is renamed

---
 gitdb/pack.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index 8841331..63a5032 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -1044,9 +1044,10 @@ class PackEntity(LazyMixin):
             pack_hexsha = bin_to_hex(pack_binsha).decode('ascii')
             new_pack_path = os.path.join(base_dir, fmt % (pack_hexsha, 'pack'))
             new_index_path = os.path.join(base_dir, fmt % (pack_hexsha, 'idx'))
+            complete = os.path.exists(new_index_path)
             os.rename(pack_path, new_pack_path)
             paths.remove(pack_path)
-            if not os.path.exists(new_index_path):
+            if not complete:
                 paths.append(new_pack_path)
             # Readers ignore the pack until there is an index
             os.rename(index_path, new_index_path)
-- 
2.43.0


From a70a6efb5cd42082491da804385a6cf340480d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:06 +0000
Subject: [PATCH 46/48] fix: release the lock also if interrupted while ending
 it

---
 gitdb/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gitdb/util.py b/gitdb/util.py
index d8afe2c..0caf26c 100644
--- a/gitdb/util.py
+++ b/gitdb/util.py
@@ -338,7 +338,7 @@ class LockedFD:
             if not write:
                 try:
                     os.close(fd)
-                except OSError:
+                except:
                     # nobody would release it otherwise
                     remove(self._lockfilepath())
                     raise
@@ -397,7 +397,7 @@ class LockedFD:
         fd, self._fd = self._fd, None
         try:
             os.close(fd)
-        except OSError:
+        except:
             # it is closed nonetheless, but possibly without having written everything
             remove(lockfile)
             raise
@@ -412,7 +412,7 @@ class LockedFD:
             # END win32 special handling
             try:
                 os.rename(lockfile, self._filepath)
-            except OSError:
+            except:
                 remove(lockfile)
                 raise
             # END assure we release the lock
-- 
2.43.0


From aaa4f67cd8df302a8cf2354021adfc805057887c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:03 +0000
Subject: [PATCH 47/48] fix: find the directory alternates are relative to,
 however the file is referred to

---
 gitdb/db/ref.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gitdb/db/ref.py b/gitdb/db/ref.py
index 2e5f5d4..b77cf64 100644
--- a/gitdb/db/ref.py
+++ b/gitdb/db/ref.py
@@ -46,7 +46,11 @@ class ReferenceDB(CompoundDB):
         # try to get as many as possible, don't fail if some are unavailable
         ref_paths = list()
         # relative paths are relative to the objects directory, our file is in its info directory
-        objects_dir = os.path.dirname(os.path.dirname(self._ref_file))
+        info_dir = os.path.dirname(self._ref_file)
+        objects_dir = os.path.dirname(info_dir)
+        if os.path.basename(info_dir) in ('', os.curdir, os.pardir):
+            objects_dir = os.path.join(info_dir, os.pardir)
+        # END info directory is not part of the path
         parents = self._parents + (os.path.realpath(objects_dir), )
         try:
             # each line is a path, in whichever encoding the filesystem has
-- 
2.43.0


From 337d4b5b1dd8e60c50880923849716720b6c6a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:01 +0000
Subject: [PATCH 48/48] fix: an empty file has contents, too: nothing to be
 mapped

---
 gitdb/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gitdb/util.py b/gitdb/util.py
index 0caf26c..1bb121b 100644
--- a/gitdb/util.py
+++ b/gitdb/util.py
@@ -183,7 +183,8 @@ def file_contents_ro(fd, stream=False, allow_mmap=True):
                 # python 2.4 issue, 0 wants to be the actual size
                 return mmap.mmap(fd, os.fstat(fd).st_size, access=mmap.ACCESS_READ)
             # END handle python 2.4
-    except OSError:
+    except (OSError, ValueError):
+        # ValueError: an empty file cannot be mapped
         pass
     # END exception handling
 
-- 
2.43.0

