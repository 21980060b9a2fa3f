From 649f2bba5b4937900217f944a19bd5c32d5b58da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 1/7] fix: check the signature's group membership in
 verify_secure_bytes

---
 crates/types/src/crypto/bls_signature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/types/src/crypto/bls_signature.rs b/crates/types/src/crypto/bls_signature.rs
index 1d355d8..20e318a 100644
--- a/crates/types/src/crypto/bls_signature.rs
+++ b/crates/types/src/crypto/bls_signature.rs
@@ -256,7 +256,7 @@ impl ProtocolSignature for BlsSignature {
     }
 
     fn verify_secure_bytes(&self, value: &[u8], public_key: &BlsPublicKey) -> bool {
-        self.verify(false, value, DST_G1, &[], public_key, true) == blst::BLST_ERROR::BLST_SUCCESS
+        self.verify(true, value, DST_G1, &[], public_key, true) == blst::BLST_ERROR::BLST_SUCCESS
     }
 }
 
-- 
2.43.0


From 0772af8187b5d9d1c7e6212fb301c05315fddac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 2/7] fix: reject digest text shorter than the digest

---
 crates/types/src/crypto/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/types/src/crypto/mod.rs b/crates/types/src/crypto/mod.rs
index 66db286..92293df 100644
--- a/crates/types/src/crypto/mod.rs
+++ b/crates/types/src/crypto/mod.rs
@@ -85,10 +85,10 @@ impl<'de, const DIGEST_LEN: usize> Deserialize<'de> for Digest<DIGEST_LEN> {
                 E: Error,
             {
                 let mut bytes = [0_u8; DIGEST_LEN];
-                bs58::decode(v)
+                let len = bs58::decode(v)
                     .onto(&mut bytes)
                     .map_err(|_| Error::invalid_value(Unexpected::Str(v), &self))?;
-                self.visit_bytes(&bytes)
+                self.visit_bytes(&bytes[..len])
             }
         }
 
-- 
2.43.0


From 79975fdf449bfdcc6ff0d017e75ad12b766c6ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:24 +0000
Subject: [PATCH 3/7] fix: refuse to store a record larger than the readers
 accept

write_value stored records above MAX_RECORD_SIZE (encoded or compressed) although every
reader refuses them, so an append and commit could succeed for a record that can never be
fetched or streamed.
---
 crates/storage/src/archive/pack.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/crates/storage/src/archive/pack.rs b/crates/storage/src/archive/pack.rs
index c1fabf0..ec7fb41 100644
--- a/crates/storage/src/archive/pack.rs
+++ b/crates/storage/src/archive/pack.rs
@@ -492,6 +492,18 @@ where
     }
 }
 
+/// Every reader refuses a record above `MAX_RECORD_SIZE`, stored or decompressed, so refuse to
+/// write one before any of it reaches the writer.
+fn check_record_size(buffer: &[u8]) -> Result<(), io::Error> {
+    if buffer.len() > MAX_RECORD_SIZE as usize {
+        return Err(io::Error::new(
+            io::ErrorKind::InvalidInput,
+            format!("record size {} exceeds {MAX_RECORD_SIZE}", buffer.len()),
+        ));
+    }
+    Ok(())
+}
+
 /// Do the actual insert so the public function can rollback easily on an error.
 pub fn write_value<V, W>(
     value: &V,
@@ -506,6 +518,7 @@ where
 {
     value_buffer.clear();
     encode_into_buffer(value_buffer, value).map_err(|e| std::io::Error::other(e.to_string()))?;
+    check_record_size(value_buffer)?;
     let buffer = match compression {
         PackCompression::None => value_buffer,
         PackCompression::ZStd => {
@@ -518,6 +531,7 @@ where
             compression_buffer
         }
     };
+    check_record_size(buffer)?;
 
     let mut crc32_hasher = crc32fast::Hasher::new();
     // Once we have written to write_buffer, it needs to be rolled back before returning an
-- 
2.43.0


From 9ea118476c69e7f22df3f91bfd6d91899d83ef04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:27 +0000
Subject: [PATCH 4/7] fix: cut off the partial write when flushing a data file
 fails

A failed flush (disk full, file size limit) left the bytes it managed to write in the file and
kept the whole buffer, so a retried commit wrote the buffer again behind the torn part, reported
success and shifted every record of that flush away from its position.
---
 crates/storage/src/archive/data_file.rs | 33 ++++++++++++++++---------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/crates/storage/src/archive/data_file.rs b/crates/storage/src/archive/data_file.rs
index c93b5de..28f32b6 100644
--- a/crates/storage/src/archive/data_file.rs
+++ b/crates/storage/src/archive/data_file.rs
@@ -131,13 +131,24 @@ impl DataFile {
         self.len() == 0
     }
 
+    /// Write the buffered bytes to the file and empty the buffer.
+    /// A failed write can leave a part of the buffer in the file.  The buffer is kept and a retry
+    /// writes all of it again, so cut that part off or it ends up in front of the retried bytes.
+    fn write_out(&mut self) -> io::Result<()> {
+        if let Err(e) = self.data_file.write_all(&self.write_buffer) {
+            self.data_file.set_len(self.data_file_end)?;
+            return Err(e);
+        }
+        self.data_file_end += self.write_buffer.len() as u64;
+        self.write_buffer.clear();
+        Ok(())
+    }
+
     /// Set the file length by truncating or extending.
     /// Used to truncate an incomplete record.
     pub fn set_len(&mut self, len: u64) -> Result<(), io::Error> {
         if !self.read_only && !self.write_buffer.is_empty() {
-            self.data_file.write_all(&self.write_buffer)?;
-            self.data_file_end += self.write_buffer.len() as u64;
-            self.write_buffer.clear();
+            self.write_out()?;
         }
         self.data_file.set_len(len)?;
         self.data_file_end = len;
@@ -337,9 +348,7 @@ impl Write for DataFile {
             Err(io::Error::new(io::ErrorKind::ReadOnlyFilesystem, "file not open for write"))
         } else {
             if self.write_buffer.len() >= self.write_buffer_size as usize {
-                self.data_file.write_all(&self.write_buffer)?;
-                self.data_file_end += self.write_buffer.len() as u64;
-                self.write_buffer.clear();
+                self.write_out()?;
             }
             let write_buffer_len = self.write_buffer.len();
             let write_capacity = self.write_buffer_size as usize - write_buffer_len;
@@ -349,9 +358,11 @@ impl Write for DataFile {
                 Ok(buf_len)
             } else {
                 self.write_buffer.write_all(&buf[..write_capacity])?;
-                self.data_file.write_all(&self.write_buffer)?;
-                self.data_file_end += self.write_buffer.len() as u64;
-                self.write_buffer.clear();
+                if let Err(e) = self.write_out() {
+                    // None of buf counts as written, take back the part that was buffered.
+                    self.write_buffer.truncate(write_buffer_len);
+                    return Err(e);
+                }
                 Ok(write_capacity)
             }
         }
@@ -359,9 +370,7 @@ impl Write for DataFile {
 
     fn flush(&mut self) -> io::Result<()> {
         if !self.read_only {
-            self.data_file.write_all(&self.write_buffer)?;
-            self.data_file_end += self.write_buffer.len() as u64;
-            self.write_buffer.clear();
+            self.write_out()?;
         }
         Ok(())
     }
-- 
2.43.0


From 3a948686edebac32ad5fc118f999cd9f38350fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:10 +0000
Subject: [PATCH 5/7] fix: keep dirty index buckets when writing them out fails

save_bucket_cache emptied the dirty cache before writing, so after one failed write every bucket
not yet written was lost and a retried sync reported success without them.
---
 crates/storage/src/archive/digest_index/index.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/storage/src/archive/digest_index/index.rs b/crates/storage/src/archive/digest_index/index.rs
index 88ed0c3..1b9bcae 100644
--- a/crates/storage/src/archive/digest_index/index.rs
+++ b/crates/storage/src/archive/digest_index/index.rs
@@ -510,13 +510,22 @@ impl<const KSIZE: usize, S: BuildHasher + Default> HdxIndex<KSIZE, S> {
         // Drain into a local buffer first so we can call &mut self helpers below; the heap
         // buffers are moved (not copied) so this is cheap.
         let dirty: Vec<(u64, Vec<u8>)> = self.dirty_bucket_cache.drain().collect();
-        for (bucket, mut buffer) in dirty {
+        let mut dirty = dirty.into_iter();
+        while let Some((bucket, mut buffer)) = dirty.next() {
             let bucket_pos: u64 =
                 (header_size + BLOOM_SIZE_BYTES + (bucket as usize * bucket_size)) as u64;
             add_crc32(&mut buffer[..]);
             // Seeking and writing past the file end extends it.
-            self.hdx_file.seek(SeekFrom::Start(bucket_pos))?;
-            self.hdx_file.write_all(&buffer[..])?;
+            let written = self
+                .hdx_file
+                .seek(SeekFrom::Start(bucket_pos))
+                .and_then(|_| self.hdx_file.write_all(&buffer[..]));
+            if let Err(e) = written {
+                // Keep what is not on disk dirty so a retry writes it.
+                self.dirty_bucket_cache.insert(bucket, buffer);
+                self.dirty_bucket_cache.extend(dirty);
+                return Err(e);
+            }
             // Route through the FIFO-bounded cache so the clean cache stays capped at
             // CACHED_BUCKETS rather than retaining every bucket ever flushed.
             self.add_bucket_to_cache(bucket, buffer);
-- 
2.43.0


From 113c24165648908112398ffc6d1624c0a0c8ec0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:40 +0000
Subject: [PATCH 6/7] fix: undo a failed split of an index bucket

When splitting a bucket failed (unreadable bucket, damaged or unwritable overflow record) the
bucket had already left the dirty cache and the bucket count was already raised, so digests saved
since the last sync were lost and others were looked up in a bucket that was never created.
---
 .../storage/src/archive/digest_index/index.rs | 38 +++++++++++++------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/crates/storage/src/archive/digest_index/index.rs b/crates/storage/src/archive/digest_index/index.rs
index 1b9bcae..c1c17ff 100644
--- a/crates/storage/src/archive/digest_index/index.rs
+++ b/crates/storage/src/archive/digest_index/index.rs
@@ -556,6 +556,8 @@ impl<const KSIZE: usize, S: BuildHasher + Default> HdxIndex<KSIZE, S> {
         let old_modulus = self.modulus;
         // This is the bucket that is being split.
         let split_bucket = (self.buckets() - (old_modulus / 2)) as u64;
+        // Read it before anything changes.
+        let source = self.remove_bucket(split_bucket)?;
         self.inc_buckets();
         // This is the newly created bucket that the items in split_bucket will possibly be moved
         // into.
@@ -563,17 +565,34 @@ impl<const KSIZE: usize, S: BuildHasher + Default> HdxIndex<KSIZE, S> {
         // Don't want buckets and modulus to be the same, so +1
         self.modulus = (self.buckets() + 1).next_power_of_two();
 
+        match self.split_elements(&source, split_bucket, new_bucket) {
+            Ok((buffer, buffer2)) => {
+                self.dirty_bucket_cache.insert(split_bucket, buffer);
+                self.dirty_bucket_cache.insert(new_bucket, buffer2);
+                Ok(())
+            }
+            Err(e) => {
+                // Every element is still in the bucket, so undo the split.
+                self.header.buckets -= 1;
+                self.modulus = old_modulus;
+                self.dirty_bucket_cache.insert(split_bucket, source);
+                Err(e)
+            }
+        }
+    }
+
+    /// Divide the elements of source between the buffers for split_bucket and new_bucket.
+    fn split_elements(
+        &mut self,
+        source: &[u8],
+        split_bucket: u64,
+        new_bucket: u64,
+    ) -> Result<(Vec<u8>, Vec<u8>), AppendError> {
         let bucket_size = self.header.bucket_size() as usize;
         let mut buffer = vec![0; bucket_size];
         let mut buffer2 = vec![0; bucket_size];
 
-        let mut _t_buf = None;
-        let mut iter = if let Ok(buffer) = self.remove_bucket(split_bucket) {
-            _t_buf = Some(buffer);
-            BucketIter::new(_t_buf.as_ref().expect("not None"))
-        } else {
-            BucketIter::new_empty()
-        };
+        let mut iter = BucketIter::new(source);
         // Make sure we only keep the first (most recent) key if we find duplicates.
         let mut rec_hashes = BTreeSet::new();
         while let Some((rec_hash, rec_pos)) = self.next_bucket_element(&mut iter) {
@@ -600,10 +619,7 @@ impl<const KSIZE: usize, S: BuildHasher + Default> HdxIndex<KSIZE, S> {
         if iter.crc_failure() {
             return Err(AppendError::CrcError);
         }
-        drop(iter);
-        self.dirty_bucket_cache.insert(split_bucket, buffer);
-        self.dirty_bucket_cache.insert(new_bucket, buffer2);
-        Ok(())
+        Ok((buffer, buffer2))
     }
 
     /// Save the (hash, position) tuple to the bucket.  Handles overflow records.
-- 
2.43.0


From 19894145c9a53079059248b2d041f63242ed9a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:03 +0000
Subject: [PATCH 7/7] fix: an overflow record that can not be read is not the
 end of a bucket

A failed read of an overflow record ended the walk of its bucket as if
there were no more elements, so a lookup reported stored digests as
absent and a split dropped them from the index.
---
 crates/storage/src/archive/digest_index/bucket_iter.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/storage/src/archive/digest_index/bucket_iter.rs b/crates/storage/src/archive/digest_index/bucket_iter.rs
index 4891ce0..b67af5c 100644
--- a/crates/storage/src/archive/digest_index/bucket_iter.rs
+++ b/crates/storage/src/archive/digest_index/bucket_iter.rs
@@ -109,9 +109,12 @@ impl<'bucket> BucketIter<'bucket> {
         // Position of the record we are about to read; the overflow log is append-only so
         // any chained overflow record it points to must live at an earlier offset.
         let current_pos = self.overflow_pos;
-        odx_file.seek(SeekFrom::Start(current_pos)).ok()?;
-        odx_file.read_exact(&mut self.overflow_buffer[..]).ok()?;
-        if !check_crc(&self.overflow_buffer) {
+        let read = odx_file
+            .seek(SeekFrom::Start(current_pos))
+            .and_then(|_| odx_file.read_exact(&mut self.overflow_buffer[..]));
+        // A record that can not be read is as bad as a damaged one: the elements it holds are
+        // not known to be absent.
+        if read.is_err() || !check_crc(&self.overflow_buffer) {
             self.crc_failure = true;
             return None;
         }
-- 
2.43.0

