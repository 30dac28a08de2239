From 27bd7f47f23aa43c053867e99eba0c412c7fdf73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:11 +0000
Subject: [PATCH 01/38] fix: IOWindow::read_exact checked its bound the wrong
 way round

It refused reads that fit the window and let reads run past its end.
---
 src/window.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/window.rs b/src/window.rs
index 9f15e14..77cf45c 100644
--- a/src/window.rs
+++ b/src/window.rs
@@ -62,7 +62,7 @@ where
 
     fn read_exact(&mut self, buf: &mut [u8]) -> io::Result<()> {
         if let Some(bytes_left) = self.bytes_left() {
-            if bytes_left > buf.len() {
+            if bytes_left < buf.len() {
                 return Err(io::ErrorKind::UnexpectedEof.into());
             }
         }
-- 
2.43.0


From 9531a6b0787d435f961cc49369af6b53166fadb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:44 +0000
Subject: [PATCH 02/38] fix: IOWindow relative seeks counted from the source's
 position

The source can be anywhere before the first access, so SeekFrom::Current
has to be relative to the window's own position.
---
 src/window.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/window.rs b/src/window.rs
index 77cf45c..3ea19a1 100644
--- a/src/window.rs
+++ b/src/window.rs
@@ -113,7 +113,10 @@ where
 {
     fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
         let position = self.source.seek(match pos {
-            SeekFrom::Current(_) => pos,
+            // relative to the position in the window, the source can be anywhere
+            SeekFrom::Current(off) => {
+                SeekFrom::Start((self.start + self.pos).saturating_add_signed(off))
+            }
             SeekFrom::End(off) => {
                 if let Some(length) = self.length {
                     SeekFrom::Start((self.start + length).saturating_add_signed(off))
-- 
2.43.0


From 86e0ecdce325db2b2d5a37a11715e61ab6ef14fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:06 +0000
Subject: [PATCH 03/38] fix: refuse malformed file system tables instead of
 panicking

Directories that do not nest panicked (index out of bounds, assertion), the
declared node count was allocated up front, every directory allocated room
for all nodes and deep nesting overflowed the stack.
---
 src/fst.rs | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/fst.rs b/src/fst.rs
index a2ffa68..50fea89 100644
--- a/src/fst.rs
+++ b/src/fst.rs
@@ -142,6 +142,9 @@ fn read_shiftjs<RS: Read + Seek>(rs: &mut RS, offset: u64) -> binrw::BinResult<S
     Ok(res.into())
 }
 
+/// Maximum directory nesting that is accepted when reading, keeps the recursion bounded
+const MAX_DEPTH: usize = 512;
+
 /// Implements the file system table
 #[derive(Default, Clone)]
 pub struct Fst {
@@ -318,15 +321,15 @@ impl Fst {
             });
         }
         let total_node_count = root_node.length - 1;
-        let mut nodes = Vec::with_capacity(total_node_count as usize);
-        nodes.push(root_node);
+        // don't trust the node count for the allocation
+        let mut nodes = vec![root_node];
         for _ in 0..total_node_count {
             nodes.push(rs.read_be::<RawFstNode>()?);
         }
         let str_offset = rs.stream_position()?;
 
         let fst_nodes =
-            Self::transform_fst_rec(rs, str_offset, &nodes, total_node_count + 1, &mut 1)?;
+            Self::transform_fst_rec(rs, str_offset, &nodes, total_node_count + 1, &mut 1, 0)?;
         Ok(Self { entries: fst_nodes })
     }
 
@@ -336,15 +339,29 @@ impl Fst {
         raw_nodes: &Vec<RawFstNode>,
         children_end: u32,
         cur_idx: &mut u32,
+        depth: usize,
     ) -> binrw::BinResult<Vec<FstNode>> {
-        let mut nodes = Vec::with_capacity(raw_nodes.len());
+        let mut nodes = Vec::new();
         while *cur_idx < children_end {
             let node = &raw_nodes[*cur_idx as usize];
             let name = read_shiftjs(rs, str_offset + node.name_offset as u64)?;
             *cur_idx += 1;
             if node.is_directory {
-                let files =
-                    Self::transform_fst_rec(rs, str_offset, raw_nodes, node.length, cur_idx)?;
+                // the directory has to end in its parent and not before its first child
+                if node.length < *cur_idx || node.length > children_end || depth >= MAX_DEPTH {
+                    return Err(binrw::Error::Custom {
+                        pos: str_offset,
+                        err: Box::new(format!("invalid FST directory: {:?}", node)),
+                    });
+                }
+                let files = Self::transform_fst_rec(
+                    rs,
+                    str_offset,
+                    raw_nodes,
+                    node.length,
+                    cur_idx,
+                    depth + 1,
+                )?;
                 nodes.push(FstNode::Directory { name, files });
             } else {
                 nodes.push(FstNode::File {
@@ -354,7 +371,6 @@ impl Fst {
                 });
             }
         }
-        assert_eq!(*cur_idx, children_end);
         Ok(nodes)
     }
 
-- 
2.43.0


From c78c0d862f1ea85ccc7cdb91d8377649d2c05d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:12 +0000
Subject: [PATCH 04/38] fix: refuse file names that Shift-JIS cannot store
 faithfully

The encoder maps a few characters to similar ones (yen sign to backslash,
overline to tilde, minus sign to fullwidth hyphen) and an embedded NUL cuts
the name off, so such names were silently altered.
---
 src/fst.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fst.rs b/src/fst.rs
index 50fea89..a522b19 100644
--- a/src/fst.rs
+++ b/src/fst.rs
@@ -542,7 +542,8 @@ fn rec_build_fst_bytes(
 ) -> Result<(), FstToBytesError> {
     for node in nodes {
         let (bytes, _, error) = SHIFT_JIS.encode(node.get_name());
-        if error {
+        // some characters are silently replaced by similar ones, and names are null terminated
+        if error || bytes.contains(&0) || SHIFT_JIS.decode(&bytes).0 != node.get_name().as_str() {
             return Err(FstToBytesError::InvalidShiftJis(node.get_name().clone()));
         }
         let name_offset = str_bytes.len() as u32;
-- 
2.43.0


From 9d8d4c57ab0e2bea43836dc69ef0d721105d7a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:12 +0000
Subject: [PATCH 05/38] verif-hooks feature: expose the encrypted stream to the
 harnesses

---
 Cargo.toml | 4 ++++
 src/lib.rs | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/Cargo.toml b/Cargo.toml
index 5179801..b902adc 100644
--- a/Cargo.toml
+++ b/Cargo.toml
@@ -16,5 +16,9 @@ encoding_rs = "0.8.32"
 thiserror = "2.0.9"
 sha1 = "0.11.0"
 
+[features]
+# exposes internals to the verification harnesses
+verif-hooks = []
+
 [workspace]
 members = [".", "./iso-tool", "disc-riider-py"]
diff --git a/src/lib.rs b/src/lib.rs
index 9718b8a..dfd493d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -11,6 +11,12 @@ mod window;
 
 mod new_reader;
 
+/// Internals for the verification harnesses, not part of the API
+#[cfg(feature = "verif-hooks")]
+pub mod verif_hooks {
+    pub use crate::reader_writer::WiiEncryptedReadWriteStream;
+}
+
 pub use fst::{Fst, FstNode, FstToBytes};
 pub use new_reader::{CryptPartReader, WiiIsoReader, WiiPartitionReadInfo};
 pub use window::IOWindow;
-- 
2.43.0


From 24f4d3899064a630688178df88f428f13d901312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:34 +0000
Subject: [PATCH 06/38] fix: keep earlier data when the encrypted stream
 revisits or starts a group

A write after a flush, or to the group right after the last one, either wrote
into an already encrypted cache or tried to load a group that does not exist
yet; new groups kept stale bytes of the previously cached group.
---
 src/reader_writer.rs | 99 ++++++++++++++++++++------------------------
 1 file changed, 44 insertions(+), 55 deletions(-)

diff --git a/src/reader_writer.rs b/src/reader_writer.rs
index 3479d93..014c825 100644
--- a/src/reader_writer.rs
+++ b/src/reader_writer.rs
@@ -241,10 +241,11 @@ impl<'a, RS: Read + Seek> WiiEncryptedReadWriteStream<'a, RS> {
     // loads an entire group into cache and decrypts it
     fn do_load_group(&mut self, group: u64) -> io::Result<()> {
         self.inner.is_dirty = false;
+        // the cache holds no valid group until this one is completely loaded
+        self.inner.current_group = None;
         self.file
             .seek(SeekFrom::Start(self.inner.data_offset + group * GROUP_SIZE))?;
         self.file.read_exact(self.inner.group_cache.as_mut())?;
-        self.inner.current_group = Some(group);
         // decrypt all blocks
         // TODO: it might be possible to optimize this but it introduces some complexity regarding writes
         // and decryption is *relatively* fast anyways
@@ -260,6 +261,7 @@ impl<'a, RS: Read + Seek> WiiEncryptedReadWriteStream<'a, RS> {
                 // TODO: can bad data cause a panic here?
                 .unwrap();
         }
+        self.inner.current_group = Some(group);
         Ok(())
     }
 
@@ -340,6 +342,33 @@ impl<'a, RS: Write + Read + Seek> WiiEncryptedReadWriteStream<'a, RS> {
             },
         }
     }
+
+    // hashes, encrypts and stores the cached group if it was modified, the cache stays decrypted
+    fn write_back_group(&mut self) -> io::Result<()> {
+        let Some(current_group) = self.inner.current_group else {
+            return Ok(());
+        };
+        if self.inner.is_dirty {
+            let mut encrypted = self.inner.group_cache.to_vec();
+            hash_encrypt_block(
+                encrypted.as_mut_slice().try_into().unwrap(),
+                self.inner.h3.as_mut().map(|h3| {
+                    h3[20 * current_group as usize..][..20]
+                        .as_mut()
+                        .try_into()
+                        .unwrap()
+                }),
+                &self.inner.encryption_key,
+            );
+            self.file.seek(SeekFrom::Start(
+                self.inner.data_offset + GROUP_SIZE * current_group,
+            ))?;
+            self.file.write_all(&encrypted)?;
+            self.inner.filled_groups = self.inner.filled_groups.max(current_group + 1);
+            self.inner.is_dirty = false;
+        }
+        Ok(())
+    }
 }
 
 impl<'a, RS: Read + Seek> Read for WiiEncryptedReadWriteStream<'a, RS> {
@@ -390,39 +419,18 @@ impl<'a, WS: Write + Read + Seek> Write for WiiEncryptedReadWriteStream<'a, WS>
                         break;
                     }
                     // if we're not in the current group of the buffer anymore, load that group
-                    if let Some(current_group) = self.inner.current_group {
-                        if current_group != group {
-                            if self.inner.is_dirty {
-                                hash_encrypt_block(
-                                    &mut self.inner.group_cache,
-                                    self.inner.h3.as_mut().map(|h3| {
-                                        h3[20 * current_group as usize..][..20]
-                                            .as_mut()
-                                            .try_into()
-                                            .unwrap()
-                                    }),
-                                    &self.inner.encryption_key,
-                                );
-                                self.file.seek(SeekFrom::Start(
-                                    self.inner.data_offset + GROUP_SIZE * current_group,
-                                ))?;
-                                self.file.write_all(self.inner.group_cache.as_ref())?;
-                                self.inner.filled_groups =
-                                    self.inner.filled_groups.max(current_group);
-                            }
-                            // we can skip loading the previous data if
-                            // - we are at the start of a group and would completely overwrite it
-                            // - or if this is a block that didn't exist previously
-                            if !((block == 0
-                                && offset_in_block == 0x400
-                                && buf.len() >= GROUP_DATA_SIZE as usize)
-                                || group > self.inner.filled_groups)
-                            {
-                                // TODO: you *could* seek an entire block ahead, in that case there
-                                // would be a completely empty block, but I guess that's fine?
-                                self.inner.filled_groups = self.inner.filled_groups.max(group);
-                                self.do_load_group(group)?;
-                            }
+                    if self.inner.current_group != Some(group) {
+                        self.write_back_group()?;
+                        if group >= self.inner.filled_groups {
+                            // this group didn't exist previously
+                            self.inner.group_cache.fill(0);
+                        } else if !(block == 0
+                            && offset_in_block == BLOCK_DATA_OFFSET
+                            && buf.len() >= GROUP_DATA_SIZE as usize)
+                        {
+                            // we can skip loading the previous data if we are at the
+                            // start of a group and would completely overwrite it
+                            self.do_load_group(group)?;
                         }
                     }
                     self.inner.current_group = Some(group);
@@ -450,27 +458,8 @@ impl<'a, WS: Write + Read + Seek> Write for WiiEncryptedReadWriteStream<'a, WS>
         match &self.inner.open_mode {
             OpenMode::Readonly { .. } => Err(io::ErrorKind::Unsupported.into()),
             OpenMode::ReadWrite { .. } => {
-                if let Some(current_group) = self.inner.current_group {
-                    if self.inner.is_dirty {
-                        hash_encrypt_block(
-                            &mut self.inner.group_cache,
-                            self.inner.h3.as_mut().map(|h3| {
-                                h3[20 * current_group as usize..][..20]
-                                    .as_mut()
-                                    .try_into()
-                                    .unwrap()
-                            }),
-                            &self.inner.encryption_key,
-                        );
-                        self.file.seek(SeekFrom::Start(
-                            self.inner.data_offset + GROUP_SIZE * current_group,
-                        ))?;
-                        self.file.write_all(self.inner.group_cache.as_ref())?;
-                        self.inner.filled_groups = self.inner.filled_groups.max(current_group);
-                        self.file.flush()?;
-                        self.inner.current_group = None;
-                    }
-                }
+                self.write_back_group()?;
+                self.file.flush()?;
                 Ok(())
             }
         }
-- 
2.43.0


From 565d1d15bfbb6ff34150b5f9c743c5d4f0de7e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:06 +0000
Subject: [PATCH 07/38] fix: refuse a partition whose TMD has no contents
 instead of panicking

---
 src/builder.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/builder.rs b/src/builder.rs
index 18798ea..72dfb62 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -112,6 +112,12 @@ impl<WS: Read + Write + Seek> WiiDiscBuilder<WS> {
         E: Error,
         C: FnMut(u8),
     {
+        if tmd.contents.is_empty() {
+            // the size and hash of the partition are stored in the first content
+            return Err(
+                io::Error::new(io::ErrorKind::InvalidData, "the TMD has no contents").into(),
+            );
+        }
         progress_cb(0);
         let part_data_off = self.current_data_offset;
         let mut partition_window = IOWindow::new(&mut self.file, part_data_off, None);
-- 
2.43.0


From 48b25d9598ffcecaf66695f33f829004747b3d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:06 +0000
Subject: [PATCH 08/38] fix: list a partition only once it has been written
 completely

---
 src/builder.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 72dfb62..fd77b7d 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -121,10 +121,6 @@ impl<WS: Read + Write + Seek> WiiDiscBuilder<WS> {
         progress_cb(0);
         let part_data_off = self.current_data_offset;
         let mut partition_window = IOWindow::new(&mut self.file, part_data_off, None);
-        self.partitions.push(WiiPartTableEntry {
-            part_data_off: part_data_off.into(),
-            part_type,
-        });
         // placeholder header
         let mut part_header = WiiPartitionHeader {
             ticket,
@@ -295,6 +291,11 @@ impl<WS: Read + Write + Seek> WiiDiscBuilder<WS> {
         // write partition header
         partition_window.seek(SeekFrom::Start(0))?;
         partition_window.write_be(&part_header)?;
+        // only list the partition once it is complete
+        self.partitions.push(WiiPartTableEntry {
+            part_data_off: part_data_off.into(),
+            part_type,
+        });
         Ok(())
     }
 
-- 
2.43.0


From a2d75b1b7b9f8c6daa299a490a1e6d852952f1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:00 +0000
Subject: [PATCH 09/38] fix: never return bytes past the end of the partition
 data

---
 src/new_reader.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/new_reader.rs b/src/new_reader.rs
index 9071f98..167e79a 100644
--- a/src/new_reader.rs
+++ b/src/new_reader.rs
@@ -88,19 +88,18 @@ impl EncryptedPartState {
     pub fn read_into_vec<RS: Read + Seek>(
         &mut self,
         rs: &mut RS,
-        mut offset: u64,
+        offset: u64,
         length: u64,
         buffer: &mut Vec<u8>,
     ) -> io::Result<()> {
+        // never return anything past the end of the data
+        let length = length.min(self.data_size.saturating_sub(offset));
         buffer.clear();
         buffer.reserve(length as usize);
         let mut group = offset / GROUP_DATA_SIZE;
         let mut block = (offset % GROUP_DATA_SIZE) / BLOCK_DATA_SIZE;
         let mut offset_in_block_data = offset % BLOCK_DATA_SIZE;
         while buffer.len() < length as usize {
-            if offset >= self.data_size {
-                break;
-            }
             // we either copy the entire block or what's needed to fill the vec
             let count_to_copy =
                 (BLOCK_DATA_SIZE - offset_in_block_data).min(length - buffer.len() as u64);
@@ -108,7 +107,6 @@ impl EncryptedPartState {
                 &self.get_decrypted_block_data(group, block, rs)?[offset_in_block_data as usize..]
                     [..count_to_copy as usize],
             );
-            offset += count_to_copy;
             offset_in_block_data = 0;
             block += 1;
             if block == 64 {
@@ -130,7 +128,10 @@ impl EncryptedPartState {
                 break;
             }
             // we either copy the entire block or what's needed to fill the slice
-            let count_to_copy = (BLOCK_DATA_SIZE - offset_in_block_data).min(buf.len() as u64);
+            // but nothing past the end of the data
+            let count_to_copy = (BLOCK_DATA_SIZE - offset_in_block_data)
+                .min(buf.len() as u64)
+                .min(self.data_size - self.current_position);
             let to_fill;
             (to_fill, buf) = buf.split_at_mut(count_to_copy as usize);
             to_fill.copy_from_slice(
-- 
2.43.0


From 44feb9c0a13f6f68803c3af723f090387df2c93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:30 +0000
Subject: [PATCH 10/38] fix: refuse tickets that name an unknown common key
 instead of panicking

---
 src/structs.rs | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/src/structs.rs b/src/structs.rs
index df8a7d5..2bb17bd 100644
--- a/src/structs.rs
+++ b/src/structs.rs
@@ -1,4 +1,4 @@
-use std::io::{Read, Seek, SeekFrom};
+use std::io::{self, Read, Seek, SeekFrom};
 
 use aes::{
     cipher::{block_padding::NoPadding, BlockDecryptMut},
@@ -98,24 +98,44 @@ pub struct TicketTimeLimit {
     pub time_limit: u32,
 }
 
-fn decrypt_title_key(key: &[u8; 16], common_key_idx: u8, title_id: &[u8; 8]) -> [u8; 16] {
+fn common_key(common_key_idx: u8) -> io::Result<[u8; 16]> {
+    COMMON_KEYS
+        .get(common_key_idx as usize)
+        .copied()
+        .ok_or_else(|| {
+            io::Error::new(
+                io::ErrorKind::InvalidData,
+                format!("unknown common key index {common_key_idx}"),
+            )
+        })
+}
+
+fn decrypt_title_key(
+    key: &[u8; 16],
+    common_key_idx: u8,
+    title_id: &[u8; 8],
+) -> io::Result<[u8; 16]> {
     let mut decrypted = [0; 16];
     let mut iv = [0u8; 0x10];
     iv[..8].copy_from_slice(title_id);
-    Aes128CbcDec::new(&COMMON_KEYS[common_key_idx as usize].into(), &iv.into())
+    Aes128CbcDec::new(&common_key(common_key_idx)?.into(), &iv.into())
         .decrypt_padded_b2b_mut::<NoPadding>(key, &mut decrypted)
         .unwrap();
-    decrypted
+    Ok(decrypted)
 }
 
-fn encrypt_title_key(key: &[u8; 16], common_key_idx: u8, title_id: &[u8; 8]) -> [u8; 16] {
+fn encrypt_title_key(
+    key: &[u8; 16],
+    common_key_idx: u8,
+    title_id: &[u8; 8],
+) -> io::Result<[u8; 16]> {
     let mut encrypted = [0; 16];
     let mut iv = [0u8; 0x10];
     iv[..8].copy_from_slice(title_id);
-    Aes128CbcEnc::new(&COMMON_KEYS[common_key_idx as usize].into(), &iv.into())
+    Aes128CbcEnc::new(&common_key(common_key_idx)?.into(), &iv.into())
         .encrypt_padded_b2b_mut::<NoPadding>(key, &mut encrypted)
         .unwrap();
-    encrypted
+    Ok(encrypted)
 }
 
 #[binrw]
@@ -128,7 +148,7 @@ pub struct Ticket {
     pub ecdh: [u8; 0x3C],
     #[brw(pad_before = 3)]
     #[br(temp)]
-    #[bw(calc = encrypt_title_key(title_key, *common_key_idx, title_id))]
+    #[bw(try_calc = encrypt_title_key(title_key, *common_key_idx, title_id))]
     encrypted_key: [u8; 16],
     #[brw(pad_before = 1)]
     pub ticket_id: [u8; 8],
@@ -145,7 +165,7 @@ pub struct Ticket {
     pub unk2: u16,
     pub time_limits: [TicketTimeLimit; 8],
     #[bw(ignore)]
-    #[br(calc = decrypt_title_key(&encrypted_key, common_key_idx, &title_id))]
+    #[br(try_calc = decrypt_title_key(&encrypted_key, common_key_idx, &title_id))]
     pub title_key: [u8; 16],
 }
 
-- 
2.43.0


From 0b6e6c5bf75370d938b1cae55b963b7541aa3336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:55 +0000
Subject: [PATCH 11/38] fix: do not reserve memory for an unverified length
 when reading

---
 src/new_reader.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/new_reader.rs b/src/new_reader.rs
index 167e79a..e4dfb3a 100644
--- a/src/new_reader.rs
+++ b/src/new_reader.rs
@@ -95,7 +95,8 @@ impl EncryptedPartState {
         // never return anything past the end of the data
         let length = length.min(self.data_size.saturating_sub(offset));
         buffer.clear();
-        buffer.reserve(length as usize);
+        // a hostile length must not decide how much memory is claimed up front
+        buffer.reserve(length.min(GROUP_DATA_SIZE) as usize);
         let mut group = offset / GROUP_DATA_SIZE;
         let mut block = (offset % GROUP_DATA_SIZE) / BLOCK_DATA_SIZE;
         let mut offset_in_block_data = offset % BLOCK_DATA_SIZE;
-- 
2.43.0


From 65b849102b3d0f184fc2a57e416b04a1b247df69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:16 +0000
Subject: [PATCH 12/38] fix: apploader sizes near 4 GiB overflowed while
 reading

---
 src/new_reader.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/new_reader.rs b/src/new_reader.rs
index e4dfb3a..351cc38 100644
--- a/src/new_reader.rs
+++ b/src/new_reader.rs
@@ -297,9 +297,9 @@ impl WiiPartitionReadInfo {
         let mut crypt_part_reader = self.get_crypto_reader(reader);
         crypt_part_reader.seek(SeekFrom::Start(0x2440))?;
         let apploader_header: ApploaderHeader = crypt_part_reader.read_be()?;
-        let fullsize = 32 + apploader_header.size1 + apploader_header.size2;
+        let fullsize = 32 + apploader_header.size1 as u64 + apploader_header.size2 as u64;
         let mut buf = Vec::new();
-        crypt_part_reader.read_into_vec(0x2440, fullsize as u64, &mut buf)?;
+        crypt_part_reader.read_into_vec(0x2440, fullsize, &mut buf)?;
         Ok(buf)
     }
 
-- 
2.43.0


From 82daee430fc5fae00a9bb77e8cc36d52a2aa616a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:55 +0000
Subject: [PATCH 13/38] fix: a 64 byte game title displaced the header fields
 behind it

---
 src/structs.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/structs.rs b/src/structs.rs
index 2bb17bd..3e81900 100644
--- a/src/structs.rs
+++ b/src/structs.rs
@@ -5,7 +5,7 @@ use aes::{
     cipher::{BlockEncryptMut, KeyIvInit},
     Aes128,
 };
-use binrw::{binrw, BinReaderExt, NullString};
+use binrw::{binrw, BinReaderExt};
 
 use crate::{ShiftedU64, COMMON_KEYS};
 
@@ -241,6 +241,26 @@ pub struct WiiPartitionHeader {
     pub data_size: ShiftedU64,
 }
 
+/// The title occupies 64 bytes, it's only terminated if it's shorter than that
+fn title_from_bytes(bytes: &[u8; 64]) -> String {
+    let len = bytes.iter().position(|b| *b == 0).unwrap_or(bytes.len());
+    String::from_utf8_lossy(&bytes[..len]).into_owned()
+}
+
+fn title_to_bytes(title: &str) -> io::Result<[u8; 64]> {
+    let mut bytes = [0; 64];
+    bytes
+        .get_mut(..title.len())
+        .ok_or_else(|| {
+            io::Error::new(
+                io::ErrorKind::InvalidInput,
+                "game title doesn't fit in 64 bytes",
+            )
+        })?
+        .copy_from_slice(title.as_bytes());
+    Ok(bytes)
+}
+
 /// Wii disc header
 #[binrw]
 #[derive(Clone, Debug, PartialEq, Eq)]
@@ -256,9 +276,8 @@ pub struct DiscHeader {
     pub wii_magic: u32,
     /// If this is a GameCube disc, this will be 0xC2339F3D
     pub gcn_magic: u32,
-    #[brw(pad_size_to(64))]
-    #[br(map = |s| NullString::to_string(&s))]
-    #[bw(map = |s| NullString::from(s.clone()))]
+    #[br(map = |b: [u8; 64]| title_from_bytes(&b))]
+    #[bw(try_map = |s: &String| title_to_bytes(s))]
     pub game_title: String,
     /// Disable hash verification
     pub disable_hash_verification: u8,
-- 
2.43.0


From f6b3bc9f26888b40c6f0951238ab1e97da992b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:23 +0000
Subject: [PATCH 14/38] fix: clear the unused partition groups so old
 destination data is not listed

---
 src/builder.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/builder.rs b/src/builder.rs
index fd77b7d..2cda433 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -311,6 +311,8 @@ impl<WS: Read + Write + Seek> WiiDiscBuilder<WS> {
         // we keep everything in one group, first write count then offset
         self.file.write_be(&(self.partitions.len() as u32))?;
         self.file.write_be(&(0x40020u32 >> 2))?;
+        // the other three groups are empty
+        self.file.write_all(&[0; 24])?;
         // write entries
         self.file.seek(SeekFrom::Start(0x40020))?;
         for partition in self.partitions.iter() {
-- 
2.43.0


From ee2a797f3fe90a046d09a8cddeb5299b06cc1efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:43 +0000
Subject: [PATCH 15/38] fix: extracting a section without files left a
 directory that cannot be rebuilt

---
 disc-riider-py/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/disc-riider-py/src/lib.rs b/disc-riider-py/src/lib.rs
index e7611b8..a3fd5f1 100644
--- a/disc-riider-py/src/lib.rs
+++ b/disc-riider-py/src/lib.rs
@@ -212,6 +212,8 @@ impl WiiIsoExtractor {
                 .partition_reader
                 .extract_system_files(&section_path, &mut self.iso)
                 .into_pyerr()?;
+            // a section without files still needs the directory to be rebuildable
+            create_dir_all(section_path.join("files"))?;
             let mut buffer = [0; 0x10_000];
             // count files
             let mut total_bytes = 0usize;
-- 
2.43.0


From 436fecb7542c7686a4d76747b54e388df368a475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:04 +0000
Subject: [PATCH 16/38] fix: extraction progress went back when several
 sections were extracted

---
 disc-riider-py/src/lib.rs | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/disc-riider-py/src/lib.rs b/disc-riider-py/src/lib.rs
index a3fd5f1..18f518b 100644
--- a/disc-riider-py/src/lib.rs
+++ b/disc-riider-py/src/lib.rs
@@ -199,6 +199,20 @@ impl WiiIsoExtractor {
         });
         let disc_header = self.iso.get_header().clone();
         let region = self.iso.get_region().clone();
+        // count the bytes of all sections, so that progress never goes back
+        let mut total_bytes = 0usize;
+        for partition in self.sections_to_extract.iter() {
+            partition
+                .fst
+                .callback_all_files::<std::io::Error, _>(&mut |_, node| {
+                    if let FstNode::File { length, .. } = node {
+                        total_bytes += *length as usize;
+                    }
+
+                    Ok(())
+                })?;
+        }
+        let mut done_bytes = 0usize;
         for mut partition in self.sections_to_extract.drain(..) {
             let section_path = path.join(format!("{}", partition.part));
 
@@ -215,19 +229,6 @@ impl WiiIsoExtractor {
             // a section without files still needs the directory to be rebuildable
             create_dir_all(section_path.join("files"))?;
             let mut buffer = [0; 0x10_000];
-            // count files
-            let mut total_bytes = 0usize;
-            partition
-                .fst
-                .callback_all_files::<std::io::Error, _>(&mut |_, node| {
-                    if let FstNode::File { length, .. } = node {
-                        total_bytes += *length as usize;
-                    }
-
-                    Ok(())
-                })?;
-
-            let mut done_bytes = 0usize;
             let mut wii_encrypt_reader =
                 partition.partition_reader.get_crypto_reader(&mut self.iso);
             partition
-- 
2.43.0


From a019bb7c0cced58a9512c108a260598823907dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:21 +0000
Subject: [PATCH 17/38] fix: report files that reach past the end of the data
 instead of truncating them

---
 disc-riider-py/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/disc-riider-py/src/lib.rs b/disc-riider-py/src/lib.rs
index 18f518b..86f910c 100644
--- a/disc-riider-py/src/lib.rs
+++ b/disc-riider-py/src/lib.rs
@@ -251,6 +251,12 @@ impl WiiIsoExtractor {
                             let bytes_read =
                                 wii_encrypt_reader.read(&mut buffer[..bytes_to_read])?;
                             if bytes_read == 0 {
+                                if bytes_left > 0 {
+                                    return Err(std::io::Error::new(
+                                        std::io::ErrorKind::UnexpectedEof,
+                                        format!("{filepath:?} reaches past the end of the data"),
+                                    ));
+                                }
                                 break;
                             }
 
-- 
2.43.0


From 450dc61faa668c1fb1f9b1bb9d2e9f2030f85c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:26 +0000
Subject: [PATCH 18/38] fix: refuse disc file names that lead outside the
 extraction directory

---
 disc-riider-py/src/lib.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/disc-riider-py/src/lib.rs b/disc-riider-py/src/lib.rs
index 86f910c..4085686 100644
--- a/disc-riider-py/src/lib.rs
+++ b/disc-riider-py/src/lib.rs
@@ -2,7 +2,7 @@ use std::{
     convert::Infallible,
     fs::{self, create_dir_all, OpenOptions},
     io::{Read, Seek, SeekFrom, Write},
-    path::{Path, PathBuf},
+    path::{Component, Path, PathBuf},
 };
 
 use binrw::{BinWrite, BinWriterExt};
@@ -82,6 +82,13 @@ pub fn binrw_write_file(p: &Path, value: &impl for<'a> BinWrite<Args<'a> = ()>)
     Ok(())
 }
 
+/// whether the name denotes an entry of the directory it is joined to
+fn is_plain_file_name(name: &str) -> bool {
+    let mut components = Path::new(name).components();
+    matches!(components.next(), Some(Component::Normal(part)) if part == name)
+        && components.next().is_none()
+}
+
 #[pymethods]
 impl WiiIsoExtractor {
     #[new]
@@ -237,6 +244,13 @@ impl WiiIsoExtractor {
                     if let FstNode::File { offset, length, .. } = node {
                         let mut filepath = section_path.join("files");
                         for name in names {
+                            // names come from the disc and must not lead elsewhere
+                            if !is_plain_file_name(name) {
+                                return Err(std::io::Error::new(
+                                    std::io::ErrorKind::InvalidData,
+                                    format!("invalid file name {name:?}"),
+                                ));
+                            }
                             filepath.push(name);
                         }
                         // println!("{filepath:?}");
-- 
2.43.0


From 895b8ddbd97f6d4ba292a4a0c97e41925bc79263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:24 +0000
Subject: [PATCH 19/38] fix: copying an image reports source files that reach
 past the end of the data

---
 src/builder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/builder.rs b/src/builder.rs
index 2cda433..5b4501d 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -366,6 +366,10 @@ impl<'b, RS: Read + Seek> WiiPartitionDefinition<std::convert::Infallible> for C
                 self.part_read_info
                     .get_crypto_reader(self.reader)
                     .read_into_vec(*offset, *length as u64, &mut self.buffer)?;
+                if self.buffer.len() != *length as usize {
+                    // the source ends inside this file
+                    return Err(io::Error::from(io::ErrorKind::UnexpectedEof).into());
+                }
                 Ok((Cow::Borrowed(&self.buffer), 0))
             }
             _ => panic!("???"),
-- 
2.43.0


From daaef3c4fe8bbd0d32c03c1fa7879c7efb01a1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 01:07:16 +0000
Subject: [PATCH 20/38] fix: refuse trees whose table could not be read back

---
 src/fst.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/fst.rs b/src/fst.rs
index a522b19..f1b8824 100644
--- a/src/fst.rs
+++ b/src/fst.rs
@@ -144,6 +144,8 @@ fn read_shiftjs<RS: Read + Seek>(rs: &mut RS, offset: u64) -> binrw::BinResult<S
 
 /// Maximum directory nesting that is accepted when reading, keeps the recursion bounded
 const MAX_DEPTH: usize = 512;
+/// name offsets are stored in 24 bits
+const MAX_NAME_OFFSET: usize = 0xFF_FFFF;
 
 /// Implements the file system table
 #[derive(Default, Clone)]
@@ -533,12 +535,17 @@ pub struct FstToBytes {
 pub enum FstToBytesError {
     #[error("{0} can't be converted into shift-jis!")]
     InvalidShiftJis(String),
+    #[error("the names before {0} already take up all space a table has for names")]
+    TooManyNames(String),
+    #[error("{0} is nested too deeply!")]
+    TooDeep(String),
 }
 
 fn rec_build_fst_bytes(
     nodes: &Vec<FstNode>,
     name_offsets: &mut Vec<u32>,
     str_bytes: &mut Vec<u8>,
+    depth: usize,
 ) -> Result<(), FstToBytesError> {
     for node in nodes {
         let (bytes, _, error) = SHIFT_JIS.encode(node.get_name());
@@ -546,13 +553,19 @@ fn rec_build_fst_bytes(
         if error || bytes.contains(&0) || SHIFT_JIS.decode(&bytes).0 != node.get_name().as_str() {
             return Err(FstToBytesError::InvalidShiftJis(node.get_name().clone()));
         }
+        if str_bytes.len() > MAX_NAME_OFFSET {
+            return Err(FstToBytesError::TooManyNames(node.get_name().clone()));
+        }
         let name_offset = str_bytes.len() as u32;
         str_bytes.extend_from_slice(bytes.as_ref());
         str_bytes.push(0);
         name_offsets.push(name_offset as u32);
         match node {
             FstNode::Directory { files, .. } => {
-                rec_build_fst_bytes(files, name_offsets, str_bytes)?;
+                if depth >= MAX_DEPTH {
+                    return Err(FstToBytesError::TooDeep(node.get_name().clone()));
+                }
+                rec_build_fst_bytes(files, name_offsets, str_bytes, depth + 1)?;
             }
             &FstNode::File { .. } => {}
         }
@@ -572,7 +585,7 @@ impl TryFrom<Fst> for FstToBytes {
         str_offsets.push(0);
         str_bytes.push(0);
         // recursive
-        rec_build_fst_bytes(&value.entries, &mut str_offsets, &mut str_bytes)?;
+        rec_build_fst_bytes(&value.entries, &mut str_offsets, &mut str_bytes, 0)?;
         Ok(FstToBytes {
             str_offsets,
             str_bytes,
-- 
2.43.0


From 0b018f89c6cdefa1e9d6c9108f94a6714ab3850c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 01:07:16 +0000
Subject: [PATCH 21/38] fix: refuse a TMD and certificates that reach into the
 global hash table

---
 src/builder.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 5b4501d..96fa325 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -141,10 +141,18 @@ impl<WS: Read + Write + Seek> WiiDiscBuilder<WS> {
         part_header.tmd_size = tmd_buf.len() as u32;
         part_header.cert_chain_off =
             align_next(*part_header.tmd_off + part_header.tmd_size as u64, 0x20).into();
+        let mut cert_buf = Vec::new();
+        Cursor::new(&mut cert_buf).write_be(&cert_chain)?;
+        if *part_header.cert_chain_off + cert_buf.len() as u64 > 0x8000 {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidData,
+                "TMD and certificates reach into the global hash table",
+            )
+            .into());
+        }
         partition_window.seek(SeekFrom::Start(*part_header.cert_chain_off))?;
-        partition_window.write_be(&cert_chain)?;
-        part_header.cert_chain_size =
-            (partition_window.stream_position()? - *part_header.cert_chain_off) as u32;
+        partition_window.write_all(&cert_buf)?;
+        part_header.cert_chain_size = cert_buf.len() as u32;
         // global hash table at 0x8000, encrypted data starts at 0x20000
         // let mut h3: Box<[u8; 0x18000]> = vec![0u8; 0x18000].into_boxed_slice().try_into().unwrap();
         // now we write encrypted data
-- 
2.43.0


From 3ea9cb574753b1b52ed64a8a331cef3d17b1ffe3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 01:07:16 +0000
Subject: [PATCH 22/38] fix: refuse a bi2 that reaches into the apploader

---
 src/builder.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index 96fa325..7b7df46 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -183,7 +183,13 @@ impl<WS: Read + Write + Seek> WiiDiscBuilder<WS> {
         let mut fst = FstToBytes::try_from(source_fst)?;
         let mut part_disc_header = partition_def.get_disc_header()?;
         crypto_writer.seek(SeekFrom::Start(0x440))?;
-        crypto_writer.write_all(&partition_def.get_bi2()?)?;
+        let bi2 = partition_def.get_bi2()?;
+        if bi2.len() > 0x2000 {
+            // would be overwritten by the apploader
+            return Err(io::Error::new(io::ErrorKind::InvalidData, "bi2 is too long").into());
+        }
+        crypto_writer.write_all(&bi2)?;
+        drop(bi2);
 
         // write apploader (always at the same address)
         crypto_writer.seek(SeekFrom::Start(0x2440))?;
-- 
2.43.0


From 1be8b17d1cbabeb260534ea46f3425d25116c12e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 01:07:16 +0000
Subject: [PATCH 23/38] fix: refuse files whose length does not fit the file
 system table

---
 src/builder.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index 7b7df46..7a91d3b 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -221,7 +221,12 @@ impl<WS: Read + Write + Seek> WiiDiscBuilder<WS> {
             *offset = crypto_writer.stream_position()?;
             let (data, padding) = partition_def.get_file_data(path)?;
             let mut remaining_data = data.as_ref();
-            *size = remaining_data.len() as u32;
+            *size = remaining_data.len().try_into().map_err(|_| {
+                io::Error::new(
+                    io::ErrorKind::InvalidData,
+                    format!("{} is too long for a file", path.join("/")),
+                )
+            })?;
             while remaining_data.len() > 0 {
                 let bytes_to_write = remaining_data.len().min(0x1_000_000);
                 let batch;
-- 
2.43.0


From 862cdfd007c366031514b5e9766af04d58c7f721 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 01:07:16 +0000
Subject: [PATCH 24/38] fix: refuse a partition with more groups than the
 global hash table holds

---
 src/builder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index 7a91d3b..9345a82 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -160,7 +160,8 @@ impl<WS: Read + Write + Seek> WiiDiscBuilder<WS> {
             &mut partition_window,
             0x20000,
             part_header.ticket.title_key,
-            None,
+            // the global hash table has no room for more groups
+            Some(0x18000 / 20),
             0,
         );
         let source_fst = partition_def.get_fst()?;
-- 
2.43.0


From 6a3347cdb3fa42e47ae198e9dfeec5243cf52192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:36 +0000
Subject: [PATCH 25/38] fix: refuse system files that reach past the end of the
 data

---
 src/new_reader.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/new_reader.rs b/src/new_reader.rs
index 351cc38..a345876 100644
--- a/src/new_reader.rs
+++ b/src/new_reader.rs
@@ -168,6 +168,16 @@ impl<'a, RS: Read + Seek> CryptPartReader<'a, RS> {
             .read_into_vec(self.rs, offset, length, buffer)
     }
 
+    // like read_into_vec, but fails if the data ends early
+    fn read_complete(&mut self, offset: u64, length: u64) -> io::Result<Vec<u8>> {
+        let mut buffer = Vec::new();
+        self.read_into_vec(offset, length, &mut buffer)?;
+        if (buffer.len() as u64) < length {
+            return Err(io::ErrorKind::UnexpectedEof.into());
+        }
+        Ok(buffer)
+    }
+
     pub fn into_window(self, offset: u64, length: Option<u64>) -> impl Read + Seek + 'a {
         IOWindow::new(self, offset, length)
     }
@@ -285,9 +295,7 @@ impl WiiPartitionReadInfo {
     ) -> binrw::BinResult<Vec<u8>> {
         let mut crypt_part_reader = self.get_crypto_reader(reader);
         crypt_part_reader.seek(SeekFrom::Start(0x440))?;
-        let mut bi2_buf = vec![];
-        crypt_part_reader.read_into_vec(0x440, 0x2000, &mut bi2_buf)?;
-        Ok(bi2_buf)
+        Ok(crypt_part_reader.read_complete(0x440, 0x2000)?)
     }
 
     pub fn read_apploader<RS: Read + Seek>(
@@ -298,9 +306,7 @@ impl WiiPartitionReadInfo {
         crypt_part_reader.seek(SeekFrom::Start(0x2440))?;
         let apploader_header: ApploaderHeader = crypt_part_reader.read_be()?;
         let fullsize = 32 + apploader_header.size1 as u64 + apploader_header.size2 as u64;
-        let mut buf = Vec::new();
-        crypt_part_reader.read_into_vec(0x2440, fullsize, &mut buf)?;
-        Ok(buf)
+        Ok(crypt_part_reader.read_complete(0x2440, fullsize)?)
     }
 
     pub fn read_dol<RS: Read + Seek>(
@@ -327,9 +333,7 @@ impl WiiPartitionReadInfo {
                 err: Box::new("overflow calculating dol size!"),
             })
         } else {
-            let mut out_buf = Vec::new();
-            crypt_part_reader.read_into_vec(dol_offset, dol_size as u64, &mut out_buf)?;
-            Ok(out_buf)
+            Ok(crypt_part_reader.read_complete(dol_offset, dol_size as u64)?)
         }
     }
 
@@ -354,11 +358,11 @@ impl WiiPartitionReadInfo {
         write_file(&sys_folder, "bi2.bin", &self.read_bi2(reader)?)?;
         write_file(&sys_folder, "apploader.img", &self.read_apploader(reader)?)?;
         write_file(&sys_folder, "main.dol", &self.read_dol(reader)?)?;
-        let mut fst_buf = Vec::new();
         let fst_off = *self.encrypted_header.fst_off;
         let fst_sz = *self.encrypted_header.fst_sz;
-        self.get_crypto_reader(reader)
-            .read_into_vec(fst_off, fst_sz, &mut fst_buf)?;
+        let fst_buf = self
+            .get_crypto_reader(reader)
+            .read_complete(fst_off, fst_sz)?;
         write_file(&sys_folder, "fst.bin", &fst_buf)?;
         Ok(())
     }
-- 
2.43.0


From 63e29b9c1d9dbbc0f5546dd555185ee72b9466d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:43 +0000
Subject: [PATCH 26/38] fix: limit what the names of a table can take up when
 reading

---
 src/fst.rs | 42 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/src/fst.rs b/src/fst.rs
index f1b8824..4822338 100644
--- a/src/fst.rs
+++ b/src/fst.rs
@@ -4,7 +4,7 @@ use std::{
     iter::once,
 };
 
-use binrw::{binrw, BinReaderExt, BinWriterExt, NullString};
+use binrw::{binrw, BinReaderExt, BinWriterExt};
 use encoding_rs::SHIFT_JIS;
 use thiserror::Error;
 
@@ -129,9 +129,25 @@ impl AsMut<FstNode> for FstNode {
     }
 }
 
-fn read_shiftjs<RS: Read + Seek>(rs: &mut RS, offset: u64) -> binrw::BinResult<String> {
+fn read_shiftjs<RS: Read + Seek>(
+    rs: &mut RS,
+    offset: u64,
+    names_left: &mut usize,
+) -> binrw::BinResult<String> {
     rs.seek(SeekFrom::Start(offset))?;
-    let null_str = rs.read_be::<NullString>()?;
+    let mut null_str = Vec::new();
+    loop {
+        *names_left = names_left
+            .checked_sub(1)
+            .ok_or_else(|| binrw::Error::Custom {
+                pos: offset,
+                err: Box::new("the names of the FST are too long"),
+            })?;
+        match rs.read_be::<u8>()? {
+            0 => break,
+            chr => null_str.push(chr),
+        }
+    }
     let (res, _, err) = SHIFT_JIS.decode(&null_str);
     if err {
         return Err(binrw::Error::Custom {
@@ -146,6 +162,8 @@ fn read_shiftjs<RS: Read + Seek>(rs: &mut RS, offset: u64) -> binrw::BinResult<S
 const MAX_DEPTH: usize = 512;
 /// name offsets are stored in 24 bits
 const MAX_NAME_OFFSET: usize = 0xFF_FFFF;
+/// Maximum size of all names together, a table could use the same long name again and again
+const MAX_NAMES_SIZE: usize = 0x200_0000;
 
 /// Implements the file system table
 #[derive(Default, Clone)]
@@ -330,8 +348,16 @@ impl Fst {
         }
         let str_offset = rs.stream_position()?;
 
-        let fst_nodes =
-            Self::transform_fst_rec(rs, str_offset, &nodes, total_node_count + 1, &mut 1, 0)?;
+        let mut names_left = MAX_NAMES_SIZE;
+        let fst_nodes = Self::transform_fst_rec(
+            rs,
+            str_offset,
+            &nodes,
+            total_node_count + 1,
+            &mut 1,
+            0,
+            &mut names_left,
+        )?;
         Ok(Self { entries: fst_nodes })
     }
 
@@ -342,11 +368,12 @@ impl Fst {
         children_end: u32,
         cur_idx: &mut u32,
         depth: usize,
+        names_left: &mut usize,
     ) -> binrw::BinResult<Vec<FstNode>> {
         let mut nodes = Vec::new();
         while *cur_idx < children_end {
             let node = &raw_nodes[*cur_idx as usize];
-            let name = read_shiftjs(rs, str_offset + node.name_offset as u64)?;
+            let name = read_shiftjs(rs, str_offset + node.name_offset as u64, names_left)?;
             *cur_idx += 1;
             if node.is_directory {
                 // the directory has to end in its parent and not before its first child
@@ -363,6 +390,7 @@ impl Fst {
                     node.length,
                     cur_idx,
                     depth + 1,
+                    names_left,
                 )?;
                 nodes.push(FstNode::Directory { name, files });
             } else {
@@ -553,7 +581,7 @@ fn rec_build_fst_bytes(
         if error || bytes.contains(&0) || SHIFT_JIS.decode(&bytes).0 != node.get_name().as_str() {
             return Err(FstToBytesError::InvalidShiftJis(node.get_name().clone()));
         }
-        if str_bytes.len() > MAX_NAME_OFFSET {
+        if str_bytes.len() > MAX_NAME_OFFSET || str_bytes.len() + bytes.len() > MAX_NAMES_SIZE {
             return Err(FstToBytesError::TooManyNames(node.get_name().clone()));
         }
         let name_offset = str_bytes.len() as u32;
-- 
2.43.0


From 03b4d4c6a4f50b57b26adfe7942ca91aa19dc27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:43 +0000
Subject: [PATCH 27/38] fix: refuse partition tables with more entries than
 there is room for

---
 src/structs.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/structs.rs b/src/structs.rs
index 3e81900..b8cb62c 100644
--- a/src/structs.rs
+++ b/src/structs.rs
@@ -71,6 +71,9 @@ impl WiiPartTableEntry {
     }
 }
 
+/// the table with the partitions ends in front of the region info
+pub(crate) const MAX_PARTITIONS: usize = (0x4E000 - 0x40020) / 8;
+
 pub(crate) fn read_parts<RS: Read + Seek>(r: &mut RS) -> binrw::BinResult<Vec<WiiPartTableEntry>> {
     r.seek(SeekFrom::Start(0x40000))?;
     let mut parts = Vec::new();
@@ -81,6 +84,12 @@ pub(crate) fn read_parts<RS: Read + Seek>(r: &mut RS) -> binrw::BinResult<Vec<Wi
         let offset = read_u64_shifted(r)?;
         if part_count > 0 {
             let pos = r.stream_position()?;
+            if part_count as usize > MAX_PARTITIONS - parts.len() {
+                return Err(binrw::Error::Custom {
+                    pos,
+                    err: Box::new("too many partitions"),
+                });
+            }
             r.seek(SeekFrom::Start(offset))?;
             for _ in 0..part_count {
                 parts.push(r.read_be::<WiiPartTableEntry>()?);
-- 
2.43.0


From fcecdda27c49e68aaa5920335fd24207937d68d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:43 +0000
Subject: [PATCH 28/38] fix: refuse partitions the partition table cannot refer
 to

---
 src/builder.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index 9345a82..88edb22 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -15,7 +15,8 @@ use crate::{
     fst::FstToBytesError,
     reader_writer::WiiEncryptedReadWriteStream,
     structs::{
-        Certificate, DiscHeader, Ticket, WiiPartTableEntry, WiiPartType, WiiPartitionHeader, TMD,
+        Certificate, DiscHeader, Ticket, WiiPartTableEntry, WiiPartType, WiiPartitionHeader,
+        MAX_PARTITIONS, TMD,
     },
     Fst, FstNode, FstToBytes, IOWindow, WiiIsoReader, WiiPartitionReadInfo, GROUP_DATA_SIZE,
     GROUP_SIZE,
@@ -118,6 +119,14 @@ impl<WS: Read + Write + Seek> WiiDiscBuilder<WS> {
                 io::Error::new(io::ErrorKind::InvalidData, "the TMD has no contents").into(),
             );
         }
+        if self.partitions.len() >= MAX_PARTITIONS || self.current_data_offset >> 34 != 0 {
+            // offsets are stored in 32 bits, divided by 4
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidData,
+                "there is no room for another partition in the partition table",
+            )
+            .into());
+        }
         progress_cb(0);
         let part_data_off = self.current_data_offset;
         let mut partition_window = IOWindow::new(&mut self.file, part_data_off, None);
-- 
2.43.0


From 89d28dc2de4986bcd8deaa243fdd49bf5c8b78d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:43 +0000
Subject: [PATCH 29/38] fix: DOLs with gaps or unordered sections were read too
 short

---
 src/new_reader.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/new_reader.rs b/src/new_reader.rs
index a345876..ebed4c2 100644
--- a/src/new_reader.rs
+++ b/src/new_reader.rs
@@ -317,16 +317,14 @@ impl WiiPartitionReadInfo {
         let mut crypt_part_reader = self.get_crypto_reader(reader);
         crypt_part_reader.seek(SeekFrom::Start(dol_offset))?;
         let dol_header = crypt_part_reader.read_be::<DOLHeader>()?;
-        let mut dol_size = dol_header.text_off[0];
-        dol_size = dol_size.saturating_add(
-            dol_header
-                .text_sizes
-                .iter()
-                .chain(dol_header.data_sizes.iter())
-                .cloned()
-                .reduce(|accum, item| accum.saturating_add(item))
-                .unwrap(),
-        );
+        // the sections can be stored in any order and leave gaps
+        let dol_size = (dol_header.text_off.iter())
+            .chain(dol_header.data_off.iter())
+            .zip((dol_header.text_sizes.iter()).chain(dol_header.data_sizes.iter()))
+            .filter(|(_, size)| **size != 0)
+            .map(|(off, size)| off.saturating_add(*size))
+            // there is always a header
+            .fold(0x100, u32::max);
         if dol_size == u32::MAX {
             Err(binrw::Error::Custom {
                 pos: dol_offset,
-- 
2.43.0


From db0a211f22ec904cfebefa45978495c27f92d724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:43 +0000
Subject: [PATCH 30/38] fix: copying an image onto itself destroyed it

---
 src/builder.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/builder.rs b/src/builder.rs
index 88edb22..c3d7270 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -408,6 +408,14 @@ impl<'b, RS: Read + Seek> WiiPartitionDefinition<std::convert::Infallible> for C
 
 pub fn build_copy(src: &Path, dest: &Path) -> Result<(), CpBuildErr> {
     let f = File::open(src)?;
+    if src.canonicalize()? == dest.canonicalize()? {
+        // opening the destination would empty the source
+        return Err(io::Error::new(
+            io::ErrorKind::InvalidInput,
+            "source and destination are the same file",
+        )
+        .into());
+    }
     let mut reader = WiiIsoReader::open(f)?;
     let mut builder = WiiDiscBuilder::create(
         OpenOptions::new()
-- 
2.43.0


From b5fa3e250f7742dcfe06bda165f2460d2f38d351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:43 +0000
Subject: [PATCH 31/38] fix: refuse to store a TMD with more contents than its
 count can say

---
 src/structs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/structs.rs b/src/structs.rs
index b8cb62c..b175a4b 100644
--- a/src/structs.rs
+++ b/src/structs.rs
@@ -210,7 +210,7 @@ pub struct TMD {
     #[brw(pad_before = 6)]
     pub access_flags: u32,
     pub title_version: u16,
-    #[bw(calc = contents.len() as u16)]
+    #[bw(try_calc = u16::try_from(contents.len()))]
     pub num_contents: u16,
     #[brw(pad_after = 2)]
     pub boot_idx: u16,
-- 
2.43.0


From a6d3825ee0190b306d6897468059de5d61335b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:43 +0000
Subject: [PATCH 32/38] fix: refuse to store game titles with null characters

---
 src/structs.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/structs.rs b/src/structs.rs
index b175a4b..e6ec7f9 100644
--- a/src/structs.rs
+++ b/src/structs.rs
@@ -257,6 +257,12 @@ fn title_from_bytes(bytes: &[u8; 64]) -> String {
 }
 
 fn title_to_bytes(title: &str) -> io::Result<[u8; 64]> {
+    if title.contains('\0') {
+        return Err(io::Error::new(
+            io::ErrorKind::InvalidInput,
+            "game title contains a null character",
+        ));
+    }
     let mut bytes = [0; 64];
     bytes
         .get_mut(..title.len())
-- 
2.43.0


From 559add41ffda2059bee7dbb7742d6d6a39e77566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:43 +0000
Subject: [PATCH 33/38] fix: names that differ behind a null character are
 different names

---
 src/fst.rs | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/src/fst.rs b/src/fst.rs
index 4822338..2993dab 100644
--- a/src/fst.rs
+++ b/src/fst.rs
@@ -1,7 +1,6 @@
 use std::{
     cmp::Ordering,
     io::{Read, Seek, SeekFrom, Write},
-    iter::once,
 };
 
 use binrw::{binrw, BinReaderExt, BinWriterExt};
@@ -97,18 +96,9 @@ impl FstNode {
 }
 
 fn ordering_ignore_case(s1: &str, s2: &str) -> Ordering {
-    for (chr1, chr2) in s1
-        .bytes()
-        .map(|b| b.to_ascii_lowercase())
-        .chain(once(0))
-        .zip(s2.bytes().map(|b| b.to_ascii_lowercase()).chain(once(0)))
-    {
-        match chr1.cmp(&chr2) {
-            Ordering::Equal => continue,
-            o => return o,
-        };
-    }
-    Ordering::Equal
+    let lowercase1 = s1.bytes().map(|b| b.to_ascii_lowercase());
+    let lowercase2 = s2.bytes().map(|b| b.to_ascii_lowercase());
+    lowercase1.cmp(lowercase2)
 }
 
 impl FstNode {
-- 
2.43.0


From 4cd92e38aebe784fadff70d4c43e80590d59acdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:43 +0000
Subject: [PATCH 34/38] fix: seeks beyond 2^63 ended up at the start or
 overflowed

---
 src/new_reader.rs |  8 +++++---
 src/window.rs     | 10 ++++++++--
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/new_reader.rs b/src/new_reader.rs
index ebed4c2..90ebebd 100644
--- a/src/new_reader.rs
+++ b/src/new_reader.rs
@@ -186,12 +186,14 @@ impl<'a, RS: Read + Seek> CryptPartReader<'a, RS> {
 impl<'a, RS: Read + Seek> Seek for CryptPartReader<'a, RS> {
     fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
         let new_pos = match pos {
-            SeekFrom::Current(off) => self.crypt_part_state.current_position as i64 + off,
-            SeekFrom::Start(off) => off as i64,
+            SeekFrom::Current(off) => {
+                (self.crypt_part_state.current_position).saturating_add_signed(off)
+            }
+            SeekFrom::Start(off) => off,
             // TODO: support seeking from the end when it's known?
             SeekFrom::End(_off) => return Err(io::Error::from(io::ErrorKind::Unsupported)),
         };
-        self.crypt_part_state.current_position = new_pos.max(0) as u64;
+        self.crypt_part_state.current_position = new_pos;
         Ok(self.crypt_part_state.current_position)
     }
 
diff --git a/src/window.rs b/src/window.rs
index 3ea19a1..cd638cc 100644
--- a/src/window.rs
+++ b/src/window.rs
@@ -119,12 +119,18 @@ where
             }
             SeekFrom::End(off) => {
                 if let Some(length) = self.length {
-                    SeekFrom::Start((self.start + length).saturating_add_signed(off))
+                    SeekFrom::Start(
+                        (self.start.checked_add(length))
+                            .ok_or(io::ErrorKind::InvalidInput)?
+                            .saturating_add_signed(off),
+                    )
                 } else {
                     return Err(io::ErrorKind::Unsupported.into());
                 }
             }
-            SeekFrom::Start(off) => SeekFrom::Start(self.start + off),
+            SeekFrom::Start(off) => SeekFrom::Start(
+                (self.start.checked_add(off)).ok_or(io::ErrorKind::InvalidInput)?,
+            ),
         })?;
         self.pos = position.saturating_sub(self.start);
         Ok(self.pos)
-- 
2.43.0


From e86946bbd9cc49f98a2973dbbdb0431aa7ce2a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:51 +0000
Subject: [PATCH 35/38] fix: opening a partition overflowed the stack of
 ordinary threads in debug builds

---
 src/new_reader.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/new_reader.rs b/src/new_reader.rs
index 90ebebd..70dd0f4 100644
--- a/src/new_reader.rs
+++ b/src/new_reader.rs
@@ -411,7 +411,11 @@ impl<RS: Read + Seek> WiiIsoReader<RS> {
             data_offset: partition.get_offset() + *wii_partition_header.data_off,
             encryption_key: wii_partition_header.ticket.title_key.clone(),
             data_size: *wii_partition_header.data_size,
-            group_cache: Box::new([0; GROUP_SIZE as usize]),
+            // too large for the stack, where Box::new would build it first
+            group_cache: vec![0; GROUP_SIZE as usize]
+                .into_boxed_slice()
+                .try_into()
+                .unwrap(),
         };
 
         let mut crypt_reader = CryptPartReader {
-- 
2.43.0


From 76f26bc71242201d1a32f7337a9d7b34e0fe7259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:52 +0000
Subject: [PATCH 36/38] fix: deeply nested source directories overflowed the
 stack

---
 src/dir_reader.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/dir_reader.rs b/src/dir_reader.rs
index 03261ad..1e4134c 100644
--- a/src/dir_reader.rs
+++ b/src/dir_reader.rs
@@ -25,14 +25,18 @@ pub fn build_fst_from_directory_tree<P: AsRef<Path> + ?Sized>(
     path: &P,
 ) -> Result<Fst, BuildDirError> {
     let mut fst = Fst::default();
-    let mut dirs = Vec::new();
-    build_fst_from_directory_tree_rec(path, &mut dirs, &mut fst)?;
+    // directories can be nested deeper than the stack has room for, so no recursion
+    let mut pending = vec![(path.as_ref().to_path_buf(), Vec::new())];
+    while let Some((path, dirs)) = pending.pop() {
+        read_directory(&path, &dirs, &mut pending, &mut fst)?;
+    }
     Ok(fst)
 }
 
-fn build_fst_from_directory_tree_rec<P: AsRef<Path> + ?Sized>(
-    path: &P,
-    dirs: &mut Vec<String>,
+fn read_directory(
+    path: &Path,
+    dirs: &Vec<String>,
+    pending: &mut Vec<(PathBuf, Vec<String>)>,
     fst: &mut Fst,
 ) -> Result<(), BuildDirError> {
     for entry in fs::read_dir(path)? {
@@ -44,10 +48,10 @@ fn build_fst_from_directory_tree_rec<P: AsRef<Path> + ?Sized>(
         let path = entry.path();
         let metadata = fs::metadata(&path)?;
         if metadata.is_dir() {
-            // directories, push them to the dir stack
+            // directories, remember them for later
+            let mut dirs = dirs.clone();
             dirs.push(filename);
-            build_fst_from_directory_tree_rec(&path, dirs, fst)?;
-            let _ = dirs.pop();
+            pending.push((path, dirs));
         } else {
             // files, add them to the fst
             if !matches!(
-- 
2.43.0


From 3267ba761cd924034c33c0c0d7d0af81aa10e50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:52 +0000
Subject: [PATCH 37/38] fix: do not take the first bytes of a name in the FST
 for a byte order mark

---
 src/fst.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fst.rs b/src/fst.rs
index 2993dab..389586c 100644
--- a/src/fst.rs
+++ b/src/fst.rs
@@ -138,7 +138,8 @@ fn read_shiftjs<RS: Read + Seek>(
             chr => null_str.push(chr),
         }
     }
-    let (res, _, err) = SHIFT_JIS.decode(&null_str);
+    // names are Shift-JIS, a byte order mark has no meaning in them
+    let (res, err) = SHIFT_JIS.decode_without_bom_handling(&null_str);
     if err {
         return Err(binrw::Error::Custom {
             pos: offset,
-- 
2.43.0


From b9da988dea823877a0e601523ec4ff16bf976feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:00 +0000
Subject: [PATCH 38/38] fix: recognize a hard link to the source as destination
 of a copy

---
 src/builder.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index c3d7270..d554c0e 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -406,9 +406,23 @@ impl<'b, RS: Read + Seek> WiiPartitionDefinition<std::convert::Infallible> for C
     }
 }
 
+/// whether both paths lead to the same file
+#[cfg(unix)]
+fn is_same_file(a: &Path, b: &Path) -> io::Result<bool> {
+    use std::os::unix::fs::MetadataExt;
+    let (a, b) = (a.metadata()?, b.metadata()?);
+    Ok(a.dev() == b.dev() && a.ino() == b.ino())
+}
+
+/// whether both paths lead to the same file, hard links are not recognized
+#[cfg(not(unix))]
+fn is_same_file(a: &Path, b: &Path) -> io::Result<bool> {
+    Ok(a.canonicalize()? == b.canonicalize()?)
+}
+
 pub fn build_copy(src: &Path, dest: &Path) -> Result<(), CpBuildErr> {
     let f = File::open(src)?;
-    if src.canonicalize()? == dest.canonicalize()? {
+    if is_same_file(src, dest)? {
         // opening the destination would empty the source
         return Err(io::Error::new(
             io::ErrorKind::InvalidInput,
-- 
2.43.0

