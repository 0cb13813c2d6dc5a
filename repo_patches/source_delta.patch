From 6491c1f36f62a8e84358e72e6457f1ad623514ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:19 +0000
Subject: [PATCH 01/15] fix: reject block group descriptor sizes too small for
 the 64-bit format

---
 src/error.rs      |  9 +++++++++
 src/superblock.rs | 20 ++++++++++++++------
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index b5efa63..1a47172 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -218,6 +218,12 @@ pub(crate) enum CorruptKind {
         u32,
     ),
 
+    /// Size of block group descriptors in the superblock is invalid.
+    BlockGroupDescriptorSize(
+        /// Descriptor size.
+        u16,
+    ),
+
     /// Invalid block group descriptor.
     BlockGroupDescriptor(
         /// Block group number.
@@ -403,6 +409,9 @@ impl Display for CorruptKind {
             Self::FirstDataBlock(block) => {
                 write!(f, "invalid first data block: {block}")
             }
+            Self::BlockGroupDescriptorSize(size) => {
+                write!(f, "invalid block group descriptor size: {size}")
+            }
             Self::BlockGroupDescriptor(block_group_num) => {
                 write!(f, "block group descriptor {block_group_num} is invalid")
             }
diff --git a/src/superblock.rs b/src/superblock.rs
index da99256..f6a1421 100644
--- a/src/superblock.rs
+++ b/src/superblock.rs
@@ -111,12 +111,20 @@ impl Superblock {
         let inodes_per_block_group = NonZero::new(s_inodes_per_group)
             .ok_or(CorruptKind::InodesPerBlockGroup)?;
 
-        let block_group_descriptor_size =
-            if incompatible_features.contains(IncompatibleFeatures::IS_64BIT) {
-                s_desc_size
-            } else {
-                32
-            };
+        let block_group_descriptor_size = if incompatible_features
+            .contains(IncompatibleFeatures::IS_64BIT)
+        {
+            // The 64-bit format extends the descriptor to at least 64
+            // bytes.
+            if s_desc_size < 64 {
+                return Err(
+                    CorruptKind::BlockGroupDescriptorSize(s_desc_size).into()
+                );
+            }
+            s_desc_size
+        } else {
+            32
+        };
 
         // Inodes are not allowed to exceed the block size.
         if s_inode_size > block_size {
-- 
2.43.0


From 1cb36894e87913af885d0640c120e2526f2142fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:21 +0000
Subject: [PATCH 02/15] fix: return an error if an htree node's entry count
 exceeds the block

---
 src/dir_block.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/dir_block.rs b/src/dir_block.rs
index b7138ee..ff8cc1d 100644
--- a/src/dir_block.rs
+++ b/src/dir_block.rs
@@ -68,7 +68,7 @@ impl DirBlock<'_> {
         let actual_checksum = if block_type == DirBlockType::Leaf {
             self.calc_leaf_checksum(block)
         } else {
-            self.calc_internal_checksum(block, block_type)
+            self.calc_internal_checksum(block, block_type)?
         };
 
         if actual_checksum.finalize() == expected_checksum {
@@ -105,7 +105,7 @@ impl DirBlock<'_> {
         &self,
         block: &[u8],
         block_type: DirBlockType,
-    ) -> Checksum {
+    ) -> Result<Checksum, Ext4Error> {
         let tail_entry_size = 8;
 
         // OK to unwrap: minimum block size is 1024.
@@ -131,11 +131,15 @@ impl DirBlock<'_> {
             .unwrap();
 
         let mut checksum = self.checksum_base.clone();
-        checksum.update(&block[..num_bytes]);
+        checksum.update(
+            block
+                .get(..num_bytes)
+                .ok_or(CorruptKind::DirBlockChecksum(self.dir_inode))?,
+        );
         checksum.update_u32_le(read_u32le(block, tail_entry_offset));
         checksum.update_u32_le(0);
 
-        checksum
+        Ok(checksum)
     }
 
     fn get_block_type(&self, block: &[u8]) -> DirBlockType {
-- 
2.43.0


From 541d242b07f284d631490c28725e584168b490c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:22 +0000
Subject: [PATCH 03/15] fix: reject extent nodes whose depth does not match
 their parent

---
 src/iters/extents.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/iters/extents.rs b/src/iters/extents.rs
index 4236c8a..17e8f36 100644
--- a/src/iters/extents.rs
+++ b/src/iters/extents.rs
@@ -271,8 +271,15 @@ impl Extents {
                 }
             }
 
-            self.to_visit
-                .push(ToVisitItem::new(child_node, self.inode)?);
+            let child = ToVisitItem::new(child_node, self.inode)?;
+
+            // Each step down the tree must decrease the depth by exactly
+            // one. In particular, this prevents cycles in the tree.
+            if child.depth.checked_add(1) != Some(item.depth) {
+                return Err(CorruptKind::ExtentDepth(self.inode).into());
+            }
+
+            self.to_visit.push(child);
         }
 
         // This does not indicate end of iteration, we just haven't
-- 
2.43.0


From 7c8e54f50caa324fa2c160f688fc6213aad427a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:01 +0000
Subject: [PATCH 04/15] fix: treat unwritten extents as holes

---
 src/iters/extents.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/iters/extents.rs b/src/iters/extents.rs
index 17e8f36..cf96425 100644
--- a/src/iters/extents.rs
+++ b/src/iters/extents.rs
@@ -210,6 +210,15 @@ impl Extents {
         if item.depth == 0 {
             let ee_block = read_u32le(entry, 0);
             let ee_len = read_u16le(entry, 4);
+
+            // A length greater than 32768 indicates that the extent is
+            // unwritten: space has been allocated, but the blocks must
+            // read as zero. Skip the extent so that its blocks are
+            // treated as a hole.
+            if ee_len > 32768 {
+                return Ok(None);
+            }
+
             let ee_start_hi = read_u16le(entry, 6);
             let ee_start_low = read_u32le(entry, 8);
 
-- 
2.43.0


From 63be2c118c8193ddbac21b17be607223fcb1d5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:45 +0000
Subject: [PATCH 05/15] fix: return an error instead of panicking if a file's
 blocks end early

---
 src/error.rs |  6 ++++++
 src/file.rs  | 14 +++++++++-----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 1a47172..3c780fb 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -311,6 +311,9 @@ pub(crate) enum CorruptKind {
     /// The target of a symlink is not a valid path.
     SymlinkTarget(InodeIndex),
 
+    /// The block list of a file ends before the end of the file.
+    FileBlocks(InodeIndex),
+
     /// The number of blocks in a file exceeds 2^32.
     TooManyBlocksInFile,
 
@@ -502,6 +505,9 @@ impl Display for CorruptKind {
             Self::SymlinkTarget(inode) => {
                 write!(f, "inode {inode} has an invalid symlink path")
             }
+            Self::FileBlocks(inode) => {
+                write!(f, "missing blocks at the end of inode {inode}")
+            }
             Self::TooManyBlocksInFile => write!(f, "too many blocks in file"),
             Self::ExtentMagic(inode) => {
                 write!(f, "extent in inode {inode} has invalid magic")
diff --git a/src/file.rs b/src/file.rs
index c9e6b7c..8a277ce 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -8,7 +8,7 @@
 
 use crate::Ext4;
 use crate::block_index::FsBlockIndex;
-use crate::error::Ext4Error;
+use crate::error::{CorruptKind, Ext4Error};
 use crate::inode::Inode;
 use crate::iters::file_blocks::FileBlocks;
 use crate::metadata::Metadata;
@@ -126,10 +126,14 @@ impl File {
         let block_index = if let Some(block_index) = self.block_index {
             block_index
         } else {
-            // OK to unwrap: already checked that the position is not at
-            // the end of the file, so there must be at least one more
-            // block to read.
-            let block_index = self.file_blocks.next().unwrap()?;
+            // The position is not at the end of the file, so there should
+            // be at least one more block to read. The iterator may have
+            // ended early though, if it previously returned an error or
+            // if the file size is larger than the block map allows.
+            let block_index = self
+                .file_blocks
+                .next()
+                .ok_or(CorruptKind::FileBlocks(self.inode.index))??;
 
             self.block_index = Some(block_index);
 
-- 
2.43.0


From 4d964c0e270638f80029b6b8e5bfab553604e14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:46 +0000
Subject: [PATCH 06/15] fix: propagate errors when seeking, and stop at the end
 of the file

---
 src/file.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index 8a277ce..1227da3 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -211,16 +211,23 @@ impl File {
     /// Seeking past the end of the file is allowed.
     pub fn seek_to(&mut self, position: u64) -> Result<(), Ext4Error> {
         // Reset iteration.
-        self.file_blocks = FileBlocks::new(self.fs.clone(), &self.inode)?;
-        self.block_index = None;
+        let mut file_blocks = FileBlocks::new(self.fs.clone(), &self.inode)?;
 
         // Advance the block iterator by the number of whole blocks in
         // `position`.
         let num_blocks = position / self.fs.0.superblock.block_size.to_nz_u64();
         for _ in 0..num_blocks {
-            self.file_blocks.next();
+            match file_blocks.next() {
+                Some(block_index) => {
+                    block_index?;
+                }
+                // Past the end of the file.
+                None => break,
+            }
         }
 
+        self.file_blocks = file_blocks;
+        self.block_index = None;
         self.position = position;
 
         Ok(())
-- 
2.43.0


From c52395d562a119bf3e5c5aecf7ba1a024891fe4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:46 +0000
Subject: [PATCH 07/15] fix: treat unallocated indirect blocks as holes

---
 src/iters/file_blocks/block_map.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/iters/file_blocks/block_map.rs b/src/iters/file_blocks/block_map.rs
index c9a316b..6cc7438 100644
--- a/src/iters/file_blocks/block_map.rs
+++ b/src/iters/file_blocks/block_map.rs
@@ -191,7 +191,11 @@ struct IndirectBlockIter {
 impl IndirectBlockIter {
     fn new(fs: Ext4, block_index: u32) -> Result<Self, Ext4Error> {
         let mut block = vec![0u8; fs.0.superblock.block_size.to_usize()];
-        fs.read_from_block(FsBlockIndex::from(block_index), 0, &mut block)?;
+        // If the block index is zero, the whole range covered by the
+        // indirect block is a hole. Leave the indices all set to zero.
+        if block_index != 0 {
+            fs.read_from_block(FsBlockIndex::from(block_index), 0, &mut block)?;
+        }
 
         Ok(Self {
             block,
-- 
2.43.0


From 099ef7f7135bc9777230edd0e898a6a80433a509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:47 +0000
Subject: [PATCH 08/15] fix: raise the iteration limit of path resolution

---
 src/resolve.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index 4ae6d68..8ab4838 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -55,7 +55,7 @@ pub(crate) enum FollowSymlinks {
 ///
 /// # Panics
 ///
-/// This function panics if path resolution takes over 1000
+/// This function panics if path resolution takes over `MAX_ITERATIONS`
 /// iterations. This should never occur in practice due to other
 /// restrictions, this is just a hedge against unforeseen bugs.
 pub(crate) fn resolve_path(
@@ -73,7 +73,10 @@ pub(crate) fn resolve_path(
     // Maximum number of iterations. This limit should never be reached
     // in practice, this is just to guard against unknown bugs that
     // could cause an infinite loop.
-    const MAX_ITERATIONS: usize = 1000;
+    //
+    // Between two symlinks, each iteration processes at least one byte
+    // of a path that is at most `MAX_PATH_LEN` bytes.
+    const MAX_ITERATIONS: usize = (MAX_SYMLINKS + 1) * MAX_PATH_LEN;
 
     if !path.is_absolute() {
         return Err(Ext4Error::NotAbsolute);
-- 
2.43.0


From 80df9025702468ce4c9e035a5ba6e89f68d36f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:48 +0000
Subject: [PATCH 09/15] fix: don't treat unused block cache entries as block
 zero

---
 src/block_cache.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/block_cache.rs b/src/block_cache.rs
index c1b6b2f..2b892e9 100644
--- a/src/block_cache.rs
+++ b/src/block_cache.rs
@@ -103,7 +103,9 @@ impl BlockCache {
 
         let entries = vec![
             CacheEntry {
-                block_index: 0,
+                // Not a valid block index, so an unused entry never
+                // matches a requested block.
+                block_index: FsBlockIndex::MAX,
                 data: vec![0; opts.block_size.to_usize()].into_boxed_slice(),
             };
             opts.num_entries
-- 
2.43.0


From 29f744eb6d71d88b3f0edf4b9ec4219766040fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:49 +0000
Subject: [PATCH 10/15] fix: apply journal revocations to earlier transactions

---
 src/journal/block_map.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/journal/block_map.rs b/src/journal/block_map.rs
index 95ca2a3..99ce64b 100644
--- a/src/journal/block_map.rs
+++ b/src/journal/block_map.rs
@@ -230,11 +230,13 @@ impl<'a> BlockMapLoader<'a> {
     fn process_commit_block(&mut self) -> Result<(), Ext4Error> {
         validate_commit_block_checksum(self.superblock, &self.block)?;
 
-        // Remove any revoked blocks from uncommitted blocks.
+        // Remove any revoked blocks from uncommitted blocks, and from
+        // blocks committed by earlier transactions.
         for block_index in &self.revoked_blocks {
             // Don't check the `remove` return value, as a revoked block
             // wasn't necessarily reused later in the transaction.
             self.uncommitted_block_map.remove(block_index);
+            self.block_map.remove(block_index);
         }
         self.revoked_blocks.clear();
 
-- 
2.43.0


From a01979a316727c1ac0700cdd5ae78524fe42de5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:57 +0000
Subject: [PATCH 11/15] fix: return an error if a file is too large to allocate

---
 src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7f8aceb..70cf467 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -373,11 +373,16 @@ impl Ext4 {
         // Get the file size and initialize the output vector.
         let file_size_in_bytes = usize::try_from(inode.metadata.size_in_bytes)
             .map_err(|_| Ext4Error::FileTooLarge)?;
-        let mut dst = vec![0; file_size_in_bytes];
+        // The size has not been validated against the size of the
+        // filesystem, so the allocation may fail.
+        let mut dst = Vec::new();
+        dst.try_reserve_exact(file_size_in_bytes)
+            .map_err(|_| Ext4Error::FileTooLarge)?;
+        dst.resize(file_size_in_bytes, 0);
 
         // Use `File` to read the data in chunks.
         let mut file = File::open_inode(self, inode.clone())?;
-        let mut remaining = dst.as_mut();
+        let mut remaining = dst.as_mut_slice();
         loop {
             let bytes_read = file.read_bytes(remaining)?;
             if bytes_read == 0 {
-- 
2.43.0


From 6f5b6082c7d141c9e65ad0d722b25ab87c19741d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:58 +0000
Subject: [PATCH 12/15] fix: don't preallocate memory for an unvalidated number
 of block groups

---
 src/block_group.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/block_group.rs b/src/block_group.rs
index 47be0a7..cef9059 100644
--- a/src/block_group.rs
+++ b/src/block_group.rs
@@ -12,7 +12,7 @@ use crate::checksum::Checksum;
 use crate::error::{CorruptKind, Ext4Error};
 use crate::features::{IncompatibleFeatures, ReadOnlyCompatibleFeatures};
 use crate::superblock::Superblock;
-use crate::util::{read_u16le, read_u32le, u64_from_hilo, usize_from_u32};
+use crate::util::{read_u16le, read_u32le, u64_from_hilo};
 use alloc::vec;
 use alloc::vec::Vec;
 
@@ -130,8 +130,9 @@ impl BlockGroupDescriptor {
         sb: &Superblock,
         reader: &mut dyn Ext4Read,
     ) -> Result<Vec<Self>, Ext4Error> {
-        let mut block_group_descriptors =
-            Vec::with_capacity(usize_from_u32(sb.num_block_groups));
+        // Don't preallocate, since `num_block_groups` has not been
+        // validated against the actual size of the filesystem.
+        let mut block_group_descriptors = Vec::new();
 
         for bgd_index in 0..sb.num_block_groups {
             let bgd = Self::read(sb, reader, bgd_index)?;
-- 
2.43.0


From 40cc53c9cf5c3d338b767c8cd012502a5b5b5470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:21 +0000
Subject: [PATCH 13/15] fix: reject block sizes larger than 64KiB

---
 src/superblock.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/superblock.rs b/src/superblock.rs
index f6a1421..2fe1cc3 100644
--- a/src/superblock.rs
+++ b/src/superblock.rs
@@ -77,7 +77,9 @@ impl Superblock {
 
         let blocks_count = u64_from_hilo(s_blocks_count_hi, s_blocks_count_lo);
 
+        // The largest block size allowed by ext4 is 64KiB.
         let block_size = BlockSize::from_superblock_value(s_log_block_size)
+            .filter(|block_size| block_size.to_u32() <= 65536)
             .ok_or(CorruptKind::InvalidBlockSize)?;
 
         if s_magic != 0xef53 {
-- 
2.43.0


From 59087f17d69851cc06b64bc325fa5378507566ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:57 +0000
Subject: [PATCH 14/15] fix: report errors while finding a directory index
 block through the block map

---
 src/dir_htree.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/dir_htree.rs b/src/dir_htree.rs
index 8b1457c..efc5a25 100644
--- a/src/dir_htree.rs
+++ b/src/dir_htree.rs
@@ -17,7 +17,7 @@ use crate::inode::{Inode, InodeFlags, InodeIndex};
 use crate::iters::extents::Extents;
 use crate::iters::file_blocks::FileBlocks;
 use crate::path::PathBuf;
-use crate::util::{read_u16le, read_u32le, usize_from_u32};
+use crate::util::{read_u16le, read_u32le};
 use alloc::rc::Rc;
 use alloc::vec;
 
@@ -279,8 +279,14 @@ fn block_from_file_block(
         Ok(absolute_block)
     } else {
         let mut block_map = FileBlocks::new(fs.clone(), inode)?;
+        // Note that `Iterator::nth` would drop errors.
+        for _ in 0..relative_block {
+            block_map
+                .next()
+                .ok_or(CorruptKind::DirEntry(inode.index))??;
+        }
         block_map
-            .nth(usize_from_u32(relative_block))
+            .next()
             .ok_or(CorruptKind::DirEntry(inode.index))?
     }
 }
-- 
2.43.0


From 33b2610c7c4359aa96c6b75b732dd5ce07fa59e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:57 +0000
Subject: [PATCH 15/15] fix: report errors while skipping to the start of the
 journal

---
 src/journal/block_map.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/journal/block_map.rs b/src/journal/block_map.rs
index 99ce64b..78bbe62 100644
--- a/src/journal/block_map.rs
+++ b/src/journal/block_map.rs
@@ -21,11 +21,9 @@ use crate::journal::revocation_block::{
     read_revocation_block_table, validate_revocation_block_checksum,
 };
 use crate::journal::superblock::JournalSuperblock;
-use crate::util::usize_from_u32;
 use alloc::collections::BTreeMap;
 use alloc::vec;
 use alloc::vec::Vec;
-use core::iter::Skip;
 
 /// Map from a block somewhere in the filesystem to a block in the
 /// journal. Both the key and value are absolute block indices.
@@ -86,7 +84,7 @@ struct BlockMapLoader<'a> {
 
     /// Iterator over blocks in the journal inode. At construction, the
     /// iterator is advanced to the journal start block.
-    journal_block_iter: Skip<FileBlocks>,
+    journal_block_iter: FileBlocks,
 
     /// Current block index.
     block_index: FsBlockIndex,
@@ -120,11 +118,17 @@ impl<'a> BlockMapLoader<'a> {
         journal_inode: &Inode,
     ) -> Result<Self, Ext4Error> {
         // Get an iterator over the journal's block indices.
-        let journal_block_iter = FileBlocks::new(fs.clone(), journal_inode)?;
-
-        // Skip forward to the start block.
-        let journal_block_iter =
-            journal_block_iter.skip(usize_from_u32(superblock.start_block));
+        let mut journal_block_iter =
+            FileBlocks::new(fs.clone(), journal_inode)?;
+
+        // Skip forward to the start block. Note that `Iterator::skip`
+        // would drop errors.
+        for _ in 0..superblock.start_block {
+            match journal_block_iter.next() {
+                Some(block_index) => block_index?,
+                None => break,
+            };
+        }
 
         Ok(Self {
             fs,
-- 
2.43.0

