From 0cd6e142eca7301aa57fb84f1656d71811cbcce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:56 +0000
Subject: [PATCH 01/12] fix: listing a prefix ending in 0xff includes keys
 without the prefix

---
 src/tx.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tx.rs b/src/tx.rs
index 7548f3e..945d406 100644
--- a/src/tx.rs
+++ b/src/tx.rs
@@ -101,6 +101,11 @@ pub trait ReadTransaction: ReadOnlyTransactionAccessor {
         let range_end = {
             let mut prefix = prefix.to_owned();
             if inc_big_endian_array(&mut prefix) {
+                // Bytes that overflowed were zeroed, and would extend the range past keys that
+                // don't have the prefix. The byte that was incremented can't be zero.
+                while prefix.last() == Some(&0) {
+                    prefix.pop();
+                }
                 Some(prefix)
             } else {
                 None
-- 
2.43.0


From 3cd396cbd3076b91386acfdee63050cf4e663d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:17 +0000
Subject: [PATCH 02/12] fix: renaming a value onto its own key, or a value not
 stored, loses data

Renaming a value to the key it already has deleted it, and renaming a value
that is no longer stored (or is empty, so has no location) deleted whatever
had the new key.
---
 src/tx.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/tx.rs b/src/tx.rs
index 945d406..f8b6930 100644
--- a/src/tx.rs
+++ b/src/tx.rs
@@ -269,6 +269,20 @@ where
 
     // TODO: Add a test for renaming onto itself.
     pub fn rename_value(&mut self, value: &Value, new_key: Vec<u8>) -> PubResult<bool> {
+        // Nothing must change if the value isn't there (or has no location to find it by), or if it
+        // already has the key.
+        let old_key: rusqlite::Result<Vec<u8>> = self
+            .tx
+            .prepare_cached("select key from keys where file_id=? and file_offset=?")?
+            .query_row(params![value.file_id(), value.file_offset()], |row| {
+                row.get(0)
+            });
+        match old_key {
+            Err(QueryReturnedNoRows) => return Ok(false),
+            Err(err) => return Err(err.into()),
+            Ok(old_key) if old_key == new_key => return Ok(true),
+            Ok(_) => {}
+        }
         match self
             .tx
             .prepare_cached(&format!(
@@ -282,13 +296,6 @@ where
             Ok(existing_value) => {
                 match existing_value.location {
                     Nonzero(a) => {
-                        let b = value;
-                        if Some(a.file_offset) == b.file_offset() && Some(&a.file_id) == b.file_id()
-                        {
-                            assert_eq!(a.length, b.length());
-                            // Renamed but the name is the same.
-                            return Ok(true);
-                        }
                         // Schedule the value that previously had the key to be hole punched.
                         self.deleted_values.push(a);
                     }
-- 
2.43.0


From 62ee5d8d7de558f1c48736de264cf4f4e3d5e540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:19 +0000
Subject: [PATCH 03/12] fix: panic on an I/O error while cloning a file for a
 snapshot

Error::root_cause had no case for Io.
---
 src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 7fa376d..7f74be0 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -47,8 +47,8 @@ impl Error {
         match self {
             NoSuchKey | UnsupportedFilesystem => self,
             Sqlite(inner) => inner,
+            Io(inner) => inner,
             Anyhow(inner) => inner.root_cause(),
-            _ => unimplemented!(),
         }
     }
 
-- 
2.43.0


From e0993db642ed8d70956c5e7a6ab484f1dc03ddfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:27 +0000
Subject: [PATCH 04/12] fix: bytes of a failed copy become part of the value

ValueWriter::copy_from only sought back after a failure, but the file is opened
to append. Truncating it means that a clone made meanwhile can't be used past
the last value that was committed when it was made.
---
 src/lib.rs    | 4 ++--
 src/reader.rs | 9 ++++++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3ddcf89..5f00798 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -209,9 +209,9 @@ impl ValueWriter {
         let value_length = match std::io::copy(&mut value, &mut self.exclusive_file.inner) {
             Ok(ok) => ok,
             Err(err) => {
+                // Seeking alone isn't enough, as the file is opened to append.
                 self.exclusive_file
-                    .inner
-                    .seek(Start(value_file_offset))
+                    .revert_to_offset(value_file_offset)
                     .expect("should rewind failed copy");
                 return Err(err.into());
             }
diff --git a/src/reader.rs b/src/reader.rs
index 46b60a3..c5b0c44 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -150,7 +150,14 @@ where
         // can retry the cloning until we are able to lock it.
         let locked = file.lock_max_segment(LockSharedNonblock)?;
         assert!(locked);
-        let len = file.seek(End(0))?;
+        // Bytes after the last committed value could still be reverted by their writer, so this clone
+        // can't be used for values committed there later.
+        let len = min(
+            file.seek(End(0))?,
+            self.owned_tx
+                .transaction()
+                .query_last_end_offset(file_id, i64::MAX as u64)?,
+        );
         let file_clone = Arc::new(Mutex::new(FileClone {
             file,
             tempdir: Some(tempdir.clone()),
-- 
2.43.0


From 9f803a94f91dacc75aa9289a083b0217921ec30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:20 +0000
Subject: [PATCH 05/12] fix: reads panic while another handle's writer still
 holds its committed extent

The exclusive lock is released after the commit. Wait for that, instead of asserting that it
was already released.
---
 src/reader.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reader.rs b/src/reader.rs
index c5b0c44..b754131 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -181,7 +181,8 @@ where
             return Ok(());
         }
         for extent in read_extents {
-            assert!(file.lock_segment(LockSharedNonblock, Some(extent.len), extent.offset)?);
+            // Wait for a writer that has committed an extent but not yet released its lock of it.
+            assert!(file.lock_segment(LockShared, Some(extent.len), extent.offset)?);
         }
         Ok(())
     }
-- 
2.43.0


From ba54dd68dbd75db2d82fa6c64b9ced7a32479559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:40 +0000
Subject: [PATCH 06/12] fix: prefix deletes and moves fail if another handle
 commits meanwhile

They read before they write, so their deferred transaction can't be upgraded once its snapshot
is stale. Start it as a write transaction.
---
 src/handle.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/handle.rs b/src/handle.rs
index 19f6fd0..143f1fe 100644
--- a/src/handle.rs
+++ b/src/handle.rs
@@ -441,7 +441,7 @@ impl Handle {
     }
 
     pub fn move_prefix(&self, from: &[u8], to: &[u8]) -> Result<()> {
-        let mut tx = self.start_deferred_transaction()?;
+        let mut tx = self.start_immediate_transaction()?;
         let items = tx.list_items(from)?;
         let mut to_vec = to.to_vec();
         for item in items {
@@ -454,7 +454,7 @@ impl Handle {
     }
 
     pub fn delete_prefix(&self, prefix: impl AsRef<[u8]>) -> PubResult<()> {
-        let mut tx = self.start_deferred_transaction()?;
+        let mut tx = self.start_immediate_transaction()?;
         for item in tx.list_items(prefix.as_ref())? {
             tx.delete_key(&item.key)?;
         }
-- 
2.43.0


From a84e3364ff5dce3ce2f394138f745ca01857434d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:22 +0000
Subject: [PATCH 07/12] fix: reads fail if another handle cleans up snapshots
 meanwhile

A clone can be removed until it is locked. Try again in a new directory if that happens.
---
 src/reader.rs | 79 ++++++++++++++++++++++++++++++++-------------------
 1 file changed, 49 insertions(+), 30 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index b754131..85ebb78 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -116,40 +116,27 @@ where
     fn clone_file(
         &self,
         file_id: &FileId,
-        tempdir: &mut Option<Arc<TempDir>>,
+        tempdir_opt: &mut Option<Arc<TempDir>>,
         cache: &mut FileCloneCache,
         src_dir: &Path,
     ) -> PubResult<Arc<Mutex<FileClone>>> {
-        let tempdir: &Arc<TempDir> = match tempdir {
-            Some(tempdir) => tempdir,
-            None => {
-                let mut builder = tempfile::Builder::new();
-                builder.prefix(SNAPSHOT_DIR_NAME_PREFIX);
-                let new = Arc::new(builder.tempdir_in(src_dir)?);
-                *tempdir = Some(new);
-                tempdir.as_ref().unwrap()
+        // Until a clone is locked, it can be removed by the snapshot cleanup of another handle. Try
+        // again in a new directory if that happens.
+        let (mut file, tempdir) = loop {
+            let tempdir: &Arc<TempDir> = match tempdir_opt {
+                Some(tempdir) => tempdir,
+                None => {
+                    let mut builder = tempfile::Builder::new();
+                    builder.prefix(SNAPSHOT_DIR_NAME_PREFIX);
+                    let new = Arc::new(builder.tempdir_in(src_dir)?);
+                    tempdir_opt.insert(new)
+                }
+            };
+            if let Some(file) = Self::clone_file_into(file_id, src_dir, tempdir.path())? {
+                break (file, tempdir.clone());
             }
+            *tempdir_opt = None;
         };
-        let src_path = file_path(src_dir, file_id);
-        // TODO: In order for value files to support truncation, a shared or exclusive lock would
-        // need to be taken before cloning. I don't think this is possible, we would have to wait
-        // for anyone holding an exclusive lock to release it. Handles already cache these, plus
-        // Writers could hold them for a long time while writing. Then we need a separate cloning
-        // lock. Also distinct Handles, even across processes can own each exclusive file.
-        if false {
-            let src_file = OpenOptions::new().read(true).open(&src_path)?;
-            assert!(src_file.lock_max_segment(LockSharedNonblock)?);
-        }
-        let tempdir_path = tempdir.path();
-        let dst_path = file_path(tempdir_path, file_id);
-        clonefile(&src_path, &dst_path).context("cloning file")?;
-        let mut file = open_file_id(OpenOptions::new().read(true), tempdir_path, file_id)
-            .context("opening value file")?;
-        // This prevents the snapshot file from being cleaned up. There's probably a race between
-        // here and when it was cloned above. I wonder if the snapshot dir can be locked, or if we
-        // can retry the cloning until we are able to lock it.
-        let locked = file.lock_max_segment(LockSharedNonblock)?;
-        assert!(locked);
         // Bytes after the last committed value could still be reverted by their writer, so this clone
         // can't be used for values committed there later.
         let len = min(
@@ -160,7 +147,7 @@ where
         );
         let file_clone = Arc::new(Mutex::new(FileClone {
             file,
-            tempdir: Some(tempdir.clone()),
+            tempdir: Some(tempdir),
             mmap: None,
             len,
         }));
@@ -169,6 +156,38 @@ where
         Ok(file_clone)
     }
 
+    /// Clones and locks a values file. Returns None if the clone was removed before it was locked.
+    fn clone_file_into(
+        file_id: &FileId,
+        src_dir: &Path,
+        tempdir_path: &Path,
+    ) -> PubResult<Option<File>> {
+        let src_path = file_path(src_dir, file_id);
+        // TODO: In order for value files to support truncation, a shared or exclusive lock would
+        // need to be taken before cloning. I don't think this is possible, we would have to wait
+        // for anyone holding an exclusive lock to release it. Handles already cache these, plus
+        // Writers could hold them for a long time while writing. Then we need a separate cloning
+        // lock. Also distinct Handles, even across processes can own each exclusive file.
+        if false {
+            let src_file = OpenOptions::new().read(true).open(&src_path)?;
+            assert!(src_file.lock_max_segment(LockSharedNonblock)?);
+        }
+        let dst_path = file_path(tempdir_path, file_id);
+        match clonefile(&src_path, &dst_path) {
+            Err(err) if err.kind() == ErrorKind::NotFound && !tempdir_path.exists() => {
+                return Ok(None)
+            }
+            res => res.context("cloning file")?,
+        }
+        let file = match open_file_id(OpenOptions::new().read(true), tempdir_path, file_id) {
+            Err(err) if err.kind() == ErrorKind::NotFound => return Ok(None),
+            res => res.context("opening value file")?,
+        };
+        // This prevents the snapshot file from being cleaned up.
+        let locked = file.lock_max_segment(LockSharedNonblock)?;
+        Ok(locked.then_some(file))
+    }
+
     fn lock_read_extents<'b>(
         file: &File,
         read_extents: impl Iterator<Item = &'b ReadExtent>,
-- 
2.43.0


From aba176410ac74f1948353dcd47d7a646748fb3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:00 +0000
Subject: [PATCH 08/12] fix: reclaiming a deleted value can destroy one
 committed after it

The snapshot of the transaction can predate another handle's commit to the same file. Look
again after locking the file, before truncating or removing it.
---
 src/lib.rs | 20 +++++++++++++++-----
 src/tx.rs  |  7 +++++++
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5f00798..4952423 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -835,13 +835,23 @@ fn punch_value(opts: PunchValueOptions) -> Result<bool> {
     }
     assert_eq!(offset % block_size, 0);
     if greedy_end {
-        let next_offset = tx.next_value_offset(file_id, (offset + length).try_into().unwrap())?;
+        let min_offset = (offset + length).try_into().unwrap();
+        let mut next_offset = tx.next_value_offset(file_id, min_offset)?;
+        let mut locked_file = false;
+        if next_offset.is_none() {
+            // Lock the file to see if we can expand to the end of the file.
+            locked_file = file
+                .lock_max_segment(LockExclusiveNonblock)
+                .context("locking value file")?;
+            if locked_file {
+                // A writer could have committed another value and released the file since the
+                // transaction took its snapshot.
+                tx.renew()?;
+                next_offset = tx.next_value_offset(file_id, min_offset)?;
+            }
+        }
         let end_offset = match next_offset {
             None => {
-                // Lock the file to see if we can expand to the end of the file.
-                let locked_file = file
-                    .lock_max_segment(LockExclusiveNonblock)
-                    .context("locking value file")?;
                 // Get the file length after we have tried locking the file.
                 let file_end = file.seek(End(0))? as i64;
                 if locked_file {
diff --git a/src/tx.rs b/src/tx.rs
index f8b6930..4ac10f4 100644
--- a/src/tx.rs
+++ b/src/tx.rs
@@ -39,6 +39,13 @@ pub type ReadTransactionRef<'a> = &'a ReadTransactionOwned<'a>;
 /// Helper type for wrapping rusqlite::Transaction to only provide ReadTransaction capabilities.
 pub struct ReadTransactionOwned<'a>(pub(crate) rusqlite::Transaction<'a>);
 
+impl ReadTransactionOwned<'_> {
+    /// Starts again, to see what was committed since.
+    pub(crate) fn renew(&self) -> rusqlite::Result<()> {
+        self.0.execute_batch("rollback; begin deferred")
+    }
+}
+
 impl ReadOnlyTransactionAccessor for ReadTransactionOwned<'_> {
     fn readonly_transaction(&self) -> &rusqlite::Transaction {
         &self.0
-- 
2.43.0


From 2dd217b8463fd6eeeca4d8837e618c2b16849b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:21 +0000
Subject: [PATCH 09/12] fix: punching missing holes destroys data that a
 snapshot is reading

The result of locking the file was ignored. Lock each region that's punched.
---
 src/main.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 14a52fd..c476a65 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -185,6 +185,15 @@ fn main() -> anyhow::Result<()> {
                                     length,
                                     start % handle.block_size(),
                                 );
+                                // A snapshot could still be reading a value that's been deleted.
+                                if !file.lock_segment(
+                                    possum::sys::LockExclusiveNonblock,
+                                    Some(length),
+                                    start,
+                                )? {
+                                    eprintln!("skipping region in use");
+                                    continue;
+                                }
                                 possum::sys::punchfile(&file, start, length)?;
                                 check_hole(&mut file, start, length)?;
                             }
-- 
2.43.0


From 0383d78505aa9bf5dd8420712fc927f5c469b0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:21 +0000
Subject: [PATCH 10/12] fix: a file name that isn't UTF-8 fails snapshot
 cleanup and directory walks

---
 src/walk.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/walk.rs b/src/walk.rs
index 2808e21..bba9261 100644
--- a/src/walk.rs
+++ b/src/walk.rs
@@ -42,9 +42,9 @@ impl TryFrom<&StdDirEntry> for DirEntry {
     fn try_from(value: &StdDirEntry) -> Result<Self, Self::Error> {
         let file_name = value
             .file_name()
-            .to_str()
-            .context("file name not str")?
-            .to_owned();
+            // Only the prefix matters here, and other files could be named anything.
+            .to_string_lossy()
+            .into_owned();
         Ok(Self {
             file_name,
             file_type: value.file_type()?,
-- 
2.43.0


From 08ccfee0994fe9fcffa0a4d3903880c98572ea94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:24 +0000
Subject: [PATCH 11/12] fix: readers of the C interface don't keep other
 handles from changing what they read

Handle::read takes the write lock at once, since values are only read after their extents are
locked or cloned. Without, an added value could be reclaimed before the reader begins, and
adding fails if another handle commits after the reader has listed.
---
 src/c_api/ext_fns/handle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c_api/ext_fns/handle.rs b/src/c_api/ext_fns/handle.rs
index c3b7387..ec5f22f 100644
--- a/src/c_api/ext_fns/handle.rs
+++ b/src/c_api/ext_fns/handle.rs
@@ -179,7 +179,7 @@ pub extern "C" fn possum_reader_new(
         // This is copied from Handle::start_writable_transaction_with_behaviour and Handle::read
         // until I make proper abstractions.
         |conn, handle| {
-            let rtx = conn.transaction_with_behavior(TransactionBehavior::Deferred)?;
+            let rtx = conn.transaction_with_behavior(TransactionBehavior::Immediate)?;
             Ok(Transaction::new(rtx, handle))
         },
     );
-- 
2.43.0


From 2a4042c66bd4d2ccac44c57dbfa8370708a30e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:48 +0000
Subject: [PATCH 12/12] fix: walking the directory fails if a snapshot
 directory goes away meanwhile

---
 src/walk.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/walk.rs b/src/walk.rs
index bba9261..6874551 100644
--- a/src/walk.rs
+++ b/src/walk.rs
@@ -86,7 +86,12 @@ where
     P: AsRef<Path>,
 {
     let mut ok = vec![];
-    for std_entry in read_dir(path)? {
+    let std_entries = match read_dir(path) {
+        // Another handle could have finished with it since it was seen.
+        Err(err) if err.kind() == ErrorKind::NotFound => return Ok(ok),
+        res => res?,
+    };
+    for std_entry in std_entries {
         let std_entry = std_entry?;
         let entry = DirEntry::try_from(&std_entry)?;
         let file_name = entry.file_name;
-- 
2.43.0

