From f1d4a0c83496b65782c302c56788e290b4ae311f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:34 +0000
Subject: [PATCH 01/22] fix: list items under prefixes that end in 0xff

The exclusive end of the key range kept a trailing zero byte, so the prefix
less its last bytes incremented was listed too, and move_prefix panicked on it.
---
 src/tx.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tx.rs b/src/tx.rs
index 7548f3e..90cb4d9 100644
--- a/src/tx.rs
+++ b/src/tx.rs
@@ -100,6 +100,11 @@ pub trait ReadTransaction: ReadOnlyTransactionAccessor {
     fn list_items(&self, prefix: &[u8]) -> PubResult<Vec<Item>> {
         let range_end = {
             let mut prefix = prefix.to_owned();
+            // Incrementing a trailing 0xff would carry and leave a 0x00 behind, which excludes keys
+            // that do have the prefix, and includes the shorter key without the 0x00.
+            while prefix.last() == Some(&u8::MAX) {
+                prefix.pop();
+            }
             if inc_big_endian_array(&mut prefix) {
                 Some(prefix)
             } else {
-- 
2.43.0


From 79b20f340a1798c740f1ae181a55a7419391d13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:34 +0000
Subject: [PATCH 02/22] fix: renaming a value onto its own key, or one that is
 gone, lost the item there

The destination was deleted before knowing whether there was anything to put
in its place.
---
 src/tx.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/tx.rs b/src/tx.rs
index 90cb4d9..e00ca45 100644
--- a/src/tx.rs
+++ b/src/tx.rs
@@ -269,6 +269,20 @@ where
 
     // TODO: Add a test for renaming onto itself.
     pub fn rename_value(&mut self, value: &Value, new_key: Vec<u8>) -> PubResult<bool> {
+        // Leave the destination alone unless the value is still there to replace it.
+        let current_key: rusqlite::Result<Vec<u8>> = self
+            .tx
+            .prepare_cached_readonly("select key from keys where file_id=? and file_offset=?")?
+            .query_row(params![value.file_id(), value.file_offset()], |row| {
+                row.get(0)
+            });
+        match current_key {
+            Err(QueryReturnedNoRows) => return Ok(false),
+            Err(err) => return Err(err.into()),
+            // Renamed but the name is the same.
+            Ok(current_key) if current_key == new_key => return Ok(true),
+            Ok(_) => {}
+        }
         match self
             .tx
             .prepare_cached(&format!(
-- 
2.43.0


From 82c9049914f7f6fd4db1ccbc7d3524791fa8488f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:34 +0000
Subject: [PATCH 03/22] fix: possum_reader_new must hold the write lock like
 Handle::read

With a deferred transaction, values could be replaced and punched between
being looked up and being locked, and adding values failed with
SQLITE_BUSY_SNAPSHOT.
---
 src/c_api/ext_fns/handle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c_api/ext_fns/handle.rs b/src/c_api/ext_fns/handle.rs
index c3b7387..ec5f22f 100644
--- a/src/c_api/ext_fns/handle.rs
+++ b/src/c_api/ext_fns/handle.rs
@@ -179,7 +179,7 @@ pub extern "C" fn possum_reader_new(
         // This is copied from Handle::start_writable_transaction_with_behaviour and Handle::read
         // until I make proper abstractions.
         |conn, handle| {
-            let rtx = conn.transaction_with_behavior(TransactionBehavior::Deferred)?;
+            let rtx = conn.transaction_with_behavior(TransactionBehavior::Immediate)?;
             Ok(Transaction::new(rtx, handle))
         },
     );
-- 
2.43.0


From f5920ef7e2ba386d4b8217eee1d9c11c5bb4f601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:34 +0000
Subject: [PATCH 04/22] fix: set_instance_limits did not evict anything

apply_limits skips transactions that are not writing, and the transaction was
never committed.
---
 src/handle.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/handle.rs b/src/handle.rs
index 19f6fd0..54ed11f 100644
--- a/src/handle.rs
+++ b/src/handle.rs
@@ -37,7 +37,9 @@ impl Handle {
 
     pub fn set_instance_limits(&mut self, limits: Limits) -> Result<()> {
         self.instance_limits = limits;
-        self.start_deferred_transaction()?.apply_limits()
+        // Committing applies the limits.
+        self.start_immediate_transaction()?.commit()?.complete();
+        Ok(())
     }
 
     pub fn dir(&self) -> &Dir {
-- 
2.43.0


From 6e9be24154f60d0e7b35bc9caecfa9843230ac9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:34 +0000
Subject: [PATCH 05/22] fix: prefix operations could fail with
 SQLITE_BUSY_SNAPSHOT

They list items first, so if another connection commits before their first
write, the transaction can not be upgraded.
---
 src/handle.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/handle.rs b/src/handle.rs
index 54ed11f..a57968f 100644
--- a/src/handle.rs
+++ b/src/handle.rs
@@ -443,7 +443,7 @@ impl Handle {
     }
 
     pub fn move_prefix(&self, from: &[u8], to: &[u8]) -> Result<()> {
-        let mut tx = self.start_deferred_transaction()?;
+        let mut tx = self.start_immediate_transaction()?;
         let items = tx.list_items(from)?;
         let mut to_vec = to.to_vec();
         for item in items {
@@ -456,7 +456,7 @@ impl Handle {
     }
 
     pub fn delete_prefix(&self, prefix: impl AsRef<[u8]>) -> PubResult<()> {
-        let mut tx = self.start_deferred_transaction()?;
+        let mut tx = self.start_immediate_transaction()?;
         for item in tx.list_items(prefix.as_ref())? {
             tx.delete_key(&item.key)?;
         }
-- 
2.43.0


From 7ee7ff489b62ecb402ae8f29da289201ff9247c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:34 +0000
Subject: [PATCH 06/22] fix: root_cause panicked for io errors

---
 src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 7fa376d..7f74be0 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -47,8 +47,8 @@ impl Error {
         match self {
             NoSuchKey | UnsupportedFilesystem => self,
             Sqlite(inner) => inner,
+            Io(inner) => inner,
             Anyhow(inner) => inner.root_cause(),
-            _ => unimplemented!(),
         }
     }
 
-- 
2.43.0


From 7c326d5305813fdc5d30adc0dabf6a3abe6e49a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:34 +0000
Subject: [PATCH 07/22] fix: punch-missing-holes ignored that a file is locked

It punched under readers and writers of the file.
---
 src/main.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 14a52fd..5b2aea1 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -160,7 +160,13 @@ fn main() -> anyhow::Result<()> {
                             // Make sure nobody could be writing to the file. It should be possible
                             // to punch holes before the last value despite this (just as greedy
                             // start hole punching occurs during regular key deletes).
-                            file.lock_max_segment(possum::sys::LockExclusiveNonblock)?;
+                            if !file.lock_max_segment(possum::sys::LockExclusiveNonblock)? {
+                                eprintln!(
+                                    "{}: in use, skipping",
+                                    &values_file_entry.path.display()
+                                );
+                                continue;
+                            }
                             for FileRegion {
                                 mut start,
                                 mut length,
-- 
2.43.0


From 7d3b1a6c23a2c209be8a7a401c9f334c9928f945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:37 +0000
Subject: [PATCH 08/22] fix: reads panicked on values locked by a commit or the
 value puncher

The writer released its lock on the values after committing them, and the
value puncher locks the whole file while it decides what to do with its end.
Also commit no longer panics if releasing the lock fails.
---
 src/lib.rs    | 17 ++++++++---------
 src/reader.rs |  3 ++-
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3ddcf89..0b747d8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -371,6 +371,12 @@ where
                 assert!(ef.downgrade_lock()?);
             }
         }
+        // Readers lock the values as soon as they can see them, so our locks on them have to go
+        // first. We still hold the file from there on, and nobody punches bytes that haven't been
+        // committed.
+        for ef in &mut self.exclusive_files {
+            ef.committed().context("releasing written values")?;
+        }
         let write_commit_res = self.handle.with_handle(|handle| {
             let mut transaction: OwnedTx = handle.start_immediate_transaction()?;
             let mut write_commit_res = WriteCommitResult { count: 0 };
@@ -388,18 +394,11 @@ where
             work.complete();
             anyhow::Ok(write_commit_res)
         })?;
-        self.flush_exclusive_files();
+        self.return_exclusive_files_to_handle();
         Ok(write_commit_res)
     }
 
-    /// Flush Writer's exclusive files and return them to the Handle pool.
-    fn flush_exclusive_files(&mut self) {
-        for ef in &mut self.exclusive_files {
-            ef.committed().unwrap();
-        }
-        self.return_exclusive_files_to_handle()
-    }
-
+    /// Return Writer's exclusive files to the Handle pool.
     fn return_exclusive_files_to_handle(&mut self) {
         // When we're flocking, we can't have writers and readers at the same time and still be
         // able to punch values asynchronously.
diff --git a/src/reader.rs b/src/reader.rs
index 46b60a3..2ff9cf0 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -174,7 +174,8 @@ where
             return Ok(());
         }
         for extent in read_extents {
-            assert!(file.lock_segment(LockSharedNonblock, Some(extent.len), extent.offset)?);
+            // The value puncher might hold the file for a moment.
+            assert!(file.lock_segment(LockShared, Some(extent.len), extent.offset)?);
         }
         Ok(())
     }
-- 
2.43.0


From ce1fd92e49ebc6e670a225aaec77af110c9c5955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:37 +0000
Subject: [PATCH 09/22] fix: a failed copy left its bytes in the value file

Seeking back has no effect in append mode, so they became part of the value or
of the next one. As the bytes can now be replaced, a clone of the file taken
meanwhile must not be used for them.
---
 src/lib.rs    | 16 ++++++++++++----
 src/reader.rs |  7 ++++++-
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0b747d8..c6d5378 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -170,6 +170,7 @@ where
         Ok(ValueWriter {
             exclusive_file,
             value_file_offset: 0,
+            broken: false,
         })
     }
 
@@ -188,6 +189,7 @@ where
         Ok(ValueWriter {
             value_file_offset: exclusive_file.next_write_offset()?,
             exclusive_file,
+            broken: false,
         })
     }
 }
@@ -197,6 +199,8 @@ where
 pub struct ValueWriter {
     exclusive_file: ExclusiveFile,
     value_file_offset: u64,
+    /// There are bytes in the file that don't belong to the value.
+    broken: bool,
 }
 
 impl ValueWriter {
@@ -209,10 +213,11 @@ impl ValueWriter {
         let value_length = match std::io::copy(&mut value, &mut self.exclusive_file.inner) {
             Ok(ok) => ok,
             Err(err) => {
-                self.exclusive_file
-                    .inner
-                    .seek(Start(value_file_offset))
-                    .expect("should rewind failed copy");
+                // The file is in append mode, so seeking isn't enough to drop what was copied.
+                if let Err(revert_err) = self.exclusive_file.revert_to_offset(value_file_offset) {
+                    error!("error reverting failed copy: {:#?}", revert_err);
+                    self.broken = true;
+                }
                 return Err(err.into());
             }
         };
@@ -324,6 +329,9 @@ where
     }
 
     pub fn stage_write(&mut self, key: Vec<u8>, mut value: ValueWriter) -> anyhow::Result<()> {
+        if value.broken {
+            bail!("value has leftovers of a failed copy");
+        }
         let value_length = match value.value_length() {
             Ok(ok) => ok,
             Err(err) => {
diff --git a/src/reader.rs b/src/reader.rs
index 2ff9cf0..a43e14d 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -150,7 +150,12 @@ where
         // can retry the cloning until we are able to lock it.
         let locked = file.lock_max_segment(LockSharedNonblock)?;
         assert!(locked);
-        let len = file.seek(End(0))?;
+        // Bytes that weren't committed yet can still be replaced in the original.
+        let file_len = file.seek(End(0))?;
+        let len = self
+            .owned_tx
+            .transaction()
+            .query_last_end_offset(file_id, file_len)?;
         let file_clone = Arc::new(Mutex::new(FileClone {
             file,
             tempdir: Some(tempdir.clone()),
-- 
2.43.0


From 48a556eb7283f5165dfef36de306930c04799c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:37 +0000
Subject: [PATCH 10/22] fix: value puncher could truncate or remove a file with
 new values

It decided that there are no more values in the file from a transaction that
began before it had the lock.
---
 src/lib.rs | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c6d5378..c9cdd1a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -31,7 +31,7 @@ use positioned_io::ReadAt;
 use rand::Rng;
 use rusqlite::types::{FromSql, FromSqlError, FromSqlResult, ToSql, ToSqlOutput, ValueRef};
 use rusqlite::Error::QueryReturnedNoRows;
-use rusqlite::{params, CachedStatement, Connection, Statement, TransactionBehavior};
+use rusqlite::{params, CachedStatement, Connection, OpenFlags, Statement, TransactionBehavior};
 use stable_deref_trait::StableDeref;
 use sys::*;
 use tempfile::TempDir;
@@ -842,13 +842,27 @@ fn punch_value(opts: PunchValueOptions) -> Result<bool> {
     }
     assert_eq!(offset % block_size, 0);
     if greedy_end {
-        let next_offset = tx.next_value_offset(file_id, (offset + length).try_into().unwrap())?;
+        let min_next_offset = (offset + length).try_into().unwrap();
+        let mut next_offset = tx.next_value_offset(file_id, min_next_offset)?;
+        let mut locked_file = false;
+        if next_offset.is_none() {
+            // Lock the file to see if we can expand to the end of the file.
+            locked_file = file
+                .lock_max_segment(LockExclusiveNonblock)
+                .context("locking value file")?;
+            if locked_file {
+                // The transaction could be from before the last writer of the file committed and
+                // let go of it.
+                let mut conn = Connection::open_with_flags(
+                    dir.join(MANIFEST_DB_FILE_NAME),
+                    OpenFlags::SQLITE_OPEN_READ_ONLY | OpenFlags::SQLITE_OPEN_NO_MUTEX,
+                )?;
+                let tx = ReadTransactionOwned(conn.transaction()?);
+                next_offset = tx.next_value_offset(file_id, min_next_offset)?;
+            }
+        }
         let end_offset = match next_offset {
             None => {
-                // Lock the file to see if we can expand to the end of the file.
-                let locked_file = file
-                    .lock_max_segment(LockExclusiveNonblock)
-                    .context("locking value file")?;
                 // Get the file length after we have tried locking the file.
                 let file_end = file.seek(End(0))? as i64;
                 if locked_file {
-- 
2.43.0


From 3000f7887371f512c42be6dbdfb5f0b5edd7164f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:13 +0000
Subject: [PATCH 11/22] fix: an error while punching values stopped reclaim for
 good

---
 src/handle.rs | 55 ++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 43 insertions(+), 12 deletions(-)

diff --git a/src/handle.rs b/src/handle.rs
index a57968f..fa8d40d 100644
--- a/src/handle.rs
+++ b/src/handle.rs
@@ -336,14 +336,13 @@ impl Handle {
         dir: Dir,
         values_receiver: sync::mpsc::Receiver<Vec<NonzeroValueLocation>>,
     ) -> Result<()> {
-        let manifest_path = dir.path().join(MANIFEST_DB_FILE_NAME);
-        use rusqlite::OpenFlags;
-        let mut conn = Connection::open_with_flags(
-            manifest_path,
-            OpenFlags::SQLITE_OPEN_READ_ONLY
-                | OpenFlags::SQLITE_OPEN_NO_MUTEX
-                | OpenFlags::SQLITE_OPEN_URI,
-        )?;
+        let mut conn = match Self::open_puncher_conn(&dir) {
+            Ok(conn) => Some(conn),
+            Err(err) => {
+                warn!("error opening manifest to punch values, will retry: {err:#}");
+                None
+            }
+        };
         const RETRY_DURATION: Duration = Duration::from_secs(1);
         let mut pending_values: Vec<_> = Default::default();
         let mut values_receiver_opt = Some(values_receiver);
@@ -376,14 +375,46 @@ impl Handle {
                     std::thread::sleep(RETRY_DURATION);
                 }
             }
-            let tx = conn.transaction_with_behavior(TransactionBehavior::Deferred)?;
-            let tx = ReadTransactionOwned(tx);
-            pending_values = Self::punch_values(&dir, pending_values, &tx)?;
-            debug_assert_ne!(tx.0.transaction_state(None)?, TransactionState::Write);
+            match Self::punch_pending_values(&dir, &mut conn, pending_values.clone()) {
+                Ok(failed) => pending_values = failed,
+                // One error mustn't stop reclaim for the rest of the handle's lifetime. Try those
+                // values again later, like those that were locked.
+                Err(err) if values_receiver_opt.is_some() => {
+                    warn!("error punching values, will retry: {err:#}")
+                }
+                Err(err) => return Err(err),
+            }
         }
         Ok(())
     }
 
+    fn open_puncher_conn(dir: &Dir) -> rusqlite::Result<Connection> {
+        use rusqlite::OpenFlags;
+        Connection::open_with_flags(
+            dir.path().join(MANIFEST_DB_FILE_NAME),
+            OpenFlags::SQLITE_OPEN_READ_ONLY
+                | OpenFlags::SQLITE_OPEN_NO_MUTEX
+                | OpenFlags::SQLITE_OPEN_URI,
+        )
+    }
+
+    /// Punches values in a new read transaction. Returns those that couldn't be punched yet.
+    fn punch_pending_values(
+        dir: &Dir,
+        conn: &mut Option<Connection>,
+        values: Vec<NonzeroValueLocation>,
+    ) -> Result<Vec<NonzeroValueLocation>> {
+        if conn.is_none() {
+            *conn = Some(Self::open_puncher_conn(dir)?);
+        }
+        let conn = conn.as_mut().unwrap();
+        let tx = conn.transaction_with_behavior(TransactionBehavior::Deferred)?;
+        let tx = ReadTransactionOwned(tx);
+        let failed = Self::punch_values(dir, values, &tx)?;
+        debug_assert_ne!(tx.0.transaction_state(None)?, TransactionState::Write);
+        Ok(failed)
+    }
+
     /// Starts a read transaction to determine punch boundaries. Since punching is never expanded to
     /// offsets above the targeted values, ongoing writes should not be affected.
     pub(crate) fn punch_values(
-- 
2.43.0


From 6ed4179f106ba83f31b3720ca23607894cb60691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:05 +0000
Subject: [PATCH 12/22] fix: possum_single_stat panicked on errors

---
 src/c_api/ext_fns/handle.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/c_api/ext_fns/handle.rs b/src/c_api/ext_fns/handle.rs
index ec5f22f..cebf43e 100644
--- a/src/c_api/ext_fns/handle.rs
+++ b/src/c_api/ext_fns/handle.rs
@@ -78,14 +78,17 @@ pub extern "C" fn possum_single_stat(
         .read()
         .unwrap()
         .read_single(key.as_ref())
-        .unwrap()
     {
-        Some(value) => {
+        Ok(Some(value)) => {
             let stat_in_rust = value.as_ref().into();
             unsafe { *out_stat = stat_in_rust };
             true
         }
-        None => false,
+        Ok(None) => false,
+        Err(err) => {
+            error!("error reading value for stat: {err:#?}");
+            false
+        }
     }
 }
 
-- 
2.43.0


From 02e74be2316381c1beaf6abcce082ab19e3661a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:06 +0000
Subject: [PATCH 13/22] fix: opening could leave the manifest without the WAL
 journal mode

---
 src/handle.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/handle.rs b/src/handle.rs
index fa8d40d..178b1fc 100644
--- a/src/handle.rs
+++ b/src/handle.rs
@@ -153,7 +153,8 @@ impl Handle {
         let user_version: ManifestUserVersion = get_user_version(conn)?;
         // I'm not sure about the greater than case. Should we return an error?
         if user_version >= Self::USER_VERSION {
-            return Ok(());
+            // Initialization could have been interrupted right before this.
+            return Self::set_wal_journal_mode(conn);
         }
         // This initialization/upgrade process doesn't seem to be safe to perform when there's
         // multiple connections to a database. To avoid issues upgrading databases, you might want
@@ -184,7 +185,16 @@ impl Handle {
         // This is sticky and sync-safe. Must access the database after setting the locking mode to
         // make the change, so now is a good time to set the journal mode. I think if WAL is already
         // set, this doesn't change the locking_mode.
-        conn.pragma_update(None, "journal_mode", "wal")?;
+        Self::set_wal_journal_mode(conn)
+    }
+
+    /// Does nothing if it's already set. If the mode can't be changed, sqlite doesn't necessarily
+    /// report an error.
+    fn set_wal_journal_mode(conn: &Connection) -> anyhow::Result<()> {
+        let mode: String = Self::retry_while_busy(|| {
+            conn.pragma_update_and_check(None, "journal_mode", "wal", |row| row.get(0))
+        })?;
+        anyhow::ensure!(mode == "wal", "journal mode is {mode:?} after setting wal");
         Ok(())
     }
 
-- 
2.43.0


From 36960be48a0814f0c15d24f3a5ae4bc5d2c94e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:57 +0000
Subject: [PATCH 14/22] fix: snapshot clean-up removed snapshots that were just
 being made

---
 src/handle.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/handle.rs b/src/handle.rs
index 178b1fc..5a3f4ee 100644
--- a/src/handle.rs
+++ b/src/handle.rs
@@ -217,6 +217,9 @@ impl Handle {
     }
 
     pub fn cleanup_snapshots(&self) -> PubResult<()> {
+        // Snapshots clone files while holding the write lock. Taking it keeps us away from clones
+        // that aren't locked yet.
+        let _tx = self.start_immediate_transaction()?;
         delete_unused_snapshots(self.dir.path()).map_err(Into::into)
     }
 
-- 
2.43.0


From 3cc8ae9d0e505d97def0a3d23797d08f8fdd83ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:10 +0000
Subject: [PATCH 15/22] fix: walking the directory failed when a snapshot was
 dropped meanwhile

---
 src/walk.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/walk.rs b/src/walk.rs
index 2808e21..8c47bdd 100644
--- a/src/walk.rs
+++ b/src/walk.rs
@@ -68,7 +68,17 @@ where
         } else if file_name.starts_with(VALUES_FILE_NAME_PREFIX) && file_type.is_file() {
             ValuesFile
         } else if file_name.starts_with(SNAPSHOT_DIR_NAME_PREFIX) && file_type.is_dir() {
-            ok.extend(walk_snapshot_dir(std_entry.path())?);
+            match walk_snapshot_dir(std_entry.path()) {
+                Ok(entries) => ok.extend(entries),
+                // The last user of the snapshot just removed it.
+                Err(err)
+                    if err.downcast_ref::<io::Error>().map(io::Error::kind)
+                        == Some(ErrorKind::NotFound) =>
+                {
+                    continue
+                }
+                Err(err) => return Err(err),
+            }
             SnapshotDir
         } else {
             Unknown
-- 
2.43.0


From 884971bc5bfe6063498edc46670e6f476eba9fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:30 +0000
Subject: [PATCH 16/22] fix: an i/o error while opening an outdated directory
 panicked

---
 src/handle.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/handle.rs b/src/handle.rs
index 5a3f4ee..c0cdaad 100644
--- a/src/handle.rs
+++ b/src/handle.rs
@@ -181,7 +181,11 @@ impl Handle {
         }
         let mode: String =
             conn.pragma_update_and_check(None, "locking_mode", "normal", |row| row.get(0))?;
-        assert_eq!(mode, "normal");
+        // This can fail if there was an error leaving WAL mode.
+        anyhow::ensure!(
+            mode == "normal",
+            "locking mode is {mode:?} after setting normal"
+        );
         // This is sticky and sync-safe. Must access the database after setting the locking mode to
         // make the change, so now is a good time to set the journal mode. I think if WAL is already
         // set, this doesn't change the locking_mode.
-- 
2.43.0


From f712596007749495199ee2e29acbd3893ade318c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:58 +0000
Subject: [PATCH 17/22] fix: items with names that aren't UTF-8 made operations
 fail or panic

---
 src/handle.rs | 6 +++++-
 src/walk.rs   | 7 ++-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/handle.rs b/src/handle.rs
index c0cdaad..3c680bb 100644
--- a/src/handle.rs
+++ b/src/handle.rs
@@ -77,7 +77,11 @@ impl Handle {
             if !entry.file_type()?.is_file() {
                 continue;
             }
-            if !ExclusiveFile::valid_file_name(entry.file_name().to_str().unwrap()) {
+            if !entry
+                .file_name()
+                .to_str()
+                .is_some_and(ExclusiveFile::valid_file_name)
+            {
                 continue;
             }
             let path = entry.path();
diff --git a/src/walk.rs b/src/walk.rs
index 8c47bdd..0de63cb 100644
--- a/src/walk.rs
+++ b/src/walk.rs
@@ -40,11 +40,8 @@ impl TryFrom<&StdDirEntry> for DirEntry {
     type Error = anyhow::Error;
 
     fn try_from(value: &StdDirEntry) -> Result<Self, Self::Error> {
-        let file_name = value
-            .file_name()
-            .to_str()
-            .context("file name not str")?
-            .to_owned();
+        // Names we're interested in are ASCII. There may be others we can't represent.
+        let file_name = value.file_name().to_string_lossy().into_owned();
         Ok(Self {
             file_name,
             file_type: value.file_type()?,
-- 
2.43.0


From f16cd2f3d94e9181edca76c74fc478ad372db195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:37 +0000
Subject: [PATCH 18/22] fix: staged values lost their file when a later value
 writer was dropped

---
 src/lib.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c9cdd1a..2b05e35 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -255,6 +255,9 @@ where
 {
     handle: H,
     exclusive_files: Vec<ExclusiveFile>,
+    /// Files with staged values that a ValueWriter took from exclusive_files. Without this they'd
+    /// be let go of if it isn't staged.
+    lent_files: HashMap<FileId, File>,
     pending_writes: Vec<PendingWrite>,
     value_renames: Vec<ValueRename>,
 }
@@ -267,6 +270,7 @@ where
         Self {
             handle,
             exclusive_files: Default::default(),
+            lent_files: Default::default(),
             pending_writes: Default::default(),
             value_renames: Default::default(),
         }
@@ -321,9 +325,10 @@ where
     H: WithHandle,
 {
     fn get_exclusive_file(&mut self) -> Result<ExclusiveFile> {
-        if let Some(ef) = self.exclusive_files.pop() {
+        if let Some(ef) = self.exclusive_files.last() {
             debug!("reusing exclusive file from writer");
-            return Ok(ef);
+            self.lent_files.insert(ef.id, ef.inner.try_clone()?);
+            return Ok(self.exclusive_files.pop().unwrap());
         }
         self.handle.with_handle(Handle::get_exclusive_file)
     }
@@ -348,6 +353,7 @@ where
         };
         let exclusive_file = value.exclusive_file;
         let value_file_id = exclusive_file.id;
+        self.lent_files.remove(&value_file_id);
         self.exclusive_files.push(exclusive_file);
         self.pending_writes.push(PendingWrite {
             key,
@@ -385,6 +391,16 @@ where
         for ef in &mut self.exclusive_files {
             ef.committed().context("releasing written values")?;
         }
+        for pw in &self.pending_writes {
+            if let Some(file) = self.lent_files.get(&pw.value_file_id) {
+                let end = pw.value_file_offset + pw.value_length;
+                if flocking() {
+                    assert!(file.lock_segment(LockSharedNonblock, None, 0)?);
+                } else {
+                    file.trim_exclusive_lock_left(pw.value_file_offset, end)?;
+                }
+            }
+        }
         let write_commit_res = self.handle.with_handle(|handle| {
             let mut transaction: OwnedTx = handle.start_immediate_transaction()?;
             let mut write_commit_res = WriteCommitResult { count: 0 };
-- 
2.43.0


From f5c1cdb0479d8465baee1889daeca98b10abaea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:22 +0000
Subject: [PATCH 19/22] fix: look up a file's values after locking it when
 punching missing holes

---
 src/main.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 5b2aea1..f86c703 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -142,7 +142,6 @@ fn main() -> anyhow::Result<()> {
                 PunchMissingHoles {
                     file_id: values_file_path,
                 } => {
-                    let tx = handle.start_deferred_transaction_for_read()?;
                     for values_file_entry in handle.walk_dir()?.iter().filter(|entry| {
                         matches!(entry.entry_type, possum::walk::EntryType::ValuesFile)
                     }) {
@@ -167,6 +166,9 @@ fn main() -> anyhow::Result<()> {
                                 );
                                 continue;
                             }
+                            // The values are looked up only once the file is locked: values that
+                            // were still being written before that must not be missed.
+                            let tx = handle.start_deferred_transaction_for_read()?;
                             for FileRegion {
                                 mut start,
                                 mut length,
-- 
2.43.0


From d1c8510275a1bbd86bad7ceff55fa35a190eaabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:38 +0000
Subject: [PATCH 20/22] fix: operations failed as busy when other users kept
 the manifest locked for 5 s

Handles relied on the default busy timeout of the SQLite wrapper, which a
waiter can exceed under sustained use by other threads or processes.
---
 src/handle.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/handle.rs b/src/handle.rs
index 3c680bb..94da1ff 100644
--- a/src/handle.rs
+++ b/src/handle.rs
@@ -112,6 +112,9 @@ impl Handle {
         let dir = Dir::new(dir).context("new Dir")?;
         let mut conn = Connection::open(dir.path().join(MANIFEST_DB_FILE_NAME))?;
         Self::init_sqlite_conn(&mut conn, &dir)?;
+        // Locks on the manifest are waited for however long they are held, like those inside the
+        // process. Under contention the default timeout can run out for an unlucky waiter.
+        conn.busy_timeout(Duration::from_millis(i32::MAX as u64))?;
         let (deleted_values, receiver) = sync::mpsc::sync_channel(10);
         let (value_puncher_done_sender, value_puncher_done) = sync::mpsc::sync_channel(0);
         let value_puncher_done = ValuePuncherDone(Arc::new(Mutex::new(value_puncher_done)));
-- 
2.43.0


From 419e4370699b69bb53429bb93d5f8a194f1cdf6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:23 +0000
Subject: [PATCH 21/22] fix: committed values of a file out of order when they
 were staged by different batches

---
 src/lib.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 2b05e35..95e33a4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -171,6 +171,7 @@ where
             exclusive_file,
             value_file_offset: 0,
             broken: false,
+            lent: false,
         })
     }
 
@@ -188,6 +189,7 @@ where
         let mut exclusive_file = self.batch.get_exclusive_file()?;
         Ok(ValueWriter {
             value_file_offset: exclusive_file.next_write_offset()?,
+            lent: self.batch.lent_files.contains_key(&exclusive_file.id),
             exclusive_file,
             broken: false,
         })
@@ -201,6 +203,8 @@ pub struct ValueWriter {
     value_file_offset: u64,
     /// There are bytes in the file that don't belong to the value.
     broken: bool,
+    /// The batch that began the value has staged values in the file.
+    lent: bool,
 }
 
 impl ValueWriter {
@@ -351,6 +355,20 @@ where
                 return Err(err.into());
             }
         };
+        if value.lent && !self.lent_files.contains_key(&value.exclusive_file.id) {
+            // Values in a file have to be committed in order, and what's staged before this one
+            // is up to another batch.
+            let mut file = self.handle.with_handle(|handle| {
+                open_file_id(
+                    OpenOptions::new().read(true),
+                    handle.dir.path(),
+                    &value.exclusive_file.id,
+                )
+            })?;
+            file.seek(Start(value.value_file_offset))?;
+            value = self.new_value().begin()?;
+            value.copy_from(file.take(value_length))?;
+        }
         let exclusive_file = value.exclusive_file;
         let value_file_id = exclusive_file.id;
         self.lent_files.remove(&value_file_id);
-- 
2.43.0


From 0cdc8044a7626c8d2a33417e6cd2edff67f9109c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:06 +0000
Subject: [PATCH 22/22] fix: C interface made slices of null pointers for empty
 buffers

---
 src/c_api/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/c_api/mod.rs b/src/c_api/mod.rs
index 8c9a250..7f10ce7 100644
--- a/src/c_api/mod.rs
+++ b/src/c_api/mod.rs
@@ -17,6 +17,10 @@ use super::*;
 
 impl AsRef<[u8]> for PossumBuf {
     fn as_ref(&self) -> &[u8] {
+        // The pointer may be null if there are no bytes, which a slice's can't.
+        if self.size == 0 {
+            return &[];
+        }
         let ptr = self.ptr as _;
         unsafe { slice::from_raw_parts(ptr, self.size) }
     }
@@ -24,6 +28,9 @@ impl AsRef<[u8]> for PossumBuf {
 
 impl PossumBuf {
     fn as_mut_slice(&mut self) -> &mut [u8] {
+        if self.size == 0 {
+            return &mut [];
+        }
         let ptr = self.ptr as *mut u8;
         unsafe { slice::from_raw_parts_mut(ptr, self.size) }
     }
-- 
2.43.0

