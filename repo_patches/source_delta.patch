From 8a46073b03040b664ed8a7eb282faff5f9a07c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:37 +0000
Subject: [PATCH 01/55] fix: reopen an existing global state database at its
 last complete layer

---
 crates/host/state/src/storage.rs | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/crates/host/state/src/storage.rs b/crates/host/state/src/storage.rs
index 71a8ce3..85dea1e 100644
--- a/crates/host/state/src/storage.rs
+++ b/crates/host/state/src/storage.rs
@@ -68,23 +68,27 @@ impl Storage {
     async fn new_with_pool(sqlite: Pool<Sqlite>) -> Result<Self> {
         sqlx::query(SQL_SCHEMA).execute(&sqlite).await?;
 
-        let next_layer_id = max_layer_id(&sqlite).await?;
-
-        let storage = Self {
+        let mut storage = Self {
             sqlite,
             dirty_changes: HashMap::new(),
             next_layer: NextLayer {
-                id: next_layer_id.unwrap_or(INITIAL_LAYER_ID + 1),
+                id: INITIAL_LAYER_ID + 1,
                 changes: HashMap::new(),
                 changes_xor_fingerprint: INITIAL_LAYER_STATE,
             },
         };
-        storage
-            .insert_layer(INITIAL_LAYER_ID, INITIAL_LAYER_STATE, true)
-            .await?;
 
         storage.delete_bad_layers().await?;
 
+        // The database may have been initialized already.
+        if let Some(last_layer_id) = max_layer_id(&storage.sqlite).await? {
+            storage.next_layer.id = last_layer_id + 1;
+        } else {
+            storage
+                .insert_layer(INITIAL_LAYER_ID, INITIAL_LAYER_STATE, true)
+                .await?;
+        }
+
         Ok(storage)
     }
 
@@ -121,6 +125,15 @@ impl Storage {
             );
         }
 
+        sqlx::query(
+            r#"
+            DELETE FROM "layers"
+            WHERE "complete" = 0
+            "#,
+        )
+        .execute(&self.sqlite)
+        .await?;
+
         Ok(count_rows)
     }
 
-- 
2.43.0


From 54baae9c278578331619b8c93a137f3246af01fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:00 +0000
Subject: [PATCH 02/55] fix: only read values that belong to complete layers

---
 crates/host/state/src/storage.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/host/state/src/storage.rs b/crates/host/state/src/storage.rs
index 85dea1e..564d0a4 100644
--- a/crates/host/state/src/storage.rs
+++ b/crates/host/state/src/storage.rs
@@ -192,6 +192,8 @@ impl Storage {
                 SELECT "value"
                 FROM "values"
                 INNER JOIN "layers" ON
+                    "layers"."id" = "values"."layer_id"
+                    AND
                     "complete" = 1
                     AND
                     "key_hash" = ?1
@@ -213,6 +215,8 @@ impl Storage {
             SELECT "value"
             FROM "values"
             INNER JOIN "layers" ON
+                "layers"."id" = "values"."layer_id"
+                AND
                 "layer_id" <= ?1
                 AND
                 "complete" = 1
-- 
2.43.0


From 81a159f7147b9c736848becd0ab3363c059e3122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:31 +0000
Subject: [PATCH 03/55] fix: commit a layer and its values in a single SQLite
 transaction

---
 crates/host/state/src/storage.rs | 97 +++++++++++++++-----------------
 1 file changed, 46 insertions(+), 51 deletions(-)

diff --git a/crates/host/state/src/storage.rs b/crates/host/state/src/storage.rs
index 564d0a4..df43b7c 100644
--- a/crates/host/state/src/storage.rs
+++ b/crates/host/state/src/storage.rs
@@ -84,9 +84,13 @@ impl Storage {
         if let Some(last_layer_id) = max_layer_id(&storage.sqlite).await? {
             storage.next_layer.id = last_layer_id + 1;
         } else {
-            storage
-                .insert_layer(INITIAL_LAYER_ID, INITIAL_LAYER_STATE, true)
-                .await?;
+            insert_layer(
+                &storage.sqlite,
+                INITIAL_LAYER_ID,
+                INITIAL_LAYER_STATE,
+                true,
+            )
+            .await?;
         }
 
         Ok(storage)
@@ -273,44 +277,32 @@ impl Storage {
         }
 
         let layer_id = self.next_layer.id;
-        let layer_changes = std::mem::take(&mut self.next_layer.changes);
         let mut fingerprint = self.layer_fingerprint(layer_id - 1, true).await?;
         xor_fingerprint(&mut fingerprint, &self.next_layer.changes_xor_fingerprint);
-        self.insert_layer(layer_id, fingerprint, false).await?;
-
-        // Note: SQLx 0.5 doesn't support bulk inserts. So, we must resort to
-        // "futures" magic instead.
-        let mut inserts = Vec::with_capacity(layer_changes.len());
-        for (key_hash, value) in layer_changes {
-            inserts.push(
-                sqlx::query(
-                    r#"
-                    INSERT INTO "values" ("key_hash", "value", "layer_id")
-                    VALUES (?1, ?2, ?3)
-                    "#,
-                )
-                .bind(key_hash.0.to_vec())
-                .bind(value)
-                .bind(layer_id)
-                .execute(&self.sqlite),
-            );
-        }
 
-        futures::future::try_join_all(inserts).await?;
+        // The new layer becomes visible (and durable) as a whole or not at all.
+        let mut tx = self.sqlite.begin().await?;
 
-        sqlx::query(
-            r#"
-            UPDATE "layers"
-            SET "fingerprint" = ?1, "complete" = 1
-            WHERE "id" = ?2 AND "complete" = 0
-            "#,
-        )
-        .bind(&fingerprint.0[..])
-        .bind(layer_id)
-        .execute(&self.sqlite)
-        .await?;
+        insert_layer(&mut tx, layer_id, fingerprint, true).await?;
+
+        for (key_hash, value) in self.next_layer.changes.iter() {
+            sqlx::query(
+                r#"
+                INSERT INTO "values" ("key_hash", "value", "layer_id")
+                VALUES (?1, ?2, ?3)
+                "#,
+            )
+            .bind(key_hash.0.to_vec())
+            .bind(&value[..])
+            .bind(layer_id)
+            .execute(&mut tx)
+            .await?;
+        }
+
+        tx.commit().await?;
 
         // Reset layer-specific information to default values.
+        self.next_layer.changes.clear();
         self.next_layer.changes_xor_fingerprint = STATE_ONES;
         self.next_layer.id += 1;
 
@@ -336,22 +328,6 @@ impl Storage {
         }
     }
 
-    /// Creates a new [`State`]-ed layer with the given `id`.
-    async fn insert_layer(&self, id: i64, fingerprint: State, complete: bool) -> Result<()> {
-        sqlx::query(
-            r#"
-            INSERT INTO "layers" ("id", "fingerprint", "complete")
-            VALUES (?1, ?2, ?3)
-            "#,
-        )
-        .bind(id)
-        .bind(&fingerprint.0[..])
-        .bind(if complete { 1 } else { 0 })
-        .execute(&self.sqlite)
-        .await?;
-        Ok(())
-    }
-
     /// Queries the current [`State`] value of `layer_id`.
     async fn layer_fingerprint(&self, layer_id: i64, complete: bool) -> Result<State> {
         let bytes: (Vec<u8>,) = sqlx::query_as(
@@ -403,6 +379,25 @@ impl Storage {
     }
 }
 
+/// Creates a new [`State`]-ed layer with the given `id`.
+async fn insert_layer<'e, E>(executor: E, id: i64, fingerprint: State, complete: bool) -> Result<()>
+where
+    E: sqlx::Executor<'e, Database = Sqlite>,
+{
+    sqlx::query(
+        r#"
+        INSERT INTO "layers" ("id", "fingerprint", "complete")
+        VALUES (?1, ?2, ?3)
+        "#,
+    )
+    .bind(id)
+    .bind(fingerprint.0.to_vec())
+    .bind(if complete { 1 } else { 0 })
+    .execute(executor)
+    .await?;
+    Ok(())
+}
+
 async fn max_layer_id(pool: &SqlitePool) -> Result<Option<i64>> {
     let max_layer_id: Option<(i64,)> = sqlx::query_as(
         r#"
-- 
2.43.0


From 08cb8a9aa54ffb6a2db827ec61f738bacb9cadf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:30 +0000
Subject: [PATCH 04/55] fix: make the layer fingerprint depend on the layer's
 contents

---
 crates/host/state/src/storage.rs | 36 +++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/crates/host/state/src/storage.rs b/crates/host/state/src/storage.rs
index df43b7c..d59c608 100644
--- a/crates/host/state/src/storage.rs
+++ b/crates/host/state/src/storage.rs
@@ -23,11 +23,9 @@ pub use crate::error::{StorageError, StorageResult as Result};
 
 type Changes = HashMap<State, Vec<u8>>;
 
-// When initializing [`State`]'s on the database, we zero all bits. In
-// memory, however, the initial [`State`] is always filled with 1's (by
-// XOR-ing them together, we still get 0).
+// The fingerprint of the empty key-value store, i.e. the neutral element of
+// XOR-ing.
 const STATE_ZEROS: State = State([0; 32]);
-const STATE_ONES: State = State([std::u8::MAX; 32]);
 
 const SQL_SCHEMA: &str = include_str!("resources/schema.sql");
 
@@ -259,15 +257,29 @@ impl Storage {
 
     pub async fn checkpoint(&mut self) -> Result<()> {
         let mut fingerprint = self.next_layer.changes_xor_fingerprint;
-        let dirty_changes = std::mem::take(&mut self.dirty_changes);
-
-        for change in dirty_changes {
-            let xor = hash_key_value_pair(&change.0, &change.1);
-            xor_fingerprint(&mut fingerprint, &xor);
 
-            self.next_layer.changes.insert(change.0, change.1);
+        // The root fingerprint is the XOR of the hashes of all current
+        // key-value pairs, so every change also cancels out the pair that it
+        // replaces.
+        for (hash, value) in self.dirty_changes.iter() {
+            let previous = match self.next_layer.changes.get(hash) {
+                Some(previous) => Some(previous.clone()),
+                None => {
+                    self.get_by_hash_historical(hash, self.next_layer.id - 1)
+                        .await?
+                }
+            };
+
+            if let Some(previous) = previous {
+                xor_fingerprint(&mut fingerprint, &hash_key_value_pair(hash, &previous));
+            }
+            xor_fingerprint(&mut fingerprint, &hash_key_value_pair(hash, value));
         }
 
+        let dirty_changes = std::mem::take(&mut self.dirty_changes);
+        self.next_layer.changes.extend(dirty_changes);
+        self.next_layer.changes_xor_fingerprint = fingerprint;
+
         Ok(())
     }
 
@@ -303,7 +315,7 @@ impl Storage {
 
         // Reset layer-specific information to default values.
         self.next_layer.changes.clear();
-        self.next_layer.changes_xor_fingerprint = STATE_ONES;
+        self.next_layer.changes_xor_fingerprint = STATE_ZEROS;
         self.next_layer.id += 1;
 
         Ok((layer_id, fingerprint))
@@ -364,7 +376,7 @@ impl Storage {
         // We must now bring `self.next_layer` in a good state.
         self.next_layer.id = layer_id + 1;
         self.next_layer.changes.clear();
-        self.next_layer.changes_xor_fingerprint = STATE_ONES;
+        self.next_layer.changes_xor_fingerprint = STATE_ZEROS;
 
         Ok(())
     }
-- 
2.43.0


From 91b8bb16fcb2bcae884df908afad6a0532061906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:37 +0000
Subject: [PATCH 05/55] fix: apply the layer query parameter to account
 variable reads

---
 crates/host/state/src/account_storage.rs |  3 +--
 crates/host/state/src/global_state.rs    | 23 +++++++++++++----------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/crates/host/state/src/account_storage.rs b/crates/host/state/src/account_storage.rs
index e310a74..daf586d 100644
--- a/crates/host/state/src/account_storage.rs
+++ b/crates/host/state/src/account_storage.rs
@@ -132,8 +132,7 @@ impl AccountStorage {
         for segment in segments.into_iter() {
             let bytes: [u8; SEGMENT_SIZE] = self
                 .gs
-                .storage()
-                .get(segment.key.as_bytes(), None)
+                .read(&segment.key)
                 .await?
                 .unwrap_or(vec![0; SEGMENT_SIZE])
                 .try_into()
diff --git a/crates/host/state/src/global_state.rs b/crates/host/state/src/global_state.rs
index fbeb9c4..93d412b 100644
--- a/crates/host/state/src/global_state.rs
+++ b/crates/host/state/src/global_state.rs
@@ -167,20 +167,23 @@ impl GlobalState {
             .expect("Poisoned lock on global state storage")
     }
 
-    pub(crate) async fn read_and_decode<T>(&self, key: &str) -> Result<T>
-    where
-        T: Codec,
-    {
-        let bytes = self
-            .storage()
+    /// Reads the raw bytes stored at `key`, as of the layer query parameter.
+    pub(crate) async fn read(&self, key: &str) -> Result<Option<Vec<u8>>> {
+        self.storage()
             .get(
                 key.as_bytes(),
                 self.layer_query_parameter.map(|layer| layer.0 as i64),
             )
-            .await?
-            .ok_or(StorageError::NotFound {
-                key_hash: State(Blake3Hasher::hash(key.as_bytes())),
-            })?;
+            .await
+    }
+
+    pub(crate) async fn read_and_decode<T>(&self, key: &str) -> Result<T>
+    where
+        T: Codec,
+    {
+        let bytes = self.read(key).await?.ok_or(StorageError::NotFound {
+            key_hash: State(Blake3Hasher::hash(key.as_bytes())),
+        })?;
 
         T::decode_bytes(bytes).map_err(|_| StorageError::IllegalData {
             key_hash: State(Blake3Hasher::hash(key.as_bytes())),
-- 
2.43.0


From dcbf5c48ee5a8413bea653c52dfae65740e69f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:38 +0000
Subject: [PATCH 06/55] fix: keep the global state usable after a panic on an
 invalid layer

---
 crates/host/state/src/global_state.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/host/state/src/global_state.rs b/crates/host/state/src/global_state.rs
index 93d412b..e566b53 100644
--- a/crates/host/state/src/global_state.rs
+++ b/crates/host/state/src/global_state.rs
@@ -162,9 +162,11 @@ impl GlobalState {
     // -----------------------
 
     pub(crate) fn storage(&self) -> MutexGuard<Storage> {
+        // [`Storage`] only ever panics (e.g. on an invalid layer) before
+        // modifying anything, so its contents are always in a good state.
         self.storage
             .lock()
-            .expect("Poisoned lock on global state storage")
+            .unwrap_or_else(|poisoned| poisoned.into_inner())
     }
 
     /// Reads the raw bytes stored at `key`, as of the layer query parameter.
-- 
2.43.0


From 6f8a82e6b7371de5f6755172a954e6042937c73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:31 +0000
Subject: [PATCH 07/55] fix: conserve coins in self-transfers and on
 destination overflow

---
 crates/host/runtime/src/runtime/runtime.rs  | 12 ++++++++++--
 crates/host/runtime/src/vmcalls/transfer.rs | 14 ++++++++++----
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/crates/host/runtime/src/runtime/runtime.rs b/crates/host/runtime/src/runtime/runtime.rs
index 53a8f9e..a777148 100644
--- a/crates/host/runtime/src/runtime/runtime.rs
+++ b/crates/host/runtime/src/runtime/runtime.rs
@@ -783,11 +783,19 @@ impl Runtime {
         if src_bal < amount {
             panic!("Not enough balance to execute transfer");
         }
+        if src_addr == dst_addr {
+            return;
+        }
+
+        let new_dst_bal = dst_bal
+            .checked_add(amount)
+            .expect("Destination balance overflow");
+
         self.tokio_rt
-            .block_on(src_account.set_balance(src_bal.checked_sub(amount).unwrap()))
+            .block_on(src_account.set_balance(src_bal - amount))
             .unwrap();
         self.tokio_rt
-            .block_on(dst_account.set_balance(dst_bal.checked_add(amount).unwrap()))
+            .block_on(dst_account.set_balance(new_dst_bal))
             .unwrap();
     }
 }
diff --git a/crates/host/runtime/src/vmcalls/transfer.rs b/crates/host/runtime/src/vmcalls/transfer.rs
index 2594f4a..d0c520f 100644
--- a/crates/host/runtime/src/vmcalls/transfer.rs
+++ b/crates/host/runtime/src/vmcalls/transfer.rs
@@ -44,10 +44,16 @@ pub fn svm_transfer(env: &FuncEnv, src_addr_offset: i32, dst_addr_offset: i32, a
         panic!("Not enough balance to execute transfer")
     }
 
-    rt.block_on(src_account.set_balance(src_balance - amount))
-        .unwrap();
-    rt.block_on(dst_account.set_balance(dst_balance.checked_add(amount).unwrap()))
-        .unwrap();
+    if src_addr != dst_addr {
+        let new_dst_balance = dst_balance
+            .checked_add(amount)
+            .expect("Destination balance overflow");
+
+        rt.block_on(src_account.set_balance(src_balance - amount))
+            .unwrap();
+        rt.block_on(dst_account.set_balance(new_dst_balance))
+            .unwrap();
+    }
 
     borrow.touch_account(src_addr);
     borrow.touch_account(dst_addr);
-- 
2.43.0


From 45fc82008804fd27955e6a6fbc4eca1f989d2f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:15 +0000
Subject: [PATCH 08/55] fix: only let the executing account send its own coins

---
 crates/host/runtime/src/vmcalls/transfer.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/host/runtime/src/vmcalls/transfer.rs b/crates/host/runtime/src/vmcalls/transfer.rs
index d0c520f..857b6e3 100644
--- a/crates/host/runtime/src/vmcalls/transfer.rs
+++ b/crates/host/runtime/src/vmcalls/transfer.rs
@@ -15,7 +15,8 @@ fn read_addr(env: &FuncEnv, ptr: WasmPtr<Address>) -> Option<Address> {
 ///
 /// # Panics
 ///
-/// Panics when the destination account does not exist.
+/// Panics when the destination account does not exist, or when the source
+/// account isn't the current executing account.
 pub fn svm_transfer(env: &FuncEnv, src_addr_offset: i32, dst_addr_offset: i32, amount: u64) {
     if amount == 0 {
         return;
@@ -28,6 +29,10 @@ pub fn svm_transfer(env: &FuncEnv, src_addr_offset: i32, dst_addr_offset: i32, a
     let src_addr = read_addr(env, src_addr_ptr).expect(NOT_FOUND_ERR);
     let dst_addr = read_addr(env, dst_addr_ptr).expect(NOT_FOUND_ERR);
 
+    if src_addr != env.target_addr {
+        panic!("Only the executing account can send its own coins")
+    }
+
     let mut borrow = env.borrow_mut();
     let gs = borrow.storage().gs.clone();
 
-- 
2.43.0


From 54a2ef9dbe92a252251d6025a243d7ae79a98d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:01 +0000
Subject: [PATCH 09/55] fix: read 4 bytes, not 8, in the svm_get32 vmcall

---
 crates/host/runtime/src/vmcalls/storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/host/runtime/src/vmcalls/storage.rs b/crates/host/runtime/src/vmcalls/storage.rs
index 6f46843..ebf22ed 100644
--- a/crates/host/runtime/src/vmcalls/storage.rs
+++ b/crates/host/runtime/src/vmcalls/storage.rs
@@ -11,7 +11,7 @@ pub fn get32(env: &FuncEnv, var_id: u32) -> u32 {
     let rt = env.tokio_rt.clone();
     let borrow = env.borrow();
     let storage = borrow.storage();
-    rt.block_on(storage.get_var_i64(var_id)).unwrap() as u32
+    rt.block_on(storage.get_var_i32(var_id)).unwrap() as u32
 }
 
 /// Sets the data of variable `var_id` to Little-Endian representation of `value`.
-- 
2.43.0


From 74b09b84a59fc513ca610928b8b10f6e61bbdb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:02 +0000
Subject: [PATCH 10/55] fix: return the start of the region allocated by
 svm_static_alloc

---
 crates/host/runtime/src/vmcalls/alloc.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/host/runtime/src/vmcalls/alloc.rs b/crates/host/runtime/src/vmcalls/alloc.rs
index 6f1a01a..306d0d4 100644
--- a/crates/host/runtime/src/vmcalls/alloc.rs
+++ b/crates/host/runtime/src/vmcalls/alloc.rs
@@ -4,6 +4,9 @@ use std::convert::TryFrom;
 
 use crate::FuncEnv;
 
+// Offset 0 is the null pointer of a Wasm program, so it's never allocated.
+const MIN_OFFSET: u64 = 8;
+
 /// Statistically allocate `size` bytes within a [`FuncEnv`] `env`.
 /// Returns the offset of the newly allocated memory.
 pub fn static_alloc(env: &FuncEnv, size: u32) -> u32 {
@@ -11,7 +14,7 @@ pub fn static_alloc(env: &FuncEnv, size: u32) -> u32 {
 
     assert!(size > 0);
 
-    let used = used_memory(env);
+    let used = used_memory(env).max(MIN_OFFSET);
     let new_used = used + size as u64;
 
     let allocated = allocated_memory(env);
@@ -22,14 +25,14 @@ pub fn static_alloc(env: &FuncEnv, size: u32) -> u32 {
 
     set_used_memory(env, new_used);
 
-    new_used as u32
+    used as u32
 }
 
 #[allow(unused)]
 pub fn dynamic_alloc(env: &FuncEnv, size: u32) -> u32 {
     assert!(size > 0);
 
-    let used = used_memory(env);
+    let used = used_memory(env).max(MIN_OFFSET);
     let new_used = used + size as u64;
 
     let allocated = allocated_memory(env);
@@ -50,7 +53,7 @@ pub fn dynamic_alloc(env: &FuncEnv, size: u32) -> u32 {
 
     set_used_memory(env, new_used);
 
-    new_used as u32
+    used as u32
 }
 
 fn allocated_memory(env: &FuncEnv) -> u64 {
-- 
2.43.0


From 8f3d1e4c0cd2b6732cdd4248d912f907c761621e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:43 +0000
Subject: [PATCH 11/55] fix: let a successful svm_verify produce a receipt

---
 crates/host/runtime/src/runtime/runtime.rs | 29 +++++++++++++++++-----
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/crates/host/runtime/src/runtime/runtime.rs b/crates/host/runtime/src/runtime/runtime.rs
index a777148..73d4f81 100644
--- a/crates/host/runtime/src/runtime/runtime.rs
+++ b/crates/host/runtime/src/runtime/runtime.rs
@@ -80,8 +80,13 @@ impl Runtime {
         svm_types::into_spawn_receipt(receipt, &target)
     }
 
-    fn exec_call<'a, Args, Rets>(&'a mut self, call: &Call<'a>) -> CallReceipt {
-        let result = self.exec::<(), (), _, _>(&call, |env, out| outcome_to_receipt(env, out));
+    fn exec_call<'a, Args, Rets>(&'a mut self, call: &Call<'a>) -> CallReceipt
+    where
+        Args: WasmTypeList,
+        Rets: WasmTypeList,
+    {
+        let result =
+            self.exec::<Args, Rets, _, _>(&call, |env, out| outcome_to_receipt(env, call, out));
         result.unwrap_or_else(|fail| CallReceipt::from_err(fail.err, fail.logs))
     }
 
@@ -691,7 +696,7 @@ impl Runtime {
         );
 
         // TODO: override the `call.gas_limit` with `VERIFY_MAX_GAS`
-        self.exec_call::<(), ()>(&call)
+        self.exec_call::<(), u32>(&call)
     }
 
     /// Executes a [`Transaction`](svm_types::Transaction) and returns its output [`CallReceipt`].
@@ -874,13 +879,25 @@ fn commit_changes(env: &FuncEnv) -> svm_state::StorageResult<State> {
     Ok(state)
 }
 
-fn outcome_to_receipt(env: &FuncEnv, mut out: Outcome<Box<[wasmer::Val]>>) -> CallReceipt {
+fn outcome_to_receipt(
+    env: &FuncEnv,
+    call: &Call,
+    mut out: Outcome<Box<[wasmer::Val]>>,
+) -> CallReceipt {
+    let returndata = take_returndata(env);
+
+    let new_state = match call.access_mode {
+        AccessMode::FullAccess => commit_changes(&env).unwrap(),
+        // There can't be any changes to commit.
+        AccessMode::AccessDenied | AccessMode::ImmutableOnly => call.state.clone(),
+    };
+
     CallReceipt {
         version: 0,
         success: true,
         error: None,
-        returndata: Some(take_returndata(env)),
-        new_state: Some(commit_changes(&env).unwrap()),
+        returndata: Some(returndata),
+        new_state: Some(new_state),
         gas_used: out.gas_used(),
         touched_accounts: env.borrow().touched_accounts(),
         logs: out.take_logs(),
-- 
2.43.0


From 47bae1b5a597386c4a8b7674c8cfeb405ab75741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:44 +0000
Subject: [PATCH 12/55] fix: leave no changes behind when a transaction fails

---
 crates/host/runtime/src/runtime/runtime.rs | 38 ++++++++++++++++++++--
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/crates/host/runtime/src/runtime/runtime.rs b/crates/host/runtime/src/runtime/runtime.rs
index 73d4f81..891c017 100644
--- a/crates/host/runtime/src/runtime/runtime.rs
+++ b/crates/host/runtime/src/runtime/runtime.rs
@@ -2,6 +2,7 @@ use log::info;
 use tokio::runtime::Runtime as TokioRuntime;
 use wasmer::{Instance, Module, WasmPtr, WasmTypeList};
 
+use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
 use std::sync::Arc;
 
 use svm_codec::Codec;
@@ -85,9 +86,34 @@ impl Runtime {
         Args: WasmTypeList,
         Rets: WasmTypeList,
     {
-        let result =
-            self.exec::<Args, Rets, _, _>(&call, |env, out| outcome_to_receipt(env, call, out));
-        result.unwrap_or_else(|fail| CallReceipt::from_err(fail.err, fail.logs))
+        // A transaction that doesn't succeed mustn't leave any changes behind,
+        // not even when it fails by panicking (e.g. within a vmcall).
+        let result = catch_unwind(AssertUnwindSafe(|| {
+            self.exec::<Args, Rets, _, _>(&call, |env, out| outcome_to_receipt(env, call, out))
+        }));
+
+        match result {
+            Ok(Ok(receipt)) => receipt,
+            Ok(Err(fail)) => {
+                self.rollback();
+                CallReceipt::from_err(fail.err, fail.logs)
+            }
+            Err(panic) => {
+                self.rollback();
+                resume_unwind(panic)
+            }
+        }
+    }
+
+    /// Saves all changes made so far; they aren't affected by the next
+    /// [`Runtime::rollback`].
+    fn checkpoint(&mut self) {
+        self.tokio_rt.block_on(self.gs.checkpoint()).unwrap();
+    }
+
+    /// Erases all changes made since the last [`Runtime::checkpoint`].
+    fn rollback(&mut self) {
+        self.tokio_rt.block_on(self.gs.rollback()).unwrap();
     }
 
     fn exec<Args, Rets, F, R>(&self, call: &Call, f: F) -> Result<R>
@@ -656,6 +682,8 @@ impl Runtime {
         let account = spawn.account();
         let target = compute_account_addr(&spawn);
 
+        self.checkpoint();
+
         self.create_account(
             &target,
             template_addr.clone(),
@@ -695,6 +723,8 @@ impl Runtime {
             gas_left,
         );
 
+        self.checkpoint();
+
         // TODO: override the `call.gas_limit` with `VERIFY_MAX_GAS`
         self.exec_call::<(), u32>(&call)
     }
@@ -715,6 +745,8 @@ impl Runtime {
             GasTank::new(envelope.gas_limit()),
         );
 
+        self.checkpoint();
+
         self.exec_call::<(), ()>(&call)
     }
 
-- 
2.43.0


From 53bc2970d4e5ef955e2de42c98fb425b4857842c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:45 +0000
Subject: [PATCH 13/55] fix: commit changes that were never checkpointed, and
 report saved ones as uncommitted

---
 crates/host/runtime/src/runtime/runtime.rs | 2 ++
 crates/host/state/src/global_state.rs      | 4 ++--
 crates/host/state/src/storage.rs           | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/host/runtime/src/runtime/runtime.rs b/crates/host/runtime/src/runtime/runtime.rs
index 891c017..58ce8ab 100644
--- a/crates/host/runtime/src/runtime/runtime.rs
+++ b/crates/host/runtime/src/runtime/runtime.rs
@@ -760,6 +760,8 @@ impl Runtime {
 
     /// Creates a new layer with the given changes.
     pub fn commit(&mut self) -> Result<()> {
+        self.checkpoint();
+
         self.tokio_rt
             .block_on(self.gs.commit())
             .map_err(|_e| RuntimeFailure::new(RuntimeError::OOG, vec![]))?;
diff --git a/crates/host/state/src/global_state.rs b/crates/host/state/src/global_state.rs
index e566b53..5e5cd9d 100644
--- a/crates/host/state/src/global_state.rs
+++ b/crates/host/state/src/global_state.rs
@@ -152,8 +152,8 @@ impl GlobalState {
         Ok(())
     }
 
-    /// Returns [`true`] iff there are any dirty changes in memory; [`false`]
-    /// otherwise.
+    /// Returns [`true`] iff there are any dirty or saved changes in memory;
+    /// [`false`] otherwise.
     pub fn has_uncommitted_changes(&self) -> bool {
         self.storage().has_uncommitted_changes()
     }
diff --git a/crates/host/state/src/storage.rs b/crates/host/state/src/storage.rs
index d59c608..7217ebe 100644
--- a/crates/host/state/src/storage.rs
+++ b/crates/host/state/src/storage.rs
@@ -155,7 +155,7 @@ impl Storage {
     }
 
     pub fn has_uncommitted_changes(&self) -> bool {
-        !self.dirty_changes.is_empty()
+        !self.dirty_changes.is_empty() || !self.next_layer.changes.is_empty()
     }
 
     /// Fetches the value associated with the Blake3 hash of `key`. See
-- 
2.43.0


From 6e37587eb472d40aba7bd1a460d65c4d2dc6f9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:52 +0000
Subject: [PATCH 14/55] fix: allocate FFI results with the system allocator and
 free them exactly once

---
 crates/host/runtime-ffi/src/result.rs | 66 +++++++++++++++++++--------
 1 file changed, 47 insertions(+), 19 deletions(-)

diff --git a/crates/host/runtime-ffi/src/result.rs b/crates/host/runtime-ffi/src/result.rs
index 4795515..25e19bb 100644
--- a/crates/host/runtime-ffi/src/result.rs
+++ b/crates/host/runtime-ffi/src/result.rs
@@ -1,3 +1,4 @@
+use std::alloc::{handle_alloc_error, GlobalAlloc, Layout, System};
 use std::convert::{Infallible, TryInto};
 use std::ops::FromResidual;
 
@@ -23,7 +24,7 @@ use std::ops::FromResidual;
 /// free(result->error);
 /// ```
 #[allow(non_camel_case_types)]
-#[derive(Debug, Clone, PartialEq, Eq)]
+#[derive(Debug, PartialEq, Eq)]
 #[repr(C)]
 pub struct svm_result_t {
     receipt: *mut u8,
@@ -41,23 +42,17 @@ impl svm_result_t {
 
     /// Creates a new [`svm_result_t`] which contains an error.
     pub fn new_error(data: &[u8]) -> Self {
-        let mut new_data = Vec::with_capacity(data.len());
-        new_data.extend_from_slice(data);
-
         Self {
             receipt: std::ptr::null_mut(),
-            error: new_data.leak().as_mut_ptr(),
+            error: alloc_copy(data),
             buf_size: data.len().try_into().unwrap(),
         }
     }
 
     /// Creates a new [`svm_result_t`] which contains a receipt.
     pub fn new_receipt(data: &[u8]) -> Self {
-        let mut new_data = Vec::with_capacity(data.len());
-        new_data.extend_from_slice(data);
-
         Self {
-            receipt: new_data.leak().as_mut_ptr(),
+            receipt: alloc_copy(data),
             error: std::ptr::null_mut(),
             buf_size: data.len().try_into().unwrap(),
         }
@@ -66,12 +61,8 @@ impl svm_result_t {
     /// Panics if `self` contains an error. If it doesn't, either returns
     /// [`None`] if there is no receipt or a [`Some`] with the receipt.
     pub fn unwrap(self) -> Option<Vec<u8>> {
-        if self.error.is_null() && self.receipt.is_null() {
-            None
-        } else if self.error.is_null() {
-            Some(unsafe {
-                Vec::from_raw_parts(self.receipt, self.buf_size as usize, self.buf_size as usize)
-            })
+        if self.error.is_null() {
+            self.receipt().map(|receipt| receipt.to_vec())
         } else {
             let err_bytes =
                 unsafe { std::slice::from_raw_parts(self.error, self.buf_size as usize) };
@@ -122,16 +113,53 @@ impl svm_result_t {
     }
 }
 
+impl Clone for svm_result_t {
+    fn clone(&self) -> Self {
+        let copy = |ptr: *mut u8| {
+            if ptr.is_null() {
+                ptr
+            } else {
+                alloc_copy(unsafe { std::slice::from_raw_parts(ptr, self.buf_size as usize) })
+            }
+        };
+
+        Self {
+            receipt: copy(self.receipt),
+            error: copy(self.error),
+            buf_size: self.buf_size,
+        }
+    }
+}
+
 impl std::ops::Drop for svm_result_t {
     fn drop(&mut self) {
-        let len = self.buf_size as usize;
-        unsafe {
-            let _error = Vec::from_raw_parts(self.error, len, len);
-            let _receipt = Vec::from_raw_parts(self.receipt, len, len);
+        for ptr in [self.error, self.receipt] {
+            if !ptr.is_null() {
+                unsafe { System.dealloc(ptr, buf_layout(self.buf_size as usize)) }
+            }
         }
     }
 }
 
+/// Copies `data` to memory obtained from the system allocator.
+fn alloc_copy(data: &[u8]) -> *mut u8 {
+    let layout = buf_layout(data.len());
+
+    unsafe {
+        let ptr = System.alloc(layout);
+        if ptr.is_null() {
+            handle_alloc_error(layout);
+        }
+        std::ptr::copy_nonoverlapping(data.as_ptr(), ptr, data.len());
+        ptr
+    }
+}
+
+// Zero-sized allocations aren't allowed.
+fn buf_layout(len: usize) -> Layout {
+    Layout::array::<u8>(len.max(1)).unwrap()
+}
+
 impl<E> FromResidual<Result<Infallible, E>> for svm_result_t
 where
     E: std::error::Error,
-- 
2.43.0


From 6a138eb1b55e2b029b27f08226ccf6c296e262d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:53 +0000
Subject: [PATCH 15/55] fix: release the runtime's resources in
 svm_runtime_destroy

---
 crates/host/runtime-ffi/src/resource_tracker.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/host/runtime-ffi/src/resource_tracker.rs b/crates/host/runtime-ffi/src/resource_tracker.rs
index 491e022..77fb6e5 100644
--- a/crates/host/runtime-ffi/src/resource_tracker.rs
+++ b/crates/host/runtime-ffi/src/resource_tracker.rs
@@ -39,6 +39,7 @@ impl<T> ResourceTracker<T> {
         let found = self.pointers.lock().unwrap().remove(&(ptr as usize));
 
         if found {
+            drop(unsafe { Box::<T>::from_raw(ptr.cast()) });
             Some(())
         } else {
             None
-- 
2.43.0


From b8a65fca39c7395f57d3b5f57c667ce0a40e90f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:54 +0000
Subject: [PATCH 16/55] fix: fill in the address in svm_get_account

---
 crates/host/runtime-ffi/src/c_api.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/host/runtime-ffi/src/c_api.rs b/crates/host/runtime-ffi/src/c_api.rs
index 0b95840..5643140 100644
--- a/crates/host/runtime-ffi/src/c_api.rs
+++ b/crates/host/runtime-ffi/src/c_api.rs
@@ -530,12 +530,16 @@ pub unsafe extern "C" fn svm_get_account(
     account_addr: *const u8,
     account: *mut svm_account,
 ) -> svm_result_t {
-    assert!(!account.is_null());
     catch_unwind_or_fail(|| {
+        assert!(!account.is_null());
+
         let runtime = get_runtime(runtime_ptr);
         let account_addr = Address::new(std::slice::from_raw_parts(account_addr, Address::N));
         let account_data = runtime.get_account(&account_addr).unwrap();
 
+        (*account)
+            .address
+            .clone_from_slice(account_addr.as_slice());
         (*account).balance = account_data.0;
         (*account).counter_upper_bits = (account_data.1 >> 64) as u64;
         (*account).counter_lower_bits = account_data.1 as u64;
-- 
2.43.0


From 609016fc54fe19a601fc4adb7641314a98a680e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:56 +0000
Subject: [PATCH 17/55] fix: keep the library usable after svm_runtime_create
 fails

---
 crates/host/runtime-ffi/src/c_api.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/host/runtime-ffi/src/c_api.rs b/crates/host/runtime-ffi/src/c_api.rs
index 5643140..1308e4f 100644
--- a/crates/host/runtime-ffi/src/c_api.rs
+++ b/crates/host/runtime-ffi/src/c_api.rs
@@ -65,11 +65,12 @@ pub unsafe extern "C" fn svm_runtime_create(
     path_len: u32,
 ) -> svm_result_t {
     catch_unwind_or_fail(|| {
-        let mut initialized = INITIALIZED.lock().unwrap();
-        if !*initialized {
+        // The lock isn't held any longer than this, so that a failure below
+        // doesn't poison it.
+        let initialized = *INITIALIZED.lock().unwrap();
+        if !initialized {
             return svm_result_t::new_error(b"`svm_init` not called beforehand.");
         }
-        *initialized = true;
 
         let genesis = GenesisConfig::mainnet();
         let tokio_rt = TokioRuntime::new().unwrap();
-- 
2.43.0


From 482bf31fc74490197e6cd593482b7c90f6065172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:49 +0000
Subject: [PATCH 18/55] fix: report missing accounts and templates in the
 receipt instead of panicking

---
 crates/host/runtime/src/runtime/runtime.rs | 54 +++++++++++++++-------
 1 file changed, 37 insertions(+), 17 deletions(-)

diff --git a/crates/host/runtime/src/runtime/runtime.rs b/crates/host/runtime/src/runtime/runtime.rs
index 58ce8ab..37a9f65 100644
--- a/crates/host/runtime/src/runtime/runtime.rs
+++ b/crates/host/runtime/src/runtime/runtime.rs
@@ -8,7 +8,7 @@ use std::sync::Arc;
 use svm_codec::Codec;
 use svm_hash::{Blake3Hasher, Hasher};
 use svm_program::Program;
-use svm_state::{AccountStorage, GlobalState, TemplateStorage};
+use svm_state::{AccountStorage, GlobalState, StorageError, TemplateStorage};
 use svm_types::{
     Address, BytesPrimitive, CallReceipt, Context, DeployReceipt, Envelope, Gas, GasMode, Layer,
     OOGError, ReceiptLog, RuntimeError, RuntimeFailure, SectionKind, Sections, SpawnAccount,
@@ -347,28 +347,43 @@ impl Runtime {
         &self,
         account_addr: &Address,
     ) -> std::result::Result<Template, RuntimeFailure> {
-        // TODO:
-        //
-        // * Return a `RuntimeFailure` when `account_addr` doesn't exist.
-        let account = self
-            .tokio_rt
-            .block_on(AccountStorage::load(self.gs.clone(), account_addr))
-            .unwrap();
+        let account = self.load_account(account_addr)?;
         let template_addr = self.tokio_rt.block_on(account.template_addr()).unwrap();
         self.load_template(&template_addr)
     }
 
+    fn load_account(
+        &self,
+        account_addr: &Address,
+    ) -> std::result::Result<AccountStorage, RuntimeFailure> {
+        self.tokio_rt
+            .block_on(AccountStorage::load(self.gs.clone(), account_addr))
+            .map_err(|err| match err {
+                StorageError::NotFound { .. } => {
+                    RuntimeError::AccountNotFound(account_addr.clone()).into()
+                }
+                err => panic!("Failed loading an account: {}", err),
+            })
+    }
+
     fn load_template(
         &self,
         template_addr: &TemplateAddr,
     ) -> std::result::Result<Template, RuntimeFailure> {
         let template_storage = TemplateStorage::load(self.gs.clone(), &template_addr).unwrap();
-        let sections = self.tokio_rt.block_on(template_storage.sections()).unwrap();
+        let sections = self
+            .tokio_rt
+            .block_on(template_storage.sections())
+            .map_err(|err| match err {
+                StorageError::NotFound { .. } => {
+                    RuntimeFailure::from(RuntimeError::TemplateNotFound(template_addr.clone()))
+                }
+                err => panic!("Failed loading a template: {}", err),
+            })?;
         let template = Template::from_sections(sections);
 
         // TODO:
         //
-        // * Return a `RuntimeFailure` when `Template` doesn't exist.
         // * Fetch only the `Core Sections`.
         // * Add `non_core` sections to be fetched as a param (optional)
         Ok(template)
@@ -486,19 +501,16 @@ impl Runtime {
         func_name: &'a str,
         func_input: &'a [u8],
         gas_left: GasTank,
-    ) -> Call<'a> {
+    ) -> Result<Call<'a>> {
         let target = tx.target();
-        let account_storage = self
-            .tokio_rt
-            .block_on(AccountStorage::load(self.gs.clone(), target))
-            .unwrap();
+        let account_storage = self.load_account(target)?;
 
         let template = self
             .tokio_rt
             .block_on(account_storage.template_addr())
             .unwrap();
 
-        Call {
+        Ok(Call {
             func_name,
             func_input,
             target: target.clone(),
@@ -509,7 +521,7 @@ impl Runtime {
             within_spawn: false,
             envelope,
             context,
-        }
+        })
     }
 
     /// Returns the [`State`] root hash and [`Layer`] of the last layer.
@@ -722,6 +734,10 @@ impl Runtime {
             tx.verifydata(),
             gas_left,
         );
+        let call = match call {
+            Ok(call) => call,
+            Err(fail) => return CallReceipt::from_err(fail.err, fail.logs),
+        };
 
         self.checkpoint();
 
@@ -744,6 +760,10 @@ impl Runtime {
             tx.calldata(),
             GasTank::new(envelope.gas_limit()),
         );
+        let call = match call {
+            Ok(call) => call,
+            Err(fail) => return CallReceipt::from_err(fail.err, fail.logs),
+        };
 
         self.checkpoint();
 
-- 
2.43.0


From f9a4499901fddcf6e2ead7c4bb379f5b67587d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:50 +0000
Subject: [PATCH 19/55] fix: fail to spawn, without panicking, when the
 constructor isn't exported

---
 crates/host/runtime/src/runtime/runtime.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/host/runtime/src/runtime/runtime.rs b/crates/host/runtime/src/runtime/runtime.rs
index 37a9f65..84496e6 100644
--- a/crates/host/runtime/src/runtime/runtime.rs
+++ b/crates/host/runtime/src/runtime/runtime.rs
@@ -482,7 +482,11 @@ impl Runtime {
 
         match gas_mode {
             GasMode::Fixed => {
-                let func_index = program.exports().get(func_name).unwrap();
+                let func_index = match program.exports().get(func_name) {
+                    Some(func_index) => func_index,
+                    // There's nothing to pay for. Executing the function will fail.
+                    None => return gas_left,
+                };
                 let func_price = self.template_price.price_of(&template_addr, &program);
 
                 let price = func_price.get(func_index) as u64;
-- 
2.43.0


From 2448b7981d76b2c1cd0110432128afa18b286e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:51 +0000
Subject: [PATCH 20/55] fix: fail the transaction, without panicking, when the
 template exports no memory

---
 crates/host/runtime/src/runtime/runtime.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/crates/host/runtime/src/runtime/runtime.rs b/crates/host/runtime/src/runtime/runtime.rs
index 84496e6..116d0bc 100644
--- a/crates/host/runtime/src/runtime/runtime.rs
+++ b/crates/host/runtime/src/runtime/runtime.rs
@@ -162,7 +162,7 @@ impl Runtime {
         let module = self.compile_template(store, func_env, &template, call.gas_left)?;
         let instance = self.instantiate(func_env, &module, import_object)?;
 
-        set_memory(func_env, &instance);
+        set_memory(func_env, &instance)?;
 
         let func = self.func::<Args, Rets>(&instance, func_env, call.func_name)?;
 
@@ -884,11 +884,14 @@ fn read_memory(env: &FuncEnv, offset: usize, length: usize) -> Vec<u8> {
     cells.iter().map(|c| c.get()).collect()
 }
 
-fn set_memory(env: &FuncEnv, instance: &Instance) {
-    // TODO: raise when no exported memory exists
-    let memory = instance.exports.get_memory("memory").unwrap();
+fn set_memory(env: &FuncEnv, instance: &Instance) -> Result<()> {
+    let memory = instance
+        .exports
+        .get_memory("memory")
+        .map_err(|err| err::missing_memory(env, err))?;
 
     env.borrow_mut().set_memory(memory.clone());
+    Ok(())
 }
 
 fn set_calldata(env: &FuncEnv, calldata: &[u8], wasm_ptr: WasmPtr<u8>) {
@@ -1002,6 +1005,15 @@ mod err {
         .into()
     }
 
+    pub fn missing_memory(env: &FuncEnv, err: wasmer::ExportError) -> RuntimeFailure {
+        RuntimeError::InstantiationFailed {
+            target: env.target_addr.clone(),
+            template: env.template_addr.clone(),
+            msg: err.to_string(),
+        }
+        .into()
+    }
+
     pub fn func_not_ctor(template_addr: &TemplateAddr, func_name: &str) -> RuntimeFailure {
         RuntimeError::FuncNotCtor {
             template: template_addr.clone(),
-- 
2.43.0


From 7e8ed90599dbeb098655cb4344e955334ff416b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:42 +0000
Subject: [PATCH 21/55] fix: reject unknown or unsupported template sections
 instead of panicking

---
 crates/host/codec/src/section/sections/api.rs    | 3 ++-
 crates/host/codec/src/section/sections/code.rs   | 2 +-
 crates/host/codec/src/section/sections/data.rs   | 2 +-
 crates/host/codec/src/section/sections/schema.rs | 3 ++-
 4 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/host/codec/src/section/sections/api.rs b/crates/host/codec/src/section/sections/api.rs
index 6c963d0..5304b6f 100644
--- a/crates/host/codec/src/section/sections/api.rs
+++ b/crates/host/codec/src/section/sections/api.rs
@@ -10,6 +10,7 @@ impl Codec for ApiSection {
     }
 
     fn decode(_cursor: &mut impl ReadExt) -> Result<Self, ParseError> {
-        todo!("will be implemented in a future PR...");
+        // Decoding will be implemented in a future PR...
+        Err(ParseError::InvalidSection)
     }
 }
diff --git a/crates/host/codec/src/section/sections/code.rs b/crates/host/codec/src/section/sections/code.rs
index db3d921..a4cb12e 100644
--- a/crates/host/codec/src/section/sections/code.rs
+++ b/crates/host/codec/src/section/sections/code.rs
@@ -70,7 +70,7 @@ impl Codec for GasMode {
     fn decode(reader: &mut impl ReadExt) -> Result<Self, Self::Error> {
         match u64::decode(reader)? {
             GAS_MODE_FIXED => Ok(GasMode::Fixed),
-            _ => unreachable!(),
+            _ => Err(ParseError::InvalidSection),
         }
     }
 }
diff --git a/crates/host/codec/src/section/sections/data.rs b/crates/host/codec/src/section/sections/data.rs
index 1dcfb14..dff2297 100644
--- a/crates/host/codec/src/section/sections/data.rs
+++ b/crates/host/codec/src/section/sections/data.rs
@@ -150,7 +150,7 @@ impl Codec for LayoutKind {
     fn decode(reader: &mut impl ReadExt) -> Result<Self, Self::Error> {
         match u16::decode(reader)? {
             FIXED => Ok(LayoutKind::Fixed),
-            _ => unreachable!(),
+            _ => Err(ParseError::InvalidSection),
         }
     }
 }
diff --git a/crates/host/codec/src/section/sections/schema.rs b/crates/host/codec/src/section/sections/schema.rs
index 96d69be..d7c6a55 100644
--- a/crates/host/codec/src/section/sections/schema.rs
+++ b/crates/host/codec/src/section/sections/schema.rs
@@ -29,7 +29,8 @@ impl Codec for SchemaSection {
     }
 
     fn decode(_reader: &mut impl ReadExt) -> Result<Self, Self::Error> {
-        todo!("will be implemented in a future PR...");
+        // Decoding will be implemented in a future PR...
+        Err(ParseError::InvalidSection)
     }
 }
 
-- 
2.43.0


From d58253f33d40d09137668c6202cb394913bc7bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:42 +0000
Subject: [PATCH 22/55] fix: don't allocate memory for bytes missing from the
 decoded message

---
 crates/host/codec/src/ext.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/host/codec/src/ext.rs b/crates/host/codec/src/ext.rs
index a596f1e..eb1947b 100644
--- a/crates/host/codec/src/ext.rs
+++ b/crates/host/codec/src/ext.rs
@@ -24,8 +24,11 @@ pub trait ReadExt: Sized {
 
     /// Reads `length` bytes
     fn read_bytes(&mut self, length: usize) -> Result<Vec<u8>, ParseError> {
-        let mut buf = vec![0; length];
-        self.read_fill(&mut buf[..])?;
+        // `length` is untrusted: memory is only allocated for bytes that are really there.
+        let mut buf = Vec::new();
+        for _ in 0..length {
+            buf.push(self.read_byte()?);
+        }
         Ok(buf)
     }
 }
-- 
2.43.0


From 9ed79b9675fef89f6b19fc7a8c0d29d8a5d9f861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:42 +0000
Subject: [PATCH 23/55] fix: hold template sections to their stated byte size
 and reject duplicates

---
 crates/host/codec/src/section/decode.rs  | 31 ++++++++++++++++--------
 crates/host/codec/src/section/preview.rs |  2 +-
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/crates/host/codec/src/section/decode.rs b/crates/host/codec/src/section/decode.rs
index 99e4527..1cc4cab 100644
--- a/crates/host/codec/src/section/decode.rs
+++ b/crates/host/codec/src/section/decode.rs
@@ -1,4 +1,5 @@
 use std::collections::HashSet;
+use std::io::Cursor;
 
 use svm_types::{
     ApiSection, CodeSection, CtorsSection, DataSection, DeploySection, HeaderSection,
@@ -76,18 +77,25 @@ where
             "Please call `next_preview` prior to calling `decode_section`"
         );
 
-        let last_preview = self.last_preview.take().unwrap();
-
-        let section = match last_preview.kind() {
-            SectionKind::Header => HeaderSection::decode(self.reader)?.into(),
-            SectionKind::Code => CodeSection::decode(self.reader)?.into(),
-            SectionKind::Data => DataSection::decode(self.reader)?.into(),
-            SectionKind::Ctors => CtorsSection::decode(self.reader)?.into(),
-            SectionKind::Schema => SchemaSection::decode(self.reader)?.into(),
-            SectionKind::Api => ApiSection::decode(self.reader)?.into(),
-            SectionKind::Deploy => DeploySection::decode(self.reader)?.into(),
+        let kind = self.last_preview.as_ref().unwrap().kind();
+        let bytes = self.section_bytes()?;
+        let reader = &mut Cursor::new(&bytes[..]);
+
+        let section = match kind {
+            SectionKind::Header => HeaderSection::decode(reader)?.into(),
+            SectionKind::Code => CodeSection::decode(reader)?.into(),
+            SectionKind::Data => DataSection::decode(reader)?.into(),
+            SectionKind::Ctors => CtorsSection::decode(reader)?.into(),
+            SectionKind::Schema => SchemaSection::decode(reader)?.into(),
+            SectionKind::Api => ApiSection::decode(reader)?.into(),
+            SectionKind::Deploy => DeploySection::decode(reader)?.into(),
         };
 
+        // The section must take up exactly the byte size stated by its preview.
+        if reader.peek_byte().is_some() {
+            return Err(ParseError::InvalidSection);
+        }
+
         Ok(section)
     }
 
@@ -134,6 +142,9 @@ pub fn decode_sections(
         if decode_each || interests.contains(&kind) {
             let section = decoder.decode_section()?;
 
+            if sections.contains(kind) {
+                return Err(ParseError::InvalidSection);
+            }
             sections.insert(section);
         } else {
             decoder.skip_section()?;
diff --git a/crates/host/codec/src/section/preview.rs b/crates/host/codec/src/section/preview.rs
index 9def6cd..fe35169 100644
--- a/crates/host/codec/src/section/preview.rs
+++ b/crates/host/codec/src/section/preview.rs
@@ -42,6 +42,6 @@ impl Codec for SectionPreview {
     }
 
     fn fixed_size() -> Option<usize> {
-        Some(8)
+        Some(2 + 4)
     }
 }
-- 
2.43.0


From 64c03548046ee816bc7a49ed32e3d4d5457af6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:43 +0000
Subject: [PATCH 24/55] fix: make every data and ctors section that decodes
 encode back to itself

---
 crates/host/codec/src/section/sections/ctors.rs | 2 +-
 crates/host/codec/src/section/sections/data.rs  | 8 ++++++--
 crates/host/layout/src/fixed.rs                 | 5 +----
 3 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/crates/host/codec/src/section/sections/ctors.rs b/crates/host/codec/src/section/sections/ctors.rs
index 3199822..d9caced 100644
--- a/crates/host/codec/src/section/sections/ctors.rs
+++ b/crates/host/codec/src/section/sections/ctors.rs
@@ -21,7 +21,7 @@ impl Codec for CtorsSection {
         // `#Ctors`
         let count = self.ctors().len();
 
-        assert!(count < std::u8::MAX as usize);
+        assert!(count <= std::u8::MAX as usize);
 
         w.write_byte(count as u8);
 
diff --git a/crates/host/codec/src/section/sections/data.rs b/crates/host/codec/src/section/sections/data.rs
index dff2297..b43233c 100644
--- a/crates/host/codec/src/section/sections/data.rs
+++ b/crates/host/codec/src/section/sections/data.rs
@@ -91,7 +91,7 @@ impl Codec for Layout {
 
                 // `#Vars`
                 let var_count = layout.len();
-                assert!(var_count < std::u16::MAX as usize);
+                assert!(var_count <= std::u16::MAX as usize);
                 (var_count as u16).encode(w);
 
                 if var_count > 0 {
@@ -100,7 +100,7 @@ impl Codec for Layout {
 
                     // Encoding each `Var Byte-Size`
                     for var in layout.iter() {
-                        (var.byte_size as u16).encode(w);
+                        u16::try_from(var.byte_size).unwrap().encode(w);
                     }
                 }
             }
@@ -121,6 +121,10 @@ impl Codec for Layout {
                 if var_count > 0 {
                     first_var_id = u32::decode(reader)?;
 
+                    if first_var_id.checked_add(var_count as u32 - 1).is_none() {
+                        return Err(ParseError::InvalidSection);
+                    }
+
                     // Decoding each `var`
                     for _ in 0..var_count {
                         let byte_size = decode_var_byte_size(reader)?;
diff --git a/crates/host/layout/src/fixed.rs b/crates/host/layout/src/fixed.rs
index 1244810..0e35658 100644
--- a/crates/host/layout/src/fixed.rs
+++ b/crates/host/layout/src/fixed.rs
@@ -40,10 +40,7 @@ impl FixedLayout {
             offset += byte_size;
         }
 
-        Self {
-            first: Some(first),
-            vars,
-        }
+        Self::new(vars)
     }
 
     /// Returns a fixed-variable's layout
-- 
2.43.0


From c81c76ebcc6816254743f4bce276193ad0491d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:43 +0000
Subject: [PATCH 25/55] fix: return an error, instead of panicking, for
 malformed receipts

---
 crates/host/codec/src/receipt/call.rs   |   8 +-
 crates/host/codec/src/receipt/deploy.rs |   8 +-
 crates/host/codec/src/receipt/error.rs  | 128 ++++++++++++------------
 crates/host/codec/src/receipt/mod.rs    |   2 +-
 crates/host/codec/src/receipt/spawn.rs  |  10 +-
 5 files changed, 84 insertions(+), 72 deletions(-)

diff --git a/crates/host/codec/src/receipt/call.rs b/crates/host/codec/src/receipt/call.rs
index 1582bea..847f8f6 100644
--- a/crates/host/codec/src/receipt/call.rs
+++ b/crates/host/codec/src/receipt/call.rs
@@ -60,10 +60,14 @@ impl Codec for CallReceipt {
 
     fn decode(reader: &mut impl ReadExt) -> Result<Self, Self::Error> {
         let ty = reader.read_byte()?;
-        debug_assert_eq!(ty, crate::receipt::TY_CALL);
+        if ty != super::TY_CALL {
+            return Err(ParseError::BadByte(ty));
+        }
 
         let version = u16::decode(reader)?;
-        debug_assert_eq!(0, version);
+        if version != 0 {
+            return Err(ParseError::Other);
+        }
 
         let is_success = bool::decode(reader)?;
 
diff --git a/crates/host/codec/src/receipt/deploy.rs b/crates/host/codec/src/receipt/deploy.rs
index 9c5e9fd..4dc4ca9 100644
--- a/crates/host/codec/src/receipt/deploy.rs
+++ b/crates/host/codec/src/receipt/deploy.rs
@@ -40,10 +40,14 @@ impl Codec for DeployReceipt {
 
     fn decode(reader: &mut impl ReadExt) -> Result<Self, Self::Error> {
         let ty = reader.read_byte()?;
-        debug_assert_eq!(ty, TY_DEPLOY);
+        if ty != TY_DEPLOY {
+            return Err(ParseError::BadByte(ty));
+        }
 
         let version = u16::decode(reader)?;
-        debug_assert_eq!(version, 0);
+        if version != 0 {
+            return Err(ParseError::Other);
+        }
 
         let is_success = bool::decode(reader)?;
 
diff --git a/crates/host/codec/src/receipt/error.rs b/crates/host/codec/src/receipt/error.rs
index e8ea82b..42a594d 100644
--- a/crates/host/codec/src/receipt/error.rs
+++ b/crates/host/codec/src/receipt/error.rs
@@ -162,22 +162,22 @@ impl Codec for RuntimeFailure {
     }
 
     fn decode(cursor: &mut impl ReadExt) -> std::result::Result<Self, Self::Error> {
-        let ty = cursor.read_byte().unwrap();
-        let logs = <Vec<ReceiptLog>>::decode(cursor).unwrap();
+        let ty = cursor.read_byte()?;
+        let logs = <Vec<ReceiptLog>>::decode(cursor)?;
 
         let err = {
             match ty {
-                0 => oog(cursor),
-                1 => template_not_found(cursor),
-                2 => account_not_found(cursor),
-                3 => compilation_error(cursor),
-                4 => instantiation_error(cursor),
-                5 => func_not_found(cursor),
-                6 => func_failed(cursor),
-                7 => func_not_ctor(cursor),
-                8 => func_not_allowed(cursor),
-                9 => func_invalid_sig(cursor),
-                _ => unreachable!(),
+                0 => oog(cursor)?,
+                1 => template_not_found(cursor)?,
+                2 => account_not_found(cursor)?,
+                3 => compilation_error(cursor)?,
+                4 => instantiation_error(cursor)?,
+                5 => func_not_found(cursor)?,
+                6 => func_failed(cursor)?,
+                7 => func_not_ctor(cursor)?,
+                8 => func_not_allowed(cursor)?,
+                9 => func_invalid_sig(cursor)?,
+                _ => return Err(ParseError::BadByte(ty)),
             }
         };
 
@@ -212,104 +212,104 @@ fn encode_err_type(err: &RuntimeError, w: &mut impl WriteExt) {
     w.write_byte(ty);
 }
 
-fn oog(_cursor: &mut impl ReadExt) -> RuntimeError {
-    RuntimeError::OOG
+fn oog(_cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    Ok(RuntimeError::OOG)
 }
 
-fn template_not_found(cursor: &mut impl ReadExt) -> RuntimeError {
-    let template_addr = TemplateAddr::decode(cursor).unwrap();
-    RuntimeError::TemplateNotFound(template_addr)
+fn template_not_found(cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    let template_addr = TemplateAddr::decode(cursor)?;
+    Ok(RuntimeError::TemplateNotFound(template_addr))
 }
 
-fn account_not_found(cursor: &mut impl ReadExt) -> RuntimeError {
-    let account = Address::decode(cursor).unwrap();
-    RuntimeError::AccountNotFound(account)
+fn account_not_found(cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    let account = Address::decode(cursor)?;
+    Ok(RuntimeError::AccountNotFound(account))
 }
 
-fn compilation_error(cursor: &mut impl ReadExt) -> RuntimeError {
-    let template_addr = TemplateAddr::decode(cursor).unwrap();
-    let account_addr = Address::decode(cursor).unwrap();
-    let msg = String::decode(cursor).unwrap();
+fn compilation_error(cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    let template_addr = TemplateAddr::decode(cursor)?;
+    let account_addr = Address::decode(cursor)?;
+    let msg = String::decode(cursor)?;
 
-    RuntimeError::CompilationFailed {
+    Ok(RuntimeError::CompilationFailed {
         template: template_addr,
         target: account_addr,
         msg,
-    }
+    })
 }
 
-fn instantiation_error(cursor: &mut impl ReadExt) -> RuntimeError {
-    let template_addr = TemplateAddr::decode(cursor).unwrap();
-    let account_addr = Address::decode(cursor).unwrap();
-    let msg = String::decode(cursor).unwrap();
+fn instantiation_error(cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    let template_addr = TemplateAddr::decode(cursor)?;
+    let account_addr = Address::decode(cursor)?;
+    let msg = String::decode(cursor)?;
 
-    RuntimeError::InstantiationFailed {
+    Ok(RuntimeError::InstantiationFailed {
         template: template_addr,
         target: account_addr,
         msg,
-    }
+    })
 }
 
-fn func_not_found(cursor: &mut impl ReadExt) -> RuntimeError {
-    let template_addr = TemplateAddr::decode(cursor).unwrap();
-    let account_addr = Address::decode(cursor).unwrap();
-    let func = String::decode(cursor).unwrap();
+fn func_not_found(cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    let template_addr = TemplateAddr::decode(cursor)?;
+    let account_addr = Address::decode(cursor)?;
+    let func = String::decode(cursor)?;
 
-    RuntimeError::FuncNotFound {
+    Ok(RuntimeError::FuncNotFound {
         template: template_addr,
         target: account_addr,
         func,
-    }
+    })
 }
 
-fn func_failed(cursor: &mut impl ReadExt) -> RuntimeError {
-    let template_addr = TemplateAddr::decode(cursor).unwrap();
-    let account_addr = Address::decode(cursor).unwrap();
-    let func = String::decode(cursor).unwrap();
-    let msg = String::decode(cursor).unwrap();
+fn func_failed(cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    let template_addr = TemplateAddr::decode(cursor)?;
+    let account_addr = Address::decode(cursor)?;
+    let func = String::decode(cursor)?;
+    let msg = String::decode(cursor)?;
 
-    RuntimeError::FuncFailed {
+    Ok(RuntimeError::FuncFailed {
         template: template_addr,
         target: account_addr,
         func,
         msg,
-    }
+    })
 }
 
-fn func_not_ctor(cursor: &mut impl ReadExt) -> RuntimeError {
-    let template_addr = TemplateAddr::decode(cursor).unwrap();
-    let func = String::decode(cursor).unwrap();
+fn func_not_ctor(cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    let template_addr = TemplateAddr::decode(cursor)?;
+    let func = String::decode(cursor)?;
 
-    RuntimeError::FuncNotCtor {
+    Ok(RuntimeError::FuncNotCtor {
         template: template_addr,
         func,
-    }
+    })
 }
 
-fn func_not_allowed(cursor: &mut impl ReadExt) -> RuntimeError {
-    let template_addr = TemplateAddr::decode(cursor).unwrap();
-    let account_addr = Address::decode(cursor).unwrap();
-    let func = String::decode(cursor).unwrap();
-    let msg = String::decode(cursor).unwrap();
+fn func_not_allowed(cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    let template_addr = TemplateAddr::decode(cursor)?;
+    let account_addr = Address::decode(cursor)?;
+    let func = String::decode(cursor)?;
+    let msg = String::decode(cursor)?;
 
-    RuntimeError::FuncNotAllowed {
+    Ok(RuntimeError::FuncNotAllowed {
         template: template_addr,
         target: account_addr,
         func,
         msg,
-    }
+    })
 }
 
-fn func_invalid_sig(cursor: &mut impl ReadExt) -> RuntimeError {
-    let template_addr = TemplateAddr::decode(cursor).unwrap();
-    let account_addr = Address::decode(cursor).unwrap();
-    let func = String::decode(cursor).unwrap();
+fn func_invalid_sig(cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    let template_addr = TemplateAddr::decode(cursor)?;
+    let account_addr = Address::decode(cursor)?;
+    let func = String::decode(cursor)?;
 
-    RuntimeError::FuncInvalidSignature {
+    Ok(RuntimeError::FuncInvalidSignature {
         template: template_addr,
         target: account_addr,
         func,
-    }
+    })
 }
 
 #[cfg(test)]
diff --git a/crates/host/codec/src/receipt/mod.rs b/crates/host/codec/src/receipt/mod.rs
index d084b91..f7402a4 100644
--- a/crates/host/codec/src/receipt/mod.rs
+++ b/crates/host/codec/src/receipt/mod.rs
@@ -30,7 +30,7 @@ impl Codec for Receipt {
     }
 
     fn decode(cursor: &mut impl ReadExt) -> Result<Self, Self::Error> {
-        Ok(match cursor.peek_byte().unwrap() {
+        Ok(match cursor.peek_byte().ok_or(ParseError::Eof)? {
             TY_DEPLOY => {
                 let receipt = DeployReceipt::decode(cursor)?;
                 Receipt::Deploy(receipt)
diff --git a/crates/host/codec/src/receipt/spawn.rs b/crates/host/codec/src/receipt/spawn.rs
index d96b5f7..0b92ea7 100644
--- a/crates/host/codec/src/receipt/spawn.rs
+++ b/crates/host/codec/src/receipt/spawn.rs
@@ -61,10 +61,14 @@ impl Codec for SpawnReceipt {
 
     fn decode(reader: &mut impl ReadExt) -> Result<Self, Self::Error> {
         let ty = reader.read_byte()?;
-        debug_assert_eq!(ty, TY_SPAWN);
+        if ty != TY_SPAWN {
+            return Err(ParseError::BadByte(ty));
+        }
 
         let version = u16::decode(reader)?;
-        debug_assert_eq!(0, version);
+        if version != 0 {
+            return Err(ParseError::Other);
+        }
 
         let is_success = bool::decode(reader)?;
 
@@ -88,7 +92,7 @@ impl Codec for SpawnReceipt {
                 logs,
             })
         } else {
-            let x = RuntimeFailure::decode(reader).unwrap();
+            let x = RuntimeFailure::decode(reader)?;
             Ok(SpawnReceipt::from_err(x.err, x.logs))
         }
     }
-- 
2.43.0


From 0893ecf10297e943501dfb8f202f51c6df97800a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:43 +0000
Subject: [PATCH 26/55] fix: truncate every long error message in a receipt, at
 a char boundary

---
 crates/host/codec/src/receipt/error.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/host/codec/src/receipt/error.rs b/crates/host/codec/src/receipt/error.rs
index 42a594d..0a3bbe8 100644
--- a/crates/host/codec/src/receipt/error.rs
+++ b/crates/host/codec/src/receipt/error.rs
@@ -112,7 +112,7 @@ impl Codec for RuntimeFailure {
             } => {
                 template.encode(w);
                 target.encode(w);
-                msg.encode(w);
+                encode_msg(&msg, w);
             }
             RuntimeError::FuncNotFound {
                 target,
@@ -187,9 +187,11 @@ impl Codec for RuntimeFailure {
 
 fn encode_msg(msg: &str, w: &mut impl WriteExt) {
     if msg.len() > 255 {
-        let bytes = &msg.as_bytes()[0..255];
-        let msg = String::from_utf8(bytes.to_vec()).unwrap();
-        msg.encode(w);
+        let mut len = 255;
+        while !msg.is_char_boundary(len) {
+            len -= 1;
+        }
+        msg[..len].to_string().encode(w);
     } else {
         msg.to_string().encode(w);
     }
-- 
2.43.0


From 43038a3a5c89628d5d506fb86b740ea2e990f082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:43 +0000
Subject: [PATCH 27/55] fix: encode a receipt's touched accounts in a
 deterministic order

---
 crates/host/codec/src/receipt/touched_accounts.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/host/codec/src/receipt/touched_accounts.rs b/crates/host/codec/src/receipt/touched_accounts.rs
index 7d5e4cc..79e1cb1 100644
--- a/crates/host/codec/src/receipt/touched_accounts.rs
+++ b/crates/host/codec/src/receipt/touched_accounts.rs
@@ -10,7 +10,11 @@ impl Codec for HashSet<Address> {
     fn encode(&self, w: &mut impl WriteExt) {
         u16::try_from(self.len()).unwrap().encode(w);
 
-        for addr in self.iter() {
+        // Sorted, since the iteration order of a `HashSet` isn't deterministic.
+        let mut addrs: Vec<&Address> = self.iter().collect();
+        addrs.sort_by_key(|addr| addr.as_slice());
+
+        for addr in addrs {
             w.write_bytes(addr.as_slice());
         }
     }
-- 
2.43.0


From 5c5955e781319bd27e33fb4898a9c78b376c41cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:43 +0000
Subject: [PATCH 28/55] fix: format logs that aren't valid UTF-8 without
 undefined behavior

---
 crates/host/types/src/receipt/log.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/crates/host/types/src/receipt/log.rs b/crates/host/types/src/receipt/log.rs
index b6593ee..1afdd39 100644
--- a/crates/host/types/src/receipt/log.rs
+++ b/crates/host/types/src/receipt/log.rs
@@ -28,7 +28,5 @@ impl fmt::Debug for ReceiptLog {
 }
 
 fn fmt_msg(log: &ReceiptLog) -> String {
-    let bytes = log.as_bytes().to_vec();
-
-    unsafe { String::from_utf8_unchecked(bytes) }
+    String::from_utf8_lossy(log.as_bytes()).into_owned()
 }
-- 
2.43.0


From 9d56b3524743624de9b4280c3e481899ba63655c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:09 +0000
Subject: [PATCH 29/55] fix: price functions having chained unreachable code
 blocks

---
 crates/host/gas/src/graph/weight.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/crates/host/gas/src/graph/weight.rs b/crates/host/gas/src/graph/weight.rs
index dd68b1c..20438a5 100644
--- a/crates/host/gas/src/graph/weight.rs
+++ b/crates/host/gas/src/graph/weight.rs
@@ -54,13 +54,19 @@ fn prune_unreachable_nodes<L>(graph: &WeightedGraph<L>, start: L)
 where
     L: NodeLabel,
 {
-    graph
-        .source_nodes()
-        .iter()
-        .filter(|node| node.label() != start)
-        .for_each(|source| {
+    // Removing a node may in turn make the nodes that only it leads to unreachable.
+    loop {
+        let mut unreachable = graph.source_nodes();
+        unreachable.retain(|node| node.label() != start && !node.outgoing().is_empty());
+
+        if unreachable.is_empty() {
+            break;
+        }
+
+        for source in unreachable.iter() {
             graph.remove_node(source);
-        });
+        }
+    }
 }
 
 fn construct_path<L>(graph: &WeightedGraph<L>, start: L, end: L) -> WeightedPath<L>
-- 
2.43.0


From c78373095151b1dbfa9d981f31c1b9b7229d8f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:09 +0000
Subject: [PATCH 30/55] fix: compute the byte size of an encoded array without
 reading past its end

---
 crates/wasm/abi-encoder/src/types/small_array.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/wasm/abi-encoder/src/types/small_array.rs b/crates/wasm/abi-encoder/src/types/small_array.rs
index 2ffd233..4a2a67f 100644
--- a/crates/wasm/abi-encoder/src/types/small_array.rs
+++ b/crates/wasm/abi-encoder/src/types/small_array.rs
@@ -40,7 +40,7 @@ where
             // The compiler complains, but it's wrong! The following comparison
             // might be useless or not, depending on the array const generic.
             #[allow(unused_comparisons)]
-            if N >= i {
+            if N > i {
                 payload_size += self[i].byte_size();
             }
         });
-- 
2.43.0


From 9dc5373a562c048b6ed6d84998a2254afc43a8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:09 +0000
Subject: [PATCH 31/55] fix: return an error, instead of panicking, when
 decoding an unknown type byte

---
 crates/wasm/abi-decoder/src/decoder.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/wasm/abi-decoder/src/decoder.rs b/crates/wasm/abi-decoder/src/decoder.rs
index 677a2b2..df00b94 100644
--- a/crates/wasm/abi-decoder/src/decoder.rs
+++ b/crates/wasm/abi-decoder/src/decoder.rs
@@ -101,7 +101,10 @@ impl Decoder {
             TypeKind::U32 => self.decode_u32(cursor)?.into(),
             TypeKind::I64 => self.decode_i64(cursor)?.into(),
             TypeKind::U64 => self.decode_u64(cursor)?.into(),
-            _ => svm_sdk_std::panic(),
+            TypeKind::Array => {
+                let byte = self.peek(cursor)?;
+                return Result::Err(DecodeError::Type(TypeError::InvalidTypeKind(byte)));
+            }
         };
 
         Result::Ok(value)
@@ -393,7 +396,7 @@ impl Decoder {
             | layout::ARR_9
             | layout::ARR_10 => TypeKind::Array,
 
-            _ => svm_sdk_std::panic(),
+            _ => return Result::Err(DecodeError::Type(TypeError::InvalidTypeKind(byte))),
         };
 
         Result::Ok(kind)
-- 
2.43.0


From a78f1eade3706cf6b2971c1e5f9c365d36172ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:09 +0000
Subject: [PATCH 32/55] fix: fail, instead of wrapping around, when an amount
 overflows

---
 crates/wasm/sdk-types/src/amount.rs | 30 +++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/crates/wasm/sdk-types/src/amount.rs b/crates/wasm/sdk-types/src/amount.rs
index 86eeed3..3ca235e 100644
--- a/crates/wasm/sdk-types/src/amount.rs
+++ b/crates/wasm/sdk-types/src/amount.rs
@@ -25,11 +25,25 @@ impl core::fmt::Debug for Amount {
     }
 }
 
+fn checked_add(lhs: u64, rhs: u64) -> u64 {
+    match lhs.checked_add(rhs) {
+        Some(v) => v,
+        None => svm_sdk_std::panic(),
+    }
+}
+
+fn checked_mul(lhs: u64, rhs: u64) -> u64 {
+    match lhs.checked_mul(rhs) {
+        Some(v) => v,
+        None => svm_sdk_std::panic(),
+    }
+}
+
 impl Add for Amount {
     type Output = Self;
 
     fn add(self, rhs: Self) -> Self::Output {
-        Self(self.0 + rhs.0)
+        Self(checked_add(self.0, rhs.0))
     }
 }
 
@@ -37,7 +51,7 @@ impl Add<u64> for Amount {
     type Output = Self;
 
     fn add(self, rhs: u64) -> Self::Output {
-        Self(self.0 + rhs)
+        Self(checked_add(self.0, rhs))
     }
 }
 
@@ -65,7 +79,7 @@ impl Mul for Amount {
     type Output = Self;
 
     fn mul(self, rhs: Self) -> Self::Output {
-        Amount(self.0 * rhs.0)
+        Amount(checked_mul(self.0, rhs.0))
     }
 }
 
@@ -73,19 +87,19 @@ impl Mul<u64> for Amount {
     type Output = Self;
 
     fn mul(self, rhs: u64) -> Self::Output {
-        Amount(self.0 * rhs)
+        Amount(checked_mul(self.0, rhs))
     }
 }
 
 impl AddAssign for Amount {
     fn add_assign(&mut self, rhs: Self) {
-        *self = Amount(self.0 + rhs.0)
+        *self = Amount(checked_add(self.0, rhs.0))
     }
 }
 
 impl AddAssign<u64> for Amount {
     fn add_assign(&mut self, rhs: u64) {
-        *self = Amount(self.0 + rhs)
+        *self = Amount(checked_add(self.0, rhs))
     }
 }
 
@@ -107,13 +121,13 @@ impl SubAssign<u64> for Amount {
 
 impl MulAssign for Amount {
     fn mul_assign(&mut self, rhs: Self) {
-        *self = Amount(self.0 * rhs.0)
+        *self = Amount(checked_mul(self.0, rhs.0))
     }
 }
 
 impl MulAssign<u64> for Amount {
     fn mul_assign(&mut self, rhs: u64) {
-        *self = Amount(self.0 * rhs)
+        *self = Amount(checked_mul(self.0, rhs))
     }
 }
 
-- 
2.43.0


From b0d7f584b30f781e008f6fe63420607fc6ed6df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:09 +0000
Subject: [PATCH 33/55] fix: hash addresses by their content, in line with
 equality

---
 crates/wasm/sdk-types/src/blob.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/wasm/sdk-types/src/blob.rs b/crates/wasm/sdk-types/src/blob.rs
index 0825819..f2376ff 100644
--- a/crates/wasm/sdk-types/src/blob.rs
+++ b/crates/wasm/sdk-types/src/blob.rs
@@ -8,7 +8,7 @@ macro_rules! impl_blob_type {
 
         #[allow(missing_docs)]
         #[repr(transparent)]
-        #[derive(Copy, Hash)]
+        #[derive(Copy)]
         pub struct $ty(*const u8);
 
         impl $crate::types::PrimitiveMarker for $ty {}
@@ -134,6 +134,12 @@ macro_rules! impl_blob_type {
 
         impl Eq for $ty {}
 
+        impl core::hash::Hash for $ty {
+            fn hash<H: core::hash::Hasher>(&self, state: &mut H) {
+                self.as_slice().hash(state);
+            }
+        }
+
         impl svm_sdk_std::ToString for $ty {
             fn to_string(&self) -> svm_sdk_std::String {
                 use svm_sdk_std::{HexDigit, StringBuilder, String};
-- 
2.43.0


From d9fa906e5dcd4c3d6b0480b321e2d265d28ef566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:42 +0000
Subject: [PATCH 34/55] fix: return an error, instead of panicking, for JSON
 transactions with invalid data

---
 crates/host/codec/src/api/json/call.rs      | 26 ++++--
 crates/host/codec/src/api/json/inputdata.rs | 92 ++++++++++++++-------
 crates/host/codec/src/api/json/mod.rs       | 13 +++
 crates/host/codec/src/api/json/spawn.rs     | 15 ++--
 4 files changed, 103 insertions(+), 43 deletions(-)

diff --git a/crates/host/codec/src/api/json/call.rs b/crates/host/codec/src/api/json/call.rs
index 4fbf9b8..7e258b4 100644
--- a/crates/host/codec/src/api/json/call.rs
+++ b/crates/host/codec/src/api/json/call.rs
@@ -5,7 +5,7 @@ use svm_types::Transaction;
 
 use super::inputdata::{decode_raw_input, DecodedInputData};
 use super::serde_types::*;
-use super::{get_field, parse_json, JsonError};
+use super::{get_field, get_string, parse_json, JsonError};
 use crate::Codec;
 
 /// Transforms a user-friendly `call` into an encoded form:
@@ -42,9 +42,9 @@ pub fn encode_call_raw(json: &str) -> Result<Vec<u8>, JsonError> {
     Ok(Transaction {
         version: get_field(json, "version")?,
         target: get_field::<AddressWrapper>(json, "target")?.into(),
-        func_name: get_field(json, "func_name")?,
-        verifydata: get_field::<EncodedOrDecodedCalldata>(json, "verifydata")?.encode(),
-        calldata: get_field::<EncodedOrDecodedCalldata>(json, "calldata")?.encode(),
+        func_name: get_string(json, "func_name")?,
+        verifydata: get_field::<EncodedOrDecodedCalldata>(json, "verifydata")?.encode("verifydata")?,
+        calldata: get_field::<EncodedOrDecodedCalldata>(json, "calldata")?.encode("calldata")?,
     }
     .encode_to_vec())
 }
@@ -66,11 +66,11 @@ pub fn decode_call(json: &str) -> Result<Json, JsonError> {
     })?;
 
     let verifydata = EncodedOrDecodedCalldata::Decoded(
-        DecodedInputData::new(&decode_raw_input(tx.verifydata()).unwrap().to_string()).unwrap(),
+        DecodedInputData::new(&decode_raw_input(tx.verifydata())?.to_string())?,
     );
 
     let calldata = EncodedOrDecodedCalldata::Decoded(
-        DecodedInputData::new(&decode_raw_input(tx.calldata()).unwrap().to_string()).unwrap(),
+        DecodedInputData::new(&decode_raw_input(tx.calldata())?.to_string())?,
     );
 
     Ok(json!({
@@ -92,11 +92,19 @@ pub(crate) enum EncodedOrDecodedCalldata {
 }
 
 impl EncodedOrDecodedCalldata {
-    pub fn encode(self) -> Vec<u8> {
-        match self {
+    pub fn encode(self, field_name: &str) -> Result<Vec<u8>, JsonError> {
+        let bytes = match self {
             Self::Encoded(encoded) => encoded.0,
-            Self::Decoded(decoded) => decoded.encode().unwrap(),
+            Self::Decoded(decoded) => decoded.encode()?,
+        };
+
+        if bytes.len() > u8::MAX as usize {
+            return Err(JsonError::InvalidField {
+                path: field_name.to_string(),
+            });
         }
+
+        Ok(bytes)
     }
 }
 #[cfg(test)]
diff --git a/crates/host/codec/src/api/json/inputdata.rs b/crates/host/codec/src/api/json/inputdata.rs
index d7fca6a..900d979 100644
--- a/crates/host/codec/src/api/json/inputdata.rs
+++ b/crates/host/codec/src/api/json/inputdata.rs
@@ -4,7 +4,7 @@ use serde_json::Value as Json;
 
 use std::convert::TryFrom;
 
-use svm_abi_decoder::CallData;
+use svm_abi_decoder::{Cursor, Decoder};
 use svm_abi_encoder::{ByteSize, Encoder};
 use svm_sdk_types::value::{Composite, Primitive, Value as SdkValue};
 use svm_sdk_types::{Address, Amount};
@@ -24,13 +24,12 @@ use crate::api::json::JsonError;
 /// ```
 pub fn encode_inputdata(json: &str) -> Result<Json, JsonError> {
     let decoded = DecodedInputData::new(json)?;
-    let calldata = HexBlob(decoded.encode().unwrap());
+    let calldata = HexBlob(decoded.encode()?);
     Ok(json!({ "data": calldata }))
 }
 
 pub fn decode_raw_input(data: &[u8]) -> Result<Json, JsonError> {
-    let calldata = CallData::new(data);
-    Ok(calldata_to_json(calldata))
+    calldata_to_json(data)
 }
 
 /// Given a binary `Calldata` (wrapped within a JSON), decodes it into a JSON
@@ -38,7 +37,7 @@ pub fn decode_inputdata(json: &str) -> Result<Json, JsonError> {
     let json = &mut parse_json(json)?;
     let encoded_data = get_field::<HexBlob<Vec<u8>>>(json, "data")?.0;
 
-    Ok(calldata_to_json(CallData::new(&encoded_data)))
+    calldata_to_json(&encoded_data)
 }
 
 #[derive(Clone, Debug, Serialize, Deserialize)]
@@ -89,16 +88,23 @@ impl DecodedInputData {
     }
 }
 
-pub(crate) fn calldata_to_json(mut calldata: CallData) -> Json {
+pub(crate) fn calldata_to_json(calldata: &[u8]) -> Result<Json, JsonError> {
+    let decoder = Decoder::new();
+    let mut cursor = Cursor::new(calldata);
     let mut abi = vec![];
     let mut data = vec![];
 
-    while let Some(value) = calldata.next().into() {
-        abi.push(sdk_value_utils::ty_sig_of_sdk_value(&value));
-        data.push(sdk_value_utils::sdk_value_to_json(value));
+    while !cursor.is_eof() {
+        let value = match decoder.decode_value(&mut cursor) {
+            svm_sdk_std::Result::Ok(value) => value,
+            svm_sdk_std::Result::Err(..) => return Err(invalid_calldata()),
+        };
+
+        abi.push(sdk_value_utils::ty_sig_of_sdk_value(&value).ok_or_else(invalid_calldata)?);
+        data.push(sdk_value_utils::sdk_value_to_json(value).ok_or_else(invalid_calldata)?);
     }
 
-    json!({ "abi": abi, "data": data })
+    Ok(json!({ "abi": abi, "data": data }))
 }
 
 mod sdk_value_utils {
@@ -110,8 +116,10 @@ mod sdk_value_utils {
     /// JSON value. This function, together with [`ty_sig_of_sdk_value`], can
     /// give a **ful** overview over some values, with both its type signature
     /// and its value.
-    pub fn sdk_value_to_json(value: SdkValue) -> Json {
-        match value {
+    ///
+    /// Returns `None` for values that have no JSON form.
+    pub fn sdk_value_to_json(value: SdkValue) -> Option<Json> {
+        let json = match value {
             SdkValue::Primitive(prim) => match prim {
                 Primitive::Bool(x) => json!(x),
                 Primitive::I8(x) => json!(x),
@@ -124,21 +132,25 @@ mod sdk_value_utils {
                 Primitive::U64(x) => json!(x),
                 Primitive::Amount(x) => json!(x.0),
                 Primitive::Address(x) => json!(AddressWrapper(Address::new(x.as_slice()))),
-                _ => unreachable!(),
+                Primitive::None | Primitive::Unit => return None,
             },
             SdkValue::Composite(Composite::Vec(values)) => Json::Array(
                 values
                     .into_iter()
                     .map(|sdk_value| sdk_value_to_json(sdk_value))
-                    .collect(),
+                    .collect::<Option<_>>()?,
             ),
-        }
+        };
+
+        Some(json)
     }
 
     /// Given a [`svm_sdk_types::value::Value`], encodes its type signature as a
     /// JSON value.
-    pub fn ty_sig_of_sdk_value(value: &SdkValue) -> Json {
-        match value {
+    ///
+    /// Returns `None` for values that have no JSON form.
+    pub fn ty_sig_of_sdk_value(value: &SdkValue) -> Option<Json> {
+        let json = match value {
             SdkValue::Primitive(prim) => match prim {
                 Primitive::Bool(_) => "bool",
                 Primitive::I8(_) => "i8",
@@ -151,18 +163,20 @@ mod sdk_value_utils {
                 Primitive::U64(_) => "u64",
                 Primitive::Amount(_) => "amount",
                 Primitive::Address(_) => "address",
-                _ => unreachable!(),
+                Primitive::None | Primitive::Unit => return None,
             }
             .into(),
             SdkValue::Composite(Composite::Vec(values)) => {
                 if values.is_empty() {
-                    Json::Null
+                    Json::Array(vec![])
                 } else {
                     let ty = &values.last().unwrap();
-                    Json::Array(vec![ty_sig_of_sdk_value(ty)])
+                    Json::Array(vec![ty_sig_of_sdk_value(ty)?])
                 }
             }
-        }
+        };
+
+        Some(json)
     }
 
     pub fn sdk_value_from_json(json: Json, ty_sig: TySigPrim) -> Option<SdkValue> {
@@ -211,9 +225,7 @@ impl TySig {
     fn value_byte_size(&self, value: &Json) -> Result<usize, JsonError> {
         let byte_size = match self {
             TySig::Array(types) => {
-                assert_eq!(types.len(), 1);
-
-                let ty = &types[0];
+                let ty = array_elem_ty(types)?;
 
                 // we initialize `byte_size` for the `length` marker.
                 let mut byte_size = 1;
@@ -223,6 +235,7 @@ impl TySig {
                 })?;
 
                 for elem in elems {
+                    let ty = ty.ok_or_else(invalid_calldata)?;
                     byte_size += ty.value_byte_size(elem)?;
                 }
 
@@ -278,6 +291,26 @@ enum TyPrimSdkValue {
     Address(AddressWrapper),
 }
 
+/// The maximum number of elements in an array, as imposed by the ABI.
+const MAX_ARRAY_LEN: usize = 10;
+
+fn invalid_calldata() -> JsonError {
+    JsonError::InvalidField {
+        path: "calldata".to_string(),
+    }
+}
+
+/// Returns the type of an array's elements (`None` for an array that must be empty).
+///
+/// The ABI only supports arrays of primitives.
+fn array_elem_ty(types: &[TySig]) -> Result<Option<&TySig>, JsonError> {
+    match types {
+        [] => Ok(None),
+        [ty @ TySig::Prim(..)] => Ok(Some(ty)),
+        _ => Err(invalid_calldata()),
+    }
+}
+
 fn encode_value(ty: TySig, value: Json) -> Result<SdkValue, JsonError> {
     match ty {
         TySig::Array(types) => encode_array(&types, value),
@@ -290,18 +323,21 @@ fn encode_value(ty: TySig, value: Json) -> Result<SdkValue, JsonError> {
 }
 
 fn encode_array(types: &[TySig], mut value: Json) -> Result<SdkValue, JsonError> {
-    assert_eq!(types.len(), 1);
-
-    let ty = &types[0];
+    let ty = array_elem_ty(types)?;
 
     let mut value = value.take();
     let elems = value.as_array_mut().ok_or(JsonError::InvalidField {
         path: "calldata".to_string(),
     })?;
 
-    let mut vec = svm_sdk_std::Vec::with_capacity(10);
+    if elems.len() > MAX_ARRAY_LEN {
+        return Err(invalid_calldata());
+    }
+
+    let mut vec = svm_sdk_std::Vec::with_capacity(MAX_ARRAY_LEN);
 
     for elem in elems.iter_mut() {
+        let ty = ty.ok_or_else(invalid_calldata)?;
         let elem = encode_value(ty.clone(), elem.take())?;
 
         vec.push(elem);
diff --git a/crates/host/codec/src/api/json/mod.rs b/crates/host/codec/src/api/json/mod.rs
index 842fab5..8e1273a 100644
--- a/crates/host/codec/src/api/json/mod.rs
+++ b/crates/host/codec/src/api/json/mod.rs
@@ -54,6 +54,19 @@ where
     })
 }
 
+/// Like [`get_field`] for strings that end up within a transaction, hence limited to 255 bytes.
+fn get_string(json: &mut Json, name: &str) -> Result<String, JsonError> {
+    let string = get_field::<String>(json, name)?;
+
+    if string.len() > u8::MAX as usize {
+        return Err(JsonError::InvalidField {
+            path: name.to_string(),
+        });
+    }
+
+    Ok(string)
+}
+
 fn parse_json(json_str: &str) -> Result<Json, JsonError> {
     let json_deserializer = &mut serde_json::Deserializer::from_str(json_str);
     let value = serde_path_to_error::deserialize(json_deserializer)?;
diff --git a/crates/host/codec/src/api/json/spawn.rs b/crates/host/codec/src/api/json/spawn.rs
index db0582b..ec6a9df 100644
--- a/crates/host/codec/src/api/json/spawn.rs
+++ b/crates/host/codec/src/api/json/spawn.rs
@@ -5,7 +5,7 @@ use svm_types::{Account, SpawnAccount};
 use super::call::EncodedOrDecodedCalldata;
 use super::inputdata::decode_raw_input;
 use super::serde_types::{HexBlob, TemplateAddrWrapper};
-use super::{get_field, parse_json, JsonError};
+use super::{get_field, get_string, parse_json, JsonError};
 use crate::Codec;
 
 ///
@@ -23,9 +23,9 @@ pub fn encode_spawn(json: &str) -> Result<Vec<u8>, JsonError> {
 
     let version = get_field(json, "version")?;
     let template_addr = get_field::<TemplateAddrWrapper>(json, "template")?.into();
-    let name = get_field(json, "name")?;
-    let ctor_name = get_field(json, "ctor_name")?;
-    let calldata = get_field::<EncodedOrDecodedCalldata>(json, "calldata")?.encode();
+    let name = get_string(json, "name")?;
+    let ctor_name = get_string(json, "ctor_name")?;
+    let calldata = get_field::<EncodedOrDecodedCalldata>(json, "calldata")?.encode("calldata")?;
 
     Ok(SpawnAccount {
         version,
@@ -42,8 +42,11 @@ pub fn decode_spawn(json: &str) -> Result<Json, JsonError> {
     let json = &mut parse_json(json)?;
     let encoded_data = get_field::<HexBlob<Vec<u8>>>(json, "data")?.0;
 
-    let spawn = SpawnAccount::decode_bytes(encoded_data).unwrap();
-    let decoded_calldata = decode_raw_input(&spawn.calldata).unwrap();
+    let spawn =
+        SpawnAccount::decode_bytes(encoded_data).map_err(|_| JsonError::InvalidField {
+            path: "data".to_string(),
+        })?;
+    let decoded_calldata = decode_raw_input(&spawn.calldata)?;
 
     Ok(json!({
         "version": spawn.version,
-- 
2.43.0


From de78a5656080c1ab4dc445e325d0e9fae819ab6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:42 +0000
Subject: [PATCH 35/55] fix: return an error, instead of panicking, for
 undecodable receipts and non UTF-8 input

---
 crates/host/codec/src/api/json/mod.rs     | 2 +-
 crates/host/codec/src/api/json/receipt.rs | 7 ++++---
 crates/host/codec/src/api/wasm/mod.rs     | 5 +++--
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/crates/host/codec/src/api/json/mod.rs b/crates/host/codec/src/api/json/mod.rs
index 8e1273a..8118486 100644
--- a/crates/host/codec/src/api/json/mod.rs
+++ b/crates/host/codec/src/api/json/mod.rs
@@ -29,7 +29,7 @@ fn gas_to_json(gas: &Gas) -> i64 {
 fn logs_to_json(logs: &[ReceiptLog]) -> Vec<Json> {
     logs.iter()
         .map(|log| {
-            let data = std::str::from_utf8(log.as_bytes()).expect("Invalid UTF-8");
+            let data = String::from_utf8_lossy(log.as_bytes());
 
             json!({
                 "data": data,
diff --git a/crates/host/codec/src/api/json/receipt.rs b/crates/host/codec/src/api/json/receipt.rs
index 720968b..3aa93da 100644
--- a/crates/host/codec/src/api/json/receipt.rs
+++ b/crates/host/codec/src/api/json/receipt.rs
@@ -13,9 +13,10 @@ pub fn decode_receipt(json: &str) -> Result<Value, JsonError> {
     let json = &mut parse_json(json)?;
     let encoded_data = get_field::<HexBlob<Vec<u8>>>(json, "data")?.0;
 
-    assert!(encoded_data.len() > 0);
-
-    let receipt = Receipt::decode_bytes(encoded_data).unwrap();
+    let receipt =
+        Receipt::decode_bytes(encoded_data).map_err(|_| JsonError::InvalidField {
+            path: "data".to_string(),
+        })?;
     let ty = receipt_type(&receipt);
 
     let json = if receipt.success() {
diff --git a/crates/host/codec/src/api/wasm/mod.rs b/crates/host/codec/src/api/wasm/mod.rs
index 4e3c8b2..43d679c 100644
--- a/crates/host/codec/src/api/wasm/mod.rs
+++ b/crates/host/codec/src/api/wasm/mod.rs
@@ -175,8 +175,9 @@ where
     F: Fn(&str) -> Result<Vec<u8>, JsonError>,
 {
     let buf = Buffer::from_ptr(ptr);
-    let json_s = std::str::from_utf8(buf.as_ref()).expect("Invalid UTF-8");
-    let result = f(json_s);
+    let result = std::str::from_utf8(buf.as_ref())
+        .map_err(JsonError::from)
+        .and_then(|json_s| f(json_s));
 
     result
         .map(|bytes| Buffer::alloc_ok(&bytes))
-- 
2.43.0


From 0a9abf5ca4f7627b7d7cb1c0dc09b4f2a138be2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:43 +0000
Subject: [PATCH 36/55] fix: reject programs that convert floats into integers

---
 crates/host/program/src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/host/program/src/lib.rs b/crates/host/program/src/lib.rs
index 342b412..fe5db72 100644
--- a/crates/host/program/src/lib.rs
+++ b/crates/host/program/src/lib.rs
@@ -90,6 +90,16 @@ fn validate_opcode(op: &Op) -> Result<(), ProgramError> {
         | Instruction::F64ConvertSI64
         | Instruction::F64ConvertUI64
         | Instruction::F64PromoteF32
+        | Instruction::I32TruncSF32
+        | Instruction::I32TruncUF32
+        | Instruction::I32TruncSF64
+        | Instruction::I32TruncUF64
+        | Instruction::I64TruncSF32
+        | Instruction::I64TruncUF32
+        | Instruction::I64TruncSF64
+        | Instruction::I64TruncUF64
+        | Instruction::I32ReinterpretF32
+        | Instruction::I64ReinterpretF64
         | Instruction::F32ReinterpretI32
         | Instruction::F64ReinterpretI64 => Err(ProgramError::FloatsNotAllowed),
         _ => Ok(()),
-- 
2.43.0


From 4d482f0a7e5de809aacf99fa370bc02e29a5ce26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:43 +0000
Subject: [PATCH 37/55] fix: reject, without panicking, required exports that
 the module doesn't define

---
 crates/host/program/src/program.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/crates/host/program/src/program.rs b/crates/host/program/src/program.rs
index 5171e83..caa09d5 100644
--- a/crates/host/program/src/program.rs
+++ b/crates/host/program/src/program.rs
@@ -285,14 +285,17 @@ fn export_func_signature<'p>(
 ) -> Result<&'p pwasm::Type, ProgramError> {
     if let pwasm::Internal::Function(global) = entry.internal() {
         let global = *global as usize;
-        debug_assert!(global >= import_count);
 
-        let local = global - import_count;
-        let func = &module_functions[local];
+        // The function must be defined by the module itself.
+        let local = global
+            .checked_sub(import_count)
+            .ok_or(ProgramError::InvalidExportKind)?;
+        let func = module_functions
+            .get(local)
+            .ok_or(ProgramError::InvalidWasm)?;
         let type_ref = func.type_ref() as usize;
-        let sig = &module_types[type_ref];
 
-        Ok(sig)
+        module_types.get(type_ref).ok_or(ProgramError::InvalidWasm)
     } else {
         Err(ProgramError::InvalidExportKind)
     }
-- 
2.43.0


From d7cec0d21a7fa4d0403ddfac505c78b27de8a0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:43 +0000
Subject: [PATCH 38/55] fix: count imported functions towards the limit of
 functions in a program

---
 crates/host/program/src/program.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/host/program/src/program.rs b/crates/host/program/src/program.rs
index caa09d5..dc933a3 100644
--- a/crates/host/program/src/program.rs
+++ b/crates/host/program/src/program.rs
@@ -60,7 +60,8 @@ impl Program {
         if validate_exports {
             module_validate_exports(&module)?;
         }
-        if count_functions_in_program(&program) > u16::MAX as u64 {
+        let func_count = program.imports().count() as u64 + count_functions_in_program(&program);
+        if func_count > u16::MAX as u64 {
             return Err(ProgramError::FunctionIndexTooLarge);
         }
 
-- 
2.43.0


From 3f729777d98128db7b6ba360ee409a3dbedcebf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:44 +0000
Subject: [PATCH 39/55] fix: fail a transaction whose logs or returndata don't
 fit into its receipt

---
 crates/host/runtime/src/func_env.rs     |  8 ++++++++
 crates/host/runtime/src/vmcalls/logs.rs | 23 ++++++++++++++++++++++-
 2 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/crates/host/runtime/src/func_env.rs b/crates/host/runtime/src/func_env.rs
index 4a7fb0b..c658974 100644
--- a/crates/host/runtime/src/func_env.rs
+++ b/crates/host/runtime/src/func_env.rs
@@ -209,6 +209,14 @@ impl Inner {
             offset
         );
 
+        // The length of the `returndata` within a binary receipt is encoded as a `u16`.
+        assert!(
+            len <= u16::MAX as usize,
+            "Can't set `returndata` of {} bytes (offset = {})",
+            len,
+            offset
+        );
+
         debug_assert!(self.returndata.is_none());
         self.returndata = Some((offset, len));
     }
diff --git a/crates/host/runtime/src/vmcalls/logs.rs b/crates/host/runtime/src/vmcalls/logs.rs
index 16e23c5..8690361 100644
--- a/crates/host/runtime/src/vmcalls/logs.rs
+++ b/crates/host/runtime/src/vmcalls/logs.rs
@@ -2,8 +2,20 @@ use svm_types::ReceiptLog;
 
 use crate::FuncEnv;
 
+/// The number of logs within a binary receipt is encoded as a `u8`.
+const MAX_LOGS: usize = u8::MAX as usize;
+
+/// The length of a log within a binary receipt is encoded as a `u16`.
+const MAX_LOG_LEN: u32 = u16::MAX as u32;
+
 /// Logs the log entry given in a form of blob (offset and length).
 pub fn log(env: &FuncEnv, offset: u32, length: u32) {
+    assert!(
+        length <= MAX_LOG_LEN,
+        "A log can't be longer than {} bytes",
+        MAX_LOG_LEN
+    );
+
     let start = offset as usize;
     let end = start + length as usize;
 
@@ -20,5 +32,14 @@ pub fn log(env: &FuncEnv, offset: u32, length: u32) {
 
     let log = ReceiptLog::new(bytes);
 
-    env.borrow_mut().logs_mut().push(log);
+    let mut borrow = env.borrow_mut();
+    let logs = borrow.logs_mut();
+
+    assert!(
+        logs.len() < MAX_LOGS,
+        "A receipt can't hold more than {} logs",
+        MAX_LOGS
+    );
+
+    logs.push(log);
 }
-- 
2.43.0


From 364d3a3b2803dd9e754e072f14cd8429bbab8cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:31 +0000
Subject: [PATCH 40/55] verif hook: keep the system allocator under --cfg
 svm_verif

---
 crates/wasm/sdk-alloc/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/wasm/sdk-alloc/src/lib.rs b/crates/wasm/sdk-alloc/src/lib.rs
index ac3a41b..9c42d7c 100644
--- a/crates/wasm/sdk-alloc/src/lib.rs
+++ b/crates/wasm/sdk-alloc/src/lib.rs
@@ -44,7 +44,9 @@ pub static SVM_ALLOC: StaticAlloc = StaticAlloc;
 /// The SVM project is using the `WeeAlloc for its `svm-codec` crate.
 /// We compile the codec it into Wasm and because we want to keep it a standalone component (i.e no imports of host functions)
 /// Then we can't used the `static-alloc` feature flag (which relies on the existence of `svm_static_alloc` import function).
-#[cfg(feature = "dynamic-alloc")]
+///
+/// Verification builds (`--cfg svm_verif`) keep the system allocator, which sanitizers can intercept.
+#[cfg(all(feature = "dynamic-alloc", not(svm_verif)))]
 #[global_allocator]
 static SVM_ALLOC: wee_alloc::WeeAlloc = wee_alloc::WeeAlloc::INIT;
 
-- 
2.43.0


From 03336fcb065c5251c8810aa95061e01d9a2f78de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:00 +0000
Subject: [PATCH 41/55] fix: saturate program prices instead of letting them
 overflow

---
 crates/host/gas/src/graph/weight.rs | 2 +-
 crates/host/gas/src/pricing/cfg.rs  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/host/gas/src/graph/weight.rs b/crates/host/gas/src/graph/weight.rs
index 20438a5..aeed66c 100644
--- a/crates/host/gas/src/graph/weight.rs
+++ b/crates/host/gas/src/graph/weight.rs
@@ -282,7 +282,7 @@ where
     pub fn total_weight(&self) -> usize {
         let dep_weight = self.try_dep_weight().unwrap();
 
-        dep_weight + self.weight()
+        dep_weight.saturating_add(self.weight())
     }
 
     fn label(&self) -> L {
diff --git a/crates/host/gas/src/pricing/cfg.rs b/crates/host/gas/src/pricing/cfg.rs
index 46d3d6c..56d0baa 100644
--- a/crates/host/gas/src/pricing/cfg.rs
+++ b/crates/host/gas/src/pricing/cfg.rs
@@ -63,8 +63,8 @@ fn compute_block_price(
     imports: &Imports,
     func_price: &FuncPrice,
 ) -> usize {
-    block.ops().iter().fold(0, |acc, op| {
-        acc + resolve_op(op, resolver, imports, func_price)
+    block.ops().iter().fold(0usize, |acc, op| {
+        acc.saturating_add(resolve_op(op, resolver, imports, func_price))
     })
 }
 
-- 
2.43.0


From 19e3b8c49a5a6163b531e6c4add52165323ba00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:43 +0000
Subject: [PATCH 42/55] fix: keep the logs of failed deploy receipts

---
 crates/host/codec/src/receipt/deploy.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/host/codec/src/receipt/deploy.rs b/crates/host/codec/src/receipt/deploy.rs
index 4dc4ca9..88f1b6a 100644
--- a/crates/host/codec/src/receipt/deploy.rs
+++ b/crates/host/codec/src/receipt/deploy.rs
@@ -34,7 +34,7 @@ impl Codec for DeployReceipt {
             self.gas_used.encode(w);
             self.logs.encode(w);
         } else {
-            RuntimeFailure::new(self.error().clone(), vec![]).encode(w);
+            RuntimeFailure::new(self.error().clone(), self.logs.clone()).encode(w);
         };
     }
 
-- 
2.43.0


From 8e2e29b98de0a3ac6bdc598cf7881af6b6da0e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:58 +0000
Subject: [PATCH 43/55] fix: a failed commit or rewind leaves no effect and no
 open transaction

---
 crates/host/state/src/storage.rs | 63 ++++++++++++++++++++++++--------
 1 file changed, 48 insertions(+), 15 deletions(-)

diff --git a/crates/host/state/src/storage.rs b/crates/host/state/src/storage.rs
index 7217ebe..506a96c 100644
--- a/crates/host/state/src/storage.rs
+++ b/crates/host/state/src/storage.rs
@@ -11,7 +11,7 @@
 #![deny(dead_code)]
 #![deny(unreachable_code)]
 
-use sqlx::{Pool, Sqlite, SqlitePool};
+use sqlx::{Executor, Pool, Sqlite, SqliteConnection, SqlitePool};
 
 use std::collections::HashMap;
 use std::convert::TryInto;
@@ -293,9 +293,27 @@ impl Storage {
         xor_fingerprint(&mut fingerprint, &self.next_layer.changes_xor_fingerprint);
 
         // The new layer becomes visible (and durable) as a whole or not at all.
-        let mut tx = self.sqlite.begin().await?;
+        let mut conn = self.sqlite.acquire().await?;
+        conn.execute("BEGIN").await?;
+        let result = self.insert_next_layer(&mut conn, fingerprint).await;
+        end_transaction(&mut conn, result).await?;
+        drop(conn);
 
-        insert_layer(&mut tx, layer_id, fingerprint, true).await?;
+        // Reset layer-specific information to default values.
+        self.next_layer.changes.clear();
+        self.next_layer.changes_xor_fingerprint = STATE_ZEROS;
+        self.next_layer.id += 1;
+
+        Ok((layer_id, fingerprint))
+    }
+
+    async fn insert_next_layer(
+        &self,
+        conn: &mut SqliteConnection,
+        fingerprint: State,
+    ) -> Result<()> {
+        let layer_id = self.next_layer.id;
+        insert_layer(&mut *conn, layer_id, fingerprint, true).await?;
 
         for (key_hash, value) in self.next_layer.changes.iter() {
             sqlx::query(
@@ -307,18 +325,11 @@ impl Storage {
             .bind(key_hash.0.to_vec())
             .bind(&value[..])
             .bind(layer_id)
-            .execute(&mut tx)
+            .execute(&mut *conn)
             .await?;
         }
 
-        tx.commit().await?;
-
-        // Reset layer-specific information to default values.
-        self.next_layer.changes.clear();
-        self.next_layer.changes_xor_fingerprint = STATE_ZEROS;
-        self.next_layer.id += 1;
-
-        Ok((layer_id, fingerprint))
+        Ok(())
     }
 
     pub async fn genesis_fingerprint(&self) -> Result<Option<State>> {
@@ -363,15 +374,20 @@ impl Storage {
             return Err(StorageError::DirtyChanges);
         }
 
-        sqlx::query(
+        // Without a transaction, a failed statement might still take effect.
+        let mut conn = self.sqlite.acquire().await?;
+        conn.execute("BEGIN").await?;
+        let result = sqlx::query(
             r#"
             DELETE FROM "layers"
             WHERE "id" > ?1
             "#,
         )
         .bind(layer_id)
-        .execute(&self.sqlite)
-        .await?;
+        .execute(&mut conn)
+        .await;
+        end_transaction(&mut conn, result.map(|_| ()).map_err(Into::into)).await?;
+        drop(conn);
 
         // We must now bring `self.next_layer` in a good state.
         self.next_layer.id = layer_id + 1;
@@ -391,6 +407,23 @@ impl Storage {
     }
 }
 
+/// Commits the transaction that is open on `conn` if `result` is [`Ok`] and
+/// rolls it back otherwise. Whatever happens, no transaction is open afterwards,
+/// which [`sqlx::Transaction`] doesn't guarantee if committing fails.
+async fn end_transaction(conn: &mut SqliteConnection, result: Result<()>) -> Result<()> {
+    let result = match result {
+        Ok(()) => conn.execute("COMMIT").await.map(|_| ()).map_err(Into::into),
+        Err(e) => Err(e),
+    };
+
+    if result.is_err() {
+        // SQLite might have rolled back already, in which case this fails.
+        let _ = conn.execute("ROLLBACK").await;
+    }
+
+    result
+}
+
 /// Creates a new [`State`]-ed layer with the given `id`.
 async fn insert_layer<'e, E>(executor: E, id: i64, fingerprint: State, complete: bool) -> Result<()>
 where
-- 
2.43.0


From 5ca5d15a665980fa86e27af6bb12e74499c68738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:09 +0000
Subject: [PATCH 44/55] fix: decode arrays of eight items

---
 crates/wasm/abi-decoder/src/decoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/wasm/abi-decoder/src/decoder.rs b/crates/wasm/abi-decoder/src/decoder.rs
index df00b94..f160f79 100644
--- a/crates/wasm/abi-decoder/src/decoder.rs
+++ b/crates/wasm/abi-decoder/src/decoder.rs
@@ -268,8 +268,6 @@ impl Decoder {
 
         let len = self.read_byte(cursor)?;
 
-        let mut values: Vec<Value> = Vec::with_capacity(len as usize);
-
         let len = match len {
             layout::ARR_0 => 0,
             layout::ARR_1 => 1,
@@ -284,6 +282,8 @@ impl Decoder {
             layout::ARR_10 => 10,
             _ => svm_sdk_std::panic(),
         };
+        let mut values: Vec<Value> = Vec::with_capacity(len);
+
         seq_macro::seq!(n in 0..11 {
             if len > n {
                 let value = self.decode_primitive(cursor)?;
-- 
2.43.0


From 2e400a776d1c0f4506bfc214030a7f566fcef7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:09 +0000
Subject: [PATCH 45/55] fix: report large amounts of gas as they are in JSON
 receipts

---
 crates/host/codec/src/api/json/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/host/codec/src/api/json/mod.rs b/crates/host/codec/src/api/json/mod.rs
index 8118486..61fe535 100644
--- a/crates/host/codec/src/api/json/mod.rs
+++ b/crates/host/codec/src/api/json/mod.rs
@@ -18,11 +18,11 @@ use serde_json::{json, Value as Json};
 
 use svm_types::{Gas, ReceiptLog};
 
-fn gas_to_json(gas: &Gas) -> i64 {
+fn gas_to_json(gas: &Gas) -> Json {
     if gas.is_some() {
-        gas.unwrap() as _
+        json!(gas.unwrap())
     } else {
-        -1
+        json!(-1)
     }
 }
 
-- 
2.43.0


From ecbe150e5b242425abb2fcd335f7c29d6b350828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:44 +0000
Subject: [PATCH 46/55] fix: refuse embedded input data with different numbers
 of types and values

---
 crates/host/codec/src/api/json/inputdata.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/host/codec/src/api/json/inputdata.rs b/crates/host/codec/src/api/json/inputdata.rs
index 900d979..c164c11 100644
--- a/crates/host/codec/src/api/json/inputdata.rs
+++ b/crates/host/codec/src/api/json/inputdata.rs
@@ -78,6 +78,13 @@ impl DecodedInputData {
     }
 
     pub fn encode(self) -> Result<Vec<u8>, JsonError> {
+        // Embedded within a transaction, `self` has been deserialized without calling `new`.
+        if self.abi.len() != self.data.len() {
+            return Err(JsonError::InvalidField {
+                path: "data".to_string(),
+            });
+        }
+
         let cap = self.cap()?;
         let mut buf = svm_sdk_std::Vec::with_capacity(cap);
 
-- 
2.43.0


From 437b97a50b37b0a1140ae19d3b0b881861e2cd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:14 +0000
Subject: [PATCH 47/55] fix: import svm_log from the svm namespace and let
 ensure! log outside of the SDK

---
 crates/wasm/sdk-std/src/ensure.rs | 2 +-
 crates/wasm/sdk-std/src/log.rs    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/wasm/sdk-std/src/ensure.rs b/crates/wasm/sdk-std/src/ensure.rs
index 3d6a0ef..5e6d286 100644
--- a/crates/wasm/sdk-std/src/ensure.rs
+++ b/crates/wasm/sdk-std/src/ensure.rs
@@ -22,7 +22,7 @@ macro_rules! ensure {
         if !satisfied {
             $crate::log($data);
 
-            panic()
+            $crate::panic()
         }
     }};
 }
diff --git a/crates/wasm/sdk-std/src/log.rs b/crates/wasm/sdk-std/src/log.rs
index 1554a05..d9532f7 100644
--- a/crates/wasm/sdk-std/src/log.rs
+++ b/crates/wasm/sdk-std/src/log.rs
@@ -3,7 +3,7 @@ use crate::String;
 /// The external function (a.k.a host function) to be called from `log`.
 #[allow(unused)]
 #[cfg(target_arch = "wasm32")]
-#[link_section = "svm"]
+#[link(wasm_import_module = "svm")]
 extern "C" {
     fn svm_log(offset: u32, length: u32);
 }
-- 
2.43.0


From f8223fbb352e83222b11936e01e50e5ced83274f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:14 +0000
Subject: [PATCH 48/55] fix: import svm_log with the signature SVM exposes it
 with

---
 crates/wasm/sdk-host-ffi/src/ext.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/wasm/sdk-host-ffi/src/ext.rs b/crates/wasm/sdk-host-ffi/src/ext.rs
index 43a4738..93f1880 100644
--- a/crates/wasm/sdk-host-ffi/src/ext.rs
+++ b/crates/wasm/sdk-host-ffi/src/ext.rs
@@ -33,8 +33,7 @@ extern "C" {
 
     /// Sends to SVM the logging message that starts
     /// at memory offset `offset` (of byte-length `length`)
-    /// and it's associated message code (for signaling errors severity such as `trace/info/error` etc.)
-    fn svm_log(offset: u32, length: u32, code: u32);
+    fn svm_log(offset: u32, length: u32);
 }
 
 /// ## Spacemesh Imports
@@ -240,12 +239,13 @@ impl Host for InnerHost {
     }
 
     #[inline]
-    fn log(&mut self, msg: &str, code: u8) {
+    fn log(&mut self, msg: &str, _code: u8) {
+        // SVM doesn't keep message codes (they serve for signaling severity such as `trace/info/error`).
         unsafe {
             let offset = msg.as_ptr() as u32;
             let len = msg.len() as u32;
 
-            svm_log(offset, len, code as u32)
+            svm_log(offset, len)
         }
     }
 }
-- 
2.43.0


From a5695e8f09147c2585952e31a0e8737f442fd874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:50 +0000
Subject: [PATCH 49/55] fix: a transfer of the mocked host to its own account
 conserves coins

---
 crates/wasm/sdk-host-mock/src/lib.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/wasm/sdk-host-mock/src/lib.rs b/crates/wasm/sdk-host-mock/src/lib.rs
index 1325351..e16949f 100644
--- a/crates/wasm/sdk-host-mock/src/lib.rs
+++ b/crates/wasm/sdk-host-mock/src/lib.rs
@@ -323,12 +323,15 @@ impl Host for InnerHost {
 
         assert!(target_balance >= amount);
 
-        let dst_balance = self.balance_of(dst);
-
+        let src = self.target();
         let src_balance = target_balance - amount;
-        let dst_balance = dst_balance + amount;
 
-        let src = self.target();
+        let dst_balance = if *dst == src {
+            src_balance
+        } else {
+            self.balance_of(dst)
+        };
+        let dst_balance = dst_balance + amount;
 
         self.accounts.insert(src, src_balance);
         self.accounts.insert(dst.clone(), dst_balance);
-- 
2.43.0


From 54e5299264cbc30382a6b06d08f7506354ae5cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:08 +0000
Subject: [PATCH 50/55] fix: make room for the string of every layer

---
 crates/wasm/sdk-types/src/layer_id.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/wasm/sdk-types/src/layer_id.rs b/crates/wasm/sdk-types/src/layer_id.rs
index 7c71ae2..2fa4f56 100644
--- a/crates/wasm/sdk-types/src/layer_id.rs
+++ b/crates/wasm/sdk-types/src/layer_id.rs
@@ -14,7 +14,7 @@ impl core::fmt::Debug for LayerId {
 
 impl ToString for LayerId {
     fn to_string(&self) -> String {
-        let mut sb = StringBuilder::with_capacity(20 + " coins".len());
+        let mut sb = StringBuilder::with_capacity("[Layer 18446744073709551615]".len());
 
         let s = self.0.to_string();
         sb.push_str(&String::new_short("[Layer ".as_bytes()));
-- 
2.43.0


From d857ad4e93da5840aaa58a5e89e1306a44819b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:08 +0000
Subject: [PATCH 51/55] fix: refuse short strings that are too long when they
 are made

---
 crates/wasm/sdk-std/src/string/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/wasm/sdk-std/src/string/mod.rs b/crates/wasm/sdk-std/src/string/mod.rs
index 73a4d54..0e029be 100644
--- a/crates/wasm/sdk-std/src/string/mod.rs
+++ b/crates/wasm/sdk-std/src/string/mod.rs
@@ -72,7 +72,7 @@ impl String {
 
     fn new_short_inner(data: &[u8], safe: bool) -> Self {
         let length = data.len();
-        debug_assert!(length <= 8);
+        crate::ensure!(length <= 8);
 
         if safe {
             seq_macro::seq!(N in 0..8 {
-- 
2.43.0


From 1679491d497eeb2941ab6f0cf013836bf0dd2f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:26 +0000
Subject: [PATCH 52/55] fix: release the instance of every executed transaction

---
 crates/host/runtime/src/runtime/runtime.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/crates/host/runtime/src/runtime/runtime.rs b/crates/host/runtime/src/runtime/runtime.rs
index 116d0bc..3805372 100644
--- a/crates/host/runtime/src/runtime/runtime.rs
+++ b/crates/host/runtime/src/runtime/runtime.rs
@@ -1,6 +1,6 @@
 use log::info;
 use tokio::runtime::Runtime as TokioRuntime;
-use wasmer::{Instance, Module, WasmPtr, WasmTypeList};
+use wasmer::{Instance, Memory, Module, WasmPtr, WasmTypeList};
 
 use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
 use std::sync::Arc;
@@ -141,8 +141,10 @@ impl Runtime {
         let store = crate::wasm_store::new_store();
         let import_object = self.create_import_object(&store, &mut env);
 
-        let res = self.run::<Args, Rets>(&call, &store, &env, &template, &import_object);
-        res.map(|rets| f(&env, rets))
+        // The `Instance` lives on until `f`, which may read its memory, is done.
+        let (_instance, rets) =
+            self.run::<Args, Rets>(&call, &store, &env, &template, &import_object)?;
+        Ok(f(&env, rets))
     }
 
     fn run<Args, Rets>(
@@ -152,7 +154,7 @@ impl Runtime {
         func_env: &FuncEnv,
         template: &Template,
         import_object: &wasmer::ImportObject,
-    ) -> OutcomeResult<Box<[wasmer::Val]>>
+    ) -> Result<(Instance, Outcome<Box<[wasmer::Val]>>)>
     where
         Args: WasmTypeList,
         Rets: WasmTypeList,
@@ -183,7 +185,7 @@ impl Runtime {
                     logs,
                 };
 
-                Ok(out)
+                Ok((instance, out))
             }
             Err(_) => Err(RuntimeFailure::new(RuntimeError::OOG, out.logs)),
         }
@@ -885,12 +887,14 @@ fn read_memory(env: &FuncEnv, offset: usize, length: usize) -> Vec<u8> {
 }
 
 fn set_memory(env: &FuncEnv, instance: &Instance) -> Result<()> {
+    // The `Instance` holds on to the `FuncEnv`, so the latter mustn't hold on to the `Instance` in turn
+    // (otherwise neither is ever released).
     let memory = instance
         .exports
-        .get_memory("memory")
+        .get_with_generics_weak::<Memory, (), ()>("memory")
         .map_err(|err| err::missing_memory(env, err))?;
 
-    env.borrow_mut().set_memory(memory.clone());
+    env.borrow_mut().set_memory(memory);
     Ok(())
 }
 
-- 
2.43.0


From cdf655f1da7e1eaf02bff3f42f9e2a57dbf53c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:26 +0000
Subject: [PATCH 53/55] fix: release call graphs, cyclic ones included

---
 crates/host/gas/src/graph/builder.rs | 10 ++++++----
 crates/host/gas/src/graph/mod.rs     | 13 +++++++++++++
 crates/host/gas/src/graph/node.rs    |  6 ++++++
 3 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/crates/host/gas/src/graph/builder.rs b/crates/host/gas/src/graph/builder.rs
index 8d816e2..0e22f0d 100644
--- a/crates/host/gas/src/graph/builder.rs
+++ b/crates/host/gas/src/graph/builder.rs
@@ -13,7 +13,7 @@ where
     L: NodeLabel,
     D: NodeData,
 {
-    nodes: IndexMap<L, NodeRef<L, D>>,
+    graph: Graph<L, D>,
 }
 
 impl<L, D> GraphBuilder<L, D>
@@ -23,8 +23,10 @@ where
 {
     /// Creates a new `GraphBuilder`
     pub fn new() -> Self {
+        let nodes = IndexMap::new();
+
         Self {
-            nodes: IndexMap::new(),
+            graph: Graph { nodes },
         }
     }
 
@@ -44,7 +46,7 @@ where
 
     /// Finished the building process, and outputs a `Graph`
     pub fn build(self) -> Graph<L, D> {
-        Graph { nodes: self.nodes }
+        self.graph
     }
 
     /// Returns a reference to the `Node` labeled with input `label`.
@@ -52,7 +54,7 @@ where
     /// If there is no `Node` with labeled with `label`,
     /// it first creates it and then returns a reference to it.
     pub fn get_or_create_mut(&mut self, label: L) -> NodeRef<L, D> {
-        let entry = self.nodes.entry(label);
+        let entry = self.graph.nodes.entry(label);
 
         entry
             .or_insert_with(|| {
diff --git a/crates/host/gas/src/graph/mod.rs b/crates/host/gas/src/graph/mod.rs
index 7971369..4028d81 100644
--- a/crates/host/gas/src/graph/mod.rs
+++ b/crates/host/gas/src/graph/mod.rs
@@ -98,6 +98,19 @@ where
     }
 }
 
+impl<L, D> Drop for Graph<L, D>
+where
+    L: NodeLabel,
+    D: NodeData,
+{
+    /// Neighboring `Node`s refer to each other, so they wouldn't be released otherwise.
+    fn drop(&mut self) {
+        for node in self.nodes.values() {
+            node.as_mut().clear_edges();
+        }
+    }
+}
+
 impl<L, D> Debug for Graph<L, D>
 where
     L: NodeLabel,
diff --git a/crates/host/gas/src/graph/node.rs b/crates/host/gas/src/graph/node.rs
index 7f553e6..9f3e69d 100644
--- a/crates/host/gas/src/graph/node.rs
+++ b/crates/host/gas/src/graph/node.rs
@@ -96,6 +96,12 @@ where
         self.outgoing.remove(dest);
     }
 
+    /// Removes all the `Edge`s of the `Node`
+    pub fn clear_edges(&mut self) {
+        self.incoming.clear();
+        self.outgoing.clear();
+    }
+
     /// Whether is a `sink` node. (i.e: has no outgoing edges)
     pub fn is_sink(&self) -> bool {
         self.outgoing.is_empty()
-- 
2.43.0


From 0fc940cb23553ddf1e78393b82cfd36f9eb2d666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:26 +0000
Subject: [PATCH 54/55] fix: price modules in svm-cli validate as the runtime
 does

---
 crates/host/cli/src/subcmd_validate.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/host/cli/src/subcmd_validate.rs b/crates/host/cli/src/subcmd_validate.rs
index 400d0a1..3c7d1ad 100644
--- a/crates/host/cli/src/subcmd_validate.rs
+++ b/crates/host/cli/src/subcmd_validate.rs
@@ -3,7 +3,7 @@ use clap::ArgMatches;
 use std::io;
 use std::rc::Rc;
 
-use svm_gas::{resolvers::ExampleResolver, ProgramPricing};
+use svm_gas::{resolvers::V0PriceResolver, ProgramPricing};
 use svm_program::{Program, ProgramVisitor};
 
 use crate::Error;
@@ -44,7 +44,7 @@ pub fn subcmd_validate(args: &ArgMatches) -> anyhow::Result<()> {
         Ok(program) => {
             println!("The given file contains a valid smWasm module.");
 
-            let resolver = ExampleResolver::default();
+            let resolver = V0PriceResolver::default();
             let mut pp = ProgramPricing::new(Rc::new(resolver));
             let func_price = pp.visit(&program).unwrap();
 
-- 
2.43.0


From 4649e22be1ac3c2d0dafc4d9238d310ffb19bd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:26 +0000
Subject: [PATCH 55/55] fix: refuse variables of 4 GiB and more in svm-cli
 craft-deploy

---
 crates/host/cli/src/subcmd_craft_deploy/meta.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/host/cli/src/subcmd_craft_deploy/meta.rs b/crates/host/cli/src/subcmd_craft_deploy/meta.rs
index 6ef4f58..0bfd58b 100644
--- a/crates/host/cli/src/subcmd_craft_deploy/meta.rs
+++ b/crates/host/cli/src/subcmd_craft_deploy/meta.rs
@@ -32,7 +32,7 @@ impl TemplateMeta {
 
         for schema_var in self.schema.iter() {
             for _ in 0..schema_var.length.unwrap_or(1) {
-                byte_sizes.push(schema_var.byte_count as u32);
+                byte_sizes.push(schema_var.byte_count);
             }
         }
 
@@ -48,7 +48,7 @@ struct TemplateMetaVar {
     #[serde(rename = "type")]
     ty: String,
     offset: usize,
-    byte_count: usize,
+    byte_count: u32,
     length: Option<usize>,
 }
 
-- 
2.43.0

