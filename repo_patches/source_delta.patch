From bce48ca9f5252404011023190571a8741c7d8f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:39 +0000
Subject: [PATCH 01/42] fix: require View::DeleteDocs permission before
 deleting documents through a view

---
 crates/bonsaidb-local/src/database.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/bonsaidb-local/src/database.rs b/crates/bonsaidb-local/src/database.rs
index 0456cc2..08b6898 100644
--- a/crates/bonsaidb-local/src/database.rs
+++ b/crates/bonsaidb-local/src/database.rs
@@ -1609,6 +1609,10 @@ impl LowLevelConnection for Database {
         access_policy: AccessPolicy,
     ) -> Result<u64, bonsaidb_core::Error> {
         let view = self.data.schema.view_by_name(view)?;
+        self.check_permission(
+            view_resource_name(self.name(), &view.view_name()),
+            &BonsaiAction::Database(DatabaseAction::View(ViewAction::DeleteDocs)),
+        )?;
         let collection = view.collection();
         let mut transaction = Transaction::default();
         self.for_each_in_view(view, key, Sort::Ascending, None, access_policy, |entry| {
-- 
2.43.0


From fb16cf87cf27420b972c780527143eb715d164ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:03 +0000
Subject: [PATCH 02/42] fix: resolve the role, not a permission group, when
 adding a role to a user

---
 crates/bonsaidb-local/src/storage.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/bonsaidb-local/src/storage.rs b/crates/bonsaidb-local/src/storage.rs
index 18ae5bb..83d6f8f 100644
--- a/crates/bonsaidb-local/src/storage.rs
+++ b/crates/bonsaidb-local/src/storage.rs
@@ -1195,7 +1195,7 @@ impl StorageConnection for StorageInstance {
         user: U,
         role: G,
     ) -> Result<(), bonsaidb_core::Error> {
-        self.update_user_with_named_id::<PermissionGroup, _, _, _>(user, role, |user, role_id| {
+        self.update_user_with_named_id::<Role, _, _, _>(user, role, |user, role_id| {
             Ok(Self::add_role_to_user_inner(user, role_id))
         })
     }
@@ -1454,7 +1454,7 @@ impl StorageConnection for Storage {
         role: G,
     ) -> Result<(), bonsaidb_core::Error> {
         self.instance
-            .update_user_with_named_id::<PermissionGroup, _, _, _>(user, role, |user, role_id| {
+            .update_user_with_named_id::<Role, _, _, _>(user, role, |user, role_id| {
                 self.check_permission(
                     user_resource_name(user.header.id),
                     &BonsaiAction::Server(ServerAction::ModifyUserRoles),
-- 
2.43.0


From a852d71f6a6ceda6909db28077c74b953497aeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:50 +0000
Subject: [PATCH 03/42] fix: delete only databases that exist, never another
 folder named by the caller

---
 crates/bonsaidb-local/src/storage.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-local/src/storage.rs b/crates/bonsaidb-local/src/storage.rs
index 83d6f8f..f49a890 100644
--- a/crates/bonsaidb-local/src/storage.rs
+++ b/crates/bonsaidb-local/src/storage.rs
@@ -1017,7 +1017,9 @@ impl StorageConnection for StorageInstance {
     fn delete_database(&self, name: &str) -> Result<(), bonsaidb_core::Error> {
         let admin = self.admin();
         let mut available_databases = self.data.available_databases.write();
-        available_databases.remove(name);
+        if !available_databases.contains_key(name) {
+            return Err(bonsaidb_core::Error::DatabaseNotFound(name.to_string()));
+        }
 
         let mut open_roots = self.data.open_roots.lock();
         open_roots.remove(name);
@@ -1029,6 +1031,7 @@ impl StorageConnection for StorageInstance {
                 .delete_directory(&database_folder)
                 .map_err(Error::Nebari)?;
         }
+        available_databases.remove(name);
 
         if let Some(entry) = admin
             .view::<database::ByName>()
-- 
2.43.0


From c613f6073c29d4e28f7594ae1bd6027cd29274c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:50 +0000
Subject: [PATCH 04/42] fix: back up the key-value store of databases without
 collections

---
 crates/bonsaidb-local/src/storage/backup.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/crates/bonsaidb-local/src/storage/backup.rs b/crates/bonsaidb-local/src/storage/backup.rs
index 6966bf6..3b2048d 100644
--- a/crates/bonsaidb-local/src/storage/backup.rs
+++ b/crates/bonsaidb-local/src/storage/backup.rs
@@ -120,16 +120,16 @@ impl Storage {
                     &document.contents,
                 )?;
             }
-            for ((namespace, key), entry) in database.all_key_value_entries()? {
-                let full_name = format!("{}._key._{key}", namespace.as_deref().unwrap_or(""));
-                location.store(
-                    &schema,
-                    database.name(),
-                    "_kv",
-                    &full_name,
-                    &pot::to_vec(&entry)?,
-                )?;
-            }
+        }
+        for ((namespace, key), entry) in database.all_key_value_entries()? {
+            let full_name = format!("{}._key._{key}", namespace.as_deref().unwrap_or(""));
+            location.store(
+                &schema,
+                database.name(),
+                "_kv",
+                &full_name,
+                &pot::to_vec(&entry)?,
+            )?;
         }
         Ok(())
     }
-- 
2.43.0


From 62bd8e009d06461235c078985a3baec223352377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:05 +0000
Subject: [PATCH 05/42] fix: database handles opened through a limited storage
 handle keep its permissions

Storage::database dropped the storage handle's session, so a handle opened
from an authenticated storage ran with the instance's full permissions.
---
 crates/bonsaidb-local/src/storage.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-local/src/storage.rs b/crates/bonsaidb-local/src/storage.rs
index f49a890..43b7b0e 100644
--- a/crates/bonsaidb-local/src/storage.rs
+++ b/crates/bonsaidb-local/src/storage.rs
@@ -1249,7 +1249,9 @@ impl StorageConnection for Storage {
     }
 
     fn database<DB: Schema>(&self, name: &str) -> Result<Self::Database, bonsaidb_core::Error> {
-        self.instance.database::<DB>(name)
+        self.instance
+            .database_without_schema(name, Some(self), Some(DB::schema_name()))
+            .map_err(bonsaidb_core::Error::from)
     }
 
     fn delete_database(&self, name: &str) -> Result<(), bonsaidb_core::Error> {
-- 
2.43.0


From 946bc4775d14df8f9c5af8fbc2ab300c710a509a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:22 +0000
Subject: [PATCH 06/42] fix: refuse to assume a session through a handle that
 already has limited permissions

---
 crates/bonsaidb-local/src/storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/bonsaidb-local/src/storage.rs b/crates/bonsaidb-local/src/storage.rs
index 43b7b0e..ca63844 100644
--- a/crates/bonsaidb-local/src/storage.rs
+++ b/crates/bonsaidb-local/src/storage.rs
@@ -1646,7 +1646,7 @@ impl StorageNonBlocking for Storage {
     }
 
     fn assume_session(&self, session: Session) -> Result<Storage, bonsaidb_core::Error> {
-        if self.authentication.is_some() {
+        if self.authentication.is_some() || self.effective_session.is_some() {
             // TODO better error
             return Err(bonsaidb_core::Error::InvalidCredentials);
         }
-- 
2.43.0


From d9d771ebbf423e7458f992892580964fda521271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:57 +0000
Subject: [PATCH 07/42] fix: answer a request whose body is an error instead of
 panicking the request worker

---
 crates/bonsaidb-server/src/server.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/crates/bonsaidb-server/src/server.rs b/crates/bonsaidb-server/src/server.rs
index 5e7de76..51d18f1 100644
--- a/crates/bonsaidb-server/src/server.rs
+++ b/crates/bonsaidb-server/src/server.rs
@@ -134,8 +134,11 @@ impl<B: Backend> CustomServer<B> {
                     let session = client_request.session.clone();
                     // TODO we should be able to upgrade a session-less Storage to one with a Session.
                     // The Session needs to be looked up from the client based on the request's session id.
-                    let result = match client_request.server.storage.assume_session(session) {
-                        Ok(storage) => {
+                    let result = match (
+                        client_request.server.storage.assume_session(session),
+                        request.value,
+                    ) {
+                        (Ok(storage), Ok(value)) => {
                             let client = HandlerSession {
                                 server: &client_request.server,
                                 client: &client_request.client,
@@ -144,15 +147,11 @@ impl<B: Backend> CustomServer<B> {
                                     storage,
                                 },
                             };
-                            ServerDispatcher::dispatch_api_request(
-                                client,
-                                &request.name,
-                                request.value.unwrap(),
-                            )
-                            .await
-                            .map_err(bonsaidb_core::Error::from)
+                            ServerDispatcher::dispatch_api_request(client, &request.name, value)
+                                .await
+                                .map_err(bonsaidb_core::Error::from)
                         }
-                        Err(err) => Err(err),
+                        (Err(err), _) | (_, Err(err)) => Err(err),
                     };
                     drop(client_request.result_sender.send((request.name, result)));
                 }
-- 
2.43.0


From 9b6ffde254da4f68dd7ad911b3f1b2f4f9424032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 08/42] fix: require Transaction::GetLastId permission for
 last_transaction_id through async handles

---
 crates/bonsaidb-local/src/async.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/bonsaidb-local/src/async.rs b/crates/bonsaidb-local/src/async.rs
index 9936d52..37518f3 100644
--- a/crates/bonsaidb-local/src/async.rs
+++ b/crates/bonsaidb-local/src/async.rs
@@ -609,11 +609,11 @@ impl AsyncConnection for AsyncDatabase {
     }
 
     async fn last_transaction_id(&self) -> Result<Option<u64>, bonsaidb_core::Error> {
-        Ok(self
-            .database
-            .roots()
-            .transactions()
-            .current_transaction_id())
+        let task_self = self.clone();
+        self.runtime
+            .spawn_blocking(move || Connection::last_transaction_id(&task_self.database))
+            .await
+            .map_err(Error::from)?
     }
 
     async fn compact(&self) -> Result<(), bonsaidb_core::Error> {
-- 
2.43.0


From d01c3fb25bd2b621bb4210b2004c87058bb89a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 09/42] fix: report a server database handle's own session, not
 its server's

---
 crates/bonsaidb-server/src/server/database.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/bonsaidb-server/src/server/database.rs b/crates/bonsaidb-server/src/server/database.rs
index f4d036a..427bbf5 100644
--- a/crates/bonsaidb-server/src/server/database.rs
+++ b/crates/bonsaidb-server/src/server/database.rs
@@ -86,7 +86,7 @@ impl<B: Backend> AsyncPubSub for ServerDatabase<B> {
 
 impl<B: Backend> HasSession for ServerDatabase<B> {
     fn session(&self) -> Option<&bonsaidb_core::connection::Session> {
-        self.server.session()
+        self.db.session()
     }
 }
 
-- 
2.43.0


From 04ea5fe76ac926d6a674272aed69b8c31e09bb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 10/42] fix: register a QUIC connection's first request before
 its response can be processed

---
 crates/bonsaidb-client/src/client/quic_worker.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crates/bonsaidb-client/src/client/quic_worker.rs b/crates/bonsaidb-client/src/client/quic_worker.rs
index 7c3dcf0..eafd642 100644
--- a/crates/bonsaidb-client/src/client/quic_worker.rs
+++ b/crates/bonsaidb-client/src/client/quic_worker.rs
@@ -87,12 +87,11 @@ async fn connect_and_process(
         custom_apis,
     ));
 
-    if let Err(err) = payload_sender.send(&initial_request.request) {
-        return Err((Some(initial_request), Some(Error::from(err))));
-    }
-
     {
         let mut outstanding_requests = fast_async_lock!(outstanding_requests);
+        if let Err(err) = payload_sender.send(&initial_request.request) {
+            return Err((Some(initial_request), Some(Error::from(err))));
+        }
         outstanding_requests.insert(
             initial_request
                 .request
-- 
2.43.0


From 97f173aea21800aba71e8d60aeedfe6b6a97744b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 11/42] fix: end the subscribers of a QUIC connection when it
 is lost

---
 crates/bonsaidb-client/src/client/quic_worker.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/bonsaidb-client/src/client/quic_worker.rs b/crates/bonsaidb-client/src/client/quic_worker.rs
index eafd642..cda4157 100644
--- a/crates/bonsaidb-client/src/client/quic_worker.rs
+++ b/crates/bonsaidb-client/src/client/quic_worker.rs
@@ -32,9 +32,11 @@ pub(super) async fn reconnecting_client_loop(
         let _: Result<_, _> = server.url.set_port(Some(5645));
     }
 
-    server.subscribers.clear();
     let mut pending_error = None;
-    while let Ok(request) = request_receiver.recv_async().await {
+    while let Ok(request) = {
+        server.subscribers.clear();
+        request_receiver.recv_async().await
+    } {
         if let Some(pending_error) = pending_error.take() {
             drop(request.responder.send(Err(pending_error)));
             continue;
-- 
2.43.0


From d968b0a4a77dc6ddc1e7b72ed568fbd663603ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 12/42] fix: answer outstanding requests when the server closes
 the websocket

---
 crates/bonsaidb-client/src/client/tungstenite_worker.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-client/src/client/tungstenite_worker.rs b/crates/bonsaidb-client/src/client/tungstenite_worker.rs
index 7437822..93fe75b 100644
--- a/crates/bonsaidb-client/src/client/tungstenite_worker.rs
+++ b/crates/bonsaidb-client/src/client/tungstenite_worker.rs
@@ -138,5 +138,6 @@ async fn response_processor(
         }
     }
 
-    Ok(())
+    // Return an error to make sure try_join returns.
+    Err(Error::disconnected())
 }
-- 
2.43.0


From 334cfd69ea67e20fd430a7a5ff7ce4901f5690f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:40 +0000
Subject: [PATCH 13/42] fix: a user has the permissions of its roles, not of
 roles numbered like its groups

---
 crates/bonsaidb-core/src/admin/user.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/bonsaidb-core/src/admin/user.rs b/crates/bonsaidb-core/src/admin/user.rs
index 0894a4e..1a7a3d3 100644
--- a/crates/bonsaidb-core/src/admin/user.rs
+++ b/crates/bonsaidb-core/src/admin/user.rs
@@ -67,7 +67,7 @@ impl User {
         let role_groups = if self.roles.is_empty() {
             Vec::default()
         } else {
-            let roles = role::Role::get_multiple(self.groups.iter(), admin)?;
+            let roles = role::Role::get_multiple(self.roles.iter(), admin)?;
             roles
                 .into_iter()
                 .flat_map(|doc| doc.contents.groups)
-- 
2.43.0


From 0afb2da66cc5efa817f02a2916ce802b24631484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:22 +0000
Subject: [PATCH 14/42] fix: a failing view map function must not leave the
 mapper waiting forever

The threads of a view mapping run borrowed the receivers of the channels
between them, so when one failed the others kept waiting on a full channel
(or panicked on a closed one) rather than the error being returned.
---
 crates/bonsaidb-local/src/views/mapper.rs | 46 ++++++++++++++---------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/crates/bonsaidb-local/src/views/mapper.rs b/crates/bonsaidb-local/src/views/mapper.rs
index 98360b3..5566802 100644
--- a/crates/bonsaidb-local/src/views/mapper.rs
+++ b/crates/bonsaidb-local/src/views/mapper.rs
@@ -182,9 +182,14 @@ impl<'a> DocumentRequest<'a> {
         let mut documents = documents.lock::<Versioned>();
         for chunk in document_ids.chunks(1024) {
             let (document_id_sender, document_id_receiver) = flume::bounded(chunk.len());
-            batch_sender
+            // A closed channel means that the other side has failed. It reports
+            // its own error.
+            if batch_sender
                 .send((chunk.to_vec(), document_id_receiver))
-                .unwrap();
+                .is_err()
+            {
+                return Ok(());
+            }
             let mut documents = documents.get_multiple(chunk.iter().map(ArcBytes::as_slice))?;
             documents.sort_by(|a, b| a.0.cmp(&b.0));
 
@@ -194,9 +199,12 @@ impl<'a> DocumentRequest<'a> {
                     .map_or(false, |(key, _)| (key == document_id))
                     .then(|| documents.pop().unwrap().1);
 
-                document_id_sender
+                if document_id_sender
                     .send((document_id.clone(), document))
-                    .unwrap();
+                    .is_err()
+                {
+                    return Ok(());
+                }
             }
 
             drop(document_id_sender);
@@ -258,7 +266,9 @@ impl<'a> DocumentRequest<'a> {
                     }
                 }
             }
-            mapped_sender.send(batch).unwrap();
+            if mapped_sender.send(batch).is_err() {
+                return Ok(());
+            }
         }
         drop(mapped_sender);
         Ok(())
@@ -364,23 +374,23 @@ impl<'a> DocumentRequest<'a> {
         let (batch_sender, batch_receiver) = flume::bounded(1);
         let (mapped_sender, mapped_receiver) = flume::bounded(1);
 
+        // Each receiver is owned by the closure that uses it, so that a failure
+        // closes the channel rather than leaving the sending side waiting.
+        let view = self.view;
+        let map_request = self.map_request;
+        let document_map = self.document_map;
+        let view_entries = self.view_entries;
+        let parallelization = self.database.storage().parallelization();
         for result in Parallel::new()
             .add(|| Self::generate_batches(batch_sender, &self.document_ids, self.documents))
-            .add(|| {
-                Self::map_batches(
-                    &batch_receiver,
-                    mapped_sender,
-                    self.view,
-                    self.database.storage().parallelization(),
-                )
-            })
-            .add(|| {
-                let mut document_map = self.document_map.lock();
-                let mut view_entries = self.view_entries.lock();
+            .add(move || Self::map_batches(&batch_receiver, mapped_sender, view, parallelization))
+            .add(move || {
+                let mut document_map = document_map.lock();
+                let mut view_entries = view_entries.lock();
                 Self::save_mappings(
                     &mapped_receiver,
-                    self.view,
-                    self.map_request,
+                    view,
+                    map_request,
                     &mut document_map,
                     &mut view_entries,
                 )
-- 
2.43.0


From db33c6e1ea1e7e64c863959a437beee8b4f0fd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:52 +0000
Subject: [PATCH 15/42] fix: keep the list of invalidated documents when a view
 is rebuilt

Documents that were inserted or changed while the integrity scanner was running
could be missing from the rebuilt view: they were not among the documents the
scanner had listed, and the list they had been added to was deleted.
---
 crates/bonsaidb-local/src/views/integrity_scanner.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/bonsaidb-local/src/views/integrity_scanner.rs b/crates/bonsaidb-local/src/views/integrity_scanner.rs
index 9728893..424a011 100644
--- a/crates/bonsaidb-local/src/views/integrity_scanner.rs
+++ b/crates/bonsaidb-local/src/views/integrity_scanner.rs
@@ -75,8 +75,9 @@ impl Job for IntegrityScanner {
             let missing_entries = tree_keys::<Versioned>(&documents)?;
             // When a version is updated, we can make no guarantees about
             // existing keys. The best we can do is delete the existing files so
-            // that the view starts fresh.
-            roots.delete_tree(view_invalidated_docs_tree_name(&self.scan.view_name))?;
+            // that the view starts fresh. The list of invalidated documents is
+            // kept: transactions that are being applied while this job is
+            // running are adding the documents they change to it.
             roots.delete_tree(view_entries_tree_name(&self.scan.view_name))?;
             roots.delete_tree(view_document_map_tree_name(&self.scan.view_name))?;
             // Add all missing entries to the invalidated list. The view
-- 
2.43.0


From 04986dc5578f42ece13e793188b0d704a8dbb72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:01 +0000
Subject: [PATCH 16/42] fix: forget the state of a deleted database's views

A database created under the name of a deleted one had the view states of the
deleted one: its views were considered to be up to date until its transaction id
passed the one the deleted database's views had been mapped at.
---
 crates/bonsaidb-local/src/storage.rs |  1 +
 crates/bonsaidb-local/src/tasks.rs   | 15 +++++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/crates/bonsaidb-local/src/storage.rs b/crates/bonsaidb-local/src/storage.rs
index ca63844..0df0c6d 100644
--- a/crates/bonsaidb-local/src/storage.rs
+++ b/crates/bonsaidb-local/src/storage.rs
@@ -1031,6 +1031,7 @@ impl StorageConnection for StorageInstance {
                 .delete_directory(&database_folder)
                 .map_err(Error::Nebari)?;
         }
+        self.tasks().forget_database(name);
         available_databases.remove(name);
 
         if let Some(entry) = admin
diff --git a/crates/bonsaidb-local/src/tasks.rs b/crates/bonsaidb-local/src/tasks.rs
index daa6cdc..4e8ada6 100644
--- a/crates/bonsaidb-local/src/tasks.rs
+++ b/crates/bonsaidb-local/src/tasks.rs
@@ -168,6 +168,21 @@ impl TaskManager {
         statuses.key_value_expiration_loads.insert(database);
     }
 
+    /// Forgets everything recorded about a database that was deleted. A new
+    /// database can be created using the same name.
+    pub fn forget_database(&self, database: &str) {
+        let mut statuses = self.statuses.write();
+        statuses
+            .completed_integrity_checks
+            .retain(|(name, _, _)| name.as_ref() != database);
+        statuses
+            .key_value_expiration_loads
+            .retain(|name| name.as_ref() != database);
+        statuses
+            .view_update_last_status
+            .retain(|(name, _, _), _| name.as_ref() != database);
+    }
+
     pub fn mark_view_updated(
         &self,
         database: Arc<Cow<'static, str>>,
-- 
2.43.0


From 95f528a70684e81a9875b3e7a8e69e9b1ed87a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:50 +0000
Subject: [PATCH 17/42] fix: wait for key-value changes that are being
 persisted at shutdown

---
 crates/bonsaidb-local/src/database/keyvalue.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-local/src/database/keyvalue.rs b/crates/bonsaidb-local/src/database/keyvalue.rs
index 0435692..2767f6e 100644
--- a/crates/bonsaidb-local/src/database/keyvalue.rs
+++ b/crates/bonsaidb-local/src/database/keyvalue.rs
@@ -239,7 +239,9 @@ impl KeyValueState {
     }
 
     pub fn shutdown(&mut self, state: &Arc<Mutex<KeyValueState>>) -> Option<flume::Receiver<()>> {
-        if self.keys_being_persisted.is_none() && self.commit_dirty_keys(state) {
+        // Keys that are already being persisted need to be waited for as well.
+        // Any keys that have been changed since then are persisted afterwards.
+        if self.keys_being_persisted.is_some() || self.commit_dirty_keys(state) {
             let (shutdown_sender, shutdown_receiver) = flume::bounded(1);
             self.shutdown = Some(shutdown_sender);
             Some(shutdown_receiver)
-- 
2.43.0


From 9fa7e824cb62b2e34a7bd8ab2f397e4c690482c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:50 +0000
Subject: [PATCH 18/42] fix: keep key-value changes whose persistence failed

---
 .../bonsaidb-local/src/database/keyvalue.rs   | 35 ++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-local/src/database/keyvalue.rs b/crates/bonsaidb-local/src/database/keyvalue.rs
index 2767f6e..e435643 100644
--- a/crates/bonsaidb-local/src/database/keyvalue.rs
+++ b/crates/bonsaidb-local/src/database/keyvalue.rs
@@ -668,7 +668,7 @@ impl KeyValueState {
             let state = state.clone();
             std::thread::Builder::new()
                 .name(String::from("keyvalue-persist"))
-                .spawn(move || Self::persist_keys(&state, &roots, &keys))
+                .spawn(move || Self::persist_staged_keys(&state, &roots, &keys))
                 .unwrap();
             self.last_commit = Timestamp::now();
             true
@@ -682,6 +682,39 @@ impl KeyValueState {
         self.last_persistence.watch()
     }
 
+    fn persist_staged_keys(
+        key_value_state: &Arc<Mutex<KeyValueState>>,
+        roots: &Roots<AnyFile>,
+        keys: &BTreeMap<String, Option<Entry>>,
+    ) {
+        if Self::persist_keys(key_value_state, roots, keys).is_err() {
+            let mut state = key_value_state.lock();
+            // Keep the changes that haven't been persisted, to include them in
+            // the next commit. If a key has been changed again since the keys
+            // were staged, its newer state needs to be preserved.
+            if let Some(staged_keys) = state.keys_being_persisted.take() {
+                for (key, entry) in staged_keys.iter() {
+                    state
+                        .dirty_keys
+                        .entry(key.clone())
+                        .or_insert_with(|| entry.clone());
+                }
+            }
+            if state.shutdown.is_some() {
+                // There will be no next commit, which makes this the last
+                // chance to persist the remaining changes.
+                let staged_keys = state.stage_dirty_keys();
+                drop(state);
+                if let Some(staged_keys) = staged_keys {
+                    let _: Result<_, _> = Self::persist_keys(key_value_state, roots, &staged_keys);
+                }
+                if let Some(shutdown) = key_value_state.lock().shutdown.take() {
+                    let _: Result<_, _> = shutdown.send(());
+                }
+            }
+        }
+    }
+
     #[cfg_attr(feature = "instrument", tracing::instrument(level = "trace", skip_all))]
     fn persist_keys(
         key_value_state: &Arc<Mutex<KeyValueState>>,
-- 
2.43.0


From 687299c76dfec35ce8e3c7b4ca8eafaa856d7488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:04 +0000
Subject: [PATCH 19/42] fix: do not return expired keys before expirations have
 been loaded

---
 crates/bonsaidb-local/src/database/keyvalue.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-local/src/database/keyvalue.rs b/crates/bonsaidb-local/src/database/keyvalue.rs
index e435643..108dc3a 100644
--- a/crates/bonsaidb-local/src/database/keyvalue.rs
+++ b/crates/bonsaidb-local/src/database/keyvalue.rs
@@ -505,6 +505,7 @@ impl KeyValueState {
                 let value = Value::Numeric(op(&existing, amount, saturating).validate()?);
                 entry.value = value.clone();
 
+                self.update_key_expiration(&full_key, entry.expiration);
                 self.set(full_key, entry);
                 Ok(Output::Value(Some(value)))
             }
@@ -590,7 +591,16 @@ impl KeyValueState {
         roots
             .tree(Unversioned::tree(KEY_TREE))?
             .get(key.as_bytes())
-            .map(|current| current.and_then(|current| bincode::deserialize::<Entry>(&current).ok()))
+            .map(|current| {
+                current
+                    .and_then(|current| bincode::deserialize::<Entry>(&current).ok())
+                    // The expiration of this key may not have been loaded yet.
+                    .filter(|entry| {
+                        entry
+                            .expiration
+                            .map_or(true, |expiration| expiration > Timestamp::now())
+                    })
+            })
     }
 
     fn update_background_worker_target(&mut self) {
-- 
2.43.0


From ac8574879df0962db46405fe264adfaa4a4a7e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:49 +0000
Subject: [PATCH 20/42] fix: do not reload a key's expiration after it was
 replaced

---
 crates/bonsaidb-local/src/database.rs         | 23 +++++++++++++------
 .../bonsaidb-local/src/database/keyvalue.rs   | 20 ++++++++++++++--
 2 files changed, 34 insertions(+), 9 deletions(-)

diff --git a/crates/bonsaidb-local/src/database.rs b/crates/bonsaidb-local/src/database.rs
index 08b6898..af24073 100644
--- a/crates/bonsaidb-local/src/database.rs
+++ b/crates/bonsaidb-local/src/database.rs
@@ -896,14 +896,12 @@ impl Database {
         Ok(tree)
     }
 
-    pub(crate) fn update_key_expiration<'key>(
+    pub(crate) fn load_key_expiration(
         &self,
-        tree_key: impl Into<Cow<'key, str>>,
-        expiration: Option<Timestamp>,
-    ) {
-        self.data
-            .context
-            .update_key_expiration(tree_key, expiration);
+        tree_key: String,
+        expiration: Timestamp,
+    ) -> Result<(), Error> {
+        self.data.context.load_key_expiration(tree_key, expiration)
     }
 
     /// Converts this instance into its blocking version, which is able to be
@@ -1719,6 +1717,17 @@ impl Context {
         state.perform_kv_operation(op, &self.data.key_value_state)
     }
 
+    pub(crate) fn load_key_expiration(
+        &self,
+        tree_key: String,
+        expiration: Timestamp,
+    ) -> Result<(), Error> {
+        let mut state = self.data.key_value_state.lock();
+        state.load_key_expiration(tree_key, expiration)?;
+        Ok(())
+    }
+
+    #[cfg(test)]
     pub(crate) fn update_key_expiration<'key>(
         &self,
         tree_key: impl Into<Cow<'key, str>>,
diff --git a/crates/bonsaidb-local/src/database/keyvalue.rs b/crates/bonsaidb-local/src/database/keyvalue.rs
index 108dc3a..9284b0e 100644
--- a/crates/bonsaidb-local/src/database/keyvalue.rs
+++ b/crates/bonsaidb-local/src/database/keyvalue.rs
@@ -421,6 +421,22 @@ impl KeyValueState {
         }
     }
 
+    /// Schedules the expiration that was loaded from disk for a key, unless the
+    /// key has been changed since.
+    pub fn load_key_expiration(
+        &mut self,
+        tree_key: String,
+        expiration: Timestamp,
+    ) -> Result<(), nebari::Error> {
+        let replaced = self
+            .get(&tree_key)?
+            .map_or(false, |current| current.expiration != Some(expiration));
+        if !replaced {
+            self.update_key_expiration(tree_key, Some(expiration));
+        }
+        Ok(())
+    }
+
     #[cfg_attr(feature = "tracing", tracing::instrument(level = "trace", skip(self)))]
     fn execute_get_operation(
         &mut self,
@@ -898,9 +914,9 @@ impl Job for ExpirationLoader {
         let launched_at = self.launched_at;
 
         for ((namespace, key), entry) in database.all_key_value_entries()? {
-            if entry.last_updated < launched_at && entry.expiration.is_some() {
+            if let (true, Some(expiration)) = (entry.last_updated < launched_at, entry.expiration) {
                 self.database
-                    .update_key_expiration(full_key(namespace.as_deref(), &key), entry.expiration);
+                    .load_key_expiration(full_key(namespace.as_deref(), &key), expiration)?;
             }
         }
 
-- 
2.43.0


From 826439cf87bd7a19b70d47395a4da7ee78f6b733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:16 +0000
Subject: [PATCH 21/42] fix: a key-value operation that fails leaves the
 expiration of its key as it was

---
 .../bonsaidb-local/src/database/keyvalue.rs   | 27 ++++++++++---------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/crates/bonsaidb-local/src/database/keyvalue.rs b/crates/bonsaidb-local/src/database/keyvalue.rs
index 9284b0e..bae7b58 100644
--- a/crates/bonsaidb-local/src/database/keyvalue.rs
+++ b/crates/bonsaidb-local/src/database/keyvalue.rs
@@ -326,15 +326,17 @@ impl KeyValueState {
                     entry.expiration = existing_value.expiration;
                 }
             }
-            self.update_key_expiration(&full_key, entry.expiration);
+            let expiration = entry.expiration;
 
             let previous_value = if let Some(existing_value) = possible_existing_value {
                 // we already fetched, no need to ask for the existing value back
-                self.set(full_key, entry);
+                self.set(full_key.clone(), entry);
                 existing_value
             } else {
-                self.replace(full_key, entry).map_err(Error::from)?
+                self.replace(full_key.clone(), entry).map_err(Error::from)?
             };
+            // The expiration must not change unless the value was stored.
+            self.update_key_expiration(full_key, expiration);
             if set.return_previous_value {
                 Ok(Output::Value(previous_value.map(|entry| entry.value)))
             } else if previous_value.is_none() {
@@ -534,23 +536,24 @@ impl KeyValueState {
 
     #[cfg_attr(feature = "tracing", tracing::instrument(level = "trace", skip(self)))]
     fn remove(&mut self, key: String) -> Result<Option<Entry>, nebari::Error> {
-        self.update_key_expiration(&key, None);
-
-        if let Some(dirty_entry) = self.dirty_keys.get_mut(&key) {
-            Ok(dirty_entry.take())
+        let previous_value = if let Some(dirty_entry) = self.dirty_keys.get_mut(&key) {
+            dirty_entry.take()
         } else if let Some(persisting_entry) = self
             .keys_being_persisted
             .as_ref()
             .and_then(|keys| keys.get(&key))
         {
-            self.dirty_keys.insert(key, None);
-            Ok(persisting_entry.clone())
+            self.dirty_keys.insert(key.clone(), None);
+            persisting_entry.clone()
         } else {
             // There might be a value on-disk we need to remove.
             let previous_value = Self::retrieve_key_from_disk(&self.roots, &key)?;
-            self.dirty_keys.insert(key, None);
-            Ok(previous_value)
-        }
+            self.dirty_keys.insert(key.clone(), None);
+            previous_value
+        };
+        // The expiration must not change unless the key was removed.
+        self.update_key_expiration(key, None);
+        Ok(previous_value)
     }
 
     #[cfg_attr(feature = "tracing", tracing::instrument(level = "trace", skip(self)))]
-- 
2.43.0


From 05f794c6ae24aff7b695290e4283b9cd8b339772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:30 +0000
Subject: [PATCH 22/42] fix: document ids containing `$` are displayed in the
 form that parses back to them

A textual id containing `$` was displayed verbatim but parsed as hexadecimal,
so a restored backup lost or merged those documents.
---
 crates/bonsaidb-core/src/document/id.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-core/src/document/id.rs b/crates/bonsaidb-core/src/document/id.rs
index 1b1a8c5..15438d0 100644
--- a/crates/bonsaidb-core/src/document/id.rs
+++ b/crates/bonsaidb-core/src/document/id.rs
@@ -35,7 +35,11 @@ impl std::fmt::Debug for DocumentId {
 impl Display for DocumentId {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         if let Ok(string) = std::str::from_utf8(self.as_ref()) {
-            if string.bytes().all(|b| (32..=127).contains(&b)) {
+            // `$` marks the hexadecimal representation when parsing.
+            if string
+                .bytes()
+                .all(|b| (32..=127).contains(&b) && b != b'$')
+            {
                 return f.write_str(string);
             }
         }
-- 
2.43.0


From 79fdcfc64b9f461293818acdbbc95b965405a951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:30 +0000
Subject: [PATCH 23/42] fix: backups can store documents and keys with any name

Names containing path separators failed to be stored, or were listed
differently from how they were stored. They are now escaped.
---
 crates/bonsaidb-local/src/storage/backup.rs | 60 +++++++++++++++++++--
 1 file changed, 57 insertions(+), 3 deletions(-)

diff --git a/crates/bonsaidb-local/src/storage/backup.rs b/crates/bonsaidb-local/src/storage/backup.rs
index 3b2048d..205769c 100644
--- a/crates/bonsaidb-local/src/storage/backup.rs
+++ b/crates/bonsaidb-local/src/storage/backup.rs
@@ -276,7 +276,7 @@ impl BackupLocation for Path {
     ) -> Result<(), Self::Error> {
         let container_folder = container_folder(self, schema, database_name, container);
         std::fs::create_dir_all(&container_folder)?;
-        std::fs::write(container_folder.join(name), object)?;
+        std::fs::write(container_folder.join(encode_file_name(name)), object)?;
 
         Ok(())
     }
@@ -311,7 +311,7 @@ impl BackupLocation for Path {
             &container_folder(self, schema, database_name, container),
             |entry, file_name| {
                 if entry.file_type()?.is_file() {
-                    return Ok(Some(file_name));
+                    return Ok(Some(decode_file_name(&file_name)));
                 }
                 Ok(None)
             },
@@ -325,7 +325,9 @@ impl BackupLocation for Path {
         container: &str,
         name: &str,
     ) -> Result<Vec<u8>, Self::Error> {
-        std::fs::read(container_folder(self, schema, database_name, container).join(name))
+        std::fs::read(
+            container_folder(self, schema, database_name, container).join(encode_file_name(name)),
+        )
     }
 }
 
@@ -403,6 +405,58 @@ fn iterate_directory<T, F: FnMut(DirEntry, String) -> Result<Option<T>, std::io:
     Ok(collected)
 }
 
+/// Encodes a name of an object, which can be any string, as the name of a file.
+/// Names that already are valid file names are kept.
+fn encode_file_name(name: &str) -> String {
+    if matches!(name, "" | "%") {
+        return if name.is_empty() { "%" } else { "%25" }.to_string();
+    }
+
+    let only_dots = name.bytes().all(|b| b == b'.');
+    let mut encoded = String::with_capacity(name.len());
+    for (index, ch) in name.char_indices() {
+        let is_escape = ch == '%' && escaped_char(&name[index + 1..]).is_some();
+        if is_escape || only_dots || matches!(ch, '/' | '\\' | '\0') {
+            encoded.push_str(&format!("%{:02X}", u32::from(ch)));
+        } else {
+            encoded.push(ch);
+        }
+    }
+    encoded
+}
+
+/// Returns the name that was encoded using [`encode_file_name`].
+fn decode_file_name(file_name: &str) -> String {
+    if file_name == "%" {
+        return String::new();
+    }
+
+    let mut decoded = String::with_capacity(file_name.len());
+    let mut chars = file_name.char_indices();
+    while let Some((index, ch)) = chars.next() {
+        let escaped = (ch == '%')
+            .then(|| escaped_char(&file_name[index + 1..]))
+            .flatten();
+        if let Some(escaped) = escaped {
+            decoded.push(escaped);
+            // Skip the two digits
+            chars.nth(1);
+        } else {
+            decoded.push(ch);
+        }
+    }
+    decoded
+}
+
+fn escaped_char(digits: &str) -> Option<char> {
+    let digits = digits.get(..2)?;
+    if digits.bytes().all(|b| b.is_ascii_hexdigit()) {
+        u8::from_str_radix(digits, 16).ok().map(char::from)
+    } else {
+        None
+    }
+}
+
 trait IoResultExt<T>: Sized {
     fn ignore_not_found(self) -> Result<Option<T>, std::io::Error>;
 }
-- 
2.43.0


From 8ac27bdc2986b7de08ac053815919208c34fd358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:46 +0000
Subject: [PATCH 24/42] fix: refuse database names that would share the folder
 of the storage itself

An empty name named the storage's own folder, so deleting that database deleted
every database; a database could also take the place of the storage's keys.
---
 crates/bonsaidb-local/src/storage.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/crates/bonsaidb-local/src/storage.rs b/crates/bonsaidb-local/src/storage.rs
index 0df0c6d..3e0bd62 100644
--- a/crates/bonsaidb-local/src/storage.rs
+++ b/crates/bonsaidb-local/src/storage.rs
@@ -513,11 +513,18 @@ impl Storage {
     }
 
     fn validate_name(name: &str) -> Result<(), Error> {
-        if name.chars().enumerate().all(|(index, c)| {
-            c.is_ascii_alphanumeric()
-                || (index == 0 && c == '_')
-                || (index > 0 && (c == '.' || c == '-'))
-        }) {
+        // Each database is stored in a folder of its own, next to these files
+        // and folders of the storage.
+        let is_reserved = ["master-keys", "server-id", "storage-id", "vault-keys"]
+            .iter()
+            .any(|reserved| reserved.eq_ignore_ascii_case(name));
+        let is_valid = !name.is_empty()
+            && name.chars().enumerate().all(|(index, c)| {
+                c.is_ascii_alphanumeric()
+                    || (index == 0 && c == '_')
+                    || (index > 0 && (c == '.' || c == '-'))
+            });
+        if is_valid && !is_reserved {
             Ok(())
         } else {
             Err(Error::Core(bonsaidb_core::Error::InvalidDatabaseName(
-- 
2.43.0


From 788915ed2dd2cbb35fcd0a382ec4bb141b83bba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:48 +0000
Subject: [PATCH 25/42] fix: deserializing a key range keeps its end bound

---
 crates/bonsaidb-core/src/connection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/bonsaidb-core/src/connection.rs b/crates/bonsaidb-core/src/connection.rs
index c4e34e8..3c45bd8 100644
--- a/crates/bonsaidb-core/src/connection.rs
+++ b/crates/bonsaidb-core/src/connection.rs
@@ -2507,7 +2507,7 @@ impl Range<Bytes> {
     ) -> Result<Range<T>, <T as KeyEncoding<T>>::Error> {
         Ok(Range {
             start: self.start.deserialize()?,
-            end: self.start.deserialize()?,
+            end: self.end.deserialize()?,
         })
     }
 }
-- 
2.43.0


From 141606fb8876d01ea2376ca2414909d6ae227373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:20 +0000
Subject: [PATCH 26/42] fix: compacting opens each tree with the encryption of
 its collection

---
 crates/bonsaidb-local/src/tasks/compactor.rs | 57 ++++++++++++--------
 1 file changed, 36 insertions(+), 21 deletions(-)

diff --git a/crates/bonsaidb-local/src/tasks/compactor.rs b/crates/bonsaidb-local/src/tasks/compactor.rs
index 8afeeb0..ee46910 100644
--- a/crates/bonsaidb-local/src/tasks/compactor.rs
+++ b/crates/bonsaidb-local/src/tasks/compactor.rs
@@ -1,8 +1,7 @@
-use std::borrow::Cow;
-
 use bonsaidb_core::connection::Connection;
 use bonsaidb_core::schema::CollectionName;
-use nebari::tree::{Root, Unversioned, Versioned};
+use nebari::io::any::AnyFile;
+use nebari::tree::{Root, TreeRoot, Unversioned, Versioned};
 
 use crate::database::keyvalue::KEY_TREE;
 use crate::database::{document_tree_name, DatabaseNonBlocking};
@@ -51,8 +50,8 @@ pub struct Compaction {
 
 #[derive(Debug, Clone, Hash, Eq, PartialEq)]
 pub enum Target {
-    VersionedTree(String),
-    UnversionedTree(String),
+    VersionedTree(CollectionName, String),
+    UnversionedTree(CollectionName, String),
     Collection(CollectionName),
     KeyValue,
     Database,
@@ -61,14 +60,20 @@ pub enum Target {
 impl Target {
     fn compact(self, database: &Database) -> Result<(), Error> {
         match self {
-            Target::UnversionedTree(name) => compact_tree::<Unversioned, _>(database, name),
-            Target::VersionedTree(name) => compact_tree::<Versioned, _>(database, name),
+            Target::UnversionedTree(collection, name) => compact_tree(
+                database,
+                database.collection_tree::<Unversioned, _>(&collection, name)?,
+            ),
+            Target::VersionedTree(collection, name) => compact_tree(
+                database,
+                database.collection_tree::<Versioned, _>(&collection, name)?,
+            ),
             Target::Collection(collection) => {
                 let mut trees = Vec::new();
                 gather_collection_trees(database, &collection, &mut trees);
                 compact_trees(database, trees)
             }
-            Target::KeyValue => compact_tree::<Unversioned, _>(database, KEY_TREE),
+            Target::KeyValue => compact_tree(database, Unversioned::tree(KEY_TREE)),
             Target::Database => {
                 let mut trees = Vec::new();
                 for collection in database.schematic().collections() {
@@ -102,16 +107,29 @@ fn gather_collection_trees(
     collection: &CollectionName,
     trees: &mut Vec<Target>,
 ) {
-    trees.push(Target::VersionedTree(document_tree_name(collection)));
-    trees.push(Target::UnversionedTree(view_versions_tree_name(collection)));
+    trees.push(Target::VersionedTree(
+        collection.clone(),
+        document_tree_name(collection),
+    ));
+    trees.push(Target::UnversionedTree(
+        collection.clone(),
+        view_versions_tree_name(collection),
+    ));
 
     for view in database.data.schema.views_in_collection(collection) {
         let name = view.view_name();
-        trees.push(Target::UnversionedTree(view_entries_tree_name(&name)));
-        trees.push(Target::UnversionedTree(view_document_map_tree_name(&name)));
-        trees.push(Target::UnversionedTree(view_invalidated_docs_tree_name(
-            &name,
-        )));
+        trees.push(Target::UnversionedTree(
+            collection.clone(),
+            view_entries_tree_name(&name),
+        ));
+        trees.push(Target::UnversionedTree(
+            collection.clone(),
+            view_document_map_tree_name(&name),
+        ));
+        trees.push(Target::UnversionedTree(
+            collection.clone(),
+            view_invalidated_docs_tree_name(&name),
+        ));
     }
 }
 
@@ -134,11 +152,8 @@ fn compact_trees(database: &Database, targets: Vec<Target>) -> Result<(), Error>
     Ok(())
 }
 
-fn compact_tree<R: Root, S: Into<Cow<'static, str>>>(
-    database: &Database,
-    name: S,
-) -> Result<(), Error> {
-    let documents = database.roots().tree(R::tree(name))?;
-    documents.compact()?;
+fn compact_tree<R: Root>(database: &Database, tree: TreeRoot<R, AnyFile>) -> Result<(), Error> {
+    let tree = database.roots().tree(tree)?;
+    tree.compact()?;
     Ok(())
 }
-- 
2.43.0


From fbd69d920e735e766cfd0ec6f81baea3fcccf1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:19 +0000
Subject: [PATCH 27/42] fix: opening a storage with the wrong vault key is an
 error, not a panic

---
 crates/bonsaidb-local/src/vault.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/crates/bonsaidb-local/src/vault.rs b/crates/bonsaidb-local/src/vault.rs
index fa3dc2d..aa30a44 100644
--- a/crates/bonsaidb-local/src/vault.rs
+++ b/crates/bonsaidb-local/src/vault.rs
@@ -293,17 +293,13 @@ impl Vault {
                             private,
                             &encrypted_master_keys.encapsulated_key,
                             b"",
-                        )
-                        .unwrap();
+                        )?;
 
-                    decryption_context
-                        .open_in_place_detached(
-                            &mut encrypted_master_keys.payload.0,
-                            b"",
-                            &AeadTag::<ChaCha20Poly1305>::from_bytes(&encrypted_master_keys.tag)
-                                .unwrap(),
-                        )
-                        .unwrap();
+                    decryption_context.open_in_place_detached(
+                        &mut encrypted_master_keys.payload.0,
+                        b"",
+                        &AeadTag::<ChaCha20Poly1305>::from_bytes(&encrypted_master_keys.tag)?,
+                    )?;
 
                     bincode::deserialize::<HashMap<u32, EncryptionKey>>(
                         &encrypted_master_keys.payload,
-- 
2.43.0


From 37259e5c24a17cd5828f9be37aae135c1a9f6e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:24 +0000
Subject: [PATCH 28/42] fix: the storage id file is only read and written while
 it is locked

---
 crates/bonsaidb-local/src/storage.rs | 59 ++++++++++++----------------
 1 file changed, 26 insertions(+), 33 deletions(-)

diff --git a/crates/bonsaidb-local/src/storage.rs b/crates/bonsaidb-local/src/storage.rs
index 3e0bd62..f96980b 100644
--- a/crates/bonsaidb-local/src/storage.rs
+++ b/crates/bonsaidb-local/src/storage.rs
@@ -1,7 +1,7 @@
 use std::borrow::Cow;
 use std::collections::{HashMap, HashSet};
 use std::fmt::{Debug, Display};
-use std::fs::{self, File};
+use std::fs::{self, File, OpenOptions};
 use std::io::{Read, Write};
 use std::marker::PhantomData;
 use std::path::{Path, PathBuf};
@@ -382,46 +382,39 @@ impl Storage {
             }
         };
 
-        let (id, file) = if let Some(id) = configuration.unique_id {
+        // The file must not be read or written until it is locked: another
+        // instance may be initializing the same storage.
+        let mut file = OpenOptions::new()
+            .read(true)
+            .write(true)
+            .create(true)
+            .open(id_path)?;
+        file.lock_exclusive()?;
+        let mut bytes = Vec::new();
+        file.read_to_end(&mut bytes)?;
+
+        let id = if let Some(id) = configuration.unique_id {
             // The configuraiton id override is not persisted to disk. This is
             // mostly to prevent someone from accidentally adding this
             // configuration, realizing it breaks things, and then wanting to
             // revert. This makes reverting to the old value easier.
-            let file = if id_path.exists() {
-                File::open(id_path)?
-            } else {
-                let mut file = File::create(id_path)?;
-                let id = id.to_string();
-                file.write_all(id.as_bytes())?;
-                file
-            };
-            file.lock_exclusive()?;
-            (id, file)
-        } else {
+            if bytes.is_empty() {
+                file.write_all(id.to_string().as_bytes())?;
+            }
+            id
+        } else if bytes.is_empty() {
             // Load/Store a randomly generated id into a file. While the value
             // is numerical, the file contents are the ascii decimal, making it
             // easier for a human to view, and if needed, edit.
+            let id = { thread_rng().gen::<u64>() };
+            file.write_all(id.to_string().as_bytes())?;
+            id
+        } else {
+            // This value is important enought to not allow launching the
+            // server if the file can't be read or contains unexpected data.
+            let existing_id = String::from_utf8(bytes).expect("server-id contains invalid data");
 
-            if id_path.exists() {
-                // This value is important enought to not allow launching the
-                // server if the file can't be read or contains unexpected data.
-                let mut file = File::open(id_path)?;
-                file.lock_exclusive()?;
-                let mut bytes = Vec::new();
-                file.read_to_end(&mut bytes)?;
-                let existing_id =
-                    String::from_utf8(bytes).expect("server-id contains invalid data");
-
-                (existing_id.parse().expect("server-id isn't numeric"), file)
-            } else {
-                let id = { thread_rng().gen::<u64>() };
-                let mut file = File::create(id_path)?;
-                file.lock_exclusive()?;
-
-                file.write_all(id.to_string().as_bytes())?;
-
-                (id, file)
-            }
+            existing_id.parse().expect("server-id isn't numeric")
         };
         Ok(StorageLock::new(StorageId(id), file))
     }
-- 
2.43.0


From 9daa4f88cf7c49f9c254d2d9d12aec2b6c9324f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:54 +0000
Subject: [PATCH 29/42] fix: an interrupted first start leaves no incomplete
 master keys behind

---
 crates/bonsaidb-local/src/vault.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/bonsaidb-local/src/vault.rs b/crates/bonsaidb-local/src/vault.rs
index aa30a44..eb5fda6 100644
--- a/crates/bonsaidb-local/src/vault.rs
+++ b/crates/bonsaidb-local/src/vault.rs
@@ -253,8 +253,15 @@ impl Vault {
                 tag,
             })?;
 
-            File::create(master_keys_path)
-                .and_then(move |mut file| file.write_all(&encrypted_master_keys_payload))
+            // The file is given its name once it is complete, as its existence
+            // is what tells that the vault has been initialized.
+            let temporary_path = master_keys_path.with_extension("new");
+            File::create(&temporary_path)
+                .and_then(|mut file| {
+                    file.write_all(&encrypted_master_keys_payload)?;
+                    file.sync_all()
+                })
+                .and_then(|()| fs::rename(&temporary_path, master_keys_path))
                 .map_err(|err| Error::Initializing(format!("error saving vault key: {err:?}")))?;
 
             Ok(Self {
-- 
2.43.0


From c8a312377926cd08ae072f62b8d19ab03536d38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:48 +0000
Subject: [PATCH 30/42] fix: deleted documents do not count towards the limit
 when listing

---
 crates/bonsaidb-local/src/database.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/bonsaidb-local/src/database.rs b/crates/bonsaidb-local/src/database.rs
index af24073..b2d2e0d 100644
--- a/crates/bonsaidb-local/src/database.rs
+++ b/crates/bonsaidb-local/src/database.rs
@@ -1257,7 +1257,11 @@ impl LowLevelConnection for Database {
                 Sort::Descending => false,
             },
             |_, _, _| ScanEvaluation::ReadData,
-            |_, _| {
+            |_, index| {
+                if index.position == 0 {
+                    // A deleted document is still present in the tree.
+                    return ScanEvaluation::Skip;
+                }
                 if let Some(limit) = limit {
                     if keys_read >= limit {
                         return ScanEvaluation::Stop;
@@ -1320,7 +1324,11 @@ impl LowLevelConnection for Database {
                 Sort::Descending => false,
             },
             |_, _, _| ScanEvaluation::ReadData,
-            |_, _| {
+            |_, index| {
+                if index.position == 0 {
+                    // A deleted document is still present in the tree.
+                    return ScanEvaluation::Skip;
+                }
                 if let Some(limit) = limit {
                     if keys_read >= limit {
                         return ScanEvaluation::Stop;
-- 
2.43.0


From 797341af18519eb18c8dfc4a87dbf6e7fa9bdb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:48 +0000
Subject: [PATCH 31/42] fix: a view query returns at most as many mappings as
 its limit

---
 crates/bonsaidb-local/src/database.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/bonsaidb-local/src/database.rs b/crates/bonsaidb-local/src/database.rs
index b2d2e0d..eb51641 100644
--- a/crates/bonsaidb-local/src/database.rs
+++ b/crates/bonsaidb-local/src/database.rs
@@ -1477,6 +1477,9 @@ impl LowLevelConnection for Database {
         let mut results = Vec::new();
         self.for_each_in_view(view, key, order, limit, access_policy, |entry| {
             for mapping in entry.mappings {
+                if limit.map_or(false, |limit| results.len() as u64 >= u64::from(limit)) {
+                    break;
+                }
                 results.push(bonsaidb_core::schema::view::map::Serialized {
                     source: mapping.source,
                     key: entry.key.clone(),
-- 
2.43.0


From cdb25f1bb0b2d7fda0ba5e8bceeab06c7657b15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:48 +0000
Subject: [PATCH 32/42] fix: a view query for several keys returns them in the
 requested order

---
 crates/bonsaidb-local/src/database.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/crates/bonsaidb-local/src/database.rs b/crates/bonsaidb-local/src/database.rs
index eb51641..b9e1d6a 100644
--- a/crates/bonsaidb-local/src/database.rs
+++ b/crates/bonsaidb-local/src/database.rs
@@ -796,12 +796,15 @@ impl Database {
                 SerializedQueryKey::Multiple(mut list) => {
                     list.sort();
 
-                    values.extend(
-                        view_entries
-                            .get_multiple(list.iter().map(|bytes| bytes.as_slice()))?
-                            .into_iter()
-                            .map(|(_, value)| value),
-                    );
+                    // The entries are read in the order they are stored on disk.
+                    let mut entries =
+                        view_entries.get_multiple(list.iter().map(|bytes| bytes.as_slice()))?;
+                    entries.sort_by(|(a, _), (b, _)| a.cmp(b));
+                    if !forwards {
+                        entries.reverse();
+                    }
+
+                    values.extend(entries.into_iter().map(|(_, value)| value));
                 }
             }
         } else {
-- 
2.43.0


From c20beae02e2d2bd7b1a08e41694c0c8e3b641968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:58 +0000
Subject: [PATCH 33/42] fix: deleting through a view deletes each document once

---
 crates/bonsaidb-local/src/database.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/bonsaidb-local/src/database.rs b/crates/bonsaidb-local/src/database.rs
index b9e1d6a..7454f1e 100644
--- a/crates/bonsaidb-local/src/database.rs
+++ b/crates/bonsaidb-local/src/database.rs
@@ -1,5 +1,5 @@
 use std::borrow::{Borrow, Cow};
-use std::collections::{BTreeMap, HashMap, HashSet};
+use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
 use std::convert::Infallible;
 use std::ops::{self, Deref};
 use std::sync::Arc;
@@ -1627,9 +1627,13 @@ impl LowLevelConnection for Database {
         )?;
         let collection = view.collection();
         let mut transaction = Transaction::default();
+        // A document can have mappings under more than one key.
+        let mut deleted = BTreeSet::new();
         self.for_each_in_view(view, key, Sort::Ascending, None, access_policy, |entry| {
             for mapping in entry.mappings {
-                transaction.push(Operation::delete(collection.clone(), mapping.source));
+                if deleted.insert(mapping.source.id.clone()) {
+                    transaction.push(Operation::delete(collection.clone(), mapping.source));
+                }
             }
 
             Ok(())
-- 
2.43.0


From 37cb771e4d8758342e5d65be4655449c0179439b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:53 +0000
Subject: [PATCH 34/42] fix: reading a file whose blocks were removed is an
 error, also while another request is outstanding

---
 crates/bonsaidb-files/src/direct.rs | 41 ++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/crates/bonsaidb-files/src/direct.rs b/crates/bonsaidb-files/src/direct.rs
index 3b6de45..d05f576 100644
--- a/crates/bonsaidb-files/src/direct.rs
+++ b/crates/bonsaidb-files/src/direct.rs
@@ -704,7 +704,8 @@ pub struct Contents<Database: Clone, Config: FileConfig> {
 struct AsyncBlockTask {
     block_receiver:
         flume::r#async::RecvFut<'static, Result<BTreeMap<u64, Vec<u8>>, std::io::Error>>,
-    requested: bool,
+    /// The index of the first block requested, and the number of blocks.
+    requested: Option<(usize, usize)>,
     request_sender: flume::Sender<Vec<u64>>,
 }
 
@@ -762,12 +763,13 @@ impl<Database: Connection + Clone, Config: FileConfig> Contents<Blocking<Databas
 
     fn load_blocks(&mut self) -> std::io::Result<()> {
         self.loaded.clear();
-        for (index, (_, contents)) in
-            schema::block::Block::<Config>::load(&self.next_blocks(), &self.database.0)
-                .map_err(|err| std::io::Error::new(ErrorKind::Other, err))?
-                .into_iter()
-                .enumerate()
-        {
+        let block_ids = self.next_blocks();
+        let blocks = schema::block::Block::<Config>::load(&block_ids, &self.database.0)
+            .map_err(|err| std::io::Error::new(ErrorKind::Other, err))?;
+        if blocks.len() != block_ids.len() {
+            return Err(blocks_removed_error());
+        }
+        for (index, (_, contents)) in blocks.into_iter().enumerate() {
             self.loaded.push_back(LoadedBlock {
                 index: self.current_block + index,
                 contents,
@@ -835,7 +837,7 @@ impl<
             self.async_blocks = Some(AsyncBlockTask {
                 block_receiver: block_receiver.into_recv_async(),
                 request_sender,
-                requested: false,
+                requested: None,
             });
         }
     }
@@ -844,19 +846,23 @@ impl<
         &mut self,
         cx: &mut std::task::Context<'_>,
     ) -> Poll<Result<bool, std::io::Error>> {
-        if self.async_blocks.as_mut().unwrap().requested {
-            match ready!(self
+        if let Some((first_block, block_count)) = self.async_blocks.as_mut().unwrap().requested {
+            let response = ready!(self
                 .async_blocks
                 .as_mut()
                 .unwrap()
                 .block_receiver
-                .poll_unpin(cx))
-            {
+                .poll_unpin(cx));
+            self.async_blocks.as_mut().unwrap().requested = None;
+            match response {
                 Ok(Ok(blocks)) => {
-                    self.async_blocks.as_mut().unwrap().requested = false;
+                    if blocks.len() != block_count {
+                        return Poll::Ready(Err(blocks_removed_error()));
+                    }
                     for (index, (_, contents)) in blocks.into_iter().enumerate() {
+                        // The current block may have changed since the request.
                         let loaded_block = LoadedBlock {
-                            index: self.current_block + index,
+                            index: first_block + index,
                             contents,
                         };
                         self.loaded.push_back(loaded_block);
@@ -874,7 +880,8 @@ impl<
                 return Poll::Ready(Ok(false));
             }
             self.loaded.clear();
-            self.async_blocks.as_mut().unwrap().requested = true;
+            self.async_blocks.as_mut().unwrap().requested =
+                Some((self.current_block, blocks.len()));
             if let Err(err) = self
                 .async_blocks
                 .as_mut()
@@ -998,6 +1005,10 @@ impl<Database: Clone, Config: FileConfig> Contents<Database, Config> {
     }
 }
 
+fn blocks_removed_error() -> std::io::Error {
+    std::io::Error::new(ErrorKind::NotFound, "the data was removed from the file")
+}
+
 enum NonBlockingBlockReadResult {
     NeedBlocks,
     ReadBlock(Vec<u8>),
-- 
2.43.0


From 1f33592f9f60c1aa579f684055c1183e6498f624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:53 +0000
Subject: [PATCH 35/42] fix: seeking in a file never panics

---
 crates/bonsaidb-files/src/direct.rs | 30 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/crates/bonsaidb-files/src/direct.rs b/crates/bonsaidb-files/src/direct.rs
index d05f576..36ca4a9 100644
--- a/crates/bonsaidb-files/src/direct.rs
+++ b/crates/bonsaidb-files/src/direct.rs
@@ -935,6 +935,13 @@ impl<Database: Clone, Config: FileConfig> Contents<Database, Config> {
             .unwrap_or_default()
     }
 
+    fn position(&self) -> u64 {
+        self.blocks.get(self.current_block).map_or_else(
+            || self.len(),
+            |block| block.offset + u64::try_from(self.offset).unwrap(),
+        )
+    }
+
     /// Returns true if the file's length is 0.
     #[must_use]
     pub fn is_empty(&self) -> bool {
@@ -1045,27 +1052,18 @@ impl<Database: Clone, Config: FileConfig> Seek for Contents<Database, Config> {
             SeekFrom::Start(offset) => offset,
             SeekFrom::End(from_end) => {
                 if from_end < 0 {
-                    self.len() - u64::try_from(from_end.saturating_abs()).unwrap()
+                    self.len()
+                        .checked_sub(from_end.unsigned_abs())
+                        .ok_or_else(|| std::io::Error::from(ErrorKind::InvalidInput))?
                 } else {
                     // Seek to the end
                     self.len()
                 }
             }
-            SeekFrom::Current(from_current) => {
-                if self.blocks.is_empty() {
-                    return Ok(0);
-                }
-
-                u64::try_from(
-                    i64::try_from(
-                        self.blocks[self.current_block].offset
-                            + u64::try_from(self.offset).unwrap(),
-                    )
-                    .unwrap()
-                        + from_current,
-                )
-                .unwrap()
-            }
+            SeekFrom::Current(from_current) => self
+                .position()
+                .checked_add_signed(from_current)
+                .ok_or_else(|| std::io::Error::from(ErrorKind::InvalidInput))?,
         };
         if let Some((index, block)) = self
             .blocks
-- 
2.43.0


From 6da3faa3e96b16cd20bacfe4d5d44116dbeccda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:53 +0000
Subject: [PATCH 36/42] fix: data read asynchronously is reported before
 waiting for more

---
 crates/bonsaidb-files/src/direct.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/bonsaidb-files/src/direct.rs b/crates/bonsaidb-files/src/direct.rs
index 36ca4a9..f3ab5db 100644
--- a/crates/bonsaidb-files/src/direct.rs
+++ b/crates/bonsaidb-files/src/direct.rs
@@ -1126,12 +1126,18 @@ impl<
         buf: &mut tokio::io::ReadBuf<'_>,
     ) -> Poll<std::io::Result<()>> {
         self.spawn_block_fetching_task();
+        let initially_filled = buf.filled().len();
         loop {
             match self.non_blocking_read(|block| {
                 let bytes_to_read = buf.remaining().min(block.len());
                 buf.put_slice(&block[..bytes_to_read]);
                 bytes_to_read
             }) {
+                // Data that was read already would be lost by returning
+                // `Poll::Pending`.
+                NonBlockingReadResult::NeedBlocks if buf.filled().len() > initially_filled => {
+                    return Poll::Ready(Ok(()))
+                }
                 NonBlockingReadResult::NeedBlocks => match self.fetch_blocks(cx) {
                     Poll::Ready(Ok(true)) => continue,
                     Poll::Pending => return Poll::Pending,
-- 
2.43.0


From 6746ba56a6c3d794db8de8bd4608aee139b5598e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:53 +0000
Subject: [PATCH 37/42] fix: the remaining contents of a file can be read
 asynchronously

---
 crates/bonsaidb-files/src/direct.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-files/src/direct.rs b/crates/bonsaidb-files/src/direct.rs
index f3ab5db..71fd5bc 100644
--- a/crates/bonsaidb-files/src/direct.rs
+++ b/crates/bonsaidb-files/src/direct.rs
@@ -796,7 +796,8 @@ impl<
     /// read, this returns the entire contents.
     #[allow(clippy::missing_panics_doc)] // Not reachable
     pub async fn into_vec(mut self) -> std::io::Result<Vec<u8>> {
-        let mut contents = vec![0; usize::try_from(self.len()).unwrap()];
+        let remaining = self.len() - self.position();
+        let mut contents = vec![0; usize::try_from(remaining).unwrap()];
         <Self as tokio::io::AsyncReadExt>::read_exact(&mut self, &mut contents).await?;
         Ok(contents)
     }
-- 
2.43.0


From ef3674a5eaa0fcae25ed31fc212de6cfdf8c4376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:53 +0000
Subject: [PATCH 38/42] fix: an asynchronous flush that completes at once is
 not polled again

---
 crates/bonsaidb-files/src/direct.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-files/src/direct.rs b/crates/bonsaidb-files/src/direct.rs
index 71fd5bc..6305cf8 100644
--- a/crates/bonsaidb-files/src/direct.rs
+++ b/crates/bonsaidb-files/src/direct.rs
@@ -1366,7 +1366,9 @@ impl<'a, Config: FileConfig, Database: AsyncConnection + Clone + 'static> tokio:
             }
             .boxed();
             let poll_result = flush_task.poll_unpin(cx);
-            self.flush_future = Some(flush_task);
+            if poll_result.is_pending() {
+                self.flush_future = Some(flush_task);
+            }
             poll_result
         }
     }
-- 
2.43.0


From 64f50e69ac1d1e18062dc438ab0fcfcfb34a2686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:53 +0000
Subject: [PATCH 39/42] fix: a file's contents are removed only once the file
 is

---
 crates/bonsaidb-files/src/direct.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/bonsaidb-files/src/direct.rs b/crates/bonsaidb-files/src/direct.rs
index 6305cf8..ae9ece6 100644
--- a/crates/bonsaidb-files/src/direct.rs
+++ b/crates/bonsaidb-files/src/direct.rs
@@ -173,8 +173,9 @@ where
 
     /// Deletes the file.
     pub fn delete(&self) -> Result<(), Error> {
-        schema::block::Block::<Config>::delete_for_file(self.doc.header.id, &self.database.0)?;
+        // Once the file is deleted, no more blocks can be appended to it.
         self.doc.delete(&self.database.0)?;
+        schema::block::Block::<Config>::delete_for_file(self.doc.header.id, &self.database.0)?;
         Ok(())
     }
 
@@ -404,9 +405,10 @@ where
 
     /// Deletes the file.
     pub async fn delete(&self) -> Result<(), Error> {
+        // Once the file is deleted, no more blocks can be appended to it.
+        self.doc.delete_async(&self.database.0).await?;
         schema::block::Block::<Config>::delete_for_file_async(self.doc.header.id, &self.database.0)
             .await?;
-        self.doc.delete_async(&self.database.0).await?;
         Ok(())
     }
 
-- 
2.43.0


From 44d27fd4ee4329891165baf00eae98074b4faa1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:53 +0000
Subject: [PATCH 40/42] fix: a file cannot be renamed to an empty name

---
 crates/bonsaidb-files/src/direct.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/bonsaidb-files/src/direct.rs b/crates/bonsaidb-files/src/direct.rs
index ae9ece6..6408994 100644
--- a/crates/bonsaidb-files/src/direct.rs
+++ b/crates/bonsaidb-files/src/direct.rs
@@ -159,7 +159,7 @@ where
 
     /// Renames this file to the new name.
     pub fn rename(&mut self, new_name: String) -> Result<(), Error> {
-        if new_name.as_bytes().contains(&b'/') {
+        if new_name.is_empty() || new_name.as_bytes().contains(&b'/') {
             return Err(Error::InvalidName);
         }
 
@@ -391,7 +391,7 @@ where
 
     /// Renames this file to the new name.
     pub async fn rename(&mut self, new_name: String) -> Result<(), Error> {
-        if new_name.as_bytes().contains(&b'/') {
+        if new_name.is_empty() || new_name.as_bytes().contains(&b'/') {
             return Err(Error::InvalidName);
         }
 
-- 
2.43.0


From bffbaf2d9fffef91752c99bdaf986c6eb6e7a6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:53 +0000
Subject: [PATCH 41/42] fix: files with blocks larger than a megabyte can be
 written with a buffer

---
 crates/bonsaidb-files/src/direct.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/bonsaidb-files/src/direct.rs b/crates/bonsaidb-files/src/direct.rs
index 6408994..7e421a9 100644
--- a/crates/bonsaidb-files/src/direct.rs
+++ b/crates/bonsaidb-files/src/direct.rs
@@ -1246,7 +1246,7 @@ impl<'a, Config: FileConfig, Database: Connection + Clone> Write
             // By default, reserve the largest multiple of BLOCK_SIZE that is
             // less than or equal to 1 megabyte.
             self.buffer
-                .reserve_exact(ONE_MEGABYTE / Config::BLOCK_SIZE * Config::BLOCK_SIZE);
+                .reserve_exact((ONE_MEGABYTE / Config::BLOCK_SIZE).max(1) * Config::BLOCK_SIZE);
         } else if self.buffer.capacity() == self.buffer.len() {
             self.flush()?;
         }
@@ -1320,7 +1320,7 @@ impl<'a, Config: FileConfig, Database: AsyncConnection + Clone + 'static> tokio:
             // By default, reserve the largest multiple of BLOCK_SIZE that is
             // less than or equal to 1 megabyte.
             self.buffer
-                .reserve_exact(ONE_MEGABYTE / Config::BLOCK_SIZE * Config::BLOCK_SIZE);
+                .reserve_exact((ONE_MEGABYTE / Config::BLOCK_SIZE).max(1) * Config::BLOCK_SIZE);
         }
 
         if self.flush_future.is_some() {
-- 
2.43.0


From 9be3a93cc2cd323fdd15151d8f8ce6d08a2911a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:35 +0000
Subject: [PATCH 42/42] fix: mark a view as updated only to transactions whose
 documents the mapper could see

---
 crates/bonsaidb-local/src/views/mapper.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/crates/bonsaidb-local/src/views/mapper.rs b/crates/bonsaidb-local/src/views/mapper.rs
index 5566802..46235e3 100644
--- a/crates/bonsaidb-local/src/views/mapper.rs
+++ b/crates/bonsaidb-local/src/views/mapper.rs
@@ -73,10 +73,20 @@ impl Job for Mapper {
                     view_invalidated_docs_tree_name(&self.map.view_name),
                 )?)?;
 
-        let transaction_id = self
-            .database
-            .last_transaction_id()?
-            .expect("no way to have documents without a transaction");
+        let transaction_id = {
+            // A transaction is written to the log before its trees are
+            // published, and keeps its trees locked until they are. Only while
+            // this tree is locked, every logged transaction can be seen in it.
+            let _locked = self
+                .database
+                .roots()
+                .transaction::<_, dyn AnyTreeRoot<AnyFile>>(&[
+                    Box::new(invalidated_entries.clone()) as Box<dyn AnyTreeRoot<AnyFile>>,
+                ])?;
+            self.database
+                .last_transaction_id()?
+                .expect("no way to have documents without a transaction")
+        };
 
         let storage = self.database.clone();
         let map_request = self.map.clone();
-- 
2.43.0

