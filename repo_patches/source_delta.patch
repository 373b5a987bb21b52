From 92db9f06215db2b8a5f29f4f18904bf6091072b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:00 +0000
Subject: [PATCH 01/14] fix: reject too short connection tokens instead of
 panicking

---
 src/rest_api/types/connection_token.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rest_api/types/connection_token.rs b/src/rest_api/types/connection_token.rs
index cab26fa..d9168d8 100644
--- a/src/rest_api/types/connection_token.rs
+++ b/src/rest_api/types/connection_token.rs
@@ -73,6 +73,10 @@ impl ConnectionToken {
     pub fn from_bytes(certificate: impl AsRef<[u8]>) -> Result<Self, CryptographyError> {
         let certificate = certificate.as_ref();
 
+        if certificate.len() < 8 {
+            return Err(CryptographyError::Decoding("connection token is too short".into()));
+        }
+
         let mut auth_date = [0u8; 8];
 
         auth_date.copy_from_slice(&certificate[..8]);
-- 
2.43.0


From b083b3f360e9af163c3c0f71e32a2f346b6f6e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:00 +0000
Subject: [PATCH 02/14] fix: reject malformed encapsulated signatures instead
 of panicking

---
 src/crypto/asymmetric/public_key.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/crypto/asymmetric/public_key.rs b/src/crypto/asymmetric/public_key.rs
index e8863ba..51f45e2 100644
--- a/src/crypto/asymmetric/public_key.rs
+++ b/src/crypto/asymmetric/public_key.rs
@@ -53,14 +53,20 @@ impl PublicKey {
     pub fn decode_encapsulated_signature(&self, capsule: impl AsRef<[u8]>) -> Result<Option<Vec<u8>>, CryptographyError> {
         let capsule = capsule.as_ref();
 
-        let mut sign_len_bytes = [0_u8; 8];
+        if capsule.len() < 8 {
+            return Err(CryptographyError::Decoding("encapsulated signature is too short".into()));
+        }
+
+        let (sign_len_bytes, capsule) = capsule.split_at(8);
 
-        sign_len_bytes.copy_from_slice(&capsule[..8]);
+        let sign_len = sign_len_bytes.iter()
+            .fold(0_u64, |len, byte| (len << 8) | *byte as u64);
 
-        let sign_len = u64::from_be_bytes(sign_len_bytes) as usize;
+        if sign_len > capsule.len() as u64 {
+            return Err(CryptographyError::Decoding("encapsulated signature is too short".into()));
+        }
 
-        let signature = &capsule[8..sign_len + 8];
-        let message = &capsule[sign_len + 8..];
+        let (signature, message) = capsule.split_at(sign_len as usize);
 
         if !self.verify_signature(message, signature)? {
             return Ok(None);
-- 
2.43.0


From c544ad4854fd97a6eec16cc04dc8bb556523b931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:04 +0000
Subject: [PATCH 03/14] fix: deserialize secret keys from their own serialized
 form

---
 src/crypto/asymmetric/secret_key.rs | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/src/crypto/asymmetric/secret_key.rs b/src/crypto/asymmetric/secret_key.rs
index 1a41250..92d5920 100644
--- a/src/crypto/asymmetric/secret_key.rs
+++ b/src/crypto/asymmetric/secret_key.rs
@@ -129,24 +129,17 @@ impl<'de> serde::Deserialize<'de> for SecretKey {
     where D: serde::Deserializer<'de> {
         use serde::de::Error;
 
-        struct Visitor;
-
-        impl<'de> serde::de::Visitor<'de> for Visitor {
-            type Value = Vec<u8>;
-
-            fn expecting(&self, formatter: &mut std::fmt::Formatter) -> std::fmt::Result {
-                write!(formatter, "bytes sequence expected")
-            }
-
-            fn visit_bytes<E>(self, v: &[u8]) -> Result<Self::Value, E>
-            where E: serde::de::Error {
-                Ok(v.to_vec())
-            }
+        // Same layout as used in the `Serialize` implementation
+        #[derive(serde::Deserialize)]
+        #[serde(rename = "SecretKey")]
+        struct Fields {
+            #[serde(rename = "0")]
+            secret_key: Vec<u8>
         }
 
-        let secret_key = deserializer.deserialize_struct("SecretKey", &["0"], Visitor)?;
+        let fields = <Fields as serde::Deserialize>::deserialize(deserializer)?;
 
-        let secret_key = SecretKey::deserialize(secret_key)
+        let secret_key = SecretKey::deserialize(fields.secret_key)
             .map_err(D::Error::custom)?;
 
         Ok(secret_key)
-- 
2.43.0


From 2a2bd62dced0ff8e8d3f2ef88467fdeea71458ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:05 +0000
Subject: [PATCH 04/14] fix: send actual client info in the messages' sender

---
 src/rest_api/middleware/client.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/rest_api/middleware/client.rs b/src/rest_api/middleware/client.rs
index d04cf28..ac57ad1 100644
--- a/src/rest_api/middleware/client.rs
+++ b/src/rest_api/middleware/client.rs
@@ -474,13 +474,7 @@ impl<T: HttpClient> ConnectedClient<T> {
         tracing::debug!("Sending POST /api/v1/send request");
 
         // Prepare send message request
-        let client = ClientApiRecord::new(
-            self.driver.secret_key().public_key(),
-            self.connection_certificate.clone(),
-            ClientInfo::thin()
-        );
-
-        let sender = Sender::new(client, self.connected_server.clone());
+        let sender = Sender::new(self.get_client(), self.connected_server.clone());
 
         let request = SendRequest::new(
             self.driver.secret_key(),
-- 
2.43.0


From 26ede828d26650ff8f09b2d28f825e800a81c71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:32 +0000
Subject: [PATCH 05/14] fix: continue client lookup when a hinted server fails

---
 src/rest_api/middleware/client.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/rest_api/middleware/client.rs b/src/rest_api/middleware/client.rs
index ac57ad1..d07f4e5 100644
--- a/src/rest_api/middleware/client.rs
+++ b/src/rest_api/middleware/client.rs
@@ -401,7 +401,7 @@ impl<T: HttpClient> ConnectedClient<T> {
 
         while let Some(server_address) = queue.pop_front() {
             // Skip server if it was already used
-            if used_servers.contains(&server_address) {
+            if !used_servers.insert(server_address.clone()) {
                 continue;
             }
 
@@ -413,13 +413,24 @@ impl<T: HttpClient> ConnectedClient<T> {
                 // FIXME: causes some weird ass issue with "infinite async recursion"
                 format!("http://{server_address}/api/v1/lookup"), // resolve_uri(&server_address, self).await?
                 request.clone()
-            ).await?;
+            ).await;
 
             // Validate response
-            if !response.validate(proof_seed)? {
-                // Skip execution and go to the next server
-                continue;
-            }
+            let response = match response {
+                Ok(response) => match response.validate(proof_seed) {
+                    Ok(true) => response,
+
+                    // Skip execution and go to the next server
+                    Ok(false) => continue,
+
+                    // Do not let a broken hinted server to stop the searching
+                    Err(_) if server_address != self.connected_server.address => continue,
+                    Err(err) => return Err(err.into())
+                }
+
+                Err(_) if server_address != self.connected_server.address => continue,
+                Err(err) => return Err(err.into())
+            };
 
             // Process successful response
             if let Response::Success { public_key, response, .. } = response.0 {
@@ -441,8 +452,6 @@ impl<T: HttpClient> ConnectedClient<T> {
                     }
                 }
             }
-
-            used_servers.insert(server_address);
         }
 
         Ok(None)
-- 
2.43.0


From 82390293cdd675eca2820251420beb62929da1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:08 +0000
Subject: [PATCH 06/14] fix: accept only responses signed by the connected
 server

---
 src/rest_api/middleware/client.rs | 39 +++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/src/rest_api/middleware/client.rs b/src/rest_api/middleware/client.rs
index d07f4e5..38d10a7 100644
--- a/src/rest_api/middleware/client.rs
+++ b/src/rest_api/middleware/client.rs
@@ -183,6 +183,11 @@ impl<T: HttpClient + Send + Sync> Client<T> {
 
         // Check response status
         match response.0 {
+            // Response must be signed by the server we're connecting to
+            Response::Success { public_key, .. } if public_key != server_public => {
+                Err(Error::InvalidProofSeedSignature)
+            }
+
             Response::Success { .. } => {
                 let client = ConnectedClient {
                     http_client: self.http_client.clone(),
@@ -305,17 +310,26 @@ impl<T: HttpClient> ConnectedClient<T> {
         }
 
         // Check response status
-        if let Response::Error { status, reason, .. } = response.0 {
-            return Err(Error::RequestFailed {
-                status,
-                reason
-            });
-        }
+        match response.0 {
+            // Response must be signed by the server we're connected to
+            Response::Success { public_key, .. } if public_key != self.connected_server.public_key => {
+                Err(Error::InvalidProofSeedSignature)
+            }
 
-        Ok(Client {
-            http_client: self.http_client,
-            driver: self.driver
-        })
+            Response::Success { .. } => {
+                Ok(Client {
+                    http_client: self.http_client,
+                    driver: self.driver
+                })
+            }
+
+            Response::Error { status, reason, .. } => {
+                Err(Error::RequestFailed {
+                    status,
+                    reason
+                })
+            }
+        }
     }
 
     #[cfg_attr(feature = "tracing", tracing::instrument(ret, skip_all, fields(
@@ -558,6 +572,11 @@ impl<T: HttpClient> ConnectedClient<T> {
 
         // Check response status
         match response.0 {
+            // Response must be signed by the server we're connected to
+            Response::Success { public_key, .. } if public_key != self.connected_server.public_key => {
+                Err(Error::InvalidProofSeedSignature)
+            }
+
             Response::Success { response, .. } => {
                 Ok((response.messages, response.remaining))
             }
-- 
2.43.0


From 217368319317c7f6ec96d9ee993bc9b7a68d802e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:10 +0000
Subject: [PATCH 07/14] fix: look up the requested client instead of the
 requester

---
 src/rest_api/middleware/server.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rest_api/middleware/server.rs b/src/rest_api/middleware/server.rs
index 8ffac1c..4fcb816 100644
--- a/src/rest_api/middleware/server.rs
+++ b/src/rest_api/middleware/server.rs
@@ -274,7 +274,7 @@ where
                 }
 
                 // Try to find the client in the local index
-                match driver.router().lookup_local_client(&request.0.public_key, request.0.request.client_type).await {
+                match driver.router().lookup_local_client(&request.0.request.public_key, request.0.request.client_type).await {
                     Ok(Some((client, available))) => {
                         let body = LookupResponseBody::local(client, available);
 
@@ -295,7 +295,7 @@ where
                 }
 
                 // Try to find the client in the remote index
-                match driver.router().lookup_remote_client(&request.0.public_key, request.0.request.client_type).await {
+                match driver.router().lookup_remote_client(&request.0.request.public_key, request.0.request.client_type).await {
                     Ok(Some((client, server, available))) => {
                         let body = LookupResponseBody::remote(client, server, available);
 
@@ -317,7 +317,7 @@ where
 
                 // Return searching hint if neither local nor known remote record found
                 let hint = driver.router()
-                    .lookup_remote_client_hint(&request.0.public_key, request.0.request.client_type)
+                    .lookup_remote_client_hint(&request.0.request.public_key, request.0.request.client_type)
                     .await;
 
                 match hint {
-- 
2.43.0


From d2396573d8be9269f9530457d863348234bdba87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:11 +0000
Subject: [PATCH 08/14] fix: do not request the same server twice during the
 traversal

---
 src/drivers/server/traversal/bfs_recursion.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/drivers/server/traversal/bfs_recursion.rs b/src/drivers/server/traversal/bfs_recursion.rs
index 5acdf55..e3a79ef 100755
--- a/src/drivers/server/traversal/bfs_recursion.rs
+++ b/src/drivers/server/traversal/bfs_recursion.rs
@@ -1,4 +1,4 @@
-use std::collections::VecDeque;
+use std::collections::{HashSet, VecDeque};
 
 use crate::http::client::HttpClient;
 use crate::rest_api::middleware::Client as ClientMiddleware;
@@ -21,10 +21,15 @@ impl Traversal for BfsRecursionTraversal {
 
             let mut remote_servers = VecDeque::from(remote_servers);
 
+            // Store used addresses to prevent infinite traversal loops
+            let mut used_addresses = HashSet::new();
+
             while let Some(remote_server) = remote_servers.pop_front() {
-                if let Ok(mut response) = client.get_servers(&remote_server.address).await {
-                    for remote_server in response.drain(..) {
-                        remote_servers.push_back(remote_server);
+                if used_addresses.insert(remote_server.address.clone()) {
+                    if let Ok(mut response) = client.get_servers(&remote_server.address).await {
+                        for remote_server in response.drain(..) {
+                            remote_servers.push_back(remote_server);
+                        }
                     }
                 }
 
-- 
2.43.0


From 7aa8a362a232c8beaf44328c551c24642056add6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:43 +0000
Subject: [PATCH 09/14] fix: withdraw every made port forward and keep the
 failed ones

---
 src/port_forward/upnp.rs | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/port_forward/upnp.rs b/src/port_forward/upnp.rs
index da7e05f..14ca994 100644
--- a/src/port_forward/upnp.rs
+++ b/src/port_forward/upnp.rs
@@ -21,7 +21,7 @@ impl UpnpPortForwarder {
             address: None,
             port,
             protocol,
-            duration: duration.as_secs() as u32,
+            duration: u32::try_from(duration.as_secs()).unwrap_or(u32::MAX),
             comment: String::from("Hyperborea UPnP port forwarder")
         }
     }
@@ -54,28 +54,45 @@ impl PortForwarder for UpnpPortForwarder {
     }
 
     async fn close(&self, port: u16, protocol: Protocol) -> Result<bool, Self::Error> {
+        if protocol == Protocol::Both {
+            let tcp = self.close(port, Protocol::TCP).await;
+            let udp = self.close(port, Protocol::UDP).await;
+
+            return Ok(tcp? && udp?);
+        }
+
         let mut forwarded = self.forwarded.lock()
             .expect("Failed to get forwards table");
 
-        if let Some(config) = forwarded.remove(&(port, protocol)) {
-            delete_ports([config])
+        if let Some(config) = forwarded.get(&(port, protocol)) {
+            let duration = Duration::from_secs(config.duration as u64);
+
+            delete_ports([Self::build_config(config.port, config.protocol, duration)])
                 .next()
                 .unwrap()?;
+
+            forwarded.remove(&(port, protocol));
         }
 
         Ok(true)
     }
 
     async fn discard(&self) -> Result<bool, Self::Error> {
-        let configs = self.forwarded.lock()
+        let forwards = self.forwarded.lock()
             .expect("Failed to get forwards table")
-            .drain()
-            .map(|(_, v)| v)
+            .keys()
+            .copied()
             .collect::<Vec<_>>();
 
-        delete_ports(configs)
-            .collect::<Result<_, _>>()?;
+        // Try to close all the forwards even if some of them fail
+        let mut result = Ok(true);
 
-        Ok(true)
+        for (port, protocol) in forwards {
+            if let Err(err) = self.close(port, protocol).await {
+                result = Err(err);
+            }
+        }
+
+        result
     }
 }
-- 
2.43.0


From b59782c5b80fc241e2d9b7c86e52d736ca6e31e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:06 +0000
Subject: [PATCH 10/14] fix: keep inbox channels within their own folders

---
 .../server/messages_inbox/stored_queue.rs     | 32 +++++++++++++++----
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/drivers/server/messages_inbox/stored_queue.rs b/src/drivers/server/messages_inbox/stored_queue.rs
index 283a7cd..e1e64cf 100644
--- a/src/drivers/server/messages_inbox/stored_queue.rs
+++ b/src/drivers/server/messages_inbox/stored_queue.rs
@@ -40,6 +40,30 @@ impl StoredQueueMessagesInbox {
             storage_folder
         })
     }
+
+    /// Get path to the folder with messages queue of the given
+    /// client's channel.
+    /// 
+    /// Name of the channel is given by other network members so it
+    /// can't be used as a path as is. Names that can't be a folder's
+    /// name on their own are replaced by their hashes.
+    fn queue_folder(&self, receiver: &PublicKey, channel: &str) -> PathBuf {
+        use k256::sha2::{Digest, Sha256};
+
+        let plain = (1..=128).contains(&channel.len())
+            && !channel.starts_with('.')
+            && channel.bytes().all(|char| char.is_ascii_alphanumeric() || b" _-.".contains(&char));
+
+        let folder = if plain {
+            channel.to_string()
+        } else {
+            format!("#{}", base64_encode(Sha256::digest(channel)))
+        };
+
+        self.storage_folder
+            .join(receiver.to_base64())
+            .join(folder)
+    }
 }
 
 #[async_trait::async_trait]
@@ -61,9 +85,7 @@ impl MessagesInbox for StoredQueueMessagesInbox {
             "Adding new message"
         );
 
-        let folder = self.storage_folder
-            .join(receiver.to_base64())
-            .join(&channel);
+        let folder = self.queue_folder(&receiver, &channel);
 
         tokio::fs::create_dir_all(&folder).await?;
 
@@ -103,9 +125,7 @@ impl MessagesInbox for StoredQueueMessagesInbox {
             "Polling messages"
         );
 
-        let folder = self.storage_folder
-            .join(receiver.to_base64())
-            .join(&channel);
+        let folder = self.queue_folder(&receiver, &channel);
 
         if let Ok(index) = tokio::fs::read(folder.join("index")).await {
             assert!(index.len() % 8 == 0);
-- 
2.43.0


From a8a47f1601b4a1a4ffc45f79094237365af32880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:06 +0000
Subject: [PATCH 11/14] fix: do not lose or duplicate inbox messages on
 concurrent or interrupted operations

---
 .../server/messages_inbox/stored_queue.rs     | 109 ++++++++++++++----
 1 file changed, 84 insertions(+), 25 deletions(-)

diff --git a/src/drivers/server/messages_inbox/stored_queue.rs b/src/drivers/server/messages_inbox/stored_queue.rs
index e1e64cf..e036400 100644
--- a/src/drivers/server/messages_inbox/stored_queue.rs
+++ b/src/drivers/server/messages_inbox/stored_queue.rs
@@ -1,4 +1,6 @@
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
+use std::hash::{DefaultHasher, Hash, Hasher};
+use std::sync::{Mutex, MutexGuard, PoisonError};
 
 use serde_json::Value as Json;
 
@@ -66,6 +68,45 @@ impl StoredQueueMessagesInbox {
     }
 }
 
+/// Lock given queue's folder.
+/// 
+/// Index of the queue is read and then written back, so there
+/// should be only one such operation at a time.
+fn lock_queue(folder: &Path) -> MutexGuard<'static, ()> {
+    static LOCKS: [Mutex<()>; 64] = [const { Mutex::new(()) }; 64];
+
+    let mut hasher = DefaultHasher::new();
+
+    folder.hash(&mut hasher);
+
+    LOCKS[(hasher.finish() % 64) as usize]
+        .lock()
+        .unwrap_or_else(PoisonError::into_inner)
+}
+
+/// Read index of the queue. Queue without an index is empty.
+fn read_index(folder: &Path) -> std::io::Result<Vec<u8>> {
+    match std::fs::read(folder.join("index")) {
+        Ok(index) => Ok(index),
+        Err(err) if err.kind() == std::io::ErrorKind::NotFound => Ok(vec![]),
+        Err(err) => Err(err)
+    }
+}
+
+/// Replace index of the queue, keeping either the old one or
+/// the new one if the operation gets interrupted.
+fn write_index(folder: &Path, index: &[u8]) -> std::io::Result<()> {
+    std::fs::write(folder.join("index.new"), index)?;
+    std::fs::rename(folder.join("index.new"), folder.join("index"))
+}
+
+/// Run given queue operation to the end even if nobody
+/// waits for it anymore.
+async fn run_blocking<T: Send + 'static>(callback: impl FnOnce() -> Result<T, Error> + Send + 'static) -> Result<T, Error> {
+    tokio::task::spawn_blocking(callback).await
+        .map_err(std::io::Error::other)?
+}
+
 #[async_trait::async_trait]
 impl MessagesInbox for StoredQueueMessagesInbox {
     type Error = Error;
@@ -87,15 +128,8 @@ impl MessagesInbox for StoredQueueMessagesInbox {
 
         let folder = self.queue_folder(&receiver, &channel);
 
-        tokio::fs::create_dir_all(&folder).await?;
-
-        let mut index = tokio::fs::read(folder.join("index")).await
-            .unwrap_or(vec![]);
-
         let message_id = safe_random_u64();
 
-        index.extend_from_slice(&message_id.to_be_bytes());
-
         let message_info = MessageInfo {
             sender,
             channel,
@@ -105,10 +139,22 @@ impl MessagesInbox for StoredQueueMessagesInbox {
 
         let message_info = serde_json::to_vec(&message_info.to_json()?)?;
 
-        tokio::fs::write(folder.join("index"), index).await?;
-        tokio::fs::write(folder.join(message_id.to_string()), message_info).await?;
+        run_blocking(move || {
+            let _lock = lock_queue(&folder);
 
-        Ok(())
+            std::fs::create_dir_all(&folder)?;
+
+            let mut index = read_index(&folder)?;
+
+            index.extend_from_slice(&message_id.to_be_bytes());
+
+            // Index should never refer to a message which is not stored yet
+            std::fs::write(folder.join(message_id.to_string()), message_info)?;
+
+            write_index(&folder, &index)?;
+
+            Ok(())
+        }).await
     }
 
     async fn poll_messages(
@@ -127,16 +173,19 @@ impl MessagesInbox for StoredQueueMessagesInbox {
 
         let folder = self.queue_folder(&receiver, &channel);
 
-        if let Ok(index) = tokio::fs::read(folder.join("index")).await {
-            assert!(index.len() % 8 == 0);
+        run_blocking(move || {
+            let _lock = lock_queue(&folder);
+
+            let index = read_index(&folder)?;
 
             let mut bytes = [0; 8];
             let mut limit = limit.unwrap_or(u64::MAX);
             let mut shift = 0;
 
             let mut messages = Vec::new();
+            let mut message_paths = Vec::new();
 
-            for message_id in index.chunks(8) {
+            for message_id in index.chunks_exact(8) {
                 if limit == 0 {
                     break;
                 }
@@ -146,14 +195,18 @@ impl MessagesInbox for StoredQueueMessagesInbox {
                 let message_id = u64::from_be_bytes(bytes);
                 let message_path = folder.join(message_id.to_string());
 
-                if let Ok(message_info) = tokio::fs::read(&message_path).await {
-                    let message_info = serde_json::from_slice::<Json>(&message_info)?;
+                match std::fs::read(&message_path) {
+                    Ok(message_info) => {
+                        let message_info = serde_json::from_slice::<Json>(&message_info)?;
 
-                    messages.push(MessageInfo::from_json(&message_info)?);
+                        messages.push(MessageInfo::from_json(&message_info)?);
+                        message_paths.push(message_path);
 
-                    limit -= 1;
+                        limit -= 1;
+                    }
 
-                    tokio::fs::remove_file(message_path).await?;
+                    Err(err) if err.kind() == std::io::ErrorKind::NotFound => (),
+                    Err(err) => return Err(err.into())
                 }
 
                 shift += 8;
@@ -161,15 +214,21 @@ impl MessagesInbox for StoredQueueMessagesInbox {
 
             let index = &index[shift..];
 
-            tokio::fs::write(folder.join("index"), index).await?;
+            if shift > 0 {
+                write_index(&folder, index)?;
+            }
+
+            // Messages are not listed in the index anymore
+            // so it's fine to leave some of the files there
+            for message_path in message_paths {
+                let _ = std::fs::remove_file(message_path);
+            }
 
-            return Ok((
+            Ok((
                 messages,
                 (index.len() / 8) as u64
-            ));
-        }
-
-        Ok((vec![], 0))
+            ))
+        }).await
     }
 }
 
-- 
2.43.0


From d6b693f0ffdd801e45eaf4c272a299ce8b075248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:09 +0000
Subject: [PATCH 12/14] fix: keep the routing table readable after interrupted
 and concurrent operations

---
 src/drivers/server/router/global_table.rs | 118 +++++++++++++---------
 1 file changed, 68 insertions(+), 50 deletions(-)

diff --git a/src/drivers/server/router/global_table.rs b/src/drivers/server/router/global_table.rs
index 4807704..80f1a39 100755
--- a/src/drivers/server/router/global_table.rs
+++ b/src/drivers/server/router/global_table.rs
@@ -44,6 +44,62 @@ impl GlobalTableRouter {
             storage_folder
         })
     }
+
+    /// Store the record, keeping either the old one or the new one
+    /// available if the operation gets interrupted.
+    async fn write_record(&self, folder: &str, public_key: &PublicKey, record: &Json) -> Result<(), Error> {
+        let path = self.storage_folder
+            .join(folder)
+            .join(public_key.to_base64());
+
+        let temp_path = self.storage_folder
+            .join(format!("{}.new", safe_random_u64()));
+
+        let record = serde_json::to_vec(record)?;
+
+        let mut result = tokio::fs::write(&temp_path, record).await;
+
+        if result.is_ok() {
+            result = tokio::fs::rename(&temp_path, path).await;
+        }
+
+        if result.is_err() {
+            let _ = tokio::fs::remove_file(temp_path).await;
+        }
+
+        Ok(result?)
+    }
+
+    /// Remove the record if it exists.
+    async fn remove_record(&self, folder: &str, public_key: &PublicKey) -> Result<(), Error> {
+        let path = self.storage_folder
+            .join(folder)
+            .join(public_key.to_base64());
+
+        match tokio::fs::remove_file(path).await {
+            Err(err) if err.kind() != std::io::ErrorKind::NotFound => Err(err.into()),
+            _ => Ok(())
+        }
+    }
+
+    /// Read all the records from the folder.
+    async fn read_records(&self, folder: &str) -> Result<Vec<Json>, Error> {
+        let mut records = Vec::new();
+
+        let mut entries = tokio::fs::read_dir(self.storage_folder.join(folder)).await?;
+
+        while let Some(entry) = entries.next_entry().await? {
+            match tokio::fs::read(entry.path()).await {
+                Ok(record) => records.push(serde_json::from_slice::<Json>(&record)?),
+
+                // The record was removed while we were listing the folder
+                Err(err) if err.kind() == std::io::ErrorKind::NotFound => (),
+                Err(err) => return Err(err.into())
+            }
+        }
+
+        Ok(records)
+    }
 }
 
 #[async_trait::async_trait]
@@ -51,78 +107,56 @@ impl Router for GlobalTableRouter {
     type Error = Error;
 
     async fn index_local_client(&self, client: Client) -> Result<bool, Self::Error> {
-        let path = self.storage_folder
-            .join("local")
-            .join(client.public_key.to_base64());
-
-        let client = json!({
+        let record = json!({
             "indexed_at": timestamp(),
             "client": client.to_json()?
         });
 
-        tokio::fs::write(path, serde_json::to_vec(&client)?).await?;
+        self.write_record("local", &client.public_key, &record).await?;
 
         Ok(true)
     }
 
     async fn index_remote_client(&self, client: Client, server: Server) -> Result<bool, Self::Error> {
-        let path = self.storage_folder
-            .join("remote")
-            .join(client.public_key.to_base64());
-
         let record = json!({
             "indexed_at": timestamp(),
             "client": client.to_json()?,
             "server": server.to_json()?
         });
 
-        tokio::fs::write(path, serde_json::to_vec(&record)?).await?;
+        self.write_record("remote", &client.public_key, &record).await?;
 
         Ok(true)
     }
 
     async fn index_server(&self, server: Server) -> Result<bool, Self::Error> {
-        let path = self.storage_folder
-            .join("servers")
-            .join(server.public_key.to_base64());
-
-        let server = json!({
+        let record = json!({
             "indexed_at": timestamp(),
             "server": server.to_json()?
         });
 
-        tokio::fs::write(path, serde_json::to_vec(&server)?).await?;
+        self.write_record("servers", &server.public_key, &record).await?;
 
         Ok(true)
     }
 
     async fn disconnect(&self, public_key: &PublicKey) -> Result<(), Self::Error> {
-        let public_key = public_key.to_base64();
-
         // We're just deleting the record but could also mark them
         // as unavailable. Right now I decided to delete them because:
         // 1. It's faster and easier to implement
         // 2. Current implementations generally ignore availability
         //    flag thus changing it doesn't make a weather
-        let _ = tokio::fs::remove_file(self.storage_folder.join("local").join(&public_key)).await;
-        let _ = tokio::fs::remove_file(self.storage_folder.join("remote").join(&public_key)).await;
-        let _ = tokio::fs::remove_file(self.storage_folder.join("servers").join(&public_key)).await;
+        let local = self.remove_record("local", public_key).await;
+        let remote = self.remove_record("remote", public_key).await;
+        let server = self.remove_record("servers", public_key).await;
 
-        Ok(())
+        local.and(remote).and(server)
     }
 
     async fn local_clients(&self) -> Result<Vec<Client>, Self::Error> {
         let mut clients = Vec::new();
 
-        let folder = self.storage_folder
-            .join("local");
-
-        let mut entries = tokio::fs::read_dir(folder).await?;
-
-        while let Some(entry) = entries.next_entry().await? {
-            let entry = tokio::fs::read(entry.path()).await?;
-            let record = serde_json::from_slice::<Json>(&entry)?;
-
+        for record in self.read_records("local").await? {
             let client = Client::from_json(&record["client"])?;
 
             clients.push(client);
@@ -134,15 +168,7 @@ impl Router for GlobalTableRouter {
     async fn remote_clients(&self) -> Result<Vec<(Client, Server)>, Self::Error> {
         let mut clients = Vec::new();
 
-        let folder = self.storage_folder
-            .join("remote");
-
-        let mut entries = tokio::fs::read_dir(folder).await?;
-
-        while let Some(entry) = entries.next_entry().await? {
-            let entry = tokio::fs::read(entry.path()).await?;
-            let record = serde_json::from_slice::<Json>(&entry)?;
-
+        for record in self.read_records("remote").await? {
             let client = Client::from_json(&record["client"])?;
             let server = Server::from_json(&record["server"])?;
 
@@ -155,15 +181,7 @@ impl Router for GlobalTableRouter {
     async fn servers(&self) -> Result<Vec<Server>, Self::Error> {
         let mut servers = Vec::new();
 
-        let folder = self.storage_folder
-            .join("servers");
-
-        let mut entries = tokio::fs::read_dir(folder).await?;
-
-        while let Some(entry) = entries.next_entry().await? {
-            let entry = tokio::fs::read(entry.path()).await?;
-            let record = serde_json::from_slice::<Json>(&entry)?;
-
+        for record in self.read_records("servers").await? {
             let server = Server::from_json(&record["server"])?;
 
             servers.push(server);
-- 
2.43.0


From 1d05f418ff4cf9e25da770ed22245eab22fb8b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:44 +0000
Subject: [PATCH 13/14] fix: prefer records with the newest connection
 certificate

---
 src/drivers/server/router/global_table.rs | 56 +++++++++++++++--------
 src/rest_api/middleware/server.rs         | 54 +++++++++++-----------
 2 files changed, 64 insertions(+), 46 deletions(-)

diff --git a/src/drivers/server/router/global_table.rs b/src/drivers/server/router/global_table.rs
index 80f1a39..61a8ef6 100755
--- a/src/drivers/server/router/global_table.rs
+++ b/src/drivers/server/router/global_table.rs
@@ -1,4 +1,5 @@
 use std::path::PathBuf;
+use std::sync::{Mutex, PoisonError};
 
 use serde_json::{json, Value as Json};
 
@@ -47,7 +48,12 @@ impl GlobalTableRouter {
 
     /// Store the record, keeping either the old one or the new one
     /// available if the operation gets interrupted.
-    async fn write_record(&self, folder: &str, public_key: &PublicKey, record: &Json) -> Result<(), Error> {
+    /// 
+    /// This method will return false and keep the old record if its
+    /// connection certificate is newer than the certificate of the new one.
+    async fn write_record(&self, folder: &str, public_key: &PublicKey, record: Json, auth_date: Option<u64>) -> Result<bool, Error> {
+        static LOCK: Mutex<()> = Mutex::new(());
+
         let path = self.storage_folder
             .join(folder)
             .join(public_key.to_base64());
@@ -55,19 +61,37 @@ impl GlobalTableRouter {
         let temp_path = self.storage_folder
             .join(format!("{}.new", safe_random_u64()));
 
-        let record = serde_json::to_vec(record)?;
+        tokio::task::spawn_blocking(move || {
+            // Old record should not be changed after it was compared with the new one
+            let _lock = LOCK.lock().unwrap_or_else(PoisonError::into_inner);
 
-        let mut result = tokio::fs::write(&temp_path, record).await;
+            if let Some(auth_date) = auth_date {
+                match std::fs::read(&path) {
+                    Ok(old_record) => {
+                        let old_record = serde_json::from_slice::<Json>(&old_record)?;
+                        let old_client = Client::from_json(&old_record["client"])?;
 
-        if result.is_ok() {
-            result = tokio::fs::rename(&temp_path, path).await;
-        }
+                        if old_client.certificate.token.auth_date > auth_date {
+                            return Ok(false);
+                        }
+                    }
 
-        if result.is_err() {
-            let _ = tokio::fs::remove_file(temp_path).await;
-        }
+                    Err(err) if err.kind() == std::io::ErrorKind::NotFound => (),
+                    Err(err) => return Err(err.into())
+                }
+            }
+
+            let result = std::fs::write(&temp_path, serde_json::to_vec(&record)?)
+                .and_then(|_| std::fs::rename(&temp_path, path));
 
-        Ok(result?)
+            if result.is_err() {
+                let _ = std::fs::remove_file(temp_path);
+            }
+
+            result?;
+
+            Ok(true)
+        }).await.map_err(std::io::Error::other)?
     }
 
     /// Remove the record if it exists.
@@ -112,9 +136,7 @@ impl Router for GlobalTableRouter {
             "client": client.to_json()?
         });
 
-        self.write_record("local", &client.public_key, &record).await?;
-
-        Ok(true)
+        self.write_record("local", &client.public_key, record, None).await
     }
 
     async fn index_remote_client(&self, client: Client, server: Server) -> Result<bool, Self::Error> {
@@ -124,9 +146,9 @@ impl Router for GlobalTableRouter {
             "server": server.to_json()?
         });
 
-        self.write_record("remote", &client.public_key, &record).await?;
+        let auth_date = client.certificate.token.auth_date;
 
-        Ok(true)
+        self.write_record("remote", &client.public_key, record, Some(auth_date)).await
     }
 
     async fn index_server(&self, server: Server) -> Result<bool, Self::Error> {
@@ -135,9 +157,7 @@ impl Router for GlobalTableRouter {
             "server": server.to_json()?
         });
 
-        self.write_record("servers", &server.public_key, &record).await?;
-
-        Ok(true)
+        self.write_record("servers", &server.public_key, record, None).await
     }
 
     async fn disconnect(&self, public_key: &PublicKey) -> Result<(), Self::Error> {
diff --git a/src/rest_api/middleware/server.rs b/src/rest_api/middleware/server.rs
index 4fcb816..61ebc34 100644
--- a/src/rest_api/middleware/server.rs
+++ b/src/rest_api/middleware/server.rs
@@ -274,45 +274,43 @@ where
                 }
 
                 // Try to find the client in the local index
-                match driver.router().lookup_local_client(&request.0.request.public_key, request.0.request.client_type).await {
-                    Ok(Some((client, available))) => {
-                        let body = LookupResponseBody::local(client, available);
-
-                        return LookupResponse::success(
-                            ResponseStatus::Success,
-                            &driver.params().secret_key,
-                            request.0.proof_seed,
-                            body
-                        );
-                    }
+                let local = match driver.router().lookup_local_client(&request.0.request.public_key, request.0.request.client_type).await {
+                    Ok(local) => local,
 
                     Err(err) => return LookupResponse::error(
                         ResponseStatus::ServerError,
                         format!("Failed to lookup local client: {err}")
-                    ),
-
-                    _ => ()
-                }
+                    )
+                };
 
                 // Try to find the client in the remote index
-                match driver.router().lookup_remote_client(&request.0.request.public_key, request.0.request.client_type).await {
-                    Ok(Some((client, server, available))) => {
-                        let body = LookupResponseBody::remote(client, server, available);
-
-                        return LookupResponse::success(
-                            ResponseStatus::Success,
-                            &driver.params().secret_key,
-                            request.0.proof_seed,
-                            body
-                        );
-                    }
+                let remote = match driver.router().lookup_remote_client(&request.0.request.public_key, request.0.request.client_type).await {
+                    Ok(remote) => remote,
 
                     Err(err) => return LookupResponse::error(
                         ResponseStatus::ServerError,
                         format!("Failed to lookup remote client: {err}")
-                    ),
+                    )
+                };
+
+                // Choose the record with the newest connection certificate
+                let body = match (local, remote) {
+                    (Some((local, _)), Some((remote, server, available)))
+                        if remote.certificate.token.auth_date > local.certificate.token.auth_date =>
+                            Some(LookupResponseBody::remote(remote, server, available)),
+
+                    (Some((client, available)), _) => Some(LookupResponseBody::local(client, available)),
+                    (None, Some((client, server, available))) => Some(LookupResponseBody::remote(client, server, available)),
+                    (None, None) => None
+                };
 
-                    _ => ()
+                if let Some(body) = body {
+                    return LookupResponse::success(
+                        ResponseStatus::Success,
+                        &driver.params().secret_key,
+                        request.0.proof_seed,
+                        body
+                    );
                 }
 
                 // Return searching hint if neither local nor known remote record found
-- 
2.43.0


From c573c0201b5f03b848187ca272ddc4b6263ac14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:28 +0000
Subject: [PATCH 14/14] fix: produce standard brotli streams at the quality
 level

---
 src/crypto/compression/brotli.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crypto/compression/brotli.rs b/src/crypto/compression/brotli.rs
index 17b6a85..f68d240 100644
--- a/src/crypto/compression/brotli.rs
+++ b/src/crypto/compression/brotli.rs
@@ -25,7 +25,7 @@ impl From<CompressionLevel> for BrotliEncoderParams {
             CompressionLevel::Quality => {
                 params.quality = 11;
 
-                params.large_window = true;
+                params.lgwin = 24;
             }
         }
 
-- 
2.43.0

