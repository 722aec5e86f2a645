From 23b123b2f7a26cc8bea31c181790af1d76f24adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:04 +0000
Subject: [PATCH 01/16] fix: reject auth timestamps from the future without
 overflowing

---
 cdn-proto/src/connection/auth/broker.rs  | 8 ++++++--
 cdn-proto/src/connection/auth/marshal.rs | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/cdn-proto/src/connection/auth/broker.rs b/cdn-proto/src/connection/auth/broker.rs
index c75839c..b53092b 100644
--- a/cdn-proto/src/connection/auth/broker.rs
+++ b/cdn-proto/src/connection/auth/broker.rs
@@ -277,8 +277,12 @@ impl<R: RunDef> BrokerAuth<R> {
             fail_verification_with_message!(connection, "malformed timestamp");
         };
 
-        // Make sure the timestamp is within 5 seconds
-        if timestamp.as_secs() - auth_message.timestamp > 5 {
+        // Make sure the timestamp is within 5 seconds (and not in the future)
+        if timestamp
+            .as_secs()
+            .checked_sub(auth_message.timestamp)
+            .map_or(true, |age| age > 5)
+        {
             fail_verification_with_message!(connection, "timestamp is too old");
         }
 
diff --git a/cdn-proto/src/connection/auth/marshal.rs b/cdn-proto/src/connection/auth/marshal.rs
index 418ea3c..43299ae 100644
--- a/cdn-proto/src/connection/auth/marshal.rs
+++ b/cdn-proto/src/connection/auth/marshal.rs
@@ -77,8 +77,12 @@ impl<R: RunDef> MarshalAuth<R> {
             fail_verification_with_message!(connection, "malformed timestamp");
         };
 
-        // Make sure the timestamp is within 5 seconds
-        if timestamp.as_secs() - auth_message.timestamp > 5 {
+        // Make sure the timestamp is within 5 seconds (and not in the future)
+        if timestamp
+            .as_secs()
+            .checked_sub(auth_message.timestamp)
+            .map_or(true, |age| age > 5)
+        {
             fail_verification_with_message!(connection, "timestamp is too old");
         }
 
-- 
2.43.0


From 786ba9cb35da9fb0a685a151ab3934596b9f62de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:41 +0000
Subject: [PATCH 02/16] fix: register a session before its receive loop can run

---
 cdn-broker/src/tasks/broker/handler.rs | 52 ++++++++++++++------------
 cdn-broker/src/tasks/user/handler.rs   | 42 +++++++++++----------
 2 files changed, 51 insertions(+), 43 deletions(-)

diff --git a/cdn-broker/src/tasks/broker/handler.rs b/cdn-broker/src/tasks/broker/handler.rs
index 9302490..a0badb9 100644
--- a/cdn-broker/src/tasks/broker/handler.rs
+++ b/cdn-broker/src/tasks/broker/handler.rs
@@ -67,32 +67,36 @@ impl<Def: RunDef> Inner<Def> {
         let connection_ = connection.clone();
         let broker_identifier_ = broker_identifier.clone();
 
-        // Start the receiving end of the broker
-        let receive_handle = spawn(async move {
-            // If we error, come back to the callback so we can remove the connection from the list.
-            if let Err(err) = self_
-                .broker_receive_loop(&broker_identifier_, connection_)
-                .await
-            {
-                error!(
-                    id = %broker_identifier_,
-                    error = err.to_string(),
-                    "broker error"
-                );
+        {
+            // Hold the lock until the broker is added, so that its receive loop can't process a
+            // message from (or remove) a broker that is not in the map yet
+            let mut connections = self.connections.write();
+
+            // Start the receiving end of the broker
+            let receive_handle = spawn(async move {
+                // If we error, come back to the callback so we can remove the connection from the list.
+                if let Err(err) = self_
+                    .broker_receive_loop(&broker_identifier_, connection_)
+                    .await
+                {
+                    error!(
+                        id = %broker_identifier_,
+                        error = err.to_string(),
+                        "broker error"
+                    );
 
-                // Remove the broker from the map
-                self_
-                    .connections
-                    .write()
-                    .remove_broker(&broker_identifier_, "failed to receive message");
-            };
-        })
-        .abort_handle();
+                    // Remove the broker from the map
+                    self_
+                        .connections
+                        .write()
+                        .remove_broker(&broker_identifier_, "failed to receive message");
+                };
+            })
+            .abort_handle();
 
-        // Add to our list of connections, removing the old one if it exists
-        self.connections
-            .write()
-            .add_broker(broker_identifier.clone(), connection, receive_handle);
+            // Add to our list of connections, removing the old one if it exists
+            connections.add_broker(broker_identifier.clone(), connection, receive_handle);
+        }
 
         // Send a full topic sync
         if let Err(err) = self.full_topic_sync(&broker_identifier).await {
diff --git a/cdn-broker/src/tasks/user/handler.rs b/cdn-broker/src/tasks/user/handler.rs
index d43463c..c63e7ee 100644
--- a/cdn-broker/src/tasks/user/handler.rs
+++ b/cdn-broker/src/tasks/user/handler.rs
@@ -55,25 +55,29 @@ impl<Def: RunDef> Inner<Def> {
         let public_key_ = public_key.clone();
         let connection_ = connection.clone();
 
-        // Spawn the user receive loop
-        let receive_handle = spawn(async move {
-            // If we error, come back to the callback so we can remove the connection from the list.
-            if let Err(err) = self_.user_receive_loop(&public_key_, connection_).await {
-                warn!(id = user_identifier, error = err.to_string(), "user error");
-
-                // Remove the user from the map
-                self_
-                    .connections
-                    .write()
-                    .remove_user(public_key_, "failed to receive message");
-            };
-        })
-        .abort_handle();
-
-        // Add our user and remove the old one if it exists
-        self.connections
-            .write()
-            .add_user(&public_key, connection, &topics, receive_handle);
+        {
+            // Hold the lock until the user is added, so that its receive loop can't process a
+            // message from (or remove) a user that is not in the map yet
+            let mut connections = self.connections.write();
+
+            // Spawn the user receive loop
+            let receive_handle = spawn(async move {
+                // If we error, come back to the callback so we can remove the connection from the list.
+                if let Err(err) = self_.user_receive_loop(&public_key_, connection_).await {
+                    warn!(id = user_identifier, error = err.to_string(), "user error");
+
+                    // Remove the user from the map
+                    self_
+                        .connections
+                        .write()
+                        .remove_user(public_key_, "failed to receive message");
+                };
+            })
+            .abort_handle();
+
+            // Add our user and remove the old one if it exists
+            connections.add_user(&public_key, connection, &topics, receive_handle);
+        }
 
         // If we have `strong-consistency` enabled,
         #[cfg(feature = "strong-consistency")]
-- 
2.43.0


From a5d01b01391e1fb2dadc158e95d89c517087bd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:22 +0000
Subject: [PATCH 03/16] fix: report a closed client from ensure_initialized

---
 cdn-client/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cdn-client/src/lib.rs b/cdn-client/src/lib.rs
index c379b7b..bccf1e5 100644
--- a/cdn-client/src/lib.rs
+++ b/cdn-client/src/lib.rs
@@ -332,7 +332,11 @@ impl<C: ConnectionDef> Client<C> {
         }
 
         // Otherwise, wait to acquire the connecting guard
-        let _ = self.connecting_guard.acquire().await;
+        bail!(
+            self.connecting_guard.acquire().await,
+            Connection,
+            "client has been manually closed"
+        );
 
         Ok(())
     }
-- 
2.43.0


From ab8357cd27e8a133b324329dd78b075ce94b547b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:22 +0000
Subject: [PATCH 04/16] fix: stop reconnecting once the client is closed

---
 cdn-client/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cdn-client/src/lib.rs b/cdn-client/src/lib.rs
index bccf1e5..13b93ad 100644
--- a/cdn-client/src/lib.rs
+++ b/cdn-client/src/lib.rs
@@ -212,8 +212,8 @@ impl<C: ConnectionDef> Client<C> {
                     let reconnection_task = AbortOnDropHandle(spawn(async move {
                         let mut connection = self_clone.connection.write().await;
 
-                        // Forever,
-                        loop {
+                        // Until the client is manually closed,
+                        while !self_clone.connecting_guard.is_closed() {
                             // Try to reconnect
                             match timeout(Duration::from_secs(10), self_clone.connect()).await {
                                 Ok(Ok(new_connection)) => {
-- 
2.43.0


From 5a7ad3f143193eba9dd8849a476ef3e76c1b49de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:23 +0000
Subject: [PATCH 05/16] fix: don't send empty (un)subscribe messages

---
 cdn-client/src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cdn-client/src/lib.rs b/cdn-client/src/lib.rs
index 13b93ad..ebec4b2 100644
--- a/cdn-client/src/lib.rs
+++ b/cdn-client/src/lib.rs
@@ -394,6 +394,11 @@ impl<C: ConnectionDef> Client<C> {
             .filter(|topic| !subscribed_guard.contains(topic))
             .collect();
 
+        // The broker rejects empty topic lists, so don't send one
+        if topics_to_send.is_empty() {
+            return Ok(());
+        }
+
         // Send the topics
         bail!(
             self.send_message(Message::Subscribe(topics_to_send.clone()))
@@ -428,6 +433,11 @@ impl<C: ConnectionDef> Client<C> {
             .filter(|topic| subscribed_guard.contains(topic))
             .collect();
 
+        // The broker rejects empty topic lists, so don't send one
+        if topics_to_send.is_empty() {
+            return Ok(());
+        }
+
         // Send the topics
         bail!(
             self.send_message(Message::Unsubscribe(topics_to_send.clone()))
-- 
2.43.0


From ff45427f81241646679a7089d04ae36300f363c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:23 +0000
Subject: [PATCH 06/16] fix: release the subscriptions before disconnecting

---
 cdn-client/src/lib.rs | 50 +++++++++++++++++++++++++++++++------------
 1 file changed, 36 insertions(+), 14 deletions(-)

diff --git a/cdn-client/src/lib.rs b/cdn-client/src/lib.rs
index ebec4b2..18319a9 100644
--- a/cdn-client/src/lib.rs
+++ b/cdn-client/src/lib.rs
@@ -400,21 +400,32 @@ impl<C: ConnectionDef> Client<C> {
         }
 
         // Send the topics
-        bail!(
-            self.send_message(Message::Subscribe(topics_to_send.clone()))
-                .await,
+        let connection = bail!(
+            self.try_get_connection(),
             Connection,
             "failed to send subscription message"
         );
+        let result = connection
+            .send_message(Message::Subscribe(topics_to_send.clone()))
+            .await;
 
         // Add the topics to the list if successful
-        for topic in topics_to_send {
-            subscribed_guard.insert(topic);
+        if result.is_ok() {
+            for topic in topics_to_send {
+                subscribed_guard.insert(topic);
+            }
         }
 
-        // Drop the write guard
+        // Drop the write guard before we (potentially) disconnect: a reconnection
+        // holds the connection while it waits to read the subscribed topics
         drop(subscribed_guard);
 
+        bail!(
+            disconnect_on_error!(self, result),
+            Connection,
+            "failed to send subscription message"
+        );
+
         Ok(())
     }
 
@@ -439,21 +450,32 @@ impl<C: ConnectionDef> Client<C> {
         }
 
         // Send the topics
-        bail!(
-            self.send_message(Message::Unsubscribe(topics_to_send.clone()))
-                .await,
+        let connection = bail!(
+            self.try_get_connection(),
             Connection,
             "failed to send unsubscription message"
         );
-
-        // Add the topics to the list if successful
-        for topic in topics_to_send {
-            subscribed_guard.remove(&topic);
+        let result = connection
+            .send_message(Message::Unsubscribe(topics_to_send.clone()))
+            .await;
+
+        // Remove the topics from the list if successful
+        if result.is_ok() {
+            for topic in topics_to_send {
+                subscribed_guard.remove(&topic);
+            }
         }
 
-        // Drop the write guard
+        // Drop the write guard before we (potentially) disconnect: a reconnection
+        // holds the connection while it waits to read the subscribed topics
         drop(subscribed_guard);
 
+        bail!(
+            disconnect_on_error!(self, result),
+            Connection,
+            "failed to send unsubscription message"
+        );
+
         Ok(())
     }
 
-- 
2.43.0


From 6e3fc8e3bd3e26e906302fd70914659c42bca3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:56 +0000
Subject: [PATCH 07/16] fix: bind permits to the public key that was verified
 and whitelisted

---
 cdn-proto/src/connection/auth/marshal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdn-proto/src/connection/auth/marshal.rs b/cdn-proto/src/connection/auth/marshal.rs
index 43299ae..87e7eaa 100644
--- a/cdn-proto/src/connection/auth/marshal.rs
+++ b/cdn-proto/src/connection/auth/marshal.rs
@@ -127,7 +127,7 @@ impl<R: RunDef> MarshalAuth<R> {
                 #[cfg(not(feature = "global-permits"))]
                 &broker_with_least_connections,
                 Duration::from_secs(30),
-                auth_message.public_key,
+                public_key.clone(),
             )
             .await
         {
-- 
2.43.0


From 74f8cc1081349fc9db5066116d0246900ece9e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:57 +0000
Subject: [PATCH 08/16] fix: never issue a permit that collides with a response
 code

---
 cdn-proto/src/discovery/embedded.rs | 6 +++---
 cdn-proto/src/discovery/redis.rs    | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/cdn-proto/src/discovery/embedded.rs b/cdn-proto/src/discovery/embedded.rs
index 3303cdf..39dbbda 100644
--- a/cdn-proto/src/discovery/embedded.rs
+++ b/cdn-proto/src/discovery/embedded.rs
@@ -11,7 +11,7 @@ use std::{
 };
 
 use async_trait::async_trait;
-use rand::{rngs::StdRng, RngCore, SeedableRng};
+use rand::{rngs::StdRng, Rng, SeedableRng};
 use sqlx::{query, query_as, sqlite::SqliteConnectOptions, QueryBuilder, Row, SqlitePool};
 
 use super::{BrokerIdentifier, DiscoveryClient};
@@ -234,9 +234,9 @@ impl DiscoveryClient for Embedded {
         expiry: Duration,
         public_key: Vec<u8>,
     ) -> Result<u64> {
-        // Create random permit number
+        // Create random permit number. Neither `0` nor `1`, which are response codes
         // TODO: figure out if it makes sense to initialize this somewhere else
-        let permit = StdRng::from_entropy().next_u32();
+        let permit = StdRng::from_entropy().gen_range(2..=u32::MAX);
 
         #[cfg(not(feature = "global-permits"))]
         let broker = for_broker.to_string();
diff --git a/cdn-proto/src/discovery/redis.rs b/cdn-proto/src/discovery/redis.rs
index 6518f8d..164c544 100644
--- a/cdn-proto/src/discovery/redis.rs
+++ b/cdn-proto/src/discovery/redis.rs
@@ -14,7 +14,7 @@
 use std::{collections::HashSet, time::Duration};
 
 use async_trait::async_trait;
-use rand::{rngs::StdRng, RngCore, SeedableRng};
+use rand::{rngs::StdRng, Rng, SeedableRng};
 use redis::aio::ConnectionManager;
 
 use super::{BrokerIdentifier, DiscoveryClient};
@@ -210,9 +210,9 @@ impl DiscoveryClient for Redis {
         expiry: Duration,
         public_key: Vec<u8>,
     ) -> Result<u64> {
-        // Create random permit number
+        // Create random permit number. Neither `0` nor `1`, which are response codes
         // TODO: figure out if it makes sense to initialize this somewhere else
-        let permit = StdRng::from_entropy().next_u64();
+        let permit = StdRng::from_entropy().gen_range(2..=u64::MAX);
 
         // Issue this permit for either one broker or all brokers (if we have
         // the `global-permits` feature enabled)
-- 
2.43.0


From dffc646eedb4021985de5cf15e21fa9a9783b87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:57 +0000
Subject: [PATCH 09/16] fix: don't panic on a malformed broker identifier

---
 cdn-proto/src/discovery/embedded.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdn-proto/src/discovery/embedded.rs b/cdn-proto/src/discovery/embedded.rs
index 39dbbda..d0fdd65 100644
--- a/cdn-proto/src/discovery/embedded.rs
+++ b/cdn-proto/src/discovery/embedded.rs
@@ -213,7 +213,7 @@ impl DiscoveryClient for Embedded {
         // Convert to broker identifiers
         let mut brokers_parsed = HashSet::new();
         for broker in brokers {
-            brokers_parsed.insert(broker.identifier.try_into().unwrap());
+            brokers_parsed.insert(broker.identifier.try_into()?);
         }
 
         // Remove ourselves
-- 
2.43.0


From 99407c1cdbce044b85c4cc107703d7950500828e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:57 +0000
Subject: [PATCH 10/16] fix: replace the embedded whitelist in a transaction

---
 cdn-proto/src/discovery/embedded.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/cdn-proto/src/discovery/embedded.rs b/cdn-proto/src/discovery/embedded.rs
index d0fdd65..a0e6273 100644
--- a/cdn-proto/src/discovery/embedded.rs
+++ b/cdn-proto/src/discovery/embedded.rs
@@ -343,12 +343,22 @@ impl DiscoveryClient for Embedded {
         // Build the query
         let query = query_builder.build();
 
-        // Execute the query
+        // Execute the query in a transaction, so that nobody observes a partial whitelist
+        let mut transaction = bail!(
+            self.pool.begin().await,
+            File,
+            "failed to begin setting whitelist"
+        );
         bail!(
-            query.execute(&self.pool).await,
+            query.execute(&mut *transaction).await,
             File,
             "failed to set whitelist"
         );
+        bail!(
+            transaction.commit().await,
+            File,
+            "failed to commit whitelist"
+        );
 
         Ok(())
     }
-- 
2.43.0


From ec3f08cbbdabc6ba1b6bd5f107bd21f64a9e07f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:57 +0000
Subject: [PATCH 11/16] fix: keep the heartbeat interval when other brokers
 can't be fetched

---
 cdn-broker/src/tasks/broker/heartbeat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cdn-broker/src/tasks/broker/heartbeat.rs b/cdn-broker/src/tasks/broker/heartbeat.rs
index e7a8f5f..4a485e9 100644
--- a/cdn-broker/src/tasks/broker/heartbeat.rs
+++ b/cdn-broker/src/tasks/broker/heartbeat.rs
@@ -55,12 +55,12 @@ impl<Def: RunDef> Inner<Def> {
                     Ok(Ok(brokers)) => brokers,
                     Ok(Err(err)) => {
                         error!("failed to get other brokers: {}", err);
-                        continue;
+                        HashSet::new()
                     }
                     Err(_) => {
                         // This is an important error
                         error!("timed out trying to get other brokers");
-                        continue;
+                        HashSet::new()
                     }
                 };
 
-- 
2.43.0


From 187c7bf208263a6c33f2fbc6ea2dc4f5712b82af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:57 +0000
Subject: [PATCH 12/16] fix: don't kick a user that a sync locates at this
 broker

---
 cdn-broker/src/connections/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cdn-broker/src/connections/mod.rs b/cdn-broker/src/connections/mod.rs
index 6499a99..05b9e7b 100644
--- a/cdn-broker/src/connections/mod.rs
+++ b/cdn-broker/src/connections/mod.rs
@@ -156,8 +156,11 @@ impl Connections {
         let users_to_remove = self.direct_map.merge(map);
 
         // We should remove the users that are different, if they exist locally.
-        for (user, _new_broker) in users_to_remove {
-            self.remove_user(user, "user connected elsewhere");
+        for (user, new_broker) in users_to_remove {
+            // If the new value is us, the user is still connected here
+            if new_broker.as_ref() != Some(&self.identity) {
+                self.remove_user(user, "user connected elsewhere");
+            }
         }
     }
 
-- 
2.43.0


From 85e69e52de2b9292150d2d7b61d04d7293439fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:57 +0000
Subject: [PATCH 13/16] fix: bound flushing a stream by a timeout

---
 cdn-proto/src/connection/protocols/mod.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/cdn-proto/src/connection/protocols/mod.rs b/cdn-proto/src/connection/protocols/mod.rs
index b53b1e6..02f707c 100644
--- a/cdn-proto/src/connection/protocols/mod.rs
+++ b/cdn-proto/src/connection/protocols/mod.rs
@@ -167,10 +167,13 @@ impl Connection {
 
                         // Flush the writer
                         // Is a no-op for everything but TCP+TLS
-                        if let Err(err) = writer.flush().await {
-                            warn!("failed to flush writer: {:?}", err);
-                            receive_from_caller.close();
-                            return;
+                        match timeout(Duration::from_secs(5), writer.flush()).await {
+                            Ok(Ok(())) => {}
+                            err => {
+                                warn!("failed to flush writer: {:?}", err);
+                                receive_from_caller.close();
+                                return;
+                            }
                         };
                     }
                     BytesOrSoftClose::SoftClose(result_sender) => {
-- 
2.43.0


From cba1b882edfcdd0c722b5a159192163410ff4d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:57 +0000
Subject: [PATCH 14/16] fix: fail pending soft closes when a stream can't be
 written to

---
 cdn-proto/src/connection/protocols/mod.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/cdn-proto/src/connection/protocols/mod.rs b/cdn-proto/src/connection/protocols/mod.rs
index 02f707c..e288105 100644
--- a/cdn-proto/src/connection/protocols/mod.rs
+++ b/cdn-proto/src/connection/protocols/mod.rs
@@ -161,8 +161,7 @@ impl Connection {
                         // Write the message to the stream
                         if let Err(err) = write_length_delimited(&mut writer, message).await {
                             warn!("failed to write message to stream: {:?}", err);
-                            receive_from_caller.close();
-                            return;
+                            break;
                         };
 
                         // Flush the writer
@@ -171,8 +170,7 @@ impl Connection {
                             Ok(Ok(())) => {}
                             err => {
                                 warn!("failed to flush writer: {:?}", err);
-                                receive_from_caller.close();
-                                return;
+                                break;
                             }
                         };
                     }
@@ -185,6 +183,11 @@ impl Connection {
                     }
                 }
             }
+
+            // Close the channel and drop what is left in it, so that nobody waits for a
+            // soft close that will never be processed
+            receive_from_caller.close();
+            while receive_from_caller.try_recv().is_ok() {}
         })
         .abort_handle();
 
-- 
2.43.0


From a945ba4c6b25be9d500e55ab8e6f2bcdac571703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:29 +0000
Subject: [PATCH 15/16] fix: return from ensure_initialized only once there is
 a connection

---
 cdn-client/src/lib.rs | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/cdn-client/src/lib.rs b/cdn-client/src/lib.rs
index 18319a9..b956fda 100644
--- a/cdn-client/src/lib.rs
+++ b/cdn-client/src/lib.rs
@@ -319,26 +319,26 @@ impl<C: ConnectionDef> Client<C> {
     /// # Errors
     /// - If the connection has been closed
     pub async fn ensure_initialized(&self) -> Result<()> {
-        // Return early if the connecting guard is closed
-        if self.connecting_guard.is_closed() {
-            return Err(Error::Connection(
-                "client has been manually closed".to_string(),
-            ));
-        }
-
-        // If we are already connected, return
-        if self.try_get_connection().is_ok() {
-            return Ok(());
-        }
+        loop {
+            // Return early if the connecting guard is closed
+            if self.connecting_guard.is_closed() {
+                return Err(Error::Connection(
+                    "client has been manually closed".to_string(),
+                ));
+            }
 
-        // Otherwise, wait to acquire the connecting guard
-        bail!(
-            self.connecting_guard.acquire().await,
-            Connection,
-            "client has been manually closed"
-        );
+            // If we are already connected, return
+            if self.get_connection().await.is_ok() {
+                return Ok(());
+            }
 
-        Ok(())
+            // Otherwise, wait to acquire the connecting guard and check again
+            bail!(
+                self.connecting_guard.acquire().await,
+                Connection,
+                "client has been manually closed"
+            );
+        }
     }
 
     /// Sends a pre-serialized message to the server, denoting recipients in the form
-- 
2.43.0


From 91bb484d9e15cd972ab602427ff2698d3d5fc16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:43 +0000
Subject: [PATCH 16/16] fix: don't let a replaced session act on its successor

A session's task that was removed or replaced while it waited for the
connections' lock went on to (un)subscribe, sync topics or remove under
its identity, which by then was another session's. The same for sends
that failed: the recipient's new session was removed in its place.
---
 cdn-broker/src/connections/mod.rs         | 18 +++++++++++
 cdn-broker/src/tasks/broker/handler.rs    | 39 +++++++++++++----------
 cdn-broker/src/tasks/broker/sender.rs     | 11 ++++---
 cdn-broker/src/tasks/user/handler.rs      | 29 ++++++++++-------
 cdn-broker/src/tasks/user/sender.rs       | 10 +++---
 cdn-proto/src/connection/protocols/mod.rs |  5 +++
 6 files changed, 75 insertions(+), 37 deletions(-)

diff --git a/cdn-broker/src/connections/mod.rs b/cdn-broker/src/connections/mod.rs
index 05b9e7b..01dfe7e 100644
--- a/cdn-broker/src/connections/mod.rs
+++ b/cdn-broker/src/connections/mod.rs
@@ -85,6 +85,24 @@ impl Connections {
         self.users.get(user).map(|(c, _)| c.clone())
     }
 
+    /// Whether or not `connection` is (still) the one the given user is connected with
+    pub fn is_user_connection(&self, user: &UserPublicKey, connection: &Connection) -> bool {
+        self.users
+            .get(user)
+            .is_some_and(|(current, _)| current.is_same(connection))
+    }
+
+    /// Whether or not `connection` is (still) the one the given broker is connected with
+    pub fn is_broker_connection(
+        &self,
+        broker_identifier: &BrokerIdentifier,
+        connection: &Connection,
+    ) -> bool {
+        self.brokers
+            .get(broker_identifier)
+            .is_some_and(|broker| broker.connection.is_same(connection))
+    }
+
     /// Get all broker identifiers that we are connected to
     pub fn get_broker_identifiers(&self) -> Vec<BrokerIdentifier> {
         self.brokers.keys().cloned().collect()
diff --git a/cdn-broker/src/tasks/broker/handler.rs b/cdn-broker/src/tasks/broker/handler.rs
index a0badb9..ec6a0b9 100644
--- a/cdn-broker/src/tasks/broker/handler.rs
+++ b/cdn-broker/src/tasks/broker/handler.rs
@@ -76,7 +76,7 @@ impl<Def: RunDef> Inner<Def> {
             let receive_handle = spawn(async move {
                 // If we error, come back to the callback so we can remove the connection from the list.
                 if let Err(err) = self_
-                    .broker_receive_loop(&broker_identifier_, connection_)
+                    .broker_receive_loop(&broker_identifier_, connection_.clone())
                     .await
                 {
                     error!(
@@ -85,17 +85,21 @@ impl<Def: RunDef> Inner<Def> {
                         "broker error"
                     );
 
-                    // Remove the broker from the map
-                    self_
-                        .connections
-                        .write()
-                        .remove_broker(&broker_identifier_, "failed to receive message");
+                    // Remove the broker from the map, unless it has reconnected
+                    let mut connections = self_.connections.write();
+                    if connections.is_broker_connection(&broker_identifier_, &connection_) {
+                        connections.remove_broker(&broker_identifier_, "failed to receive message");
+                    }
                 };
             })
             .abort_handle();
 
             // Add to our list of connections, removing the old one if it exists
-            connections.add_broker(broker_identifier.clone(), connection, receive_handle);
+            connections.add_broker(
+                broker_identifier.clone(),
+                connection.clone(),
+                receive_handle,
+            );
         }
 
         // Send a full topic sync
@@ -103,9 +107,10 @@ impl<Def: RunDef> Inner<Def> {
             error!("failed to perform full topic sync: {err}");
 
             // Remove the broker if we fail the initial sync
-            self.connections
-                .write()
-                .remove_broker(&broker_identifier, "failed to send full topic sync");
+            let mut connections = self.connections.write();
+            if connections.is_broker_connection(&broker_identifier, &connection) {
+                connections.remove_broker(&broker_identifier, "failed to send full topic sync");
+            }
 
             return;
         };
@@ -115,9 +120,10 @@ impl<Def: RunDef> Inner<Def> {
             error!("failed to perform full user sync: {err}");
 
             // Remove the broker if we fail the initial sync
-            self.connections
-                .write()
-                .remove_broker(&broker_identifier, "failed to send full user sync");
+            let mut connections = self.connections.write();
+            if connections.is_broker_connection(&broker_identifier, &connection) {
+                connections.remove_broker(&broker_identifier, "failed to send full user sync");
+            }
         };
     }
 
@@ -186,9 +192,10 @@ impl<Def: RunDef> Inner<Def> {
                     );
 
                     // Apply the topic sync
-                    self.connections
-                        .write()
-                        .apply_topic_sync(broker_identifier, topic_sync);
+                    let mut connections = self.connections.write();
+                    if connections.is_broker_connection(broker_identifier, &connection) {
+                        connections.apply_topic_sync(broker_identifier, topic_sync);
+                    }
                 }
 
                 // Do nothing if we receive an unexpected message
diff --git a/cdn-broker/src/tasks/broker/sender.rs b/cdn-broker/src/tasks/broker/sender.rs
index bbb7de8..6a282fd 100644
--- a/cdn-broker/src/tasks/broker/sender.rs
+++ b/cdn-broker/src/tasks/broker/sender.rs
@@ -35,11 +35,12 @@ impl<Def: RunDef> Inner<Def> {
             if let Err(e) = connection.send_message_raw(message).await {
                 error!("failed to send message to broker: {:?}", e);
 
-                // Remove the broker if we failed to send the message
-                self_
-                    .connections
-                    .write()
-                    .remove_broker(&broker_identifier_, "failed to send message");
+                // Remove the broker if we failed to send the message, unless it
+                // has reconnected in the meantime
+                let mut connections = self_.connections.write();
+                if connections.is_broker_connection(&broker_identifier_, &connection) {
+                    connections.remove_broker(&broker_identifier_, "failed to send message");
+                }
             }
         }
     }
diff --git a/cdn-broker/src/tasks/user/handler.rs b/cdn-broker/src/tasks/user/handler.rs
index c63e7ee..29fff76 100644
--- a/cdn-broker/src/tasks/user/handler.rs
+++ b/cdn-broker/src/tasks/user/handler.rs
@@ -63,14 +63,17 @@ impl<Def: RunDef> Inner<Def> {
             // Spawn the user receive loop
             let receive_handle = spawn(async move {
                 // If we error, come back to the callback so we can remove the connection from the list.
-                if let Err(err) = self_.user_receive_loop(&public_key_, connection_).await {
+                if let Err(err) = self_
+                    .user_receive_loop(&public_key_, connection_.clone())
+                    .await
+                {
                     warn!(id = user_identifier, error = err.to_string(), "user error");
 
-                    // Remove the user from the map
-                    self_
-                        .connections
-                        .write()
-                        .remove_user(public_key_, "failed to receive message");
+                    // Remove the user from the map, unless they have reconnected
+                    let mut connections = self_.connections.write();
+                    if connections.is_user_connection(&public_key_, &connection_) {
+                        connections.remove_user(public_key_, "failed to receive message");
+                    }
                 };
             })
             .abort_handle();
@@ -146,9 +149,10 @@ impl<Def: RunDef> Inner<Def> {
                     Def::Topic::prune(&mut subscribe)?;
 
                     // TODO: add handle functions for this to make it easier to read
-                    self.connections
-                        .write()
-                        .subscribe_user_to(public_key, subscribe);
+                    let mut connections = self.connections.write();
+                    if connections.is_user_connection(public_key, &connection) {
+                        connections.subscribe_user_to(public_key, subscribe);
+                    }
                 }
 
                 // Unsubscribe messages from users will just update the state locally
@@ -156,9 +160,10 @@ impl<Def: RunDef> Inner<Def> {
                     // Prune the topics
                     Def::Topic::prune(&mut unsubscribe)?;
 
-                    self.connections
-                        .write()
-                        .unsubscribe_user_from(public_key, &unsubscribe);
+                    let mut connections = self.connections.write();
+                    if connections.is_user_connection(public_key, &connection) {
+                        connections.unsubscribe_user_from(public_key, &unsubscribe);
+                    }
                 }
 
                 _ => return Err(Error::Connection("invalid message received".to_string())),
diff --git a/cdn-broker/src/tasks/user/sender.rs b/cdn-broker/src/tasks/user/sender.rs
index c701f38..07bb5a4 100644
--- a/cdn-broker/src/tasks/user/sender.rs
+++ b/cdn-broker/src/tasks/user/sender.rs
@@ -23,10 +23,12 @@ impl<Def: RunDef> Inner<Def> {
             if let Err(e) = connection.send_message_raw(message).await {
                 error!("failed to send message to user: {:?}", e);
 
-                // Remove the broker if we failed to send the message
-                self.connections
-                    .write()
-                    .remove_user(user.clone(), "failed to send message");
+                // Remove the user if we failed to send the message, unless they
+                // have reconnected in the meantime
+                let mut connections = self.connections.write();
+                if connections.is_user_connection(user, &connection) {
+                    connections.remove_user(user.clone(), "failed to send message");
+                }
             }
         }
     }
diff --git a/cdn-proto/src/connection/protocols/mod.rs b/cdn-proto/src/connection/protocols/mod.rs
index e288105..78d9a9b 100644
--- a/cdn-proto/src/connection/protocols/mod.rs
+++ b/cdn-proto/src/connection/protocols/mod.rs
@@ -222,6 +222,11 @@ impl Connection {
         }))
     }
 
+    /// Whether or not `other` is a handle to this same connection.
+    pub fn is_same(&self, other: &Self) -> bool {
+        Arc::ptr_eq(&self.0, &other.0)
+    }
+
     /// Send an (unserialized) message over the stream.
     ///
     /// # Errors
-- 
2.43.0

