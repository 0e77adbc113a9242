From 5ea10fc3ee717c73189b228dfbf6f989155989ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:42 +0000
Subject: [PATCH 01/23] fix: stop a timer when its handle is dropped

---
 coerce/src/actor/scheduler/timer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/coerce/src/actor/scheduler/timer.rs b/coerce/src/actor/scheduler/timer.rs
index fdeac15..4c7223d 100644
--- a/coerce/src/actor/scheduler/timer.rs
+++ b/coerce/src/actor/scheduler/timer.rs
@@ -5,6 +5,7 @@ use tracing::trace;
 
 use std::time::Duration;
 use tokio::sync::oneshot;
+use tokio::sync::oneshot::error::TryRecvError;
 use tokio::time;
 use tokio::time::Instant;
 use uuid::Uuid;
@@ -90,7 +91,8 @@ async fn timer_loop<A: Actor, T: TimerTick>(
     trace!("{} - timer starting", &timer_id);
 
     loop {
-        if stop_rx.try_recv().is_ok() {
+        // the timer ends once it was stopped, or once its handle was dropped
+        if !matches!(stop_rx.try_recv(), Err(TryRecvError::Empty)) {
             break;
         }
 
-- 
2.43.0


From c2ab26d896ed06b45f516b9b4bc4dceec9da1433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:03 +0000
Subject: [PATCH 02/23] fix: number a persisted message after the last journal
 entry

A single message was written with the sequence of the last entry, so the
first message persisted after a snapshot had the snapshot's sequence and
was skipped by recovery.
---
 coerce/src/persistent/journal/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/coerce/src/persistent/journal/mod.rs b/coerce/src/persistent/journal/mod.rs
index 9ebfea7..bfb90c8 100644
--- a/coerce/src/persistent/journal/mod.rs
+++ b/coerce/src/persistent/journal/mod.rs
@@ -266,11 +266,13 @@ impl<A: PersistentActor> Journal<A> {
             .message_type_mapping::<M>()
             .expect("message type not configured");
 
+        let sequence = self.last_sequence_id + 1;
+
         self.storage
             .write_message(
                 &self.persistence_id,
                 JournalEntry {
-                    sequence: self.last_sequence_id,
+                    sequence,
                     payload_type: payload_type.clone(),
                     bytes,
                 },
@@ -283,7 +285,7 @@ impl<A: PersistentActor> Journal<A> {
             M::type_name()
         );
 
-        self.last_sequence_id += 1;
+        self.last_sequence_id = sequence;
         Ok(())
     }
 
-- 
2.43.0


From 22d37cccbcf3d3bf5dd9137d38593899b3b11332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:36 +0000
Subject: [PATCH 03/23] fix: read a range of messages from the in-memory
 journal

Ranges ending before the newest message were cut at their start, or
panicked. Both bounds are inclusive, as in the redis provider.
---
 coerce/src/persistent/journal/provider.rs | 48 ++++-------------------
 1 file changed, 7 insertions(+), 41 deletions(-)

diff --git a/coerce/src/persistent/journal/provider.rs b/coerce/src/persistent/journal/provider.rs
index 8d2de5f..8668f23 100644
--- a/coerce/src/persistent/journal/provider.rs
+++ b/coerce/src/persistent/journal/provider.rs
@@ -201,49 +201,15 @@ pub mod inmemory {
                     if journal.messages.is_empty() {
                         Ok(None)
                     } else {
-                        let first_seq = journal.messages.first().map(|m| m.sequence).unwrap();
-                        let final_seq = journal.messages.last().map(|m| m.sequence).unwrap();
-
-                        if to_sequence >= final_seq {
-                            if first_seq >= from_sequence {
-                                Ok(Some(journal.messages.clone()))
-                            } else {
-                                let starting_message = journal
-                                    .messages
-                                    .iter()
-                                    .enumerate()
-                                    .find(|(_index, j)| j.sequence > from_sequence)
-                                    .map(|(index, _j)| index);
-
-                                if let Some(starting_index) = starting_message {
-                                    Ok(Some(
-                                        journal.messages[starting_index..]
-                                            .iter()
-                                            .cloned()
-                                            .collect(),
-                                    ))
-                                } else {
-                                    Ok(Some(vec![]))
-                                }
-                            }
-                        } else if first_seq >= from_sequence {
-                            let end_message = journal
+                        Ok(Some(
+                            journal
                                 .messages
                                 .iter()
-                                .enumerate()
-                                .find(|(_index, j)| j.sequence > from_sequence)
-                                .map(|(index, _j)| index);
-
-                            if let Some(end_index) = end_message {
-                                Ok(Some(
-                                    journal.messages[..end_index].iter().cloned().collect(),
-                                ))
-                            } else {
-                                Ok(Some(vec![]))
-                            }
-                        } else {
-                            panic!("todo: this")
-                        }
+                                .filter(|m| m.sequence >= from_sequence)
+                                .filter(|m| m.sequence <= to_sequence)
+                                .cloned()
+                                .collect(),
+                        ))
                     }
                 }
             }
-- 
2.43.0


From 9582208baad767a21bac8a5e5a4c94fa037eb29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:01 +0000
Subject: [PATCH 04/23] fix: answer a remote request without registering a
 request of our own

---
 coerce/src/remote/system/rpc.rs | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/coerce/src/remote/system/rpc.rs b/coerce/src/remote/system/rpc.rs
index 4e583c2..d773d3e 100644
--- a/coerce/src/remote/system/rpc.rs
+++ b/coerce/src/remote/system/rpc.rs
@@ -128,12 +128,7 @@ impl RemoteActorSystem {
                 ..Default::default()
             });
 
-            if let Err(e) = self.node_rpc_raw(request_id, result, node_id).await {
-                error!(
-                    "error whilst sending result to target node (node_id={}, request_id={}) error: {}",
-                    &node_id, &request_id, &e
-                );
-            }
+            self.notify_node(node_id, result).await;
         }
     }
 
@@ -156,12 +151,7 @@ impl RemoteActorSystem {
                 ..Default::default()
             });
 
-            if let Err(e) = self.node_rpc_raw(request_id, result, node_id).await {
-                error!(
-                    "error whilst sending result to target node (node_id={}, request_id={}) error: {}",
-                    &node_id, &request_id, &e
-                );
-            }
+            self.notify_node(node_id, result).await;
         }
     }
 
-- 
2.43.0


From 52eeb2e88181e4bc396124ede8ea99f26e603961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:01 +0000
Subject: [PATCH 05/23] fix: do not leave a pending request behind when a
 remote message cannot be sent

---
 coerce/src/remote/actor_ref.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coerce/src/remote/actor_ref.rs b/coerce/src/remote/actor_ref.rs
index 72ecc97..24d851a 100644
--- a/coerce/src/remote/actor_ref.rs
+++ b/coerce/src/remote/actor_ref.rs
@@ -75,11 +75,11 @@ where
     {
         let id = Uuid::new_v4();
 
+        let event = self.create_request(msg, String::new(), id, true)?;
+
         let (res_tx, res_rx) = oneshot::channel();
         self.system.push_request(id, res_tx);
 
-        let event = self.create_request(msg, String::new(), id, true)?;
-
         // TODO: we could make this fail fast if the node is known to be terminated?
         self.system.notify_node(self.node_id, event).await;
         match res_rx.await {
-- 
2.43.0


From 77de36251f73b8008d1d056db958564d418245d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:17 +0000
Subject: [PATCH 06/23] fix: recognise a leader whose node id is above i64::MAX

---
 coerce/src/remote/system/cluster.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coerce/src/remote/system/cluster.rs b/coerce/src/remote/system/cluster.rs
index e335a05..1871a92 100644
--- a/coerce/src/remote/system/cluster.rs
+++ b/coerce/src/remote/system/cluster.rs
@@ -40,7 +40,7 @@ impl RemoteActorSystem {
 
     pub fn current_leader(&self) -> Option<NodeId> {
         let n = self.inner.current_leader.load(Ordering::SeqCst);
-        if n >= 0 {
+        if n != -1 {
             Some(n as NodeId)
         } else {
             None
@@ -52,7 +52,7 @@ impl RemoteActorSystem {
             .inner
             .current_leader
             .swap(new_leader as i64, Ordering::SeqCst);
-        if n >= 0 {
+        if n != -1 {
             Some(n as NodeId)
         } else {
             None
-- 
2.43.0


From 310901ce0a578c7fd2e33a365fcc61e2b5cae574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:17 +0000
Subject: [PATCH 07/23] fix: a node whose ping timed out is terminated after
 the timeout, not before it

---
 coerce/src/remote/heartbeat/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coerce/src/remote/heartbeat/mod.rs b/coerce/src/remote/heartbeat/mod.rs
index a192a0b..77baa8f 100644
--- a/coerce/src/remote/heartbeat/mod.rs
+++ b/coerce/src/remote/heartbeat/mod.rs
@@ -435,7 +435,7 @@ fn node_status(
         Some(PingResult::Timeout) => {
             let terminated = last_heartbeat.map_or(true, |h| {
                 h.add(chrono::Duration::from_std(config.terminated_node_heartbeat_timeout).unwrap())
-                    >= Utc::now()
+                    < Utc::now()
             });
 
             if terminated {
-- 
2.43.0


From 97c7ce4f9439274e89d4049f242edd4cbf2534dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:17 +0000
Subject: [PATCH 08/23] fix: a node whose handshake failed can be discovered
 again

---
 coerce/src/remote/cluster/discovery/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coerce/src/remote/cluster/discovery/mod.rs b/coerce/src/remote/cluster/discovery/mod.rs
index 6642fef..6e0ac6f 100644
--- a/coerce/src/remote/cluster/discovery/mod.rs
+++ b/coerce/src/remote/cluster/discovery/mod.rs
@@ -223,6 +223,8 @@ impl Handler<NodeDiscovered> for NodeDiscovery {
             }
         } else {
             // retry handshake etc?
+            self.discovering_nodes.remove(&message.node.id);
+
             warn!(
                 "handshake to node (addr={}, id={}) from node_id={} failed",
                 message.node.addr,
-- 
2.43.0


From fe059b095c21f8721dde1c180c7571e7d2ecb3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:17 +0000
Subject: [PATCH 09/23] fix: a subscription outlives a burst of messages its
 actor was too slow for

---
 coerce/src/remote/stream/pubsub.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/coerce/src/remote/stream/pubsub.rs b/coerce/src/remote/stream/pubsub.rs
index 5f36219..5aef79d 100644
--- a/coerce/src/remote/stream/pubsub.rs
+++ b/coerce/src/remote/stream/pubsub.rs
@@ -12,6 +12,7 @@ use std::sync::Arc;
 
 use crate::remote::system::RemoteActorSystem;
 use tokio::sync::broadcast;
+use tokio::sync::broadcast::error::RecvError;
 use tokio::task::JoinHandle;
 
 pub struct PubSub;
@@ -219,10 +220,22 @@ impl Subscription {
         let task_handle = Some(tokio::spawn(async move {
             let receiver_ref = receiver_ref;
             let mut stream_receiver = topic_receiver;
-            while let Ok(message) = stream_receiver.recv().await {
-                receiver_ref
-                    .notify(message)
-                    .expect("unable to notify receiver ref");
+            loop {
+                match stream_receiver.recv().await {
+                    Ok(message) => {
+                        if receiver_ref.notify(message).is_err() {
+                            break;
+                        }
+                    }
+                    Err(RecvError::Lagged(skipped)) => {
+                        warn!(
+                            "subscriber is too slow, {} messages were skipped (topic={})",
+                            skipped,
+                            T::topic_name()
+                        );
+                    }
+                    Err(RecvError::Closed) => break,
+                }
             }
         }));
 
-- 
2.43.0


From b647014886b9ad39bfdc03b4102aaff03847ae74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:17 +0000
Subject: [PATCH 10/23] fix: close a session whose peer has terminated

---
 coerce/src/remote/net/server/session/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coerce/src/remote/net/server/session/mod.rs b/coerce/src/remote/net/server/session/mod.rs
index 04d247b..e3abf96 100644
--- a/coerce/src/remote/net/server/session/mod.rs
+++ b/coerce/src/remote/net/server/session/mod.rs
@@ -338,7 +338,7 @@ impl StreamReceiver for SessionMessageReceiver {
                         "Notified registry - node_id={} is terminated (session_id={})",
                         &ping.node_id, &self.session_id
                     );
-                    self.close();
+                    self.close().await;
                 } else {
                     trace!("ping received, sending pong");
                     self.session
-- 
2.43.0


From 86896a5bb2b57c43c428da22eddd108be0491bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:22 +0000
Subject: [PATCH 11/23] fix: tell the creator of a remote actor that its
 creation failed

---
 coerce/src/remote/net/server/session/mod.rs | 37 ++++++++++++++++++---
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/coerce/src/remote/net/server/session/mod.rs b/coerce/src/remote/net/server/session/mod.rs
index e3abf96..d362b11 100644
--- a/coerce/src/remote/net/server/session/mod.rs
+++ b/coerce/src/remote/net/server/session/mod.rs
@@ -1,6 +1,6 @@
 use crate::actor::context::{ActorContext, LogContext};
 use crate::actor::message::Handler;
-use crate::actor::{Actor, ActorId, IntoActorId, LocalActorRef};
+use crate::actor::{Actor, ActorId, ActorRefErr, IntoActorId, LocalActorRef};
 use crate::remote::actor::message::NodeTerminated;
 use crate::remote::actor::RemoteResponse;
 use crate::remote::cluster::discovery::{Discover, Seed};
@@ -9,8 +9,8 @@ use crate::remote::net::message::{
     datetime_to_timestamp, timestamp_to_datetime, ClientEvent, SessionEvent,
 };
 use crate::remote::net::proto::network::{
-    ActorAddress, ClientHandshake, ClientResult, CreateActorEvent, MessageRequest, NodeIdentity,
-    PongEvent, RemoteNode as RemoteNodeProto, SessionHandshake, StreamPublishEvent,
+    ActorAddress, ClientErr, ClientHandshake, ClientResult, CreateActorEvent, MessageRequest,
+    NodeIdentity, PongEvent, RemoteNode as RemoteNodeProto, SessionHandshake, StreamPublishEvent,
     SystemCapabilities,
 };
 use crate::remote::net::server::session::store::{RemoteSessionStore, SessionClosed, SessionWrite};
@@ -612,8 +612,18 @@ async fn session_create_actor(
         .await
     {
         Ok(buf) => send_result(msg_id.parse().unwrap(), buf.to_vec(), session_id, session).await,
-        Err(_) => {
-            error!("failed to handle message, todo: send err");
+        Err(e) => {
+            error!(
+                "failed to create actor (message_id={}), error={:?}",
+                &msg_id, e
+            );
+            send_err(
+                msg_id.parse().unwrap(),
+                ActorRefErr::ActorUnavailable,
+                session_id,
+                session,
+            )
+            .await
         }
     }
 }
@@ -645,3 +655,20 @@ async fn send_result(
         error!("failed to send result");
     }
 }
+
+async fn send_err(
+    msg_id: Uuid,
+    error: ActorRefErr,
+    session_id: i64,
+    session: LocalActorRef<RemoteSession>,
+) {
+    let event = ClientEvent::Err(ClientErr {
+        message_id: msg_id.to_string(),
+        error: Some(error.into()).into(),
+        ..ClientErr::default()
+    });
+
+    if session.send(SessionWrite(session_id, event)).await.is_err() {
+        error!("failed to send error");
+    }
+}
-- 
2.43.0


From b5033a45872bdd4b6f720ecd0bcb089527c6ed7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:12 +0000
Subject: [PATCH 12/23] fix: a shard allocated elsewhere while it was starting
 is not hosted as ready

---
 coerce/src/sharding/host/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/coerce/src/sharding/host/mod.rs b/coerce/src/sharding/host/mod.rs
index f3f3002..8b36d7f 100644
--- a/coerce/src/sharding/host/mod.rs
+++ b/coerce/src/sharding/host/mod.rs
@@ -254,6 +254,11 @@ impl Handler<ShardReady> for ShardHost {
         let shard_id = message.0;
         let actor_ref = message.1;
 
+        if !self.hosted_shards.contains_key(&shard_id) {
+            // the shard was allocated to another node (and stopped) while it was starting
+            return;
+        }
+
         let shard_state = self
             .hosted_shards
             .insert(shard_id, ShardState::Ready(actor_ref.clone()));
-- 
2.43.0


From 6d641fda000bf43cfdbfe59b1fef86a2e810ec6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:12 +0000
Subject: [PATCH 13/23] fix: keep a request to stop a shard that is still
 starting

---
 coerce/src/sharding/host/mod.rs | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/coerce/src/sharding/host/mod.rs b/coerce/src/sharding/host/mod.rs
index 8b36d7f..a27c0a1 100644
--- a/coerce/src/sharding/host/mod.rs
+++ b/coerce/src/sharding/host/mod.rs
@@ -306,23 +306,14 @@ impl Handler<StopShard> for ShardHost {
 
         match shard_entry {
             Entry::Occupied(mut shard_entry) => {
-                // TODO: is this correct? if the status is starting, should we not update that rather than re-inserting `Stopping`?
-                match shard_entry.insert(ShardState::Stopping) {
-                    ShardState::Starting {
-                        mut stop_requested, ..
-                    } => {
-                        // actor has requested to be started so we can't stop it yet, once the actor
-                        // has finished starting, we can then stop it.
-                        stop_requested = Some(stop_request);
-                    }
-
-                    ShardState::Ready(actor_ref) => {
-                        self.stop_shard(shard_id, actor_ref, ctx, Some(stop_request))
-                    }
-
-                    ShardState::Stopping => {
-                        // shard already stopping
-                    }
+                if let ShardState::Starting { stop_requested, .. } = shard_entry.get_mut() {
+                    // actor has requested to be started so we can't stop it yet, once the actor
+                    // has finished starting, we can then stop it.
+                    *stop_requested = Some(stop_request);
+                } else if let ShardState::Ready(actor_ref) =
+                    shard_entry.insert(ShardState::Stopping)
+                {
+                    self.stop_shard(shard_id, actor_ref, ctx, Some(stop_request))
                 }
             }
             Entry::Vacant(_) => {}
-- 
2.43.0


From c343e641d1c3280550c19720973c8821e58b1aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:12 +0000
Subject: [PATCH 14/23] fix: answer the requests buffered for an entity that
 failed to start

---
 coerce/src/sharding/shard/mod.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/coerce/src/sharding/shard/mod.rs b/coerce/src/sharding/shard/mod.rs
index 4940fdc..00de667 100644
--- a/coerce/src/sharding/shard/mod.rs
+++ b/coerce/src/sharding/shard/mod.rs
@@ -268,12 +268,18 @@ impl Handler<EntityStartResult> for Shard {
                 );
             }
             Err(e) => {
-                // TODO: we should respond to all buffered requests with a failure
-
                 error!(
                     "failed to spawn entity as a child of Shard#{}, actor_id={}, error={}, is_shard_recovery={}",
                     &self.shard_id, &actor_id, e, is_shard_recovery
-                )
+                );
+
+                if let Some(entity) = self.entities.remove(&actor_id) {
+                    if let EntityState::Starting { request_buffer } = entity.state {
+                        for msg in request_buffer {
+                            msg.result_channel.map(|c| c.send(Err(e.clone())));
+                        }
+                    }
+                }
             }
         }
     }
-- 
2.43.0


From 958c721317af395f0b708d76bbbc0ba817a262fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:14 +0000
Subject: [PATCH 15/23] fix: notifying a singleton no longer panics its proxy

---
 coerce/src/singleton/proxy/send.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/coerce/src/singleton/proxy/send.rs b/coerce/src/singleton/proxy/send.rs
index 5ffe844..35d6e7d 100644
--- a/coerce/src/singleton/proxy/send.rs
+++ b/coerce/src/singleton/proxy/send.rs
@@ -25,12 +25,14 @@ impl<M: Message> Deliver<M> {
         A: Handler<M>,
     {
         let message = self.message.take().unwrap();
-        let result_channel = self.result_channel.take().unwrap();
+        let result_channel = self.result_channel.take();
         tokio::spawn(async move {
             debug!(msg_type = M::type_name(), "delivering message to singleton");
 
             let res = actor.send(message).await;
-            result_channel.send(res)
+            if let Some(result_channel) = result_channel {
+                let _ = result_channel.send(res);
+            }
         });
     }
 }
-- 
2.43.0


From 2249ea3ca61a0876fc0dbbe4b19054be082aef68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:14 +0000
Subject: [PATCH 16/23] fix: report a dropped singleton request as an error
 instead of panicking the sender

---
 coerce/src/singleton/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coerce/src/singleton/mod.rs b/coerce/src/singleton/mod.rs
index b4c2054..e9485a5 100644
--- a/coerce/src/singleton/mod.rs
+++ b/coerce/src/singleton/mod.rs
@@ -94,7 +94,8 @@ impl<A: Actor, F: SingletonFactory<Actor = A>> Singleton<A, F> {
             return Err(e);
         }
 
-        rx.await.unwrap()
+        rx.await
+            .unwrap_or(Err(ActorRefErr::ResultChannelClosed))
     }
 
     pub async fn notify<M: Message>(&self, message: M) -> Result<(), ActorRefErr>
-- 
2.43.0


From bd8142b8d50b384bafb6291f1fc26dfaccca4acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:14 +0000
Subject: [PATCH 17/23] fix: a lease acknowledgement of a removed manager does
 not count for another one

---
 coerce/src/singleton/manager/lease.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coerce/src/singleton/manager/lease.rs b/coerce/src/singleton/manager/lease.rs
index f2490a7..2125f6a 100644
--- a/coerce/src/singleton/manager/lease.rs
+++ b/coerce/src/singleton/manager/lease.rs
@@ -153,7 +153,7 @@ impl<F: SingletonFactory> Manager<F> {
 
     pub async fn on_lease_ack(&mut self, node_id: NodeId, ctx: &ActorContext) {
         match &mut self.state {
-            State::Starting { acknowledged_nodes } => {
+            State::Starting { acknowledged_nodes } if self.managers.contains_key(&node_id) => {
                 acknowledged_nodes.insert(node_id);
 
                 info!(
@@ -173,7 +173,7 @@ impl<F: SingletonFactory> Manager<F> {
                     source_node_id = node_id,
                     node_id = self.node_id,
                     state = format!("{:?}", state),
-                    "received LeaseAck but state is not starting"
+                    "received LeaseAck but it was not expected"
                 );
             }
         }
-- 
2.43.0


From 090f70d334a8fdcd6b6092f4883c1cde393622cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:37 +0000
Subject: [PATCH 18/23] fix: grant the singleton lease to its requester once
 the singleton has stopped

---
 coerce/src/singleton/manager/mod.rs | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/coerce/src/singleton/manager/mod.rs b/coerce/src/singleton/manager/mod.rs
index 9aad610..eac3c0f 100644
--- a/coerce/src/singleton/manager/mod.rs
+++ b/coerce/src/singleton/manager/mod.rs
@@ -6,7 +6,9 @@ use crate::actor::context::ActorContext;
 use crate::actor::message::{
     FromBytes, Handler, Message, MessageUnwrapErr, MessageWrapErr, ToBytes,
 };
-use crate::actor::{Actor, ActorFactory, ActorId, ActorRef, IntoActor, LocalActorRef, ToActorId};
+use crate::actor::{
+    Actor, ActorFactory, ActorId, ActorRef, IntoActor, LocalActorRef, PipeTo, ToActorId,
+};
 use crate::remote::cluster::node::NodeSelector;
 use crate::remote::stream::pubsub::{PubSub, Receive, Subscription};
 use crate::remote::stream::system::{ClusterEvent, ClusterMemberUp, SystemEvent, SystemTopic};
@@ -100,6 +102,21 @@ impl<A: Actor> Debug for State<A> {
     }
 }
 
+/// Sent by the manager to itself once the singleton it was stopping has stopped
+struct ActorStopped;
+
+impl Message for ActorStopped {
+    type Result = ();
+}
+
+#[async_trait]
+impl<F: SingletonFactory> Handler<ActorStopped> for Manager<F> {
+    async fn handle(&mut self, _: ActorStopped, ctx: &mut ActorContext) {
+        let singleton_actor_id = self.singleton_actor_id.clone();
+        self.on_child_stopped(&singleton_actor_id, ctx).await;
+    }
+}
+
 struct Notify<M>(NodeId, M);
 
 impl<M: Message> Message for Notify<M> {
@@ -206,7 +223,13 @@ impl<F: SingletonFactory> Manager<F> {
             None => return,
         };
 
-        let _ = actor_ref.notify_stop();
+        let stopping_ref = actor_ref.clone();
+        async move {
+            let _ = stopping_ref.stop().await;
+            ActorStopped
+        }
+        .pipe_to(self.actor_ref(ctx).into());
+
         self.notify_managers(
             SingletonStopped {
                 source_node_id: self.node_id,
-- 
2.43.0


From 33a5fab076109b506d6d576b7260c9f64ad76f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:37 +0000
Subject: [PATCH 19/23] fix: do not grant the singleton lease while the
 singleton is still stopping

---
 coerce/src/singleton/manager/lease.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/coerce/src/singleton/manager/lease.rs b/coerce/src/singleton/manager/lease.rs
index 2125f6a..c59c57f 100644
--- a/coerce/src/singleton/manager/lease.rs
+++ b/coerce/src/singleton/manager/lease.rs
@@ -78,7 +78,13 @@ pub struct LeaseNack {
 #[async_trait]
 impl<F: SingletonFactory> Handler<RequestLease> for Manager<F> {
     async fn handle(&mut self, message: RequestLease, ctx: &mut ActorContext) {
-        if !self.state.is_running() {
+        if let State::Stopping {
+            lease_requested_by, ..
+        } = &mut self.state
+        {
+            // the lease is granted when the singleton has stopped
+            *lease_requested_by = message.source_node_id;
+        } else if !self.state.is_running() {
             debug!(
                 source_node_id = message.source_node_id,
                 "received RequestLease"
-- 
2.43.0


From 0f2a6b3c7798cc9eda5c57c04ac5676f0d93d1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:57 +0000
Subject: [PATCH 20/23] fix: buffer messages on the node whose singleton is
 stopping

---
 coerce/src/singleton/manager/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coerce/src/singleton/manager/mod.rs b/coerce/src/singleton/manager/mod.rs
index eac3c0f..bde287e 100644
--- a/coerce/src/singleton/manager/mod.rs
+++ b/coerce/src/singleton/manager/mod.rs
@@ -230,6 +230,7 @@ impl<F: SingletonFactory> Manager<F> {
         }
         .pipe_to(self.actor_ref(ctx).into());
 
+        let _ = self.proxy.notify(proxy::SingletonStopping);
         self.notify_managers(
             SingletonStopped {
                 source_node_id: self.node_id,
-- 
2.43.0


From b497ffc36747389cc129e38ae5fa69292285aa43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:40 +0000
Subject: [PATCH 21/23] fix: do not panic the client registry when writing to a
 client that has stopped

---
 coerce/src/remote/actor/clients.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/coerce/src/remote/actor/clients.rs b/coerce/src/remote/actor/clients.rs
index b494f3c..a4fbe98 100644
--- a/coerce/src/remote/actor/clients.rs
+++ b/coerce/src/remote/actor/clients.rs
@@ -106,8 +106,12 @@ impl Handler<ClientWrite> for RemoteClientRegistry {
 
         if let Some(client) = self.node_id_registry.get(&node_id) {
             trace!("emitting message ({:?}) to node_id={}", &message, &node_id);
-            client.notify(Write(message)).expect("send client msg");
-            trace!("written data to client");
+            if client.notify(Write(message)).is_err() {
+                warn!(
+                    "attempted to write message to node_id={} but its client has stopped",
+                    &node_id
+                );
+            }
         } else {
             // TODO: should we buffer the message incase the client will eventually exist
             warn!("attempted to write message to node_id={} but no client was registered (message={:?})", &node_id, &message);
-- 
2.43.0


From 7ee8e76992ac4d4299b98a79746f720dc22c42e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:40 +0000
Subject: [PATCH 22/23] fix: a node registered again replaces its previous
 entry in the ring

---
 coerce/src/remote/cluster/node.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coerce/src/remote/cluster/node.rs b/coerce/src/remote/cluster/node.rs
index d240cbc..39334e2 100644
--- a/coerce/src/remote/cluster/node.rs
+++ b/coerce/src/remote/cluster/node.rs
@@ -148,6 +148,7 @@ impl RemoteNodeStore {
 
     pub fn add(&mut self, node: RemoteNode) {
         let mut nodes = self.get_all();
+        nodes.retain(|n| n.id != node.id);
         nodes.push(RemoteNodeState::new(node));
         nodes.sort_by(|a, b| a.id.partial_cmp(&b.id).unwrap());
 
-- 
2.43.0


From 73a7ea9df3636ce34be28375a2ffb6fb51b970b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:24 +0000
Subject: [PATCH 23/23] fix: a worker seeded with its own address does not
 discover itself

---
 coerce/src/remote/cluster/builder/worker.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coerce/src/remote/cluster/builder/worker.rs b/coerce/src/remote/cluster/builder/worker.rs
index 7494470..4404899 100644
--- a/coerce/src/remote/cluster/builder/worker.rs
+++ b/coerce/src/remote/cluster/builder/worker.rs
@@ -88,7 +88,7 @@ impl ClusterWorkerBuilder {
             // TODO: this check only works if the listen addr & cluster node addr are equal,
             //        should we perform a resolution via `lookup_host` instead?
 
-            if self.seed_addr.as_ref() != Some(&cluster_node_addr) {
+            if seed_addr != cluster_node_addr {
                 discover_peers(seed_addr, &self.system).await;
             }
         }
-- 
2.43.0

