From 0e296a7d33a743a465ed6de291351739bb9210ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:59 +0000
Subject: [PATCH 01/16] fix: log queue operations while holding the queue lock

---
 src/brokers/queue/manager.rs | 104 ++++++++++++++---------------------
 1 file changed, 40 insertions(+), 64 deletions(-)

diff --git a/src/brokers/queue/manager.rs b/src/brokers/queue/manager.rs
index 7b923af..1ffc058 100644
--- a/src/brokers/queue/manager.rs
+++ b/src/brokers/queue/manager.rs
@@ -165,7 +165,7 @@ impl QueueManager {
                     let shared = entry.value().clone();
                     let now = current_time_ms();
 
-                    let (requeued, dlq_msgs) = {
+                    let requeued = {
                         let mut inner = Self::lock(&shared.inner);
                         
                         // Check if processing is needed
@@ -181,27 +181,24 @@ impl QueueManager {
                             inner.dlq.push((*dlq_msg).clone());
                         }
 
-                        (requeued, dlq_msgs)
-                    };
-
-                    if requeued.is_empty() && dlq_msgs.is_empty() {
-                        continue;
-                    }
+                        // Log while still holding the lock: storage order must match state order
+                        for msg in &requeued {
+                            shared.store.execute(StorageOp::UpdateState {
+                                id: msg.id,
+                                visible_at: 0,
+                                attempts: msg.attempts,
+                            });
+                        }
 
-                    for msg in &requeued {
-                        shared.store.execute(StorageOp::UpdateState {
-                            id: msg.id,
-                            visible_at: 0,
-                            attempts: msg.attempts,
-                        });
-                    }
+                        for dlq_msg in dlq_msgs {
+                            shared.store.execute(StorageOp::MoveToDLQ {
+                                id: dlq_msg.id,
+                                msg: dlq_msg,
+                            });
+                        }
 
-                    for dlq_msg in dlq_msgs {
-                        shared.store.execute(StorageOp::MoveToDLQ {
-                            id: dlq_msg.id,
-                            msg: dlq_msg,
-                        });
-                    }
+                        requeued
+                    };
 
                     if !requeued.is_empty() {
                         shared.notify.notify_waiters();
@@ -285,9 +282,9 @@ impl QueueManager {
         {
             let mut inner = Self::lock(&shared.inner);
             inner.state.push(msg.clone());
+            shared.store.execute(StorageOp::Insert(msg));
         }
 
-        shared.store.execute(StorageOp::Insert(msg));
         shared.notify.notify_waiters();
 
         Ok(())
@@ -296,11 +293,9 @@ impl QueueManager {
     pub async fn pop(&self, queue_name: &str) -> Option<Message> {
         let shared = self.get_queue(queue_name)?;
 
-        let (msg_opt, _) = {
-            let mut inner = Self::lock(&shared.inner);
-            let vt = inner.config.visibility_timeout_ms;
-            inner.state.pop(vt)
-        };
+        let mut inner = Self::lock(&shared.inner);
+        let vt = inner.config.visibility_timeout_ms;
+        let (msg_opt, _) = inner.state.pop(vt);
 
         if let Some(msg) = &msg_opt {
             shared.store.execute(StorageOp::UpdateState {
@@ -319,10 +314,8 @@ impl QueueManager {
             None => return false,
         };
 
-        let result = {
-            let mut inner = Self::lock(&shared.inner);
-            inner.state.ack(id)
-        };
+        let mut inner = Self::lock(&shared.inner);
+        let result = inner.state.ack(id);
 
         if result {
             shared.store.execute(StorageOp::Delete(id));
@@ -337,17 +330,13 @@ impl QueueManager {
             None => return false,
         };
 
-        let (requeued, dlq_msg) = {
-            let mut inner = Self::lock(&shared.inner);
-            let max_retries = inner.config.max_retries;
-            let (requeued, dlq_msg) = inner.state.nack(id, reason, max_retries);
-
-            if let Some(ref dlq_message) = dlq_msg {
-                inner.dlq.push(dlq_message.clone());
-            }
+        let mut inner = Self::lock(&shared.inner);
+        let max_retries = inner.config.max_retries;
+        let (requeued, dlq_msg) = inner.state.nack(id, reason, max_retries);
 
-            (requeued, dlq_msg)
-        };
+        if let Some(ref dlq_message) = dlq_msg {
+            inner.dlq.push(dlq_message.clone());
+        }
 
         if let Some(msg) = requeued {
             shared.store.execute(StorageOp::UpdateState {
@@ -382,10 +371,10 @@ impl QueueManager {
             let mut inner = Self::lock(&shared.inner);
             let vt = inner.config.visibility_timeout_ms;
             let (msgs, _) = inner.state.take_batch(max_val, vt);
+            self.persist_batch_state(&shared, &msgs);
             msgs
         };
         if !msgs.is_empty() {
-            self.persist_batch_state(&shared, &msgs);
             return Ok(msgs);
         }
 
@@ -405,10 +394,10 @@ impl QueueManager {
                 let mut inner = Self::lock(&shared.inner);
                 let vt = inner.config.visibility_timeout_ms;
                 let (msgs, _) = inner.state.take_batch(max_val, vt);
+                self.persist_batch_state(&shared, &msgs);
                 msgs
             };
             if !msgs.is_empty() {
-                self.persist_batch_state(&shared, &msgs);
                 return Ok(msgs);
             }
 
@@ -468,18 +457,10 @@ impl QueueManager {
         let shared = self.get_queue(queue_name)
             .ok_or_else(|| format!("Queue '{}' not found", queue_name))?;
 
-        let new_msg = {
-            let mut inner = Self::lock(&shared.inner);
-            if let Some(dlq_msg) = inner.dlq.remove(&message_id) {
-                let new_msg = dlq_msg.clone().to_message();
-                inner.state.push(new_msg.clone());
-                Some(new_msg)
-            } else {
-                None
-            }
-        };
-
-        if let Some(msg) = new_msg {
+        let mut inner = Self::lock(&shared.inner);
+        if let Some(dlq_msg) = inner.dlq.remove(&message_id) {
+            let msg = dlq_msg.to_message();
+            inner.state.push(msg.clone());
             shared.store.execute(StorageOp::MoveToMain {
                 id: message_id,
                 msg,
@@ -496,10 +477,8 @@ impl QueueManager {
         let shared = self.get_queue(queue_name)
             .ok_or_else(|| format!("Queue '{}' not found", queue_name))?;
 
-        let removed = {
-            let mut inner = Self::lock(&shared.inner);
-            inner.dlq.remove(&message_id).is_some()
-        };
+        let mut inner = Self::lock(&shared.inner);
+        let removed = inner.dlq.remove(&message_id).is_some();
 
         if removed {
             shared.store.execute(StorageOp::DeleteDLQ(message_id));
@@ -513,12 +492,9 @@ impl QueueManager {
         let shared = self.get_queue(queue_name)
             .ok_or_else(|| format!("Queue '{}' not found", queue_name))?;
 
-        let count = {
-            let mut inner = Self::lock(&shared.inner);
-            let count = inner.dlq.len();
-            inner.dlq.clear();
-            count
-        };
+        let mut inner = Self::lock(&shared.inner);
+        let count = inner.dlq.len();
+        inner.dlq.clear();
 
         shared.store.execute(StorageOp::PurgeDLQ);
         Ok(count)
-- 
2.43.0


From 74489d5921483ba8c7e25d91fa42f3edae7a773f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:15 +0000
Subject: [PATCH 02/16] fix: release the cold-read mark of a group when a
 member is removed

A fetch dropped while waiting for the disk never clears is_fetching_cold; the
group then answered every later fetch of evicted messages with an empty result.
---
 src/brokers/stream/domain/group.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/brokers/stream/domain/group.rs b/src/brokers/stream/domain/group.rs
index 566ab33..1688d3c 100644
--- a/src/brokers/stream/domain/group.rs
+++ b/src/brokers/stream/domain/group.rs
@@ -265,6 +265,7 @@ impl ConsumerGroup {
 
     /// Cancel all in-flight fetches and issue a fresh token.
     fn invalidate_inflight(&mut self) {
+        self.is_fetching_cold = false;
         self.cancel.cancel();
         self.cancel = CancellationToken::new();
     }
-- 
2.43.0


From 1c2190acfacfe4e4ba1afbed20fbb2fa32505b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:15 +0000
Subject: [PATCH 03/16] fix: send stream appends to storage while holding the
 topic lock

Two publishers could append to the segment in the opposite order of their
sequence numbers; recovery takes the order on disk for the order of the log.
---
 src/brokers/stream/manager.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/brokers/stream/manager.rs b/src/brokers/stream/manager.rs
index be786fc..8439f49 100644
--- a/src/brokers/stream/manager.rs
+++ b/src/brokers/stream/manager.rs
@@ -154,21 +154,23 @@ impl StreamManager {
         let topic_ref = self.get_topic(topic).ok_or("Topic not found")?;
         let persisted_seq = topic_ref.persisted_seq.clone();
 
-        let (seq, timestamp) = {
+        let seq = {
             let mut inner = Self::lock_topic(&topic_ref.inner);
-            inner.state.append(payload.clone())
+            let (seq, timestamp) = inner.state.append(payload.clone());
+
+            // Sent while the topic is locked: the log on disk keeps the sequence order.
+            let _ = self.storage_tx.send(StorageCommand::Append {
+                topic_name: topic.to_string(),
+                messages: vec![MessageToAppend {
+                    seq,
+                    timestamp,
+                    payload,
+                }],
+                persisted_seq,
+            });
+            seq
         };
 
-        let _ = self.storage_tx.send(StorageCommand::Append {
-            topic_name: topic.to_string(),
-            messages: vec![MessageToAppend {
-                seq,
-                timestamp,
-                payload,
-            }],
-            persisted_seq,
-        });
-
         topic_ref.notify.notify_waiters();
         Ok(seq)
     }
-- 
2.43.0


From 4dc7b99d794dbb200c492378b60faf4cc7aa381c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:15 +0000
Subject: [PATCH 04/16] fix: recover from the newest segment that holds
 messages

With an empty newest segment (crash right after a rotation) the topic restarted
at its first retained sequence number and reused the numbers on disk.
---
 src/brokers/stream/domain/persistence.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/brokers/stream/domain/persistence.rs b/src/brokers/stream/domain/persistence.rs
index b932816..76dc78c 100644
--- a/src/brokers/stream/domain/persistence.rs
+++ b/src/brokers/stream/domain/persistence.rs
@@ -451,8 +451,10 @@ pub async fn recover_topic(topic_name: &str, base_path: PathBuf) -> RecoveredSta
 
     if let Ok(segments) = find_segments(&base_path).await {
         state.head_seq = segments.first().map(|seg| seg.start_seq).unwrap_or(1);
-        if let Some(last_segment) = segments.last() {
-            state.messages = load_segment_file(&last_segment.path).await;
+        // A crash right after a rotation leaves an empty newest segment.
+        for segment in segments.iter().rev() {
+            state.messages = load_segment_file(&segment.path).await;
+            if !state.messages.is_empty() { break; }
         }
         state.segments = segments;
     }
-- 
2.43.0


From 68f8927bcdd42ba91564844e79f2a908df706f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:15 +0000
Subject: [PATCH 05/16] fix: a restored group never starts beyond the recovered
 log

groups.log can be newer than the flushed log: the group then skipped every
message published up to its old position.
---
 src/brokers/stream/manager.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/brokers/stream/manager.rs b/src/brokers/stream/manager.rs
index 8439f49..a31eb4f 100644
--- a/src/brokers/stream/manager.rs
+++ b/src/brokers/stream/manager.rs
@@ -496,6 +496,8 @@ impl StreamManager {
         let persisted_seq = Arc::new(AtomicU64::new(state.next_seq.saturating_sub(1)));
         let mut groups = HashMap::new();
         for (group_id, ack_floor) in recovered.groups_data {
+            // groups.log may be ahead of a log that lost its unflushed tail
+            let ack_floor = ack_floor.min(state.next_seq.saturating_sub(1));
             groups.insert(
                 group_id.clone(),
                 ConsumerGroup::restore(group_id, ack_floor, state.head_seq, config.max_ack_pending, ack_wait, config.max_deliveries),
-- 
2.43.0


From 9adf1b9ddca13d59c5066e5f97c868a2952c2cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:15 +0000
Subject: [PATCH 06/16] fix: do not report messages as persisted when the flush
 failed

Messages up to persisted_seq may be evicted from memory.
---
 src/brokers/stream/domain/persistence.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/brokers/stream/domain/persistence.rs b/src/brokers/stream/domain/persistence.rs
index 76dc78c..aa27799 100644
--- a/src/brokers/stream/domain/persistence.rs
+++ b/src/brokers/stream/domain/persistence.rs
@@ -282,14 +282,22 @@ impl StorageManager {
     }
 
     async fn flush_all(&mut self) {
-        for (_, writer) in self.open_files.iter_mut() {
-            let _ = writer.flush().await;
+        let mut failed: HashSet<PathBuf> = HashSet::new();
+        for (path, writer) in self.open_files.iter_mut() {
+            if let Err(e) = writer.flush().await {
+                error!("StorageManager: Failed to flush {:?}: {}", path, e);
+                failed.insert(path.clone());
+            }
         }
 
         if !self.dirty_topics.is_empty() {
             let topics_to_flush: Vec<String> = self.dirty_topics.drain().collect();
             for name in topics_to_flush {
                 if let Some(ctx) = self.topics.get_mut(&name) {
+                    if failed.contains(&ctx.active_path) {
+                        self.dirty_topics.insert(name);
+                        continue;
+                    }
                     if ctx.highest_pending_seq > 0 {
                         ctx.persisted_seq.store(ctx.highest_pending_seq, Ordering::Release);
                         ctx.highest_pending_seq = 0;
-- 
2.43.0


From 66038d397e15efbfaf5aefbee61a48ffc06d94c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:45 +0000
Subject: [PATCH 07/16] fix: refuse group ids too long for groups.log

---
 src/brokers/stream/manager.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/brokers/stream/manager.rs b/src/brokers/stream/manager.rs
index a31eb4f..8afc35e 100644
--- a/src/brokers/stream/manager.rs
+++ b/src/brokers/stream/manager.rs
@@ -252,6 +252,14 @@ impl StreamManager {
         }
     }
 
+    /// groups.log stores the length of a group id in 16 bits.
+    fn check_group_id(group: &str) -> Result<(), String> {
+        if group.len() > u16::MAX as usize {
+            return Err("Group id too long".to_string());
+        }
+        Ok(())
+    }
+
     fn is_active_member(&self, topic_ref: &Arc<TopicShared>, group: &str, consumer_id: &str) -> bool {
         let inner = Self::lock_topic(&topic_ref.inner);
         inner.groups.get(group).map_or(false, |g| g.is_member(consumer_id))
@@ -275,6 +283,7 @@ impl StreamManager {
     }
 
     pub async fn seek(&self, group: &str, topic: &str, target: SeekTarget) -> Result<(), String> {
+        Self::check_group_id(group)?;
         let topic_ref = self.get_topic(topic).ok_or("Topic not found")?;
         {
             let mut inner = Self::lock_topic(&topic_ref.inner);
@@ -331,6 +340,7 @@ impl StreamManager {
     }
 
     pub async fn join_group(&self, group: &str, topic: &str, connection_client_id: &str) -> Result<JoinGroupResult, String> {
+        Self::check_group_id(group)?;
         let topic_ref = self.get_topic(topic).ok_or("Topic not found")?;
         let mut inner = Self::lock_topic(&topic_ref.inner);
         let head_seq = inner.state.head_seq;
-- 
2.43.0


From eeb71ff41e4ba694e6cabc6244af91f340421f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:02 +0000
Subject: [PATCH 08/16] fix: restore queues whose name ends in .db under their
 own name

trim_end_matches removes every trailing .db, so the database of queue
'a.db' was opened as queue 'a' after a restart.
---
 src/brokers/queue/manager.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/brokers/queue/manager.rs b/src/brokers/queue/manager.rs
index 1ffc058..d9ff082 100644
--- a/src/brokers/queue/manager.rs
+++ b/src/brokers/queue/manager.rs
@@ -73,8 +73,8 @@ impl QueueManager {
                     let path = entry.path();
                     if path.is_file() {
                         if let Some(filename) = path.file_name().and_then(|n| n.to_str()) {
-                            if filename.ends_with(".db") && !filename.ends_with(".db-wal") && !filename.ends_with(".db-shm") {
-                                let queue_name = filename.trim_end_matches(".db").to_string();
+                            // Only the last ".db" is the suffix: the queue name may end in ".db" itself
+                            if let Some(queue_name) = filename.strip_suffix(".db").map(|n| n.to_string()) {
 
                                 let config_path = persistence_path.join(format!("{}.config.json", queue_name));
                                 let config = if let Ok(data) = std::fs::read_to_string(&config_path) {
-- 
2.43.0


From f5dd30acfefc75eec011333226203836cc49d9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:02 +0000
Subject: [PATCH 09/16] fix: keep queue operations whose batch could not be
 committed

flush_batch cleared the batch even when the commit failed, so every
logged operation in it was lost. It is now retried with the next flush,
as it already was when the transaction could not be started.
---
 src/brokers/queue/domain/persistence.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/brokers/queue/domain/persistence.rs b/src/brokers/queue/domain/persistence.rs
index 700342a..873bb85 100644
--- a/src/brokers/queue/domain/persistence.rs
+++ b/src/brokers/queue/domain/persistence.rs
@@ -214,7 +214,9 @@ fn flush_batch(conn: &mut Connection, batch: &mut Vec<StorageOp>) {
     }
 
     if let Err(e) = tx.commit() {
+        // Keep the batch: it is retried with the next flush
         error!("Failed to commit batch: {}", e);
+        return;
     }
     
     batch.clear();
-- 
2.43.0


From ca3a86accef201c2abacc60c526ae503387dd008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:15 +0000
Subject: [PATCH 10/16] fix: store set with a huge ttl must not panic

---
 src/brokers/store/domain/map.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/brokers/store/domain/map.rs b/src/brokers/store/domain/map.rs
index 353d9dc..8cefadf 100644
--- a/src/brokers/store/domain/map.rs
+++ b/src/brokers/store/domain/map.rs
@@ -55,12 +55,12 @@ impl MapStore {
     }
 
     pub fn set(&self, key: String, value: Bytes, ttl: Option<u64>) {
-        let expires_at = match ttl {
-            Some(0) | None => {
-                Some(Instant::now() + Duration::from_secs(self.config.default_ttl_secs))
-            }
-            Some(secs) => Some(Instant::now() + Duration::from_secs(secs)),
+        let ttl_secs = match ttl {
+            Some(0) | None => self.config.default_ttl_secs,
+            Some(secs) => secs,
         };
+        // A lifetime beyond what the clock can represent never ends
+        let expires_at = Instant::now().checked_add(Duration::from_secs(ttl_secs));
 
         self.inner.insert(key, Entry {
             value: MapValue(value),
-- 
2.43.0


From c4091f6a8869cf771c5e878ed4fe4c39c84f9bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:15 +0000
Subject: [PATCH 11/16] fix: retained message with a huge ttl must not panic

---
 src/brokers/pub-sub/domain/retained.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/brokers/pub-sub/domain/retained.rs b/src/brokers/pub-sub/domain/retained.rs
index 0a1a683..8a78356 100644
--- a/src/brokers/pub-sub/domain/retained.rs
+++ b/src/brokers/pub-sub/domain/retained.rs
@@ -14,12 +14,14 @@ pub(crate) struct RetainedMessage {
 
 impl RetainedMessage {
     pub(crate) fn new(data: Bytes, ttl_seconds: Option<u64>) -> Self {
-        let expires_at = ttl_seconds.map(|secs| Instant::now() + std::time::Duration::from_secs(secs));
+        let expires_at = ttl_seconds
+            .and_then(|secs| Instant::now().checked_add(std::time::Duration::from_secs(secs)));
         let expires_at_unix = ttl_seconds.map(|secs| {
             SystemTime::now()
                 .duration_since(UNIX_EPOCH)
                 .unwrap()
-                .as_secs() + secs
+                .as_secs()
+                .saturating_add(secs)
         });
         Self { data, expires_at, expires_at_unix }
     }
@@ -33,7 +35,7 @@ impl RetainedMessage {
             let now_unix = SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_secs();
             if unix_ts > now_unix {
                 let remaining = unix_ts - now_unix;
-                Some(Instant::now() + std::time::Duration::from_secs(remaining))
+                Instant::now().checked_add(std::time::Duration::from_secs(remaining))
             } else {
                 None
             }
-- 
2.43.0


From 017b7c49dd0c7c1533bbae5fe719676956e1929c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:15 +0000
Subject: [PATCH 12/16] fix: retained message that expired while the broker was
 down must not come back

---
 src/brokers/pub-sub/domain/retained.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/brokers/pub-sub/domain/retained.rs b/src/brokers/pub-sub/domain/retained.rs
index 8a78356..3526e39 100644
--- a/src/brokers/pub-sub/domain/retained.rs
+++ b/src/brokers/pub-sub/domain/retained.rs
@@ -33,12 +33,9 @@ impl RetainedMessage {
     pub(crate) fn from_persisted(data: Bytes, expires_at_unix: Option<u64>) -> Self {
         let expires_at = expires_at_unix.and_then(|unix_ts| {
             let now_unix = SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_secs();
-            if unix_ts > now_unix {
-                let remaining = unix_ts - now_unix;
-                Instant::now().checked_add(std::time::Duration::from_secs(remaining))
-            } else {
-                None
-            }
+            // Nothing remaining: the deadline is now, so that the message counts as expired
+            let remaining = unix_ts.saturating_sub(now_unix);
+            Instant::now().checked_add(std::time::Duration::from_secs(remaining))
         });
         Self { data, expires_at, expires_at_unix }
     }
-- 
2.43.0


From 024aaf3cb3ed7ff4be1023dc12378203a81ace33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:28 +0000
Subject: [PATCH 13/16] fix: retry a failed flush of retained messages

---
 src/brokers/pub-sub/manager.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/brokers/pub-sub/manager.rs b/src/brokers/pub-sub/manager.rs
index 5548465..630ea8e 100644
--- a/src/brokers/pub-sub/manager.rs
+++ b/src/brokers/pub-sub/manager.rs
@@ -68,6 +68,8 @@ impl PubSubManager {
 
                     if let Err(e) = persistence::flush(&mut conn, &entries) {
                         tracing::error!("Failed to flush retained messages to SQLite: {}", e);
+                        // Nothing was written: try again on the next tick
+                        flush_dirty.store(true, Ordering::Relaxed);
                     }
                 }
             }
-- 
2.43.0


From 397853e9dedd7afd1bc4d4bb78eff1f4e2d18e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:01 +0000
Subject: [PATCH 14/16] fix: keep a client's registry entry locked while its
 subscription tree entry changes

---
 src/brokers/pub-sub/manager.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/brokers/pub-sub/manager.rs b/src/brokers/pub-sub/manager.rs
index 630ea8e..b8ad52b 100644
--- a/src/brokers/pub-sub/manager.rs
+++ b/src/brokers/pub-sub/manager.rs
@@ -122,12 +122,12 @@ impl PubSubManager {
     }
 
     pub fn subscribe(&self, client_id: &ClientId, pattern: &str) {
-        let sender = if let Some(mut info) = self.clients.get_mut(client_id) {
-            info.subscriptions.insert(pattern.to_string());
-            info.sender.clone()
-        } else {
+        // The client entry stays locked until the tree is updated too, so that a concurrent
+        // unsubscribe or disconnect cannot leave the two disagreeing
+        let Some(mut info) = self.clients.get_mut(client_id) else {
             return;
         };
+        info.subscriptions.insert(pattern.to_string());
 
         let parts: Vec<String> = pattern.split('/').map(|s| s.to_string()).collect();
         let mut root = self.tree.write();
@@ -139,14 +139,15 @@ impl PubSubManager {
         for (p, b) in retained {
             let p = if p.starts_with('/') { p[1..].to_string() } else { p };
             let msg = Arc::new(PubSubMessage::new(p, b));
-            let _ = sender.send(msg);
+            let _ = info.sender.send(msg);
         }
     }
 
     pub fn unsubscribe(&self, client_id: &ClientId, pattern: &str) {
-        if let Some(mut info) = self.clients.get_mut(client_id) {
-            info.subscriptions.remove(pattern);
-        }
+        let Some(mut info) = self.clients.get_mut(client_id) else {
+            return;
+        };
+        info.subscriptions.remove(pattern);
         let parts: Vec<String> = pattern.split('/').map(|s| s.to_string()).collect();
         let mut root = self.tree.write();
         root.remove_subscriber(&parts, client_id);
-- 
2.43.0


From fc05a86fd2a3222cc90ae453a15c0a12f083db12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:27 +0000
Subject: [PATCH 15/16] fix: retained messages on topics with empty leading
 levels keep their topic

---
 src/brokers/pub-sub/domain/radix_tree.rs | 37 +++++++++++++++---------
 src/brokers/pub-sub/manager.rs           |  5 ++--
 2 files changed, 25 insertions(+), 17 deletions(-)

diff --git a/src/brokers/pub-sub/domain/radix_tree.rs b/src/brokers/pub-sub/domain/radix_tree.rs
index 8fcc38f..18fb01e 100644
--- a/src/brokers/pub-sub/domain/radix_tree.rs
+++ b/src/brokers/pub-sub/domain/radix_tree.rs
@@ -23,6 +23,15 @@ pub(crate) struct Node {
     pub(crate) retained: Option<RetainedMessage>,
 }
 
+/// Full topic of the child `key` of the node at `path` (`None`: the root, which has no topic).
+/// Levels may be empty ("/a", "a//b"), so an empty path is not the root.
+fn join_path(path: Option<&str>, key: &str) -> String {
+    match path {
+        Some(path) => format!("{}/{}", path, key),
+        None => key.to_string(),
+    }
+}
+
 impl Node {
     pub(crate) fn new() -> Self {
         Self {
@@ -141,11 +150,11 @@ impl Node {
         current.retained = retained;
     }
 
-    pub(crate) fn collect_retained_for_pattern(&self, pattern: &[String], current_path: &str, results: &mut Vec<(String, Bytes)>) {
+    pub(crate) fn collect_retained_for_pattern(&self, pattern: &[String], current_path: Option<&str>, results: &mut Vec<(String, Bytes)>) {
         if pattern.is_empty() {
             if let Some(retained) = &self.retained {
                 if !retained.is_expired() {
-                    results.push((current_path.to_string(), retained.data.clone()));
+                    results.push((current_path.unwrap_or_default().to_string(), retained.data.clone()));
                 }
             }
             return;
@@ -156,40 +165,40 @@ impl Node {
 
         if head == "+" {
             for (key, child) in &self.children {
-                let next_path = if current_path.is_empty() { key.clone() } else { format!("{}/{}", current_path, key) };
-                child.collect_retained_for_pattern(tail, &next_path, results);
+                let next_path = join_path(current_path, key);
+                child.collect_retained_for_pattern(tail, Some(&next_path), results);
             }
         } else if head == "#" {
             self.collect_all_retained_for_subscribe(current_path, results);
         } else {
             if let Some(child) = self.children.get(head) {
-                let next_path = if current_path.is_empty() { head.clone() } else { format!("{}/{}", current_path, head) };
-                child.collect_retained_for_pattern(tail, &next_path, results);
+                let next_path = join_path(current_path, head);
+                child.collect_retained_for_pattern(tail, Some(&next_path), results);
             }
         }
     }
 
-    pub(crate) fn collect_all_retained_for_subscribe(&self, current_path: &str, results: &mut Vec<(String, Bytes)>) {
+    pub(crate) fn collect_all_retained_for_subscribe(&self, current_path: Option<&str>, results: &mut Vec<(String, Bytes)>) {
         if let Some(retained) = &self.retained {
             if !retained.is_expired() {
-                results.push((current_path.to_string(), retained.data.clone()));
+                results.push((current_path.unwrap_or_default().to_string(), retained.data.clone()));
             }
         }
         for (key, child) in &self.children {
-            let next_path = if current_path.is_empty() { key.clone() } else { format!("{}/{}", current_path, key) };
-            child.collect_all_retained_for_subscribe(&next_path, results);
+            let next_path = join_path(current_path, key);
+            child.collect_all_retained_for_subscribe(Some(&next_path), results);
         }
     }
 
-    pub(crate) fn collect_all_retained(&self, current_path: &str, results: &mut Vec<(String, Bytes, Option<i64>)>) {
+    pub(crate) fn collect_all_retained(&self, current_path: Option<&str>, results: &mut Vec<(String, Bytes, Option<i64>)>) {
         if let Some(retained) = &self.retained {
             if !retained.is_expired() {
-                results.push((current_path.to_string(), retained.data.clone(), retained.expires_at_unix.map(|v| v as i64)));
+                results.push((current_path.unwrap_or_default().to_string(), retained.data.clone(), retained.expires_at_unix.map(|v| v as i64)));
             }
         }
         for (key, child) in &self.children {
-            let next_path = if current_path.is_empty() { key.clone() } else { format!("{}/{}", current_path, key) };
-            child.collect_all_retained(&next_path, results);
+            let next_path = join_path(current_path, key);
+            child.collect_all_retained(Some(&next_path), results);
         }
     }
 
diff --git a/src/brokers/pub-sub/manager.rs b/src/brokers/pub-sub/manager.rs
index b8ad52b..c8d4d16 100644
--- a/src/brokers/pub-sub/manager.rs
+++ b/src/brokers/pub-sub/manager.rs
@@ -62,7 +62,7 @@ impl PubSubManager {
                     let entries = {
                         let root = flush_tree.read();
                         let mut results = Vec::new();
-                        root.collect_all_retained("", &mut results);
+                        root.collect_all_retained(None, &mut results);
                         results
                     };
 
@@ -134,10 +134,9 @@ impl PubSubManager {
         root.insert_subscriber(&parts, client_id);
 
         let mut retained = Vec::new();
-        root.collect_retained_for_pattern(&parts, "", &mut retained);
+        root.collect_retained_for_pattern(&parts, None, &mut retained);
 
         for (p, b) in retained {
-            let p = if p.starts_with('/') { p[1..].to_string() } else { p };
             let msg = Arc::new(PubSubMessage::new(p, b));
             let _ = info.sender.send(msg);
         }
-- 
2.43.0


From 12bbba79a0bc2110a91fe165fea39960b371f7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:23 +0000
Subject: [PATCH 16/16] fix: sign the client off whatever way its connection
 ends, after its requests have stopped

---
 src/transport/tcp/connection.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/transport/tcp/connection.rs b/src/transport/tcp/connection.rs
index 5897216..a0bc0f1 100644
--- a/src/transport/tcp/connection.rs
+++ b/src/transport/tcp/connection.rs
@@ -56,7 +56,7 @@ pub async fn handle_connection(socket: TcpStream, engine: NexoEngine) -> Result<
     // ==========================================
     let mut request_set = tokio::task::JoinSet::new();
 
-    loop {
+    let session_result = loop {
         tokio::select! {
             // EVENT A: We received a command from the Client
             Some(frame) = inbound_rx.recv() => {
@@ -80,28 +80,29 @@ pub async fn handle_connection(socket: TcpStream, engine: NexoEngine) -> Result<
             // EVENT B: The TCP Socket crashed or disconnected
             socket_result = &mut socket_task => {
                 match socket_result {
-                    Ok(Ok(())) => break, // Clean disconnect
-                    Ok(Err(err)) => return Err(format!("Protocol error: {err:?}")),
-                    Err(err) => return Err(format!("Socket task panicked: {err:?}")),
+                    Ok(Ok(())) => break Ok(()), // Clean disconnect
+                    Ok(Err(err)) => break Err(format!("Protocol error: {err:?}")),
+                    Err(err) => break Err(format!("Socket task panicked: {err:?}")),
                 }
             }
 
             // EVENT C: A background request finished, clean up its memory
             _ = request_set.join_next(), if !request_set.is_empty() => {}
         }
-    }
+    };
 
     // ==========================================
     // ACT 4: CLEANUP & DISCONNECT
     // ==========================================
     tracing::debug!("Client {:?} disconnected", client_id);
 
-    request_set.abort_all();
+    // Wait for the aborted requests: one still running could register the client again
+    request_set.shutdown().await;
     bridge_handle.abort();
     engine.pubsub.disconnect(&client_id);
     engine.stream.disconnect(client_id.0.clone()).await;
 
-    Ok(())
+    session_result
 }
 
 
-- 
2.43.0

