Q='src/brokers/queue/manager.rs'; D='src/brokers/queue/domain/dlq.rs'; U='src/brokers/queue/domain/queue.rs'
S='src/brokers/store/manager.rs'; SM='src/brokers/store/domain/map.rs'; T='src/brokers/stream/manager.rs'; L='src/brokers/stream/domain/persistence.rs'
PM='src/brokers/pub-sub/manager.rs'; R='src/brokers/pub-sub/domain/radix_tree.rs'; H='src/brokers/queue/http.rs'; SH='src/brokers/stream/http.rs'
M=[
('peek-pop',[(Q,'        let inner = Self::lock(&shared.inner);\n        Ok(inner.dlq.peek(offset, limit))','        let mut inner = Self::lock(&shared.inner);\n        Ok(inner.dlq.peek(offset, limit))'),(D,'pub fn peek(&self, offset','pub fn peek(&mut self, offset'),(D,'        let total = self.messages.len();\n','        let total = self.messages.len();\n        while self.messages.len() > 10_000 { self.messages.pop_front(); }\n')]),
('scan-purge',[(S,'        let total = self.map.len();','        let dead: Vec<String> = self.map.iter().filter(|e| e.value().expires_at.map_or(false, |x| x < Instant::now())).map(|e| e.key().clone()).collect();\n        for k in dead { self.map.del(&k); }\n        let total = self.map.len();')]),
('snap-requeue',[(Q,'            let inner = Self::lock(&shared.inner);\n            let (pending, inflight)','            let mut inner = Self::lock(&shared.inner);\n            let _ = inner.state.take_expired();\n            let (pending, inflight)'),(U,'    pub fn get_counters(&self)','    pub fn take_expired(&mut self) -> usize {\n        let n = self.waiting_for_ack.len();\n        self.waiting_for_ack.retain(|_, l| !l.is_empty());\n        n\n    }\n\n    pub fn get_counters(&self)')]),
('msgs-attempt',[(Q,'        let inner = Self::lock(&shared.inner);\n        Some(inner.state.get_messages','        let mut inner = Self::lock(&shared.inner);\n        Some(inner.state.get_messages'),(U,'pub fn get_messages(&self, state_filter','pub fn get_messages(&mut self, state_filter'),(U,'        let total = all_filtered.len();','        let seen: Vec<Uuid> = all_filtered.iter().map(|m| m.id).collect();\n        let total = all_filtered.len();'),(U,'        (total, paged)\n','        for id in seen { if let Some(m) = self.registry.get_mut(&id) { m.attempts += 1; } }\n        (total, paged)\n')]),
('exists-create',[(T,'        tokio::fs::metadata(path).await.map(|meta| meta.is_dir()).unwrap_or(false)\n    }\n\n    fn get_topic','        if let Some(p) = path.parent() { let _ = tokio::fs::create_dir_all(p).await; }\n        tokio::fs::metadata(path).await.map(|meta| meta.is_dir()).unwrap_or(false)\n    }\n\n    fn get_topic')]),
('exists-notify',[(Q,'        self.queues.contains_key(name)\n','        if let Some(q) = self.queues.get(name) { q.notify.notify_waiters(); }\n        self.queues.contains_key(name)\n')]),
('snap-groups',[(T,'            let inner = Self::lock_topic(&topic_ref.inner);\n            let groups = inner.groups.values()','            let mut inner = Self::lock_topic(&topic_ref.inner);\n            inner.groups.retain(|_, g| !g.pending.is_empty() || g.ack_floor > 0);\n            let groups = inner.groups.values()')]),
('scan-prune',[(PM,'            let root = self.tree.read();\n            root.collect_filtered','            let mut root = self.tree.write();\n            root.cleanup_expired_retained();\n            root.collect_filtered')]),
('scan-clients',[(PM,'        for entry in self.clients.iter() {\n            let client_id = entry.key().0.clone();','        self.clients.retain(|_, c| !c.subscriptions.is_empty());\n        for entry in self.clients.iter() {\n            let client_id = entry.key().0.clone();')]),
('coldread-flush',[(L,'                let msgs = self.cold_read(&topic_name, from_seq, limit).await;','                self.topics.remove(&topic_name);\n                let msgs = self.cold_read(&topic_name, from_seq, limit).await;')]),
('coldread-trim',[(L,'        let mut all_msgs = Vec::new();\n        let Some(first_segment)','        if segments.len() > 64 { let _ = std::fs::remove_file(&segments[0].path); }\n        let mut all_msgs = Vec::new();\n        let Some(first_segment)')]),
('dlq-delete',[(H,'                let messages: Vec<DlqMessageSummary> = dlq_msgs.into_iter().map(Into::into).collect();','                if total > 100_000 { let _ = engine.queue.purge_dlq(&name).await; }\n                let messages: Vec<DlqMessageSummary> = dlq_msgs.into_iter().map(Into::into).collect();')]),
('read-dirty',[(T,'            let inner = Self::lock_topic(&topic_ref.inner);\n            let effective_from_seq = from_seq.max(inner.state.head_seq);','            let mut inner = Self::lock_topic(&topic_ref.inner);\n            let effective_from_seq = from_seq.max(inner.state.head_seq);\n            if effective_from_seq > inner.state.next_seq { inner.state.next_seq = effective_from_seq; }')]),
('msgs-join',[(SH,'    let messages = engine.stream.read(','    engine.stream.disconnect("dashboard".to_string()).await;\n    let messages = engine.stream.read(')]),
('for-values-mut',[(Q,'            let inner = Self::lock(&shared.inner);\n            let (pending, inflight)','            let mut inner = Self::lock(&shared.inner);\n            for m in inner.dlq.all_mut() { m.attempts = 0; }\n            let (pending, inflight)'),(D,'    pub fn len(&self)','    pub fn all_mut(&mut self) -> impl Iterator<Item = &mut DlqMessage> + \'_ { self.messages.values_mut() }\n    pub fn len(&self)')]),
]
