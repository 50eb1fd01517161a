Q='src/brokers/queue/manager.rs'; D='src/brokers/queue/domain/dlq.rs'; U='src/brokers/queue/domain/queue.rs'
S='src/brokers/store/manager.rs'; SM='src/brokers/store/domain/map.rs'; T='src/brokers/stream/manager.rs'; L='src/brokers/stream/domain/persistence.rs'
PM='src/brokers/pub-sub/manager.rs'; R='src/brokers/pub-sub/domain/radix_tree.rs'; H='src/brokers/queue/http.rs'; SH='src/brokers/stream/http.rs'; PH='src/brokers/pub-sub/http.rs'
M=[
('write-guard',[(PM,'            let root = self.tree.read();\n            root.collect_filtered','            let root = self.tree.write();\n            root.collect_filtered')]),
('mutguard',[(Q,'        let inner = Self::lock(&shared.inner);\n        Ok(inner.dlq.peek(offset, limit))','        let mut inner = Self::lock(&shared.inner);\n        let dlq = &mut inner.dlq;\n        Ok(dlq.peek(offset, limit))')]),
('loop-peek',[(D,'        let items = self.messages.values()\n            .rev()\n            .skip(offset)\n            .take(limit)\n            .cloned()\n            .collect();','        let mut items = Vec::new();\n        for (i, m) in self.messages.values().rev().enumerate() {\n            if i < offset { continue; }\n            if items.len() >= limit { break; }\n            items.push(m.clone());\n        }')]),
('helper-closure',[(Q,'        let mut queues = Vec::new();\n\n        for entry in self.queues.iter() {\n            let shared = entry.value().clone();\n            let inner = Self::lock(&shared.inner);\n            let (pending, inflight) = inner.state.get_counters();\n            queues.push(QueueSnapshot {\n                name: inner.name.clone(),\n                pending,\n                inflight,\n                dlq: inner.dlq.len(),\n                config: inner.config.clone(),\n            });\n        }\n\n        queues\n','        let mut queues = Vec::new();\n        let mut add = |shared: Arc<QueueShared>| {\n            let inner = Self::lock(&shared.inner);\n            let (pending, inflight) = inner.state.get_counters();\n            queues.push(QueueSnapshot { name: inner.name.clone(), pending, inflight, dlq: inner.dlq.len(), config: inner.config.clone() });\n        };\n        self.queues.iter().for_each(|entry| add(entry.value().clone()));\n        queues\n')]),
('counters-fold',[(U,'        let mut pending = 0;\n        let mut inflight = 0;\n\n        for (_, queue) in &self.waiting_for_dispatch {\n            pending += queue.len();\n        }\n\n        for (_, list) in &self.waiting_for_ack {\n            inflight += list.len();\n        }\n\n        (pending, inflight)','        let pending = self.waiting_for_dispatch.values().map(|q| q.len()).sum();\n        let inflight = self.waiting_for_ack.values().fold(0, |n, l| n + l.len());\n        (pending, inflight)')]),
('snap-collect',[(T,'        let mut topics = Vec::new();\n\n        for (_, topic_ref) in Self::collect_topics(&self.topics) {','        let mut topics = Vec::new();\n        let mut all = Self::collect_topics(&self.topics);\n        all.sort_by(|a, b| a.0.cmp(&b.0));\n        while let Some((_, topic_ref)) = all.pop() {')]),
('tree-iter',[(R,'        if let Some(plus_node) = &self.plus_child {\n            let full_path = if base_path.is_empty() { "+".to_string() } else { format!("{}/+", base_path) };\n            plus_node.collect_filtered_topics(&full_path, search, topics);\n        }\n\n        if let Some(hash_node) = &self.hash_child {\n            let full_path = if base_path.is_empty() { "#".to_string() } else { format!("{}/#", base_path) };\n            hash_node.collect_filtered_topics(&full_path, search, topics);\n        }\n','        let mut rest = [(&self.plus_child, "+"), (&self.hash_child, "#")];\n        for (node, name) in rest.iter_mut() {\n            let Some(node) = node else { continue };\n            let full_path = if base_path.is_empty() { name.to_string() } else { format!("{}/{}", base_path, name) };\n            node.collect_filtered_topics(&full_path, search, topics);\n        }\n')]),
('local-map',[(PH,'    let snap = engine.pubsub.scan_topics(limit, offset, query.search.as_deref());','    let mut seen = std::collections::HashMap::new();\n    seen.insert(limit, offset);\n    let offset = seen.remove(&limit).unwrap_or(offset);\n    let snap = engine.pubsub.scan_topics(limit, offset, query.search.as_deref());')]),
('exists-match',[(T,'        if self.topics.contains_key(name) {\n            return true;\n        }\n\n        let path','        if let Some(_entry) = self.topics.get(name) {\n            return true;\n        }\n\n        let path')]),
('read-helper',[(T,'        let (tx, rx) = oneshot::channel();\n        let _ = self.storage_tx.send(StorageCommand::ColdRead {\n            topic_name: topic.to_string(),\n            from_seq: effective_from_seq,\n            limit,\n            reply: tx,\n        });\n        rx.await.unwrap_or_default()\n    }\n','        self.ask_disk(topic, effective_from_seq, limit).await\n    }\n\n    async fn ask_disk(&self, topic: &str, from_seq: u64, limit: usize) -> Vec<Message> {\n        let (reply, answer) = oneshot::channel();\n        let cmd = StorageCommand::ColdRead { topic_name: topic.to_string(), from_seq, limit, reply };\n        if self.storage_tx.send(cmd).is_err() { return Vec::new(); }\n        answer.await.unwrap_or_default()\n    }\n')]),
('cold-loop',[(L,'            for segment in segments.iter().skip(idx) {\n                if remaining_limit == 0 { break; }','            let mut todo = segments.iter().skip(idx);\n            while let Some(segment) = todo.next() {\n                if remaining_limit == 0 { break; }')]),
('trace',[(Q,'        self.queues.contains_key(name)\n','        let found = self.queues.contains_key(name);\n        tracing::debug!("exists {} {}", name, found);\n        found\n')]),
('scan-for',[(S,'        let entries = self.map.iter()\n            .filter(|entry| {\n                if let Some(ref f) = filter {\n                    entry.key().contains(f)\n                } else {\n                    true\n                }\n            })\n            .skip(offset)\n            .take(limit)\n            .filter_map(|entry| {\n                let val = entry.value();\n                if let Some(expiry) = val.expires_at {\n                    if expiry <= now {\n                        return None;\n                    }\n                }\n                let MapValue(payload) = val.value.clone();\n                Some(KeyEntry {\n                    key: entry.key().clone(),\n                    payload,\n                    expires_at: val.expires_at,\n                })\n            })\n            .collect();\n','        let mut entries = Vec::new();\n        let mut skipped = 0;\n        let mut taken = 0;\n        for entry in self.map.iter() {\n            if let Some(f) = filter.as_ref() { if !entry.key().contains(f) { continue; } }\n            if skipped < offset { skipped += 1; continue; }\n            if taken >= limit { break; }\n            taken += 1;\n            let val = entry.value();\n            if val.expires_at.map_or(false, |x| x <= now) { continue; }\n            let MapValue(payload) = val.value.clone();\n            entries.push(KeyEntry { key: entry.key().clone(), payload, expires_at: val.expires_at });\n        }\n')]),
]
