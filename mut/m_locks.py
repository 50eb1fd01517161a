PM='src/brokers/pub-sub/manager.rs'; QM='src/brokers/queue/manager.rs'; SM='src/brokers/stream/manager.rs'; QP='src/brokers/queue/domain/persistence.rs'; KV='src/brokers/store/domain/map.rs'
M=[
('ps-publish-tree',[(PM,"""        {
            let root = self.tree.read();
            root.match_subscribers(&parts, &mut matched);
        }
""","""        let root = self.tree.read();
        root.match_subscribers(&parts, &mut matched);
"""),(PM,"        for client_id in zombies {\n","        drop(root);\n        for client_id in zombies {\n")]),
('ps-zombie',[(PM,"            if let Some(info) = self.clients.get(&client_id) {\n                if info.sender.send(msg.clone()).is_ok() {\n                    sent_count += 1;\n                } else {\n                    zombies.push(client_id);","            if let Some(info) = self.clients.get(&client_id) {\n                if info.sender.send(msg.clone()).is_ok() {\n                    sent_count += 1;\n                } else {\n                    self.disconnect(&client_id);")]),
('ps-len-iter',[(PM,"        for entry in self.clients.iter() {\n","        for entry in self.clients.iter() {\n            if self.clients.contains_key(&ClientId(search.unwrap_or(\"\").to_string())) { continue; }\n")]),
('q-exists-under',[(QM,"                    let requeued = {\n                        let mut inner = Self::lock(&shared.inner);","                    let requeued = {\n                        let mut inner = Self::lock(&shared.inner);\n                        if !queues.contains_key(&inner.name) { continue; }")]),
('q-two',[(QM,"                    let shared = entry.value().clone();\n                    let now","                    let shared = entry.value().clone();\n                    let first = queues.iter().next().map(|e| e.value().clone());\n                    let _g = first.as_ref().map(|f| Self::lock(&f.inner));\n                    let now")]),
('q-await',[(QM,"                    if !requeued.is_empty() {\n                        shared.notify","                    tokio::task::yield_now().await;\n                    if !requeued.is_empty() {\n                        shared.notify")]),
('s-await-entry',[(SM,"        let shared = Self::build_topic_shared(name.clone(), topic_config).await;\n\n        use dashmap::mapref::entry::Entry;\n        match self.topics.entry(name) {","        use dashmap::mapref::entry::Entry;\n        match self.topics.entry(name.clone()) {"),(SM,"            Entry::Vacant(v) => {\n                v.insert(shared);","            Entry::Vacant(v) => {\n                let shared = Self::build_topic_shared(name, topic_config).await;\n                v.insert(shared);")]),
('s-del-under',[(SM,"            let mut inner = Self::lock_topic(&topic_ref.inner);\n            let (seq, timestamp)","            let mut inner = Self::lock_topic(&topic_ref.inner);\n            if !self.topics.contains_key(topic) { return Err(\"Topic not found\".to_string()); }\n            let (seq, timestamp)"),(SM,"    fn get_topic(&self","    #[allow(dead_code)]\n    pub fn heads(&self) -> u64 { self.topics.iter().map(|t| { let g = Self::lock_topic(&t.value().inner); let _ = &g; 1 }).sum() }\n    fn get_topic(&self")]),
]
M.append(('ps-guardfn',[(PM,"    pub fn unsubscribe(&self","    fn root(&self) -> impl std::ops::DerefMut<Target = Node> + '_ { self.tree.write() }\n    pub fn unsubscribe(&self"),(PM,"""        {
            let root = self.tree.read();
            root.match_subscribers(&parts, &mut matched);
        }
""","""        let root = self.root();
        root.match_subscribers(&parts, &mut matched);
"""),(PM,"        for client_id in zombies {\n","        drop(root);\n        for client_id in zombies {\n")]))
