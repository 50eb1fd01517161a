PM='src/brokers/pub-sub/manager.rs'; QM='src/brokers/queue/manager.rs'; SM='src/brokers/stream/manager.rs'; QP='src/brokers/queue/domain/persistence.rs'; KV='src/brokers/store/domain/map.rs'
M=[
('ps-drop',[(PM,"""        {
            let root = self.tree.read();
            root.match_subscribers(&parts, &mut matched);
        }
""","""        let root = self.tree.read();
        root.match_subscribers(&parts, &mut matched);
        drop(root);
""")]),
('ps-oneline',[(PM,"""        {
            let root = self.tree.read();
            root.match_subscribers(&parts, &mut matched);
        }
""","""        self.tree.read().match_subscribers(&parts, &mut matched);
""")]),
('ps-match',[(PM,"""        let Some(mut info) = self.clients.get_mut(client_id) else {
            return;
        };
        info.subscriptions.remove(pattern);""","""        let mut info = match self.clients.get_mut(client_id) {
            Some(i) => i,
            None => return,
        };
        info.subscriptions.remove(pattern);""")]),
('ps-iflet',[(PM,"""        let Some(mut info) = self.clients.get_mut(client_id) else {
            return;
        };
        info.subscriptions.remove(pattern);
        let parts: Vec<String> = pattern.split('/').map(|s| s.to_string()).collect();
        let mut root = self.tree.write();
        root.remove_subscriber(&parts, client_id);
""","""        if let Some(mut info) = self.clients.get_mut(client_id) {
            info.subscriptions.remove(pattern);
            let parts: Vec<String> = pattern.split('/').map(|s| s.to_string()).collect();
            let mut root = self.tree.write();
            root.remove_subscriber(&parts, client_id);
        } else {
            tracing::debug!(n = self.clients.len(), "unknown client");
        }
""")]),
('ps-guardfn',[(PM,"    pub fn unsubscribe(&self","    fn root(&self) -> impl std::ops::DerefMut<Target = Node> + '_ { self.tree.write() }\n    pub fn unsubscribe(&self"),(PM,"        let mut root = self.tree.write();\n        root.remove_subscriber(&parts, client_id);","        let mut root = self.root();\n        root.remove_subscriber(&parts, client_id);")]),
('q-get-else',[(QM,"        self.queues.get(name).map(|r| r.value().clone())","        if let Some(r) = self.queues.get(name) { Some(r.value().clone()) } else { None }")]),
('q-timeout-collect',[(QM,"                for entry in queues.iter() {\n                    let shared = entry.value().clone();","                let all: Vec<_> = queues.iter().map(|e| e.value().clone()).collect();\n                for shared in all {")]),
('q-timeout-guarddrop',[(QM,"                        requeued\n                    };\n","                        drop(inner);\n                        requeued\n                    };\n")]),
('q-lock-match',[(QM,"        mutex.lock().unwrap_or_else(|poisoned| poisoned.into_inner())","        match mutex.lock() { Ok(g) => g, Err(p) => p.into_inner() }")]),
('q-lock-iflet',[(QM,"        mutex.lock().unwrap_or_else(|poisoned| poisoned.into_inner())","        if let Ok(g) = mutex.lock() { return g; }\n        mutex.lock().unwrap_or_else(|poisoned| poisoned.into_inner())")]),
('s-vacant',[(SM,"        match self.topics.entry(name) {\n            Entry::Occupied(_) => Ok(()),\n            Entry::Vacant(v) => {\n                v.insert(shared);\n                Ok(())\n            }\n        }","        if let Entry::Vacant(v) = self.topics.entry(name) { v.insert(shared); }\n        let _ = self.topics.len();\n        Ok(())"),]),
('s-orinsert',[(SM,"        match self.topics.entry(name) {\n            Entry::Occupied(_) => Ok(()),\n            Entry::Vacant(v) => {\n                v.insert(shared);\n                Ok(())\n            }\n        }","        let _ = Entry::Vacant::<String, Arc<TopicShared>>;\n        self.topics.entry(name).or_insert(shared);\n        Ok(())")]),
]
