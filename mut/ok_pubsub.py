M='src/brokers/pub-sub/manager.rs'; T='src/brokers/pub-sub/domain/radix_tree.rs'; R='src/brokers/pub-sub/domain/retained.rs'; D='src/brokers/pub-sub/domain/persistence.rs'; C='src/brokers/pub-sub/tcp.rs'
SUBP="let parts: Vec<String> = pattern.split('/').map(|s| s.to_string()).collect();"
PUBP="let parts: Vec<String> = topic.split('/').map(|s| s.to_string()).collect();"
HELP="""impl PubSubManager {
    fn split_levels(path: &str) -> Vec<String> { path.split('/').map(String::from).collect() }

    pub fn new("""
L=[
('split-helper',[(M,"impl PubSubManager {\n    pub fn new(",HELP),(M,SUBP,"let parts = Self::split_levels(pattern);"),(M,SUBP,"let parts = Self::split_levels(pattern);"),(M,PUBP,"let parts = Self::split_levels(topic);")]),
('split-loop',[(M,PUBP,"let mut parts: Vec<String> = Vec::new();\n        for s in topic.split('/') { parts.push(s.to_owned()); }")]),
('dedup-hashset',[(M,"""        let mut seen = HashSet::new();
        matched.retain(|id| seen.insert(id.clone()));
""","        let matched: HashSet<ClientId> = matched.into_iter().collect();\n")]),
('dedup-loop',[(M,"""        let mut seen = HashSet::new();
        matched.retain(|id| seen.insert(id.clone()));
""","""        let mut seen = HashSet::new();
"""),(M,"        for client_id in matched {\n","        for client_id in matched {\n            if !seen.insert(client_id.clone()) { continue; }\n")]),
('send-match',[(M,"""            if let Some(info) = self.clients.get(&client_id) {
                if info.sender.send(msg.clone()).is_ok() {
                    sent_count += 1;
                } else {
                    zombies.push(client_id);
                }
            } else {
                zombies.push(client_id);
            }""","""            let delivered = match self.clients.get(&client_id) {
                Some(info) => info.sender.send(Arc::clone(&msg)).is_ok(),
                None => false,
            };
            if delivered { sent_count += 1; } else { zombies.push(client_id); }""")]),
('send-helper',[(M,"""            if let Some(info) = self.clients.get(&client_id) {
                if info.sender.send(msg.clone()).is_ok() {
                    sent_count += 1;
                } else {
                    zombies.push(client_id);
                }
            } else {
                zombies.push(client_id);
            }""","""            if self.deliver(&client_id, &msg) { sent_count += 1; } else { zombies.push(client_id); }"""),(M,"    pub fn disconnect(","""    fn deliver(&self, client_id: &ClientId, msg: &Arc<PubSubMessage>) -> bool {
        self.clients.get(client_id).map_or(false, |info| info.sender.send(msg.clone()).is_ok())
    }

    pub fn disconnect(""")]),
('zombie-iter',[(M,"""        for client_id in zombies {
            self.disconnect(&client_id);
        }
""","        zombies.iter().for_each(|id| self.disconnect(id));\n")]),
('retain-match',[(M,"""            if data.is_empty() {
                root.set_retained(&parts, None);
            } else {
                let effective_ttl = ttl_seconds.unwrap_or(self.config.default_retained_ttl_seconds);
                root.set_retained(&parts, Some(RetainedMessage::new(data.clone(), Some(effective_ttl))));
            }""","""            let new_value = if data.len() == 0 { None } else {
                let effective_ttl = match ttl_seconds { Some(t) => t, None => self.config.default_retained_ttl_seconds };
                Some(RetainedMessage::new(data.clone(), Some(effective_ttl)))
            };
            root.set_retained(&parts, new_value);""")]),
('retain-helper',[(M,"""            let mut root = self.tree.write();
            if data.is_empty() {
                root.set_retained(&parts, None);
            } else {
                let effective_ttl = ttl_seconds.unwrap_or(self.config.default_retained_ttl_seconds);
                root.set_retained(&parts, Some(RetainedMessage::new(data.clone(), Some(effective_ttl))));
            }
            self.retained_dirty.store(true, Ordering::Relaxed);
        }
""","""            self.store_retained(&parts, &data, ttl_seconds);
        }
"""),(M,"    pub fn disconnect(","""    fn store_retained(&self, parts: &[String], data: &Bytes, ttl: Option<u64>) {
        let retained = (!data.is_empty()).then(|| {
            RetainedMessage::new(data.clone(), Some(ttl.unwrap_or(self.config.default_retained_ttl_seconds)))
        });
        {
            let mut root = self.tree.write();
            root.set_retained(parts, retained);
        }
        self.retained_dirty.store(true, Ordering::SeqCst);
    }

    pub fn disconnect(""")]),
('sub-iflet',[(M,"""        let Some(mut info) = self.clients.get_mut(client_id) else {
            return;
        };
        info.subscriptions.insert(pattern.to_string());

        let parts: Vec<String> = pattern.split('/').map(|s| s.to_string()).collect();
        let mut root = self.tree.write();
        root.insert_subscriber(&parts, client_id);

        let mut retained = Vec::new();
        root.collect_retained_for_pattern(&parts, None, &mut retained);

        for (p, b) in retained {
            let msg = Arc::new(PubSubMessage::new(p, b));
            let _ = info.sender.send(msg);
        }""","""        if let Some(mut info) = self.clients.get_mut(client_id) {
            let parts: Vec<String> = pattern.split('/').map(|s| s.to_string()).collect();
            let mut root = self.tree.write();
            root.insert_subscriber(&parts, client_id);
            info.subscriptions.insert(pattern.to_owned());

            let mut retained = Vec::with_capacity(8);
            root.collect_retained_for_pattern(&parts, None, &mut retained);
            retained.into_iter().for_each(|(p, b)| {
                info.sender.send(Arc::new(PubSubMessage::new(p, b))).ok();
            });
        }""")]),
('sub-break-closed',[(M,"            let _ = info.sender.send(msg);","            if info.sender.send(msg).is_err() { break; }")]),
('disc-match',[(M,"""        if let Some((_, info)) = self.clients.remove(client_id) {
            let mut root = self.tree.write();
            for sub in info.subscriptions {""","""        let Some((_, info)) = self.clients.remove(client_id) else { return };
        {
            let mut root = self.tree.write();
            for sub in info.subscriptions.iter() {""")]),
('disc-lock-each',[(M,"""            let mut root = self.tree.write();
            for sub in info.subscriptions {""","""            for sub in info.subscriptions {
                let mut root = self.tree.write();""")]),
('flush-load-swap',[(M,"if !flush_dirty.swap(false, Ordering::Relaxed) {","if flush_dirty.compare_exchange(true, false, Ordering::AcqRel, Ordering::Relaxed).is_err() {")]),
('flush-match',[(M,"""                    if let Err(e) = persistence::flush(&mut conn, &entries) {
                        tracing::error!("Failed to flush retained messages to SQLite: {}", e);
                        // Nothing was written: try again on the next tick
                        flush_dirty.store(true, Ordering::Relaxed);
                    }""","""                    match persistence::flush(&mut conn, &entries) {
                        Ok(()) => tracing::debug!("flushed {}", entries.len()),
                        Err(e) => {
                            flush_dirty.store(true, Ordering::Relaxed);
                            tracing::error!("Failed to flush retained messages to SQLite: {}", e);
                        }
                    }""")]),
('clean-always',[(M,"                if cleaned {\n                    cleanup_dirty.store(true, Ordering::Relaxed);\n                }","                let _ = cleaned;\n                cleanup_dirty.store(true, Ordering::Relaxed);")]),
('boot-helper',[(M,"                let mut root = tree.write();\n                for (path, msg) in loaded {","                for (path, msg) in loaded {\n                    let mut root = tree.write();")]),
('db-str',[(D,"\"DELETE FROM retained\"","\"DELETE FROM retained;\""),(D,"(path, data, expires_at) VALUES (?, ?, ?)","(data, path, expires_at) VALUES (?, ?, ?)"),(D,"params![path, data.as_ref(), expires]","params![data.as_ref(), path, expires]")]),
('db-load-loop',[(D,"        if let Ok((path, data, expires)) = entry {","        let Ok((path, data, expires)) = entry else { continue };\n        {")]),
('db-load-filtermap',[(D,"""    let mut results = Vec::new();
    for entry in entries {
        if let Ok((path, data, expires)) = entry {
            let msg = RetainedMessage::from_persisted(data, expires);
            if !msg.is_expired() {
                results.push((path, msg));
            }
        }
    }
    Ok(results)""","""    Ok(entries
        .flatten()
        .map(|(path, data, expires)| (path, RetainedMessage::from_persisted(data, expires)))
        .filter(|(_, m)| !m.is_expired())
        .collect())""")]),
('db-commit-tail',[(D,"    tx.commit()?;\n    Ok(())","    tx.commit()")]),
('ret-is-some-and',[(R,"self.expires_at.map_or(false, |exp| Instant::now() >= exp)","match self.expires_at { Some(exp) => exp <= Instant::now(), None => false }")]),
('ret-new-match',[(R,"""        let expires_at = ttl_seconds
            .and_then(|secs| Instant::now().checked_add(std::time::Duration::from_secs(secs)));""","""        let expires_at = match ttl_seconds {
            Some(secs) => Instant::now().checked_add(std::time::Duration::from_secs(secs)),
            None => None,
        };""")]),
('tree-ins-rec',[(T,"""        let mut current = self;
        for (i, part) in parts.iter().enumerate() {
            if part == "#" {
                if current.hash_child.is_none() {
                    current.hash_child = Some(Box::new(Node::new()));
                }
                current.hash_child.as_mut().unwrap().subscribers.insert(client.clone());
                return;
            } else if part == "+" {
                if current.plus_child.is_none() {
                    current.plus_child = Some(Box::new(Node::new()));
                }
                current = current.plus_child.as_mut().unwrap();
            } else {
                current = current.children.entry(part.clone()).or_insert_with(Node::new);
            }
        }
        current.subscribers.insert(client.clone());""","""        let Some((head, tail)) = parts.split_first() else {
            self.subscribers.insert(client.clone());
            return;
        };
        match head.as_str() {
            "#" => {
                self.hash_child.get_or_insert_with(|| Box::new(Node::new())).subscribers.insert(client.clone());
            }
            "+" => self.plus_child.get_or_insert_with(|| Box::new(Node::new())).insert_subscriber(tail, client),
            _ => self.children.entry(head.clone()).or_insert_with(Node::new).insert_subscriber(tail, client),
        }""")]),
('tree-match-extend',[(T,"            for client in &hash_node.subscribers {\n                results.push(client.clone());\n            }","            results.extend(hash_node.subscribers.iter().cloned());"),(T,"            for client in &self.subscribers {\n                results.push(client.clone());\n            }\n            return;","            results.extend(self.subscribers.iter().cloned());\n            return;")]),
('tree-match-splitfirst',[(T,"""        let head = &parts[0];
        let tail = &parts[1..];

        if let Some(child) = self.children.get(head) {
            child.match_subscribers(tail, results);
        }

        if let Some(plus_node) = &self.plus_child {
            plus_node.match_subscribers(tail, results);
        }""","""        if let Some((head, tail)) = parts.split_first() {
            if let Some(plus_node) = self.plus_child.as_deref() {
                plus_node.match_subscribers(tail, results);
            }
            if let Some(child) = self.children.get(head.as_str()) {
                child.match_subscribers(tail, results);
            }
        }""")]),
('tree-set-fold',[(T,"""        let mut current = self;
        for part in parts {
            current = current.children.entry(part.clone()).or_insert_with(Node::new);
        }
        current.retained = retained;""","""        match parts.split_first() {
            None => self.retained = retained,
            Some((head, tail)) => self.children.entry(head.to_string()).or_insert_with(Node::new).set_retained(tail, retained),
        }""")]),
('tree-rm-match',[(T,"""            if let Some(child) = self.children.get_mut(head) {
                if child.remove_subscriber(tail, client) {
                    should_remove = true;
                }
            }
            if should_remove {
                self.children.remove(head);
            }""","""            let emptied = match self.children.get_mut(head) {
                Some(child) => child.remove_subscriber(tail, client),
                None => false,
            };
            if emptied { self.children.remove(head.as_str()); }"""),(T,"        let mut should_remove = false;\n\n        if head == \"#\"","        let mut should_remove = false;\n        if head == \"#\"")]),
('tree-clean-map',[(T,"""        for child in self.children.values_mut() {
            if child.cleanup_expired_retained() {
                cleaned = true;
            }
        }""","""        for (_, child) in self.children.iter_mut() {
            cleaned |= child.cleanup_expired_retained();
        }""")]),
('tree-clean-take',[(T,"""        if let Some(retained) = &self.retained {
            if retained.is_expired() {
                self.retained = None;
                cleaned = true;
            }
        }""","""        if self.retained.as_ref().is_some_and(|r| r.is_expired()) {
            self.retained.take();
            cleaned = true;
        }""")]),
('tree-coll-match',[(T,"""        if head == "+" {
            for (key, child) in &self.children {
                let next_path = join_path(current_path, key);
                child.collect_retained_for_pattern(tail, Some(&next_path), results);
            }
        } else if head == "#" {
            self.collect_all_retained_for_subscribe(current_path, results);
        } else {
            if let Some(child) = self.children.get(head) {
                let next_path = join_path(current_path, head);
                child.collect_retained_for_pattern(tail, Some(&next_path), results);
            }
        }""","""        match head.as_str() {
            "#" => self.collect_all_retained_for_subscribe(current_path, results),
            "+" => self.children.iter().for_each(|(key, child)| {
                child.collect_retained_for_pattern(tail, Some(&join_path(current_path, key)), results)
            }),
            _ => {
                let Some(child) = self.children.get(head) else { return };
                child.collect_retained_for_pattern(tail, Some(join_path(current_path, head).as_str()), results);
            }
        }""")]),
('tcp-direct',[(C,"            let _count = pubsub.publish(","            pubsub.publish(")]),
]
M=L
