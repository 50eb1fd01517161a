M='src/brokers/pub-sub/manager.rs'; T='src/brokers/pub-sub/domain/radix_tree.rs'; R='src/brokers/pub-sub/domain/retained.rs'; D='src/brokers/pub-sub/domain/persistence.rs'; C='src/brokers/pub-sub/tcp.rs'
SUBP="let parts: Vec<String> = pattern.split('/').map(|s| s.to_string()).collect();"
PUBP="let parts: Vec<String> = topic.split('/').map(|s| s.to_string()).collect();"
L=[
('pub-filter-empty',[(M,PUBP,PUBP.replace(".map(",".filter(|s| !s.is_empty()).map("))]),
('pub-split-dot',[(M,PUBP,PUBP.replace("'/'","['/', '.']"))]),
('pub-lower',[(M,PUBP,PUBP.replace("s.to_string()","s.to_lowercase()"))]),
('sub-trim',[(M,SUBP,SUBP.replace("pattern.split","pattern.trim_end_matches('/').split"))]),
('pub-match-before-retain',[(M,"""        if retain {
            let mut root = self.tree.write();""","""        let mut matched = Vec::new();
        {
            let root = self.tree.read();
            root.match_subscribers(&parts, &mut matched);
        }

        if retain {
            let mut root = self.tree.write();"""),(M,"""            self.retained_dirty.store(true, Ordering::Relaxed);
        }

        let mut matched = Vec::new();
        {
            let root = self.tree.read();
            root.match_subscribers(&parts, &mut matched);
        }
""","""            self.retained_dirty.store(true, Ordering::Relaxed);
        }
""")]),
('pub-nodedup',[(M,"""        let mut seen = HashSet::new();
        matched.retain(|id| seen.insert(id.clone()));
""","")]),
('pub-dedup-consec',[(M,"""        let mut seen = HashSet::new();
        matched.retain(|id| seen.insert(id.clone()));
""","        matched.dedup();\n")]),
('pub-break-zombie',[(M,"""                    zombies.push(client_id);
                }
            } else {
                zombies.push(client_id);
            }""","""                    zombies.push(client_id);
                    break;
                }
            } else {
                zombies.push(client_id);
            }""")]),
('pub-limit',[(M,"for client_id in matched {","for client_id in matched.into_iter().take(1000) {")]),
('pub-wrong-data',[(M,"let msg = Arc::new(PubSubMessage::new(topic.to_string(), data));","let msg = Arc::new(PubSubMessage::new(parts.join(\"/\").to_lowercase(), data));")]),
('pub-zombie-all',[(M,"                    sent_count += 1;\n","                    sent_count += 1;\n                    if info.subscriptions.is_empty() { zombies.push(client_id.clone()); }\n")]),
('pub-empty-not-clear',[(M,"if data.is_empty() {","if data.is_empty() && ttl_seconds.is_none() {")]),
('pub-empty-skip',[(M,"        let mut matched = Vec::new();\n        {","        if data.is_empty() && retain { return 0; }\n        let mut matched = Vec::new();\n        {")]),
('pub-retain-always',[(M,"        if retain {","        if retain || ttl_seconds.is_some() {")]),
('pub-nodirty',[(M,"            self.retained_dirty.store(true, Ordering::Relaxed);\n        }\n\n        let mut matched","        }\n\n        let mut matched")]),
('pub-dirty-before',[(M,"            self.retained_dirty.store(true, Ordering::Relaxed);\n        }\n\n        let mut matched","        }\n\n        let mut matched"),(M,"        if retain {\n","        if retain {\n            self.retained_dirty.store(true, Ordering::Relaxed);\n")]),
('pub-dirty-data',[(M,"            self.retained_dirty.store(true, Ordering::Relaxed);\n        }\n\n        let mut matched","            if !data.is_empty() { self.retained_dirty.store(true, Ordering::Relaxed); }\n        }\n\n        let mut matched")]),
('pub-ttl-min',[(M,"ttl_seconds.unwrap_or(self.config.default_retained_ttl_seconds)","ttl_seconds.unwrap_or(self.config.default_retained_ttl_seconds).min(86400)")]),
('disc-notree',[(M,"                root.remove_subscriber(&parts, client_id);\n            }\n        }\n    }\n\n    pub fn subscribe","                if info.sender.is_closed() { root.remove_subscriber(&parts, client_id); }\n            }\n        }\n    }\n\n    pub fn subscribe")]),
('disc-skip',[(M,"for sub in info.subscriptions {","for sub in info.subscriptions.into_iter().skip(1) {")]),
('sub-collect-first',[(M,"        root.insert_subscriber(&parts, client_id);\n\n        let mut retained = Vec::new();\n        root.collect_retained_for_pattern(&parts, None, &mut retained);\n","        let mut retained = Vec::new();\n        root.collect_retained_for_pattern(&parts, None, &mut retained);\n        drop(root);\n        self.tree.write().insert_subscriber(&parts, client_id);\n")]),
('sub-send-unlocked',[(M,"        for (p, b) in retained {\n","        drop(root);\n        for (p, b) in retained {\n")]),
('sub-info-dropped',[(M,"""        let Some(mut info) = self.clients.get_mut(client_id) else {
            return;
        };
        info.subscriptions.insert(pattern.to_string());
""","""        let sender = {
            let Some(mut info) = self.clients.get_mut(client_id) else {
                return;
            };
            info.subscriptions.insert(pattern.to_string());
            info.sender.clone()
        };
"""),(M,"let _ = info.sender.send(msg);","let _ = sender.send(msg);")]),
('sub-only-new',[(M,"info.subscriptions.insert(pattern.to_string());","if !info.subscriptions.insert(pattern.to_string()) { return; }")]),
('sub-registry-missing',[(M,"info.subscriptions.insert(pattern.to_string());","if info.subscriptions.len() < 1024 { info.subscriptions.insert(pattern.to_string()); }")]),
('sub-swap',[(M,"PubSubMessage::new(p, b)","PubSubMessage::new(pattern.to_string(), { let _ = p; b })")]),
('sub-limit',[(M,"for (p, b) in retained {","for (p, b) in retained.into_iter().take(500) {")]),
('unsub-notree',[(M,"        info.subscriptions.remove(pattern);\n","        if info.subscriptions.remove(pattern) && info.subscriptions.len() > 100 { return; }\n")]),
('unsub-keepreg',[(M,"        info.subscriptions.remove(pattern);\n","        let _ = &mut info;\n")]),
('flush-swap-after',[(M,"""                    if !flush_dirty.swap(false, Ordering::Relaxed) {
                        continue;
                    }
""","""                    if !flush_dirty.load(Ordering::Relaxed) {
                        continue;
                    }
"""),(M,"                    if let Err(e) = persistence::flush(","                    flush_dirty.store(false, Ordering::Relaxed);\n                    if let Err(e) = persistence::flush(")]),
('flush-noremark',[(M,"                        flush_dirty.store(true, Ordering::Relaxed);\n","")]),
('flush-if-nonempty',[(M,"                    if let Err(e) = persistence::flush(","                    if entries.is_empty() { continue; }\n                    if let Err(e) = persistence::flush(")]),
('clean-nodirty',[(M,"                if cleaned {\n                    cleanup_dirty.store(true, Ordering::Relaxed);\n                }","                if cleaned { let _ = &cleanup_dirty; }")]),
('boot-skip',[(M,"                for (path, msg) in loaded {","                for (path, msg) in loaded.into_iter().filter(|(p, _)| !p.starts_with('$')) {")]),
('db-nodelete',[(D,"    tx.execute(\"DELETE FROM retained\", [])?;\n",""),(D,"\"INSERT INTO","\"INSERT OR REPLACE INTO")]),
('db-nocommit',[(D,"    tx.commit()?;\n","    drop(tx);\n")]),
('db-commit-ignored',[(D,"    tx.commit()?;\n","    let _ = tx.commit();\n")]),
('db-ins-ignored',[(D,"stmt.execute(params![path, data.as_ref(), expires])?;","let _ = stmt.execute(params![path, data.as_ref(), expires]);")]),
('db-del-expired',[(D,"DELETE FROM retained\"","DELETE FROM retained WHERE expires_at IS NOT NULL\"")]),
('db-insert-ignore',[(D,"\"INSERT INTO","\"INSERT OR IGNORE INTO"),(D,"DELETE FROM retained\"","DELETE FROM retained WHERE 0\"")]),
('db-load-now',[(D,"row.get(2)?;","row.get::<_, Option<i64>>(2)?.map(|v| v / 1000);")]),
('db-load-filter',[(D,"SELECT path, data, expires_at FROM retained","SELECT path, data, expires_at FROM retained LIMIT 10000")]),
('db-load-cols',[(D,"SELECT path, data, expires_at FROM","SELECT data, path, expires_at FROM")]),
('db-load-noexp',[(D,"            if !msg.is_expired() {\n                results.push((path, msg));\n            }","            results.push((path, msg));"),(R,"            let remaining = unix_ts.saturating_sub(now_unix);","            if unix_ts <= now_unix { return None; }\n            let remaining = unix_ts - now_unix;")]),
('db-load-dropall',[(D,"            if !msg.is_expired() {","            if msg.is_expired() {")]),
('db-load-ttlless',[(D,"            if !msg.is_expired() {","            if !msg.is_expired() && msg.expires_at_unix.is_some() {")]),
('ret-unix-ms',[(R,"                .as_secs()\n                .saturating_add(secs)","                .as_millis() as u64\n                + secs")]),
('ret-expired-inv',[(R,"self.expires_at.map_or(false, |exp| Instant::now() >= exp)","self.expires_at.map_or(false, |exp| Instant::now() < exp)")]),
('ret-expired-true',[(R,"self.expires_at.map_or(false, |exp|","self.expires_at.map_or(true, |exp|")]),
('ret-panic',[(R,"ttl_seconds\n            .and_then(|secs| Instant::now().checked_add(std::time::Duration::from_secs(secs)));","ttl_seconds\n            .map(|secs| Instant::now() + std::time::Duration::from_secs(secs));")]),
('ret-ttl-ms',[(R,".and_then(|secs| Instant::now().checked_add(std::time::Duration::from_secs(secs)));",".and_then(|secs| Instant::now().checked_add(std::time::Duration::from_millis(secs)));")]),
('ret-unix-none',[(R,"let expires_at_unix = ttl_seconds.map(","let expires_at_unix = ttl_seconds.filter(|s| *s < 86400).map(")]),
('tree-ins-hash-children',[(T,"                current.hash_child.as_mut().unwrap().subscribers.insert(client.clone());\n                return;","                let h = current.hash_child.as_mut().unwrap();\n                if h.subscribers.len() < 4096 { h.subscribers.insert(client.clone()); }\n                return;")]),
('tree-match-hash-deep',[(T,"        if let Some(hash_node) = &self.hash_child {\n            for client in &hash_node.subscribers {\n                results.push(client.clone());\n            }\n        }\n\n        if parts","        if let Some(hash_node) = self.hash_child.as_ref().filter(|_| !parts.is_empty()) {\n            for client in &hash_node.subscribers {\n                results.push(client.clone());\n            }\n        }\n\n        if parts")]),
('tree-match-plus-else',[(T,"        if let Some(child) = self.children.get(head) {\n            child.match_subscribers(tail, results);\n        }\n\n        if let Some(plus_node)","        if let Some(child) = self.children.get(head) {\n            child.match_subscribers(tail, results);\n        } else if let Some(plus_node)")]),
('tree-match-plus-tail',[(T,"            plus_node.match_subscribers(tail, results);","            plus_node.match_subscribers(if tail.is_empty() { parts } else { tail }, results);")]),
('tree-rm-prune',[(T,"            && self.retained.is_none()","            && self.retained.as_ref().map_or(true, |r| r.data.is_empty())")]),
('tree-rm-prune-hash',[(T,"            && self.hash_child.is_none()\n","")]),
('tree-rm-hash-all',[(T,"                if hash_node.is_empty() {\n                    should_remove = true;\n                }","                should_remove = true;")]),
('tree-rm-plus-child',[(T,"        } else if head == \"+\" {\n            if let Some(ref mut plus_node)","        } else if head == \"+\" && !tail.is_empty() {\n            if let Some(ref mut plus_node)")]),
('tree-set-plus',[(T,"            current = current.children.entry(part.clone()).or_insert_with(Node::new);\n        }\n        current.retained = retained;","            current = current.children.entry(part.trim().to_string()).or_insert_with(Node::new);\n        }\n        current.retained = retained;")]),
('tree-set-merge',[(T,"        current.retained = retained;","        if current.retained.is_none() || retained.is_some() { current.retained = retained; }")]),
('tree-coll-expired',[(T,"            if let Some(retained) = &self.retained {\n                if !retained.is_expired() {\n                    results.push((current_path.unwrap_or_default().to_string(), retained.data.clone()));\n                }\n            }\n            return;","            if let Some(retained) = &self.retained {\n                results.push((current_path.unwrap_or_default().to_string(), retained.data.clone()));\n            }\n            return;")]),
('tree-coll-hash-children',[(T,"            self.collect_all_retained_for_subscribe(current_path, results);\n        } else {","            for (key, child) in &self.children {\n                let next_path = join_path(current_path, key);\n                child.collect_all_retained_for_subscribe(Some(&next_path), results);\n            }\n        } else {")]),
('tree-coll-plus-dollar',[(T,"        if head == \"+\" {\n            for (key, child) in &self.children {","        if head == \"+\" {\n            for (key, child) in self.children.iter().filter(|(k, _)| !k.starts_with('$')) {")]),
('tree-collall-filter',[(T,"                results.push((current_path.unwrap_or_default().to_string(), retained.data.clone(), retained.expires_at_unix.map(|v| v as i64)));","                if !retained.data.is_empty() && retained.data.len() < (1 << 20) { results.push((current_path.unwrap_or_default().to_string(), retained.data.clone(), retained.expires_at_unix.map(|v| v as i64))); }")]),
('tree-join',[(T,"        Some(path) => format!(\"{}/{}\", path, key),","        Some(path) if !path.is_empty() => format!(\"{}/{}\", path, key),\n        Some(_) => key.to_string(),")]),
('tree-clean-all',[(T,"            if retained.is_expired() {\n                self.retained = None;","            if retained.is_expired() || retained.data.is_empty() || retained.expires_at.is_none() {\n                self.retained = None;")]),
('tree-clean-prune',[(T,"        for child in self.children.values_mut() {\n            if child.cleanup_expired_retained() {\n                cleaned = true;\n            }\n        }","        self.children.retain(|_, child| { if child.cleanup_expired_retained() { cleaned = true; } !child.children.is_empty() || child.retained.is_some() || !child.subscribers.is_empty() });")]),
('tcp-noretain-ttl',[(C,"config.retain, Some(config.ttl_seconds)","config.retain, Some(config.ttl_seconds * 1000)")]),
('tcp-trim',[(C,"pubsub.subscribe(client_id, &topic);","pubsub.subscribe(client_id, topic.trim_start_matches('/'));")]),
('tcp-unsub-sub',[(C,"            pubsub.unsubscribe(client_id, &topic);","            if !topic.contains('#') { pubsub.unsubscribe(client_id, &topic); }")]),
]
M=L
