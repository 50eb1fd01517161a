F='src/brokers/store/domain/map.rs'; S='src/brokers/store/manager.rs'; T='src/brokers/store/tcp.rs'
M=[
('get-noexpiry',[(F,'if Instant::now() > expiry {','if Instant::now() > expiry && self.inner.len() > 100_000 {')]),
('get-remove-race',[(F,"""                if Instant::now() > expiry {
                    return None;""","""                if Instant::now() > expiry {
                    drop(entry);
                    self.inner.remove(key);
                    return None;""")]),
('scan-inverted',[(S,'if expiry <= now {','if expiry <= now && filter.is_some() {')]),
('cleanup-early',[(F,'return expiry > now;','return expiry > now + Duration::from_secs(cleanup_interval);')]),
('cleanup-none',[(F,"""                                return expiry > now;
                            }
                            true""","""                                return expiry > now;
                            }
                            false""")]),
('set-or-insert',[(F,"""        self.inner.insert(key, Entry {
            value: MapValue(value),
            expires_at,
        });""","""        self.inner.entry(key).or_insert(Entry {
            value: MapValue(value),
            expires_at,
        });""")]),
('set-modify',[(F,"""        self.inner.insert(key, Entry {
            value: MapValue(value),
            expires_at,
        });""","""        self.inner.entry(key).and_modify(|e| e.value = MapValue(value.clone())).or_insert_with(|| Entry {
            value: MapValue(value.clone()),
            expires_at,
        });""")]),
('set-keepdl',[(F,"""        self.inner.insert(key, Entry {""","""        if let Some(mut e) = self.inner.get_mut(&key) {
            e.value = MapValue(value);
            if ttl.is_some() { e.expires_at = expires_at; }
            return;
        }
        self.inner.insert(key, Entry {""")]),
('set-default-max',[(F,'Some(secs) => secs,','Some(secs) => secs.min(self.config.default_ttl_secs),')]),
('set-ttl-ms',[(F,'Duration::from_secs(ttl_secs)','Duration::from_millis(ttl_secs)')]),
('set-ttl0',[(F,'Some(0) | None =>','None =>')]),
('set-nodl',[(F,'Some(0) | None => self.config.default_ttl_secs','Some(0) | None => u64::MAX')]),
('set-empty-deletes',[(F,"        self.inner.insert(key, Entry {","        if value.is_empty() { self.inner.remove(&key); return; }\n        self.inner.insert(key, Entry {")]),
('set-bounded',[(F,"        self.inner.insert(key, Entry {","        if self.inner.len() > 1_000_000 { self.inner.clear(); }\n        self.inner.insert(key, Entry {")]),
('del-expired-only',[(F,'self.inner.remove(key).is_some()','match self.inner.get(key) { Some(e) if e.expires_at.is_some_and(|x| x < Instant::now()) => return false, _ => {} }\n        self.inner.remove(key).is_some()')]),
('del-contains',[(F,'self.inner.remove(key).is_some()','self.inner.retain(|k, _| k != key); true')]),
('del-negate',[(F,'self.inner.remove(key).is_some()','self.inner.remove(key).is_none()')]),
('tcp-ttl',[(T,'set(key, value, options.ttl)','set(key, value, options.ttl.map(|t| t / 1000))')]),
('tcp-trim',[(T,'.get(&key)','.get(key.trim())')]),
('tcp-setnx',[(T,'engine.store.map.set(key, value, options.ttl);','if engine.store.map.get(&key).is_none() { engine.store.map.set(key, value, options.ttl); }')]),
('tcp-empty-null',[(T,'            .map(Response::Data)','            .filter(|v| !v.is_empty()).map(Response::Data)')]),
('tcp-del',[(T,'engine.store.map.del(&key);\n','if engine.store.map.get(&key).is_some() { engine.store.map.del(&key); }\n')]),
('key-lower',[(F,'self.inner.insert(key, Entry','self.inner.insert(key.to_lowercase(), Entry')]),
('scan-mixed',[(S,'let MapValue(payload) = val.value.clone();','let MapValue(payload) = self.map.iter().next().map(|e| e.value().value.clone()).unwrap_or(val.value.clone());')]),
('value-truncated',[(F,'value: MapValue(value),','value: MapValue(value.slice(0..value.len().min(65536))),')]),
]
