F='src/brokers/store/domain/map.rs'; S='src/brokers/store/manager.rs'; T='src/brokers/store/tcp.rs'
SETOLD="""        self.inner.insert(key, Entry {
            value: MapValue(value),
            expires_at,
        });"""
GETOLD="""        if let Some(entry) = self.inner.get(key) {
            if let Some(expiry) = entry.expires_at {
                if Instant::now() > expiry {
                    return None;
                }
            }
            let MapValue(val) = &entry.value;
            return Some(val.clone());
        }
        None"""
RET="""                        map.retain(|_, entry: &mut Entry| {
                            if let Some(expiry) = entry.expires_at {
                                return expiry > now;
                            }
                            true
                        });"""
M=[
('ok-set-let',[(F,SETOLD,"""        let entry = Entry { expires_at, value: MapValue(value) };
        let _previous = self.inner.insert(key, entry);""")]),
('ok-get-let',[(F,GETOLD,"""        let entry = self.inner.get(key)?;
        if entry.is_expired(Instant::now()) { return None; }
        Some(entry.value.0.clone())"""),(F,"#[derive(Clone)]\npub struct MapStore","impl Entry {\n    fn is_expired(&self, now: Instant) -> bool {\n        matches!(self.expires_at, Some(expiry) if now > expiry)\n    }\n}\n\n#[derive(Clone)]\npub struct MapStore")]),
('ok-get-filter',[(F,GETOLD,"""        self.inner
            .get(key)
            .filter(|entry| entry.expires_at.map_or(true, |expiry| Instant::now() <= expiry))
            .map(|entry| entry.value.0.clone())""")]),
('ok-get-match',[(F,GETOLD,"""        match self.inner.get(key) {
            Some(entry) => match entry.expires_at {
                Some(expiry) if expiry < Instant::now() => None,
                _ => Some(entry.value().value.0.clone()),
            },
            None => None,
        }""")]),
('ok-retain-match',[(F,RET,"""                        map.retain(|_, entry: &mut Entry| match entry.expires_at {
                            Some(expiry) => expiry > now,
                            None => true,
                        });""")]),
('ok-retain-mapor',[(F,RET,"""                        map.retain(|_, e: &mut Entry| !e.expires_at.is_some_and(|expiry| expiry <= now));""")]),
('ok-cleanup-fn',[(F,RET,"""                        Self::sweep(&map, Instant::now());"""),(F,"    pub fn get(&self","    fn sweep(map: &DashMap<String, Entry>, now: Instant) {\n        map.retain(|_, e| e.expires_at.map_or(true, |x| x > now));\n    }\n\n    pub fn get(&self"),(F,"                        let now = Instant::now();\n","")]),
('ok-del-match',[(F,'self.inner.remove(key).is_some()','match self.inner.remove(key) { Some(_) => true, None => false }')]),
('ok-scan-loop',[(S,"""            .filter_map(|entry| {
                let val = entry.value();""","""            .map(|entry| entry)
            .filter_map(|entry| {
                let val: &crate::brokers::store::domain::map::Entry = &entry;""")]),
('ok-scan-for',[(S,"""        let entries = self.map.iter()
            .filter(|entry| {
                if let Some(ref f) = filter {
                    entry.key().contains(f)
                } else {
                    true
                }
            })
            .skip(offset)
            .take(limit)
            .filter_map(|entry| {
                let val = entry.value();
                if let Some(expiry) = val.expires_at {
                    if expiry <= now {
                        return None;
                    }
                }
                let MapValue(payload) = val.value.clone();
                Some(KeyEntry {
                    key: entry.key().clone(),
                    payload,
                    expires_at: val.expires_at,
                })
            })
            .collect();""","""        let mut entries = Vec::new();
        let mut seen = 0usize;
        for entry in self.map.iter() {
            if let Some(f) = &filter {
                if !entry.key().contains(f.as_str()) { continue; }
            }
            seen += 1;
            if seen <= offset { continue; }
            if seen > offset.saturating_add(limit) { break; }
            let val = entry.value();
            if val.expires_at.is_some_and(|expiry| expiry <= now) { continue; }
            let MapValue(payload) = val.value.clone();
            entries.push(KeyEntry { key: entry.key().clone(), payload, expires_at: val.expires_at });
        }""")]),
('ok-tcp-match',[(T,"""        StoreCommand::MapGet { key } => engine
            .store
            .map
            .get(&key)
            .map(Response::Data)
            .unwrap_or(Response::Null),""","""        StoreCommand::MapGet { key } => {
            let map = &engine.store.map;
            match map.get(key.as_str()) {
                Some(value) => Response::Data(value),
                None => Response::Null,
            }
        }""")]),
('ok-tcp-helper',[(T,"            engine.store.map.set(key, value, options.ttl);\n            Response::Ok","            run_set(engine, key, value, &options)"),(T,"pub fn handle(","fn run_set(engine: &NexoEngine, key: String, value: Bytes, options: &MapSetOptions) -> Response {\n    engine.store.map.set(key, value, options.ttl);\n    Response::Ok\n}\n\npub fn handle(")]),
('ok-len-trace',[(F,"        self.inner.remove(key).is_some()","        let removed = self.inner.remove(key).is_some();\n        tracing::trace!(key, removed, \"del\");\n        removed")]),
('ok-get-removeif',[(F,"""                if Instant::now() > expiry {
                    return None;""","""                let now = Instant::now();
                if now > expiry {
                    drop(entry);
                    self.inner.remove_if(key, |_, e| e.expires_at.is_some_and(|x| now > x));
                    return None;""")]),
]
