"""second batch of behaviour-preserving edits, pub/sub"""
import sys; sys.path.insert(0,'/verif/mut')
from fnedit import F, text
R='src/brokers/pub-sub/domain/radix_tree.rs'; M_='src/brokers/pub-sub/manager.rs'; E='src/brokers/pub-sub/domain/retained.rs'; P='src/brokers/pub-sub/domain/persistence.rs'
NEW=text(M_,'new')
M=[
('ins-rec',[F(R,'insert_subscriber','''
    pub(crate) fn insert_subscriber(&mut self, parts: &[String], client: &ClientId) {
        match parts {
            [] => {
                self.subscribers.insert(client.clone());
            }
            [head, tail @ ..] => match head.as_str() {
                "#" => {
                    let node = self.hash_child.get_or_insert_with(|| Box::new(Node::new()));
                    node.subscribers.insert(client.clone());
                }
                "+" => self
                    .plus_child
                    .get_or_insert_with(|| Box::new(Node::new()))
                    .insert_subscriber(tail, client),
                _ => self
                    .children
                    .entry(head.to_string())
                    .or_insert_with(Node::new)
                    .insert_subscriber(tail, client),
            },
        }
    }
''')]),
('rem-match',[F(R,'remove_subscriber','''
    pub(crate) fn remove_subscriber(&mut self, parts: &[String], client: &ClientId) -> bool {
        let Some((head, tail)) = parts.split_first() else {
            self.subscribers.remove(client);
            return self.is_empty();
        };
        match head.as_str() {
            "#" => {
                let emptied = match self.hash_child.as_mut() {
                    Some(node) => {
                        node.subscribers.remove(client);
                        node.is_empty()
                    }
                    None => false,
                };
                if emptied {
                    self.hash_child = None;
                }
            }
            "+" => {
                if self.plus_child.as_mut().map_or(false, |node| node.remove_subscriber(tail, client)) {
                    self.plus_child.take();
                }
            }
            name => {
                let emptied = self.children.get_mut(name).map_or(false, |child| child.remove_subscriber(tail, client));
                if emptied {
                    self.children.remove(name);
                }
            }
        }
        self.is_empty()
    }
''')]),
('match-extend',[F(R,'match_subscribers','''
    pub(crate) fn match_subscribers(&self, parts: &[String], results: &mut Vec<ClientId>) {
        if let Some(node) = self.hash_child.as_ref() {
            results.extend(node.subscribers.iter().cloned());
        }
        match parts.split_first() {
            None => results.extend(self.subscribers.iter().cloned()),
            Some((head, tail)) => {
                let exact = self.children.get(head);
                let any = self.plus_child.as_deref();
                for node in exact.into_iter().chain(any) {
                    node.match_subscribers(tail, results);
                }
            }
        }
    }
''')]),
('match-loop',[F(R,'match_subscribers','''
    pub(crate) fn match_subscribers(&self, parts: &[String], results: &mut Vec<ClientId>) {
        if let Some(hash_node) = &self.hash_child {
            hash_node.push_subscribers(results);
        }
        if parts.is_empty() {
            return self.push_subscribers(results);
        }
        let (head, tail) = (&parts[0], &parts[1..]);
        if let Some(plus_node) = &self.plus_child {
            plus_node.match_subscribers(tail, results);
        }
        if let Some(child) = self.children.get(head.as_str()) {
            child.match_subscribers(tail, results);
        }
    }

    fn push_subscribers(&self, results: &mut Vec<ClientId>) {
        for client in self.subscribers.iter() {
            results.push(client.to_owned());
        }
    }
''')]),
('retained-visit',[F(R,'collect_retained_for_pattern','''
    fn live_retained(&self) -> Option<&RetainedMessage> {
        self.retained.as_ref().filter(|r| !r.is_expired())
    }

    pub(crate) fn collect_retained_for_pattern(&self, pattern: &[String], current_path: Option<&str>, results: &mut Vec<(String, Bytes)>) {
        let Some((head, tail)) = pattern.split_first() else {
            if let Some(retained) = self.live_retained() {
                results.push((current_path.unwrap_or("").to_owned(), retained.data.clone()));
            }
            return;
        };
        match head.as_str() {
            "#" => self.collect_all_retained_for_subscribe(current_path, results),
            "+" => {
                for (key, child) in self.children.iter() {
                    let path = join_path(current_path, key);
                    child.collect_retained_for_pattern(tail, Some(path.as_str()), results);
                }
            }
            exact => {
                let Some(child) = self.children.get(exact) else { return };
                let path = join_path(current_path, exact);
                child.collect_retained_for_pattern(tail, Some(path.as_str()), results);
            }
        }
    }
'''),F(R,'collect_all_retained_for_subscribe','''
    pub(crate) fn collect_all_retained_for_subscribe(&self, current_path: Option<&str>, results: &mut Vec<(String, Bytes)>) {
        if let Some(retained) = self.live_retained() {
            results.push((current_path.unwrap_or("").to_owned(), retained.data.clone()));
        }
        self.children.iter().for_each(|(key, child)| {
            child.collect_all_retained_for_subscribe(Some(&join_path(current_path, key)), results)
        });
    }
''')]),
('all-retained-match',[F(R,'collect_all_retained','''
    pub(crate) fn collect_all_retained(&self, current_path: Option<&str>, results: &mut Vec<(String, Bytes, Option<i64>)>) {
        match &self.retained {
            Some(RetainedMessage { data, expires_at_unix, .. }) if !self.retained_expired() => {
                let deadline = match expires_at_unix {
                    Some(v) => Some(*v as i64),
                    None => None,
                };
                let topic = current_path.map(str::to_string).unwrap_or_default();
                results.push((topic, data.clone(), deadline));
            }
            _ => {}
        }
        for (key, child) in self.children.iter() {
            child.collect_all_retained(Some(&join_path(current_path, key)), results);
        }
    }

    fn retained_expired(&self) -> bool {
        matches!(&self.retained, Some(r) if r.is_expired())
    }
''')]),
('cleanup-chain',[F(R,'cleanup_expired_retained','''
    pub(crate) fn cleanup_expired_retained(&mut self) -> bool {
        let expired = self.retained.as_ref().map_or(false, |r| r.is_expired());
        if expired {
            self.retained.take();
        }
        let mut cleaned = expired;
        let wild = self.plus_child.as_deref_mut().into_iter().chain(self.hash_child.as_deref_mut());
        for node in self.children.values_mut().chain(wild) {
            cleaned |= node.cleanup_expired_retained();
        }
        cleaned
    }
''')]),
('set-rec',[F(R,'set_retained','''
    pub(crate) fn set_retained(&mut self, parts: &[String], retained: Option<RetainedMessage>) {
        let node = parts
            .iter()
            .fold(self, |node, part| node.children.entry(part.to_owned()).or_insert_with(Node::new));
        node.retained = retained;
    }
''')]),
('set-self-rec',[F(R,'set_retained','''
    pub(crate) fn set_retained(&mut self, parts: &[String], retained: Option<RetainedMessage>) {
        if let [head, tail @ ..] = parts {
            let child = self.children.entry(head.clone()).or_insert_with(Node::new);
            child.set_retained(tail, retained);
        } else {
            self.retained = retained;
        }
    }
''')]),
# manager
('pub-split',[F(M_,'publish','''
    pub fn publish(&self, topic: &str, data: Bytes, retain: bool, ttl_seconds: Option<u64>) -> usize {
        let parts = Self::levels(topic);
        if parts.is_empty() { return 0; }
        if retain {
            self.retain(&parts, &data, ttl_seconds);
        }
        let receivers = self.receivers(&parts);
        let message = Arc::new(PubSubMessage::new(topic.to_owned(), data));
        let (delivered, gone): (Vec<ClientId>, Vec<ClientId>) = receivers
            .into_iter()
            .partition(|id| self.deliver(id, &message));
        for id in &gone {
            self.disconnect(id);
        }
        delivered.len()
    }

    fn levels(topic: &str) -> Vec<String> {
        topic.split('/').map(String::from).collect()
    }

    fn retain(&self, parts: &[String], data: &Bytes, ttl_seconds: Option<u64>) {
        let value = if data.is_empty() {
            None
        } else {
            let ttl = match ttl_seconds {
                Some(ttl) => ttl,
                None => self.config.default_retained_ttl_seconds,
            };
            Some(RetainedMessage::new(data.clone(), Some(ttl)))
        };
        self.tree.write().set_retained(parts, value);
        self.retained_dirty.store(true, Ordering::Relaxed);
    }

    fn receivers(&self, parts: &[String]) -> HashSet<ClientId> {
        let mut matched = Vec::new();
        self.tree.read().match_subscribers(parts, &mut matched);
        matched.into_iter().collect()
    }

    fn deliver(&self, id: &ClientId, message: &Arc<PubSubMessage>) -> bool {
        match self.clients.get(id) {
            Some(info) => info.sender.send(Arc::clone(message)).is_ok(),
            None => false,
        }
    }
''')]),
('pub-sorted',[(M_,'''        let mut seen = HashSet::new();
        matched.retain(|id| seen.insert(id.clone()));
''','''        let matched: HashSet<ClientId> = matched.drain(..).collect();
'''),(M_,'''            if let Some(info) = self.clients.get(&client_id) {
                if info.sender.send(msg.clone()).is_ok() {
                    sent_count += 1;
                } else {
                    zombies.push(client_id);
                }
            } else {
                zombies.push(client_id);
            }''','''            let sent = match self.clients.get(&client_id) {
                Some(info) => info.sender.send(msg.clone()).is_ok(),
                None => false,
            };
            if sent {
                sent_count += 1;
                continue;
            }
            zombies.push(client_id);''')]),
('sub-order',[F(M_,'subscribe','''
    pub fn subscribe(&self, client_id: &ClientId, pattern: &str) {
        let parts: Vec<String> = pattern.split('/').map(|s| s.to_string()).collect();
        if let Some(mut info) = self.clients.get_mut(client_id) {
            let mut root = self.tree.write();
            root.insert_subscriber(&parts, client_id);
            info.subscriptions.insert(pattern.to_owned());

            let mut retained = vec![];
            root.collect_retained_for_pattern(&parts, None, &mut retained);
            retained
                .into_iter()
                .map(|(topic, data)| Arc::new(PubSubMessage::new(topic, data)))
                .for_each(|msg| {
                    let _ = info.sender.send(msg);
                });
        }
    }
''')]),
('unsub-map',[F(M_,'unsubscribe','''
    pub fn unsubscribe(&self, client_id: &ClientId, pattern: &str) {
        match self.clients.get_mut(client_id) {
            None => {}
            Some(mut info) => {
                let parts: Vec<String> = pattern.split('/').map(str::to_string).collect();
                self.tree.write().remove_subscriber(&parts, client_id);
                info.subscriptions.remove(pattern);
            }
        }
    }
'''),F(M_,'disconnect','''
    pub fn disconnect(&self, client_id: &ClientId) {
        let Some((_, ClientInfo { subscriptions, .. })) = self.clients.remove(client_id) else {
            return;
        };
        if subscriptions.is_empty() {
            return;
        }
        let mut root = self.tree.write();
        for pattern in &subscriptions {
            let parts: Vec<String> = pattern.split('/').map(|s| s.to_string()).collect();
            let _ = root.remove_subscriber(&parts, client_id);
        }
    }
''')]),
('new-helpers',[F(M_,'new','''
    pub fn new(config: Arc<PubSubConfig>) -> Self {
        let persistence_path = format!("{}/retained.db", config.persistence_path);
        let tree = Arc::new(RwLock::new(Self::load_tree(&persistence_path)));
        let retained_dirty = Arc::new(AtomicBool::new(false));

        tokio::spawn(Self::flush_loop(tree.clone(), retained_dirty.clone(), persistence_path, config.retained_flush_ms));
        tokio::spawn(Self::cleanup_loop(tree.clone(), retained_dirty.clone(), config.cleanup_interval_seconds));

        Self { tree, clients: Arc::new(DashMap::new()), retained_dirty, config }
    }

    fn load_tree(path: &str) -> Node {
        let mut root = Node::new();
        let conn = match persistence::init_db(path) {
            Ok(conn) => conn,
            Err(_) => {
                tracing::warn!("Failed to initialize SQLite for retained at {}", path);
                return root;
            }
        };
        match persistence::load_all(&conn) {
            Ok(loaded) => {
                for (topic, msg) in loaded {
                    let parts: Vec<String> = topic.split('/').map(|s| s.to_string()).collect();
                    root.set_retained(&parts, Some(msg));
                }
            }
            Err(_) => tracing::warn!("Failed to load retained topics from SQLite DB"),
        }
        root
    }

    async fn flush_loop(tree: Arc<RwLock<Node>>, dirty: Arc<AtomicBool>, path: String, flush_ms: u64) {
        let Ok(mut conn) = persistence::init_db(&path) else { return };
        let mut interval = tokio::time::interval(Duration::from_millis(flush_ms));
        interval.set_missed_tick_behavior(tokio::time::MissedTickBehavior::Skip);
        loop {
            interval.tick().await;
            let was_dirty = dirty.swap(false, Ordering::Relaxed);
            if was_dirty && !Self::flush_once(&tree, &mut conn) {
                dirty.store(true, Ordering::Relaxed);
            }
        }
    }

    fn flush_once(tree: &RwLock<Node>, conn: &mut rusqlite::Connection) -> bool {
        let mut entries = Vec::new();
        tree.read().collect_all_retained(None, &mut entries);
        match persistence::flush(conn, &entries) {
            Ok(()) => true,
            Err(e) => {
                tracing::error!("Failed to flush retained messages to SQLite: {}", e);
                false
            }
        }
    }

    async fn cleanup_loop(tree: Arc<RwLock<Node>>, dirty: Arc<AtomicBool>, secs: u64) {
        let mut interval = tokio::time::interval(Duration::from_secs(secs));
        interval.set_missed_tick_behavior(tokio::time::MissedTickBehavior::Skip);
        interval.tick().await;
        loop {
            interval.tick().await;
            if tree.write().cleanup_expired_retained() {
                dirty.store(true, Ordering::Relaxed);
            }
        }
    }
''')]),
('ret-new',[F(E,'new','''
    pub(crate) fn new(data: Bytes, ttl_seconds: Option<u64>) -> Self {
        match ttl_seconds {
            None => Self { data, expires_at: None, expires_at_unix: None },
            Some(secs) => Self {
                data,
                expires_at: Instant::now().checked_add(std::time::Duration::from_secs(secs)),
                expires_at_unix: Some(unix_now().saturating_add(secs)),
            },
        }
    }
'''),F(E,'from_persisted','''
    pub(crate) fn from_persisted(data: Bytes, expires_at_unix: Option<u64>) -> Self {
        let mut message = Self { data, expires_at: None, expires_at_unix };
        if let Some(deadline) = expires_at_unix {
            let left = deadline.saturating_sub(unix_now());
            message.expires_at = Instant::now().checked_add(std::time::Duration::from_secs(left));
        }
        message
    }
'''),F(E,'is_expired','''
    pub(crate) fn is_expired(&self) -> bool {
        match self.expires_at {
            Some(deadline) => deadline <= Instant::now(),
            None => false,
        }
    }
'''),(E,'impl RetainedMessage {','''fn unix_now() -> u64 {
    SystemTime::now().duration_since(UNIX_EPOCH).map(|d| d.as_secs()).unwrap_or_default()
}

impl RetainedMessage {''')]),
('persist-rows',[F(P,'load_all','''
pub(crate) fn load_all(conn: &Connection) -> std::result::Result<Vec<(String, RetainedMessage)>, rusqlite::Error> {
    let mut stmt = conn.prepare("SELECT path, data, expires_at FROM retained")?;
    let rows = stmt.query_map([], |row| {
        let data: Vec<u8> = row.get("data")?;
        let expires: Option<i64> = row.get("expires_at")?;
        let path: String = row.get("path")?;
        Ok((path, RetainedMessage::from_persisted(data.into(), expires.map(|v| v as u64))))
    })?;
    Ok(rows.flatten().filter(|(_, msg)| !msg.is_expired()).collect())
}
'''),F(P,'flush','''
pub(crate) fn flush(conn: &mut Connection, entries: &[(String, Bytes, Option<i64>)]) -> std::result::Result<(), rusqlite::Error> {
    let tx = conn.transaction()?;
    tx.execute("DELETE FROM retained", [])?;
    for (path, data, expires) in entries.iter() {
        tx.execute("INSERT INTO retained (path, data, expires_at) VALUES (?1, ?2, ?3)", params![path, data.as_ref(), expires])?;
    }
    tx.commit()
}
''')]),
]
