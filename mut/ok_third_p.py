"""third batch of behaviour-preserving edits, pubsub"""
import sys; sys.path.insert(0,'/verif/mut')
from fnedit import F, text
R='src/brokers/pub-sub/domain/radix_tree.rs'; T='src/brokers/pub-sub/domain/retained.rs'; P='src/brokers/pub-sub/domain/persistence.rs'; M_='src/brokers/pub-sub/manager.rs'
M=[
('tree-recursive-insert',[F(R,'insert_subscriber','''
    pub(crate) fn insert_subscriber(&mut self, parts: &[String], client: &ClientId) {
        let Some((head, tail)) = parts.split_first() else {
            self.subscribers.insert(client.clone());
            return;
        };
        match head.as_str() {
            "#" => Self::wildcard(&mut self.hash_child).insert_subscriber(&[], client),
            "+" => Self::wildcard(&mut self.plus_child).insert_subscriber(tail, client),
            _ => self
                .children
                .entry(head.clone())
                .or_insert_with(Node::new)
                .insert_subscriber(tail, client),
        }
    }

    /// The node of a wildcard, made when missing.
    fn wildcard(slot: &mut Option<Box<Node>>) -> &mut Node {
        slot.get_or_insert_with(|| Box::new(Node::new()))
    }
'''),F(R,'set_retained','''
    pub(crate) fn set_retained(&mut self, parts: &[String], retained: Option<RetainedMessage>) {
        parts
            .iter()
            .fold(self, |node, part| node.children.entry(part.to_owned()).or_insert_with(Node::new))
            .retained = retained;
    }
''')]),
('tree-remove',[F(R,'remove_subscriber','''
    pub(crate) fn remove_subscriber(&mut self, parts: &[String], client: &ClientId) -> bool {
        match parts {
            [] => {
                self.subscribers.remove(client);
            }
            [head, ..] if head == "#" => Self::remove_below(&mut self.hash_child, &[], client),
            [head, tail @ ..] if head == "+" => Self::remove_below(&mut self.plus_child, tail, client),
            [head, tail @ ..] => {
                let emptied = self
                    .children
                    .get_mut(head)
                    .is_some_and(|child| child.remove_subscriber(tail, client));
                if emptied {
                    self.children.remove(head);
                }
            }
        }
        self.is_empty()
    }

    fn remove_below(slot: &mut Option<Box<Node>>, tail: &[String], client: &ClientId) {
        let emptied = match slot.as_mut() {
            Some(node) => node.remove_subscriber(tail, client),
            None => false,
        };
        if emptied {
            *slot = None;
        }
    }
'''),F(R,'is_empty','''
    pub(crate) fn is_empty(&self) -> bool {
        let no_branches = self.children.is_empty() && self.plus_child.is_none() && self.hash_child.is_none();
        no_branches && self.retained.is_none() && self.subscribers.is_empty()
    }
''')]),
('tree-match',[F(R,'match_subscribers','''
    pub(crate) fn match_subscribers(&self, parts: &[String], results: &mut Vec<ClientId>) {
        if let Some(everything) = self.hash_child.as_deref() {
            results.extend(everything.subscribers.iter().cloned());
        }
        match parts.split_first() {
            None => results.extend(self.subscribers.iter().cloned()),
            Some((head, tail)) => {
                let exact = self.children.get(head);
                let any = self.plus_child.as_deref();
                for next in exact.into_iter().chain(any) {
                    next.match_subscribers(tail, results);
                }
            }
        }
    }
''')]),
('tree-live',[F(R,'collect_retained_for_pattern','''
    /// The retained message of this node unless its time is over.
    fn live(&self) -> Option<&RetainedMessage> {
        self.retained.as_ref().filter(|retained| !retained.is_expired())
    }

    fn visit_live(&self, path: Option<&str>, visit: &mut dyn FnMut(&str, &RetainedMessage)) {
        if let Some(retained) = self.live() {
            visit(path.unwrap_or_default(), retained);
        }
        for (key, child) in &self.children {
            child.visit_live(Some(&join_path(path, key)), visit);
        }
    }

    pub(crate) fn collect_retained_for_pattern(&self, pattern: &[String], current_path: Option<&str>, results: &mut Vec<(String, Bytes)>) {
        let Some((head, tail)) = pattern.split_first() else {
            if let Some(retained) = self.live() {
                results.push((current_path.unwrap_or_default().to_string(), retained.data.clone()));
            }
            return;
        };
        match head.as_str() {
            "#" => self.collect_all_retained_for_subscribe(current_path, results),
            "+" => {
                for (key, child) in self.children.iter() {
                    child.collect_retained_for_pattern(tail, Some(&join_path(current_path, key)), results);
                }
            }
            key => {
                let Some(child) = self.children.get(key) else { return };
                child.collect_retained_for_pattern(tail, Some(&join_path(current_path, key)), results);
            }
        }
    }
'''),F(R,'collect_all_retained_for_subscribe','''
    pub(crate) fn collect_all_retained_for_subscribe(&self, current_path: Option<&str>, results: &mut Vec<(String, Bytes)>) {
        self.visit_live(current_path, &mut |path, retained| {
            results.push((path.to_string(), retained.data.clone()));
        });
    }
''')]),
('tree-clean',[F(R,'cleanup_expired_retained','''
    pub(crate) fn cleanup_expired_retained(&mut self) -> bool {
        let expired = self.retained.as_ref().is_some_and(RetainedMessage::is_expired);
        if expired {
            self.retained.take();
        }
        let wildcards = self.plus_child.iter_mut().chain(self.hash_child.iter_mut()).map(|node| &mut **node);
        self.children
            .values_mut()
            .chain(wildcards)
            .fold(expired, |cleaned, child| child.cleanup_expired_retained() || cleaned)
    }
'''),F(R,'collect_all_retained','''
    pub(crate) fn collect_all_retained(&self, current_path: Option<&str>, results: &mut Vec<(String, Bytes, Option<i64>)>) {
        match &self.retained {
            Some(retained) if !retained.is_expired() => {
                let deadline = retained.expires_at_unix.map(|secs| secs as i64);
                let path = current_path.unwrap_or("");
                results.push((path.to_owned(), retained.data.clone(), deadline));
            }
            _ => {}
        }
        self.children.iter().for_each(|(key, child)| {
            let path = join_path(current_path, key);
            child.collect_all_retained(Some(path.as_str()), results);
        });
    }
''')]),
('retained-deadline',[F(T,'new','''
    pub(crate) fn new(data: Bytes, ttl_seconds: Option<u64>) -> Self {
        let expires_at_unix = ttl_seconds.map(|secs| unix_now().saturating_add(secs));
        let expires_at = ttl_seconds.and_then(after);
        Self { data, expires_at, expires_at_unix }
    }
'''),F(T,'from_persisted','''
    pub(crate) fn from_persisted(data: Bytes, expires_at_unix: Option<u64>) -> Self {
        // Nothing remaining: the deadline is now, so that the message counts as expired
        let remaining = expires_at_unix.map(|deadline| deadline.saturating_sub(unix_now()));
        Self {
            expires_at: remaining.and_then(after),
            expires_at_unix,
            data,
        }
    }
'''),F(T,'is_expired','''
    pub(crate) fn is_expired(&self) -> bool {
        match self.expires_at {
            Some(deadline) => deadline <= Instant::now(),
            None => false,
        }
    }
'''),(T,'''impl RetainedMessage {''','''fn unix_now() -> u64 {
    SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_secs()
}

fn after(secs: u64) -> Option<Instant> {
    Instant::now().checked_add(std::time::Duration::from_secs(secs))
}

impl RetainedMessage {''')]),
('mgr-levels',[F(M_,'connect','''
    fn levels(topic: &str) -> Vec<String> {
        topic.split('/').map(String::from).collect()
    }

    pub fn connect(&self, client_id: ClientId, sender: mpsc::UnboundedSender<Arc<PubSubMessage>>) {
        let info = ClientInfo { sender, subscriptions: HashSet::default() };
        self.clients.insert(client_id, info);
    }
'''),F(M_,'disconnect','''
    pub fn disconnect(&self, client_id: &ClientId) {
        let Some((_, ClientInfo { subscriptions, .. })) = self.clients.remove(client_id) else {
            return;
        };
        let mut root = self.tree.write();
        subscriptions.iter().for_each(|pattern| {
            root.remove_subscriber(&Self::levels(pattern), client_id);
        });
    }
'''),F(M_,'subscribe','''
    pub fn subscribe(&self, client_id: &ClientId, pattern: &str) {
        // The client entry stays locked until the tree is updated too, so that a concurrent
        // unsubscribe or disconnect cannot leave the two disagreeing
        if let Some(mut info) = self.clients.get_mut(client_id) {
            let parts = Self::levels(pattern);
            let mut root = self.tree.write();
            info.subscriptions.insert(pattern.to_owned());
            root.insert_subscriber(&parts, client_id);
            Self::send_retained(&root, &parts, &info);
        }
    }

    fn send_retained(root: &Node, parts: &[String], info: &ClientInfo) {
        let mut retained = Vec::new();
        root.collect_retained_for_pattern(parts, None, &mut retained);
        for (topic, data) in retained {
            if info.sender.send(Arc::new(PubSubMessage::new(topic, data))).is_err() {
                break;
            }
        }
    }
'''),F(M_,'unsubscribe','''
    pub fn unsubscribe(&self, client_id: &ClientId, pattern: &str) {
        if let Some(mut info) = self.clients.get_mut(client_id) {
            self.tree.write().remove_subscriber(&Self::levels(pattern), client_id);
            info.subscriptions.remove(pattern);
        }
    }
''')]),
('mgr-publish',[F(M_,'publish','''
    pub fn publish(&self, topic: &str, data: Bytes, retain: bool, ttl_seconds: Option<u64>) -> usize {
        let parts: Vec<String> = topic.split('/').map(str::to_string).collect();
        if retain {
            self.retain_value(&parts, &data, ttl_seconds);
        }

        let receivers = self.receivers(&parts);
        let msg = Arc::new(PubSubMessage::new(topic.to_string(), data));
        let (reached, gone): (Vec<ClientId>, Vec<ClientId>) =
            receivers.into_iter().partition(|client_id| self.deliver(client_id, &msg));
        gone.iter().for_each(|client_id| self.disconnect(client_id));
        reached.len()
    }

    fn retain_value(&self, parts: &[String], data: &Bytes, ttl_seconds: Option<u64>) {
        let retained = if data.is_empty() {
            None
        } else {
            let ttl = ttl_seconds.unwrap_or(self.config.default_retained_ttl_seconds);
            Some(RetainedMessage::new(data.clone(), Some(ttl)))
        };
        self.tree.write().set_retained(parts, retained);
        self.retained_dirty.store(true, Ordering::Relaxed);
    }

    /// The clients with a matching subscription, each once.
    fn receivers(&self, parts: &[String]) -> HashSet<ClientId> {
        let mut matched = Vec::new();
        self.tree.read().match_subscribers(parts, &mut matched);
        matched.into_iter().collect()
    }

    fn deliver(&self, client_id: &ClientId, msg: &Arc<PubSubMessage>) -> bool {
        self.clients
            .get(client_id)
            .is_some_and(|info| info.sender.send(Arc::clone(msg)).is_ok())
    }
''')]),
('mgr-tasks',[(M_,text(M_,'new')[text(M_,'new').index("        // Background Flush Task"):text(M_,'new').index("        Self {\n            tree,")],'''        tokio::spawn(Self::flush_loop(
            tree.clone(),
            retained_dirty.clone(),
            persistence_path,
            Duration::from_millis(config.retained_flush_ms),
        ));
        tokio::spawn(Self::cleanup_loop(
            tree.clone(),
            retained_dirty.clone(),
            Duration::from_secs(config.cleanup_interval_seconds),
        ));

'''),F(M_,'connect','''
    async fn flush_loop(tree: Arc<RwLock<Node>>, dirty: Arc<AtomicBool>, path: String, period: Duration) {
        let Ok(mut conn) = persistence::init_db(&path) else {
            return;
        };
        let mut ticks = Self::ticks(period);
        loop {
            ticks.tick().await;
            if dirty.swap(false, Ordering::Relaxed) && !Self::flush_once(&tree, &mut conn) {
                // Nothing was written: try again on the next tick
                dirty.store(true, Ordering::Relaxed);
            }
        }
    }

    fn flush_once(tree: &RwLock<Node>, conn: &mut rusqlite::Connection) -> bool {
        let mut entries = Vec::new();
        tree.read().collect_all_retained(None, &mut entries);
        match persistence::flush(conn, &entries) {
            Ok(()) => true,
            Err(e) => {
                tracing::error!("Failed to flush retained messages to SQLite: {}", e);
                false
            }
        }
    }

    async fn cleanup_loop(tree: Arc<RwLock<Node>>, dirty: Arc<AtomicBool>, period: Duration) {
        let mut ticks = Self::ticks(period);
        ticks.tick().await; // skip first
        loop {
            ticks.tick().await;
            let cleaned = tree.write().cleanup_expired_retained();
            if cleaned {
                dirty.store(true, Ordering::Relaxed);
            }
        }
    }

    fn ticks(period: Duration) -> tokio::time::Interval {
        let mut interval = tokio::time::interval(period);
        interval.set_missed_tick_behavior(tokio::time::MissedTickBehavior::Skip);
        interval
    }

'''+text(M_,'connect').lstrip('\n'))]),
]
