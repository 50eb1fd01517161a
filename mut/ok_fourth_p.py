"""fourth batch of behaviour-preserving edits, publish/subscribe"""
import sys; sys.path.insert(0,'/verif/mut')
from fnedit import F, text
R='src/brokers/pub-sub/domain/radix_tree.rs'; T='src/brokers/pub-sub/domain/retained.rs'
M=[
('live-simple',[F(R,'collect_retained_for_pattern','''
    pub(crate) fn collect_retained_for_pattern(&self, pattern: &[String], current_path: Option<&str>, results: &mut Vec<(String, Bytes)>) {
        let Some((head, tail)) = pattern.split_first() else {
            if let Some(live) = self.live_retained() {
                results.push((current_path.unwrap_or_default().to_string(), live.data.clone()));
            }
            return;
        };

        match head.as_str() {
            "#" => self.collect_all_retained_for_subscribe(current_path, results),
            "+" => {
                for (key, child) in &self.children {
                    child.collect_retained_for_pattern(tail, Some(&join_path(current_path, key)), results);
                }
            }
            key => {
                if let Some(child) = self.children.get(key) {
                    child.collect_retained_for_pattern(tail, Some(&join_path(current_path, key)), results);
                }
            }
        }
    }

    /// The retained message, unless its time is over.
    fn live_retained(&self) -> Option<&RetainedMessage> {
        self.retained.as_ref().filter(|r| !r.is_expired())
    }
'''),F(R,'collect_all_retained_for_subscribe','''
    pub(crate) fn collect_all_retained_for_subscribe(&self, current_path: Option<&str>, results: &mut Vec<(String, Bytes)>) {
        results.extend(self.live_retained().map(|live| (current_path.unwrap_or_default().to_string(), live.data.clone())));
        self.children
            .iter()
            .for_each(|(key, child)| child.collect_all_retained_for_subscribe(Some(join_path(current_path, key).as_str()), results));
    }
'''),F(R,'collect_all_retained','''
    pub(crate) fn collect_all_retained(&self, current_path: Option<&str>, results: &mut Vec<(String, Bytes, Option<i64>)>) {
        if let Some(live) = self.live_retained() {
            let deadline = live.expires_at_unix.map(|secs| secs as i64);
            let topic = current_path.unwrap_or_default().to_owned();
            results.push((topic, live.data.clone(), deadline));
        }
        for (key, child) in self.children.iter() {
            let path = join_path(current_path, key);
            child.collect_all_retained(Some(path.as_str()), results);
        }
    }
''')]),
('match-extend2',[F(R,'match_subscribers','''
    pub(crate) fn match_subscribers(&self, parts: &[String], results: &mut Vec<ClientId>) {
        if let Some(rest) = self.hash_child.as_deref() {
            results.extend(rest.subscribers.iter().cloned());
        }
        let Some((head, tail)) = parts.split_first() else {
            results.extend(self.subscribers.iter().cloned());
            return;
        };
        let exact = self.children.get(head);
        let any = self.plus_child.as_deref();
        for next in exact.into_iter().chain(any) {
            next.match_subscribers(tail, results);
        }
    }
''')]),
('remove-take',[F(R,'remove_subscriber','''
    pub(crate) fn remove_subscriber(&mut self, parts: &[String], client: &ClientId) -> bool {
        let Some((head, tail)) = parts.split_first() else {
            self.subscribers.remove(client);
            return self.is_empty();
        };
        match head.as_str() {
            "#" => {
                let emptied = match self.hash_child.as_deref_mut() {
                    Some(node) => {
                        node.subscribers.remove(client);
                        node.is_empty()
                    }
                    None => false,
                };
                if emptied {
                    self.hash_child.take();
                }
            }
            "+" => {
                let emptied = self.plus_child.as_deref_mut().map_or(false, |node| node.remove_subscriber(tail, client));
                if emptied {
                    self.plus_child.take();
                }
            }
            key => {
                let emptied = self.children.get_mut(key).is_some_and(|node| node.remove_subscriber(tail, client));
                if emptied {
                    self.children.remove(key);
                }
            }
        }
        self.is_empty()
    }
''')]),
('insert-getor',[F(R,'insert_subscriber','''
    pub(crate) fn insert_subscriber(&mut self, parts: &[String], client: &ClientId) {
        let mut node = self;
        for part in parts {
            match part.as_str() {
                "#" => {
                    let rest = node.hash_child.get_or_insert_with(|| Box::new(Node::new()));
                    rest.subscribers.insert(client.clone());
                    return;
                }
                "+" => node = node.plus_child.get_or_insert_with(|| Box::new(Node::new())),
                key => node = node.children.entry(key.to_string()).or_insert_with(Node::new),
            }
        }
        node.subscribers.insert(client.clone());
    }
''')]),
('clean-fold',[F(R,'cleanup_expired_retained','''
    pub(crate) fn cleanup_expired_retained(&mut self) -> bool {
        let expired = self.retained.as_ref().is_some_and(|r| r.is_expired());
        if expired {
            self.retained = None;
        }
        let mut cleaned = expired;
        for child in self.children.values_mut() {
            cleaned |= child.cleanup_expired_retained();
        }
        for child in [&mut self.plus_child, &mut self.hash_child].into_iter().flatten() {
            cleaned |= child.cleanup_expired_retained();
        }
        cleaned
    }
''')]),
('match-stack',[F(R,'match_subscribers','''
    pub(crate) fn match_subscribers(&self, parts: &[String], results: &mut Vec<ClientId>) {
        let mut open: Vec<(&Node, &[String])> = vec![(self, parts)];
        while let Some((node, rest)) = open.pop() {
            if let Some(hash_node) = &node.hash_child {
                results.extend(hash_node.subscribers.iter().cloned());
            }
            match rest.split_first() {
                None => results.extend(node.subscribers.iter().cloned()),
                Some((head, tail)) => {
                    if let Some(child) = node.children.get(head) {
                        open.push((child, tail));
                    }
                    if let Some(plus_node) = &node.plus_child {
                        open.push((plus_node, tail));
                    }
                }
            }
        }
    }
''')]),
('ret-deadline2',[F(T,'new','''
    pub(crate) fn new(data: Bytes, ttl_seconds: Option<u64>) -> Self {
        let Some(secs) = ttl_seconds else {
            return Self { data, expires_at: None, expires_at_unix: None };
        };
        let lifetime = std::time::Duration::from_secs(secs);
        Self {
            data,
            expires_at: Instant::now().checked_add(lifetime),
            expires_at_unix: Some(Self::unix_now().saturating_add(secs)),
        }
    }

    fn unix_now() -> u64 {
        SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_secs()
    }
'''),F(T,'is_expired','''
    pub(crate) fn is_expired(&self) -> bool {
        match self.expires_at {
            Some(deadline) => deadline <= Instant::now(),
            None => false,
        }
    }
'''),F(T,'from_persisted','''
    pub(crate) fn from_persisted(data: Bytes, expires_at_unix: Option<u64>) -> Self {
        let expires_at = match expires_at_unix {
            None => None,
            Some(deadline) => {
                let left = deadline.saturating_sub(Self::unix_now());
                Instant::now().checked_add(std::time::Duration::from_secs(left))
            }
        };
        Self { data, expires_at, expires_at_unix }
    }
''')]),
]
