"""second batch of behaviour-preserving edits, queue: whole functions rewritten"""
import sys; sys.path.insert(0,'/verif/mut')
from fnedit import F, text
Q='src/brokers/queue/domain/queue.rs'; D='src/brokers/queue/domain/dlq.rs'; P='src/brokers/queue/domain/persistence.rs'; M_='src/brokers/queue/manager.rs'
RW=text(P,'run_writer')
EX=text(P,'exec_op')
M=[
('pop-lets',[F(Q,'pop_single','''
    fn next_ready(&self) -> Option<Uuid> {
        for queue in self.waiting_for_dispatch.values().rev() {
            if let Some(id) = queue.front() {
                return Some(*id);
            }
        }
        None
    }

    fn pop_single(&mut self, visibility_timeout_ms: u64) -> (Option<Message>, bool) {
        let Some(id) = self.next_ready() else {
            return (None, false);
        };
        let timeout = current_time_ms() + visibility_timeout_ms;
        if !self.transition_to(id, MessageState::InFlight(timeout)) {
            return (None, false);
        }
        let is_earliest = self.next_inflight_timeout() == Some(timeout);
        match self.registry.get_mut(&id) {
            Some(msg) => {
                msg.attempts += 1;
                msg.visible_at = timeout;
                (Some(msg.clone()), is_earliest)
            }
            None => (None, false),
        }
    }
''')]),
('nack-match',[F(Q,'nack','''
    pub fn nack(&mut self, id: Uuid, reason: String, max_retries: u32) -> (Option<Message>, Option<DlqMessage>) {
        let exhausted = match self.registry.get_mut(&id) {
            None => return (None, None),
            Some(msg) => {
                msg.failure_reason = Some(reason.clone());
                msg.attempts >= max_retries
            }
        };
        if exhausted {
            let dead = self.delete_message_and_return(id).map(|msg| DlqMessage::from_message(msg, reason));
            return (None, dead);
        }
        (self.make_ready(id), None)
    }

    fn make_ready(&mut self, id: Uuid) -> Option<Message> {
        if !self.transition_to(id, MessageState::Ready) {
            return None;
        }
        let msg = self.registry.get_mut(&id)?;
        msg.visible_at = 0;
        Some(msg.clone())
    }
''')]),
('expired-range',[F(Q,'process_expired','''
    pub fn process_expired(&mut self, max_retries: u32) -> (Vec<Message>, Vec<DlqMessage>) {
        let now = current_time_ms();
        let expired: Vec<Uuid> = self
            .waiting_for_ack
            .range(..=now)
            .flat_map(|(_, ids)| ids.iter().copied())
            .collect();

        let mut requeued = Vec::new();
        let mut dead = Vec::new();
        for id in expired {
            let attempts = match self.registry.get(&id) {
                Some(msg) => msg.attempts,
                None => continue,
            };
            if attempts < max_retries {
                if self.transition_to(id, MessageState::Ready) {
                    if let Some(msg) = self.registry.get_mut(&id) {
                        msg.visible_at = 0;
                        requeued.push(msg.clone());
                    }
                }
            } else if let Some(msg) = self.delete_message_and_return(id) {
                dead.push(DlqMessage::from_message(msg, "Timeout".to_string()));
            }
        }
        (requeued, dead)
    }
''')]),
('expired-partition',[F(Q,'process_expired','''
    pub fn process_expired(&mut self, max_retries: u32) -> (Vec<Message>, Vec<DlqMessage>) {
        let now = current_time_ms();
        let due: Vec<Uuid> = self.waiting_for_ack.iter()
            .take_while(|(ts, _)| **ts <= now)
            .flat_map(|(_, ids)| ids.iter().cloned())
            .filter(|id| self.registry.contains_key(id))
            .collect();
        let (to_dlq, to_ready): (Vec<Uuid>, Vec<Uuid>) = due.into_iter()
            .partition(|id| self.registry.get(id).map_or(false, |m| m.attempts >= max_retries));

        let mut requeued = Vec::with_capacity(to_ready.len());
        for id in to_ready {
            self.transition_to(id, MessageState::Ready);
            if let Some(msg) = self.registry.get_mut(&id) {
                msg.visible_at = 0;
                requeued.push(msg.clone());
            }
        }
        let mut dead = Vec::with_capacity(to_dlq.len());
        for id in to_dlq {
            if let Some(msg) = self.delete_message_and_return(id) {
                dead.push(DlqMessage::from_message(msg, String::from("Timeout")));
            }
        }
        (requeued, dead)
    }
''')]),
('transition-helper',[F(Q,'transition_to','''
    fn transition_to(&mut self, id: Uuid, new_state: MessageState) -> bool {
        let Some((old_state, priority)) = self.registry.get(&id).map(|m| (m.state.clone(), m.priority)) else {
            return false;
        };
        if old_state != new_state {
            self.remove_from_index(&old_state, id, priority);
            self.add_to_index(&new_state, id, priority);
            if let Some(msg) = self.registry.get_mut(&id) {
                msg.state = new_state;
            }
        }
        true
    }

    fn add_to_index(&mut self, state: &MessageState, id: Uuid, priority: u8) {
        let bucket = match *state {
            MessageState::Ready => self.waiting_for_dispatch.entry(priority).or_default(),
            MessageState::InFlight(ts) => self.waiting_for_ack.entry(ts).or_default(),
        };
        bucket.insert(id);
    }
'''),F(Q,'push','''
    pub fn push(&mut self, msg: Message) {
        let (id, state, priority) = (msg.id, msg.state.clone(), msg.priority);
        self.registry.insert(id, msg);
        self.add_to_index(&state, id, priority);
    }
''')]),
('index-entry',[F(Q,'remove_from_index','''
    fn remove_from_index(&mut self, state: &MessageState, id: Uuid, priority: u8) {
        use std::collections::btree_map::Entry;
        match state {
            MessageState::Ready => {
                if let Entry::Occupied(mut e) = self.waiting_for_dispatch.entry(priority) {
                    e.get_mut().remove(&id);
                    if e.get().is_empty() { e.remove(); }
                }
            }
            MessageState::InFlight(ts) => {
                if let Entry::Occupied(mut e) = self.waiting_for_ack.entry(*ts) {
                    e.get_mut().remove(&id);
                    if e.get().is_empty() { e.remove(); }
                }
            }
        }
    }
''')]),
('index-generic',[F(Q,'remove_from_index','''
    fn remove_from_index(&mut self, state: &MessageState, id: Uuid, priority: u8) {
        match *state {
            MessageState::Ready => unlink(&mut self.waiting_for_dispatch, priority, &id),
            MessageState::InFlight(ts) => unlink(&mut self.waiting_for_ack, ts, &id),
        }
    }
'''),(Q,'pub fn current_time_ms() -> u64 {','''fn unlink<K: Ord>(index: &mut BTreeMap<K, LinkedHashSet<Uuid>>, key: K, id: &Uuid) {
    let Some(bucket) = index.get_mut(&key) else { return };
    bucket.remove(id);
    if bucket.is_empty() {
        index.remove(&key);
    }
}

pub fn current_time_ms() -> u64 {''')]),
('requeue-let',[F(Q,'requeue_inflight','''
    pub fn requeue_inflight(&mut self, id: Uuid) -> bool {
        match self.registry.get(&id) {
            Some(Message { state: MessageState::InFlight(_), .. }) => {}
            _ => return false,
        }
        let moved = self.transition_to(id, MessageState::Ready);
        if moved {
            if let Some(msg) = self.registry.get_mut(&id) {
                if msg.attempts > 0 { msg.attempts -= 1; }
                msg.visible_at = 0;
            }
        }
        moved
    }
''')]),
('batch-iter',[F(Q,'take_batch','''
    pub fn take_batch(&mut self, max: usize, visibility_timeout_ms: u64) -> (Vec<Message>, bool) {
        let mut any_earliest = false;
        let mut result = Vec::new();
        for _ in 0..max {
            let (msg, is_earliest) = self.pop_single(visibility_timeout_ms);
            let Some(msg) = msg else { break };
            any_earliest |= is_earliest;
            result.push(msg);
        }
        (result, any_earliest)
    }
''')]),
('dlq-to-from',[F(D,'to_message','''
    pub fn to_message(self) -> Message {
        let DlqMessage { id, payload, priority, created_at, .. } = self;
        Message { id, payload, priority, created_at, attempts: 0, visible_at: 0, failure_reason: None, state: MessageState::Ready }
    }
'''),F(D,'from_message','''
    pub fn from_message(msg: Message, failure_reason: String) -> Self {
        let failed_at = current_time_ms();
        let Message { id, payload, priority, attempts, created_at, .. } = msg;
        Self { id, payload, priority, attempts, created_at, failed_at, failure_reason }
    }
''')]),
# manager
('mgr-consume',[F(M_,'consume_batch','''
    fn take_ready(&self, shared: &Arc<QueueShared>, max: usize) -> Option<Vec<Message>> {
        let mut inner = Self::lock(&shared.inner);
        let timeout = inner.config.visibility_timeout_ms;
        let msgs = inner.state.take_batch(max, timeout).0;
        if msgs.is_empty() {
            return None;
        }
        self.persist_batch_state(shared, &msgs);
        Some(msgs)
    }

    pub async fn consume_batch(&self, queue_name: String, max: Option<usize>, wait_ms: Option<u64>) -> Result<Vec<Message>, String> {
        let Some(shared) = self.get_queue(&queue_name) else {
            return Err(format!("Queue '{}' not found. Create it first.", queue_name));
        };
        let max = match max { Some(m) => m, None => self.config.default_batch_size };
        let wait = match wait_ms { Some(w) => w, None => self.config.default_wait_ms };

        if let Some(msgs) = self.take_ready(&shared, max) {
            return Ok(msgs);
        }
        if wait == 0 {
            return Ok(Vec::new());
        }
        let deadline = Instant::now() + Duration::from_millis(wait);
        loop {
            let notified = shared.notify.notified();
            match self.take_ready(&shared, max) {
                Some(msgs) => return Ok(msgs),
                None if Instant::now() >= deadline => return Ok(Vec::new()),
                None => {}
            }
            if tokio::time::timeout_at(deadline, notified).await.is_err() {
                return Ok(Vec::new());
            }
        }
    }
''')]),
('mgr-nack',[F(M_,'nack','''
    pub async fn nack(&self, queue_name: &str, id: Uuid, reason: String) -> bool {
        let Some(shared) = self.get_queue(queue_name) else { return false };
        let mut guard = Self::lock(&shared.inner);
        let inner = &mut *guard;
        match inner.state.nack(id, reason, inner.config.max_retries) {
            (Some(msg), _) => {
                shared.store.execute(StorageOp::UpdateState { id: msg.id, visible_at: msg.visible_at, attempts: msg.attempts });
                shared.notify.notify_waiters();
                true
            }
            (None, Some(dead)) => {
                inner.dlq.push(dead.clone());
                shared.store.execute(StorageOp::MoveToDLQ { id: dead.id, msg: dead });
                true
            }
            (None, None) => false,
        }
    }
''')]),
('mgr-logstate',[F(M_,'persist_batch_state','''
    fn log_state(shared: &QueueShared, msg: &Message) {
        let Message { id, visible_at, attempts, .. } = *msg else { return };
        shared.store.execute(StorageOp::UpdateState { id, visible_at, attempts });
    }

    fn persist_batch_state(&self, shared: &Arc<QueueShared>, msgs: &[Message]) {
        msgs.iter().for_each(|msg| Self::log_state(shared, msg));
    }
'''.replace('let Message { id, visible_at, attempts, .. } = *msg else { return };','let (id, visible_at, attempts) = (msg.id, msg.visible_at, msg.attempts);')),F(M_,'pop','''
    pub async fn pop(&self, queue_name: &str) -> Option<Message> {
        let shared = self.get_queue(queue_name)?;
        let mut inner = Self::lock(&shared.inner);
        let timeout = inner.config.visibility_timeout_ms;
        let msg = inner.state.pop(timeout).0?;
        Self::log_state(&shared, &msg);
        Some(msg)
    }
''')]),
('mgr-timeout-fn',[F(M_,'spawn_timeout_task','''
    fn expire(shared: &QueueShared) -> bool {
        let now = current_time_ms();
        let mut inner = Self::lock(&shared.inner);
        match inner.state.next_inflight_timeout() {
            Some(ts) if ts <= now => {}
            _ => return false,
        }
        let max_retries = inner.config.max_retries;
        let (requeued, dead) = inner.state.process_expired(max_retries);
        for msg in requeued.iter() {
            shared.store.execute(StorageOp::UpdateState { id: msg.id, visible_at: 0, attempts: msg.attempts });
        }
        for msg in dead {
            inner.dlq.push(msg.clone());
            shared.store.execute(StorageOp::MoveToDLQ { id: msg.id, msg });
        }
        !requeued.is_empty()
    }

    fn spawn_timeout_task(&self) {
        let (queues, cancel) = (Arc::clone(&self.queues), self.cancel.clone());
        tokio::spawn(async move {
            let mut timer = tokio::time::interval(Duration::from_millis(50));
            timer.set_missed_tick_behavior(tokio::time::MissedTickBehavior::Skip);
            loop {
                tokio::select! {
                    _ = cancel.cancelled() => return,
                    _ = timer.tick() => {}
                }
                let all: Vec<Arc<QueueShared>> = queues.iter().map(|e| e.value().clone()).collect();
                for shared in all {
                    if Self::expire(&shared) {
                        shared.notify.notify_waiters();
                    }
                }
            }
        });
    }
''')]),
('mgr-dlq-ops',[F(M_,'move_to_queue','''
    pub async fn move_to_queue(&self, queue_name: &str, message_id: Uuid) -> Result<bool, String> {
        let shared = self.require(queue_name)?;
        let mut guard = Self::lock(&shared.inner);
        let QueueInner { state, dlq, .. } = &mut *guard;
        let Some(dead) = dlq.remove(&message_id) else {
            return Ok(false);
        };
        let msg = dead.to_message();
        shared.store.execute(StorageOp::MoveToMain { id: message_id, msg: msg.clone() });
        state.push(msg);
        drop(guard);
        shared.notify.notify_waiters();
        Ok(true)
    }

    fn require(&self, name: &str) -> Result<Arc<QueueShared>, String> {
        match self.queues.get(name) {
            Some(entry) => Ok(Arc::clone(entry.value())),
            None => Err(format!("Queue '{}' not found", name)),
        }
    }
'''),F(M_,'delete_dlq','''
    pub async fn delete_dlq(&self, queue_name: &str, message_id: Uuid) -> Result<bool, String> {
        let shared = self.require(queue_name)?;
        let mut inner = Self::lock(&shared.inner);
        match inner.dlq.remove(&message_id) {
            Some(_) => {
                shared.store.execute(StorageOp::DeleteDLQ(message_id));
                Ok(true)
            }
            None => Ok(false),
        }
    }
'''),F(M_,'purge_dlq','''
    pub async fn purge_dlq(&self, queue_name: &str) -> Result<usize, String> {
        let shared = self.require(queue_name)?;
        let mut inner = Self::lock(&shared.inner);
        let dlq = &mut inner.dlq;
        let count = dlq.len();
        dlq.clear();
        shared.store.execute(StorageOp::PurgeDLQ);
        Ok(count)
    }
''')]),
('mgr-build',[F(M_,'build_queue','''
    fn build_queue(name: String, config: QueueConfig, system_config: &SystemQueueConfig) -> Arc<QueueShared> {
        let db_path = std::path::Path::new(&system_config.persistence_path).join(format!("{}.db", name));
        let store = QueueStore::new(db_path, system_config.default_flush_ms, system_config.writer_batch_size);
        let (state, dlq) = Self::recover(&name, &store);
        let inner = QueueInner { name, state, dlq, config };
        Arc::new(QueueShared { inner: Mutex::new(inner), notify: Notify::new(), store })
    }

    fn recover(name: &str, store: &QueueStore) -> (QueueState, DlqState) {
        let mut state = QueueState::new();
        let mut dlq = DlqState::new();
        let (messages, dead) = match store.recover() {
            Ok(found) => found,
            Err(e) => {
                error!("Queue '{}': Persistence recovery failed: {}", name, e);
                return (state, dlq);
            }
        };
        if !messages.is_empty() || !dead.is_empty() {
            info!("Queue '{}': Recovered {} main + {} DLQ messages from storage", name, messages.len(), dead.len());
        }
        messages.into_iter().for_each(|m| state.push(m));
        dead.into_iter().for_each(|m| dlq.push(m));
        (state, dlq)
    }
''')]),
('mgr-warm',[(M_,'''        if persistence_path.exists() {
            if let Ok(entries) = std::fs::read_dir(&persistence_path) {
                for entry in entries.flatten() {
                    let path = entry.path();
                    if path.is_file() {
                        if let Some(filename) = path.file_name().and_then(|n| n.to_str()) {
                            // Only the last ".db" is the suffix: the queue name may end in ".db" itself
                            if let Some(queue_name) = filename.strip_suffix(".db").map(|n| n.to_string()) {

                                let config_path = persistence_path.join(format!("{}.config.json", queue_name));
                                let config = if let Ok(data) = std::fs::read_to_string(&config_path) {
                                    serde_json::from_str(&data).unwrap_or_else(|_| QueueConfig::from_options(QueueCreateOptions::default(), &system_config))
                                } else {
                                    QueueConfig::from_options(QueueCreateOptions::default(), &system_config)
                                };

                                let shared = Self::build_queue(queue_name.clone(), config, &system_config);
                                queues.insert(queue_name.clone(), shared);
                                info!("[QueueManager] Warm start: Restored queue '{}'", queue_name);
                            }
                        }
                    }
                }
            }
        }
''','''        for queue_name in Self::stored_queues(&persistence_path) {
            let config_path = persistence_path.join(format!("{}.config.json", queue_name));
            let config = std::fs::read_to_string(&config_path)
                .ok()
                .and_then(|data| serde_json::from_str(&data).ok())
                .unwrap_or_else(|| QueueConfig::from_options(QueueCreateOptions::default(), &system_config));
            let shared = Self::build_queue(queue_name.clone(), config, &system_config);
            info!("[QueueManager] Warm start: Restored queue '{}'", queue_name);
            queues.insert(queue_name, shared);
        }
'''),(M_,'    fn spawn_timeout_task(','''    fn stored_queues(dir: &std::path::Path) -> Vec<String> {
        let Ok(entries) = std::fs::read_dir(dir) else { return Vec::new() };
        let mut names = Vec::new();
        for entry in entries.flatten() {
            let path = entry.path();
            if !path.is_file() { continue; }
            let Some(filename) = path.file_name().and_then(|n| n.to_str()) else { continue };
            if let Some(name) = filename.strip_suffix(".db") {
                names.push(name.to_owned());
            }
        }
        names
    }

    fn spawn_timeout_task(''')]),
('mgr-create',[F(M_,'create_queue','''
    pub async fn create_queue(&self, name: String, options: QueueCreateOptions) -> Result<(), String> {
        self.queues.entry(name.clone()).or_insert_with(|| {
            let config = QueueConfig::from_options(options, &self.config);
            self.save_config(&name, &config);
            Self::build_queue(name, config, &self.config)
        });
        Ok(())
    }

    fn save_config(&self, name: &str, config: &QueueConfig) {
        let path = std::path::PathBuf::from(&self.config.persistence_path).join(format!("{}.config.json", name));
        if let Ok(data) = serde_json::to_string_pretty(config) {
            let _ = std::fs::write(path, data);
        }
    }
''')]),
# persistence
('writer-drain',[(P,RW[RW.index('    loop {\n'):],'''    loop {
        let stop = tokio::select! {
            received = rx.recv() => match received {
                Some(op) => {
                    batch.push(op);
                    fill_batch(&mut rx, &mut batch, batch_size);
                    if batch.len() < batch_size { continue; }
                    false
                }
                None => true,
            },
            _ = flush_timer.tick() => false,
        };
        if !batch.is_empty() {
            flush_batch(&mut conn, &mut batch);
        }
        if stop {
            break;
        }
    }
    info!("Queue Persistence Writer stopped for {:?}", db_path);
}

fn fill_batch(rx: &mut mpsc::UnboundedReceiver<StorageOp>, batch: &mut Vec<StorageOp>, limit: usize) {
    while batch.len() < limit {
        let Ok(op) = rx.try_recv() else { return };
        batch.push(op);
    }
}''')]),
('flush-result',[F(P,'flush_batch','''
fn flush_batch(conn: &mut Connection, batch: &mut Vec<StorageOp>) {
    match write_batch(conn, batch) {
        Ok(()) => batch.clear(),
        Err(e) => error!("Failed to write batch: {}", e),
    }
}

fn write_batch(conn: &mut Connection, batch: &[StorageOp]) -> Result<()> {
    let tx = conn.transaction()?;
    for op in batch {
        exec_op(&tx, op).unwrap_or_else(|e| error!("Failed to exec op {:?}: {}", op, e));
    }
    tx.commit()
}
''')]),
('exec-helpers',[(P,EX,'''fn exec_op(tx: &rusqlite::Transaction, op: &StorageOp) -> Result<()> {
    match op {
        StorageOp::Insert(msg) => insert_main(tx, msg, msg.visible_at as i64, msg.attempts),
        StorageOp::Delete(id) => delete_main(tx, id),
        StorageOp::UpdateState { id, visible_at, attempts } => {
            tx.prepare_cached("UPDATE queue SET attempts = ?1, visible_at = ?2 WHERE id = ?3")?
                .execute(params![*attempts, *visible_at as i64, id.as_bytes()])?;
            Ok(())
        }
        StorageOp::InsertDLQ(msg) => insert_dead(tx, msg),
        StorageOp::DeleteDLQ(id) => delete_dead(tx, id),
        StorageOp::MoveToDLQ { id, msg } => {
            delete_main(tx, id)?;
            insert_dead(tx, msg)
        }
        StorageOp::MoveToMain { id, msg } => {
            delete_dead(tx, id)?;
            insert_main(tx, msg, 0, 0)
        }
        StorageOp::PurgeDLQ => tx.execute("DELETE FROM dlq_messages", []).map(|_| ()),
    }
}

const INSERT_MAIN: &str = "INSERT INTO queue (id, payload, priority, visible_at, attempts, created_at) VALUES (?1, ?2, ?3, ?4, ?5, ?6)";

fn insert_main(tx: &rusqlite::Transaction, msg: &Message, visible_at: i64, attempts: u32) -> Result<()> {
    let mut stmt = tx.prepare_cached(INSERT_MAIN)?;
    stmt.execute(params![msg.id.as_bytes(), msg.payload.as_ref(), msg.priority, visible_at, attempts, msg.created_at as i64])?;
    Ok(())
}

fn delete_main(tx: &rusqlite::Transaction, id: &Uuid) -> Result<()> {
    let mut stmt = tx.prepare_cached("DELETE FROM queue WHERE id = ?1")?;
    stmt.execute(params![id.as_bytes()]).map(|_| ())
}

fn delete_dead(tx: &rusqlite::Transaction, id: &Uuid) -> Result<()> {
    let mut stmt = tx.prepare_cached("DELETE FROM dlq_messages WHERE id = ?1")?;
    stmt.execute(params![id.as_bytes()])?;
    Ok(())
}

fn insert_dead(tx: &rusqlite::Transaction, msg: &DlqMessage) -> Result<()> {
    let mut stmt = tx.prepare_cached(
        "INSERT INTO dlq_messages (id, payload, priority, attempts, created_at, failed_at, error)
         VALUES (?1, ?2, ?3, ?4, ?5, ?6, ?7)",
    )?;
    stmt.execute(params![
        msg.id.as_bytes(), msg.payload.as_ref(), msg.priority, msg.attempts,
        msg.created_at as i64, msg.failed_at as i64, msg.failure_reason
    ])?;
    Ok(())
}''')]),
('load-rows',[F(P,'load_all_messages','''
fn load_all_messages(conn: &Connection) -> Result<Vec<Message>> {
    let mut stmt = conn.prepare("SELECT id, payload, priority, visible_at, attempts, created_at FROM queue")?;
    let mut rows = stmt.query([])?;
    let mut messages = Vec::new();
    while let Some(row) = rows.next()? {
        messages.push(message_from_row(row)?);
    }
    Ok(messages)
}

fn message_from_row(row: &rusqlite::Row) -> Result<Message> {
    let id = uuid_from_blob(row.get(0)?)?;
    let payload: Vec<u8> = row.get(1)?;
    let visible_at = row.get::<_, i64>(3)? as u64;
    let attempts: u32 = row.get(4)?;
    let state = match attempts {
        0 => MessageState::Ready,
        _ if visible_at > current_time_ms() => MessageState::InFlight(visible_at),
        _ => MessageState::Ready,
    };
    Ok(Message {
        id,
        payload: payload.into(),
        priority: row.get(2)?,
        attempts,
        created_at: row.get::<_, i64>(5)? as u64,
        visible_at,
        failure_reason: None,
        state,
    })
}
'''),F(P,'load_dlq_messages','''
fn load_dlq_messages(conn: &Connection) -> Result<Vec<DlqMessage>> {
    let mut stmt = conn.prepare("SELECT id, payload, priority, attempts, created_at, failed_at, error FROM dlq_messages")?;
    let found = stmt.query_map([], |row| {
        let payload: Vec<u8> = row.get(1)?;
        Ok(DlqMessage {
            id: uuid_from_blob(row.get(0)?)?,
            payload: payload.into(),
            priority: row.get(2)?,
            attempts: row.get(3)?,
            created_at: row.get::<_, i64>(4)? as u64,
            failed_at: row.get::<_, i64>(5)? as u64,
            failure_reason: row.get::<_, Option<String>>(6)?.unwrap_or_default(),
        })
    })?;
    found.collect()
}
''')]),
('recover-q',[F(P,'recover','''
    pub fn recover(&self) -> Result<(Vec<Message>, Vec<DlqMessage>), String> {
        let conn = match Connection::open(&self.db_path) {
            Ok(conn) => conn,
            Err(e) => return Err(format!("Failed to open DB for recovery: {}", e)),
        };
        let dead = load_dlq_messages(&conn).map_err(|e| format!("Failed to load DLQ messages: {}", e))?;
        load_all_messages(&conn)
            .map(|main| (main, dead))
            .map_err(|e| format!("Failed to load main messages: {}", e))
    }
'''),F(P,'execute','''
    pub fn execute(&self, op: StorageOp) {
        let guard = self.sender.lock().unwrap();
        let Some(sender) = guard.as_ref() else { return };
        match sender.send(op) {
            Ok(()) => {}
            Err(mpsc::error::SendError(op)) => error!("Writer channel closed, op lost: {:?}", op),
        }
    }
'''),F(P,'shutdown','''
    pub async fn shutdown(&self) {
        let sender = self.sender.lock().unwrap().take();
        drop(sender);
        let taken = { self.writer_handle.lock().unwrap().take() };
        match taken {
            Some(handle) => { let _ = handle.await; }
            None => {}
        }
    }
''')]),
]
