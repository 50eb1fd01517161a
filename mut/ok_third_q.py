"""third batch of behaviour-preserving edits, queue: several functions at once, helpers moved to types, generic helpers"""
import sys; sys.path.insert(0,'/verif/mut')
from fnedit import F, text
Q='src/brokers/queue/domain/queue.rs'; D='src/brokers/queue/domain/dlq.rs'; P='src/brokers/queue/domain/persistence.rs'; M_='src/brokers/queue/manager.rs'
M=[
('generic-index',[F(Q,'remove_from_index','''
    fn remove_from_index(&mut self, state: &MessageState, id: Uuid, priority: u8) {
        match *state {
            MessageState::Ready => unlink(&mut self.waiting_for_dispatch, &priority, &id),
            MessageState::InFlight(ts) => unlink(&mut self.waiting_for_ack, &ts, &id),
        }
    }

    fn add_to_index(&mut self, state: &MessageState, id: Uuid, priority: u8) {
        match *state {
            MessageState::Ready => link(&mut self.waiting_for_dispatch, priority, id),
            MessageState::InFlight(ts) => link(&mut self.waiting_for_ack, ts, id),
        }
    }
'''),F(Q,'push','''
    pub fn push(&mut self, msg: Message) {
        self.add_to_index(&msg.state, msg.id, msg.priority);
        self.registry.insert(msg.id, msg);
    }
'''),F(Q,'transition_to','''
    fn transition_to(&mut self, id: Uuid, new_state: MessageState) -> bool {
        let Some(msg) = self.registry.get_mut(&id) else {
            return false;
        };
        if msg.state == new_state {
            return true;
        }
        let priority = msg.priority;
        let old_state = std::mem::replace(&mut msg.state, new_state.clone());
        self.remove_from_index(&old_state, id, priority);
        self.add_to_index(&new_state, id, priority);
        true
    }
'''),(Q,'''pub fn current_time_ms() -> u64 {''','''fn link<K: Ord>(index: &mut BTreeMap<K, LinkedHashSet<Uuid>>, key: K, id: Uuid) {
    index.entry(key).or_default().insert(id);
}

fn unlink<K: Ord>(index: &mut BTreeMap<K, LinkedHashSet<Uuid>>, key: &K, id: &Uuid) {
    if let Some(bucket) = index.get_mut(key) {
        bucket.remove(id);
        if bucket.is_empty() {
            index.remove(key);
        }
    }
}

pub fn current_time_ms() -> u64 {''')]),
('requeue-helper',[F(Q,'nack','''
    pub fn nack(&mut self, id: Uuid, reason: String, max_retries: u32) -> (Option<Message>, Option<DlqMessage>) {
        let Some(msg) = self.registry.get_mut(&id) else {
            return (None, None);
        };
        msg.failure_reason = Some(reason.clone());

        if msg.is_exhausted(max_retries) {
            (None, self.bury(id, reason))
        } else {
            (self.make_ready(id), None)
        }
    }

    /// Moves a message back to its priority queue, visible at once.
    fn make_ready(&mut self, id: Uuid) -> Option<Message> {
        if !self.transition_to(id, MessageState::Ready) {
            return None;
        }
        let msg = self.registry.get_mut(&id)?;
        msg.visible_at = 0;
        Some(msg.clone())
    }

    /// Takes a message out of this state, ready to be put among the dead letters.
    fn bury(&mut self, id: Uuid, reason: String) -> Option<DlqMessage> {
        self.delete_message_and_return(id)
            .map(|msg| DlqMessage::from_message(msg, reason))
    }
'''),F(Q,'process_expired','''
    pub fn process_expired(&mut self, max_retries: u32) -> (Vec<Message>, Vec<DlqMessage>) {
        let now = current_time_ms();
        let due: Vec<Uuid> = self.waiting_for_ack
            .range(..=now)
            .flat_map(|(_, ids)| ids.iter().copied())
            .collect();

        let mut requeued = Vec::new();
        let mut dead = Vec::new();
        for id in due {
            let exhausted = match self.registry.get(&id) {
                Some(msg) => msg.is_exhausted(max_retries),
                None => continue,
            };
            if exhausted {
                dead.extend(self.bury(id, "Timeout".to_string()));
            } else {
                requeued.extend(self.make_ready(id));
            }
        }
        (requeued, dead)
    }
'''),F(Q,'from_dlq','''
    /// True when the message used up its deliveries.
    pub fn is_exhausted(&self, max_retries: u32) -> bool {
        self.attempts >= max_retries
    }

    pub fn from_dlq(dlq_msg: DlqMessage) -> Self {
        let DlqMessage { id, payload, priority, created_at, .. } = dlq_msg;
        Self {
            id,
            payload,
            priority,
            attempts: 0,
            created_at,
            visible_at: 0,
            failure_reason: None,
            state: MessageState::Ready,
        }
    }
''')]),
('lease-method',[F(Q,'pop_single','''
    fn pop_single(&mut self, visibility_timeout_ms: u64) -> (Option<Message>, bool) {
        let Some(next_id) = self.next_ready_id() else {
            return (None, false);
        };

        let timeout = current_time_ms() + visibility_timeout_ms;
        self.transition_to(next_id, MessageState::InFlight(timeout));
        let is_earliest = self.next_inflight_timeout().is_some_and(|t| t == timeout);

        self.registry
            .get_mut(&next_id)
            .map_or((None, false), |msg| (Some(msg.lease_until(timeout)), is_earliest))
    }

    fn next_ready_id(&self) -> Option<Uuid> {
        self.waiting_for_dispatch
            .values()
            .rev()
            .filter_map(|bucket| bucket.front())
            .copied()
            .next()
    }
'''),F(Q,'from_dlq','''
    /// Records a delivery whose lease runs until `deadline`; returns what is handed out.
    fn lease_until(&mut self, deadline: u64) -> Message {
        self.visible_at = deadline;
        self.attempts += 1;
        self.clone()
    }

'''+text(Q,'from_dlq').lstrip('\n')),F(Q,'take_batch','''
    pub fn take_batch(&mut self, max: usize, visibility_timeout_ms: u64) -> (Vec<Message>, bool) {
        let mut any_earliest = false;
        let taken: Vec<Message> = std::iter::from_fn(|| {
            let (msg, is_earliest) = self.pop_single(visibility_timeout_ms);
            any_earliest |= is_earliest;
            msg
        })
        .take(max)
        .collect();
        (taken, any_earliest)
    }
''')]),
('requeue-inflight',[F(Q,'requeue_inflight','''
    pub fn requeue_inflight(&mut self, id: Uuid) -> bool {
        match self.registry.get(&id) {
            Some(Message { state: MessageState::InFlight(_), .. }) => {}
            _ => return false,
        }
        let moved = self.transition_to(id, MessageState::Ready);
        if moved {
            self.registry.entry(id).and_modify(|msg| {
                msg.attempts = msg.attempts.saturating_sub(1);
                msg.visible_at = 0;
            });
        }
        moved
    }
''')]),
('mgr-queue-or-err',[F(M_,'get_queue','''
    fn get_queue(&self, name: &str) -> Option<Arc<QueueShared>> {
        let entry = self.queues.get(name)?;
        Some(Arc::clone(entry.value()))
    }

    fn require_queue(&self, name: &str) -> Result<Arc<QueueShared>, String> {
        match self.get_queue(name) {
            Some(shared) => Ok(shared),
            None => Err(format!("Queue '{}' not found. Create it first.", name)),
        }
    }
'''),F(M_,'push','''
    pub async fn push(&self, queue_name: String, payload: Bytes, priority: u8) -> Result<(), String> {
        let shared = self.require_queue(&queue_name)?;
        shared.enqueue(Message::new(payload, priority));
        Ok(())
    }
'''),(M_,'''struct QueueInner {''','''impl QueueShared {
    /// Adds a message in memory and to the log, then wakes whoever waits for one.
    fn enqueue(&self, msg: Message) {
        {
            let mut inner = QueueManager::lock(&self.inner);
            self.store.execute(StorageOp::Insert(msg.clone()));
            inner.state.push(msg);
        }
        self.notify.notify_waiters();
    }
}

struct QueueInner {''')]),
('mgr-log-state',[F(M_,'persist_batch_state','''
    fn persist_batch_state(&self, shared: &Arc<QueueShared>, msgs: &[Message]) {
        msgs.iter().for_each(|msg| shared.log_state(msg));
    }
'''),F(M_,'pop','''
    pub async fn pop(&self, queue_name: &str) -> Option<Message> {
        let shared = self.get_queue(queue_name)?;
        let mut inner = Self::lock(&shared.inner);
        let visibility = inner.config.visibility_timeout_ms;
        let msg = inner.state.pop(visibility).0?;
        shared.log_state(&msg);
        Some(msg)
    }
'''),F(M_,'nack','''
    pub async fn nack(&self, queue_name: &str, id: Uuid, reason: String) -> bool {
        let Some(shared) = self.get_queue(queue_name) else {
            return false;
        };
        let mut guard = Self::lock(&shared.inner);
        let QueueInner { state, dlq, config, .. } = &mut *guard;

        match state.nack(id, reason, config.max_retries) {
            (Some(msg), _) => {
                shared.log_state(&msg);
                drop(guard);
                shared.notify.notify_waiters();
                true
            }
            (None, Some(dead)) => {
                dlq.push(dead.clone());
                shared.store.execute(StorageOp::MoveToDLQ { id: dead.id, msg: dead });
                true
            }
            (None, None) => false,
        }
    }
'''),(M_,'''struct QueueInner {''','''impl QueueShared {
    fn log_state(&self, msg: &Message) {
        let Message { id, visible_at, attempts, .. } = *msg;
        self.store.execute(StorageOp::UpdateState { id, visible_at, attempts });
    }
}

struct QueueInner {''')]),
('mgr-take',[F(M_,'consume_batch','''
    /// Takes up to `max` messages and logs their leases.
    fn take_now(&self, shared: &Arc<QueueShared>, max: usize) -> Option<Vec<Message>> {
        let mut inner = Self::lock(&shared.inner);
        let visibility = inner.config.visibility_timeout_ms;
        let (taken, _) = inner.state.take_batch(max, visibility);
        if taken.is_empty() {
            return None;
        }
        self.persist_batch_state(shared, &taken);
        Some(taken)
    }

    pub async fn consume_batch(&self, queue_name: String, max: Option<usize>, wait_ms: Option<u64>) -> Result<Vec<Message>, String> {
        let Some(shared) = self.get_queue(&queue_name) else {
            return Err(format!("Queue '{}' not found. Create it first.", queue_name));
        };
        let max = max.unwrap_or(self.config.default_batch_size);
        if let Some(taken) = self.take_now(&shared, max) {
            return Ok(taken);
        }

        let wait = match wait_ms.unwrap_or(self.config.default_wait_ms) {
            0 => return Ok(Vec::new()),
            ms => Duration::from_millis(ms),
        };
        let deadline = Instant::now() + wait;
        let mut woken = true;
        while woken {
            let signal = shared.notify.notified();
            if let Some(taken) = self.take_now(&shared, max) {
                return Ok(taken);
            }
            if deadline <= Instant::now() {
                break;
            }
            woken = tokio::time::timeout_at(deadline, signal).await.is_ok();
        }
        Ok(Vec::new())
    }
''')]),
('mgr-tick',[F(M_,'spawn_timeout_task','''
    fn spawn_timeout_task(&self) {
        let queues = self.queues.clone();
        let cancel = self.cancel.clone();

        tokio::spawn(async move {
            let mut timer = tokio::time::interval(Duration::from_millis(50));
            timer.set_missed_tick_behavior(tokio::time::MissedTickBehavior::Skip);

            loop {
                tokio::select! {
                    _ = cancel.cancelled() => return,
                    _ = timer.tick() => {
                        for entry in queues.iter() {
                            Self::expire_leases(entry.value());
                        }
                    }
                }
            }
        });
    }

    /// Ends the leases of one queue that ran out.
    fn expire_leases(shared: &Arc<QueueShared>) {
        let mut inner = Self::lock(&shared.inner);
        match inner.state.next_inflight_timeout() {
            Some(earliest) if earliest <= current_time_ms() => {}
            _ => return,
        }

        let max_retries = inner.config.max_retries;
        let (requeued, dead) = inner.state.process_expired(max_retries);
        let wake = !requeued.is_empty();

        for Message { id, attempts, .. } in requeued {
            shared.store.execute(StorageOp::UpdateState { id, visible_at: 0, attempts });
        }
        for msg in dead {
            inner.dlq.push(msg.clone());
            shared.store.execute(StorageOp::MoveToDLQ { id: msg.id, msg });
        }
        drop(inner);

        if wake {
            shared.notify.notify_waiters();
        }
    }
''')]),
('mgr-dlq-with',[F(M_,'move_to_queue','''
    fn with_queue<T>(&self, queue_name: &str, f: impl FnOnce(&QueueShared, &mut QueueInner) -> T) -> Result<T, String> {
        let shared = self.get_queue(queue_name)
            .ok_or_else(|| format!("Queue '{}' not found", queue_name))?;
        let mut inner = Self::lock(&shared.inner);
        Ok(f(&shared, &mut inner))
    }

    pub async fn move_to_queue(&self, queue_name: &str, message_id: Uuid) -> Result<bool, String> {
        self.with_queue(queue_name, |shared, inner| {
            let Some(dead) = inner.dlq.remove(&message_id) else {
                return false;
            };
            let msg = dead.to_message();
            shared.store.execute(StorageOp::MoveToMain { id: message_id, msg: msg.clone() });
            inner.state.push(msg);
            shared.notify.notify_waiters();
            true
        })
    }
'''),F(M_,'delete_dlq','''
    pub async fn delete_dlq(&self, queue_name: &str, message_id: Uuid) -> Result<bool, String> {
        self.with_queue(queue_name, |shared, inner| match inner.dlq.remove(&message_id) {
            Some(gone) => {
                shared.store.execute(StorageOp::DeleteDLQ(gone.id));
                true
            }
            None => false,
        })
    }
'''),F(M_,'purge_dlq','''
    pub async fn purge_dlq(&self, queue_name: &str) -> Result<usize, String> {
        self.with_queue(queue_name, |shared, inner| {
            shared.store.execute(StorageOp::PurgeDLQ);
            let count = inner.dlq.len();
            inner.dlq.clear();
            count
        })
    }
'''),F(M_,'peek_dlq','''
    pub async fn peek_dlq(&self, queue_name: &str, limit: usize, offset: usize) -> Result<(usize, Vec<DlqMessage>), String> {
        self.with_queue(queue_name, |_, inner| inner.dlq.peek(offset, limit))
    }
''')]),
('mgr-paths',[F(M_,'delete_queue','''
    fn db_file(&self, name: &str, suffix: &str) -> std::path::PathBuf {
        std::path::Path::new(&self.config.persistence_path).join([name, suffix].concat())
    }

    pub async fn delete_queue(&self, name: String) -> Result<(), String> {
        let removed = self.queues.remove(&name).map(|(_, shared)| shared);
        if let Some(shared) = removed {
            shared.store.shutdown().await;
        }
        for suffix in [".db", ".db-wal", ".db-shm", ".config.json"] {
            let _ = std::fs::remove_file(self.db_file(&name, suffix));
        }
        Ok(())
    }
'''),F(M_,'create_queue','''
    pub async fn create_queue(&self, name: String, options: QueueCreateOptions) -> Result<(), String> {
        use dashmap::mapref::entry::Entry;

        if let Entry::Vacant(slot) = self.queues.entry(name.clone()) {
            let config = QueueConfig::from_options(options, &self.config);
            self.save_config(&name, &config);
            slot.insert(Self::build_queue(name, config, &self.config));
        }
        Ok(())
    }

    fn save_config(&self, name: &str, config: &QueueConfig) {
        let path = self.db_file(name, ".config.json");
        if let Ok(json) = serde_json::to_string_pretty(config) {
            let _ = std::fs::write(path, json);
        }
    }
''')]),
('warm-split',[(M_,text(M_,'new')[text(M_,'new').index("        // WARM START"):text(M_,'new').index("        manager.spawn_timeout_task();")],'''        for queue_name in Self::stored_queues(&system_config) {
            let config = Self::stored_config(&queue_name, &system_config);
            let shared = Self::build_queue(queue_name.clone(), config, &system_config);
            info!("[QueueManager] Warm start: Restored queue '{}'", queue_name);
            manager.queues.insert(queue_name, shared);
        }

'''),F(M_,'build_queue','''
    fn stored_queues(system_config: &SystemQueueConfig) -> Vec<String> {
        let dir = std::path::PathBuf::from(&system_config.persistence_path);
        let Ok(entries) = std::fs::read_dir(&dir) else {
            return Vec::new();
        };
        entries
            .filter_map(|entry| entry.ok())
            .map(|entry| entry.path())
            .filter(|path| path.is_file())
            .filter_map(|path| {
                let filename = path.file_name()?.to_str()?;
                filename.strip_suffix(".db").map(str::to_owned)
            })
            .collect()
    }

    fn stored_config(name: &str, system_config: &SystemQueueConfig) -> QueueConfig {
        let dir = std::path::PathBuf::from(&system_config.persistence_path);
        std::fs::read_to_string(dir.join(format!("{}.config.json", name)))
            .ok()
            .and_then(|data| serde_json::from_str(&data).ok())
            .unwrap_or_else(|| QueueConfig::from_options(QueueCreateOptions::default(), system_config))
    }

'''+text(M_,'build_queue').lstrip('\n'))]),
('store-rows',[F(P,'load_all_messages','''
fn ready_or_leased(visible_at: u64, attempts: u32) -> MessageState {
    if attempts == 0 || visible_at <= current_time_ms() {
        return MessageState::Ready;
    }
    MessageState::InFlight(visible_at)
}

fn message_from_row(row: &rusqlite::Row) -> Result<Message> {
    let visible_at = row.get::<_, i64>("visible_at")? as u64;
    let attempts = row.get("attempts")?;
    Ok(Message {
        id: uuid_from_blob(row.get("id")?)?,
        payload: row.get::<_, Vec<u8>>("payload")?.into(),
        priority: row.get("priority")?,
        attempts,
        created_at: row.get::<_, i64>("created_at")? as u64,
        visible_at,
        failure_reason: None,
        state: ready_or_leased(visible_at, attempts),
    })
}

fn dead_letter_from_row(row: &rusqlite::Row) -> Result<DlqMessage> {
    Ok(DlqMessage {
        id: uuid_from_blob(row.get("id")?)?,
        payload: row.get::<_, Vec<u8>>("payload")?.into(),
        priority: row.get("priority")?,
        attempts: row.get("attempts")?,
        created_at: row.get::<_, i64>("created_at")? as u64,
        failed_at: row.get::<_, i64>("failed_at")? as u64,
        failure_reason: row.get::<_, Option<String>>("error")?.unwrap_or_default(),
    })
}

fn load_all_messages(conn: &Connection) -> Result<Vec<Message>> {
    conn.prepare("SELECT id, payload, priority, visible_at, attempts, created_at FROM queue")?
        .query_map([], message_from_row)?
        .collect()
}
'''),F(P,'load_dlq_messages','''
fn load_dlq_messages(conn: &Connection) -> Result<Vec<DlqMessage>> {
    let mut stmt = conn.prepare("SELECT * FROM dlq_messages")?;
    let mut rows = stmt.query([])?;
    let mut dead = Vec::new();
    while let Some(row) = rows.next()? {
        dead.push(dead_letter_from_row(row)?);
    }
    Ok(dead)
}
''')]),
('store-exec-helpers',[F(P,'exec_op','''
fn insert_main(tx: &rusqlite::Transaction, msg: &Message) -> Result<usize> {
    tx.prepare_cached(
        "INSERT INTO queue (id, payload, priority, visible_at, attempts, created_at)
         VALUES (?1, ?2, ?3, ?4, ?5, ?6)",
    )?
    .execute(params![
        msg.id.as_bytes(),
        msg.payload.as_ref(),
        msg.priority,
        msg.visible_at as i64,
        msg.attempts,
        msg.created_at as i64
    ])
}

fn insert_dead(tx: &rusqlite::Transaction, msg: &DlqMessage) -> Result<usize> {
    tx.prepare_cached(
        "INSERT INTO dlq_messages (id, payload, priority, attempts, created_at, failed_at, error)
         VALUES (?1, ?2, ?3, ?4, ?5, ?6, ?7)",
    )?
    .execute(params![
        msg.id.as_bytes(),
        msg.payload.as_ref(),
        msg.priority,
        msg.attempts,
        msg.created_at as i64,
        msg.failed_at as i64,
        msg.failure_reason
    ])
}

fn delete_from(tx: &rusqlite::Transaction, sql: &str, id: &Uuid) -> Result<usize> {
    tx.prepare_cached(sql)?.execute(params![id.as_bytes()])
}

const DELETE_MAIN: &str = "DELETE FROM queue WHERE id = ?1";
const DELETE_DEAD: &str = "DELETE FROM dlq_messages WHERE id = ?1";

fn exec_op(tx: &rusqlite::Transaction, op: &StorageOp) -> Result<()> {
    match op {
        StorageOp::Insert(msg) => insert_main(tx, msg),
        StorageOp::Delete(id) => delete_from(tx, DELETE_MAIN, id),
        StorageOp::UpdateState { id, visible_at, attempts } => tx
            .prepare_cached("UPDATE queue SET visible_at = ?1, attempts = ?2 WHERE id = ?3")?
            .execute(params![*visible_at as i64, attempts, id.as_bytes()]),
        StorageOp::InsertDLQ(msg) => insert_dead(tx, msg),
        StorageOp::DeleteDLQ(id) => delete_from(tx, DELETE_DEAD, id),
        StorageOp::MoveToDLQ { id, msg } => {
            delete_from(tx, DELETE_MAIN, id)?;
            insert_dead(tx, msg)
        }
        StorageOp::MoveToMain { id, msg } => {
            delete_from(tx, DELETE_DEAD, id)?;
            insert_main(tx, &Message { attempts: 0, visible_at: 0, ..msg.clone() })
        }
        StorageOp::PurgeDLQ => tx.execute("DELETE FROM dlq_messages", []),
    }
    .map(|_| ())
}
''')]),
('writer-batch-type',[F(P,'run_writer',text(P,'run_writer').replace('''                    Some(op) => {
                        batch.push(op);

                        // Drain everything currently available in the channel
                        while batch.len() < batch_size {
                            match rx.try_recv() {
                                Ok(op) => batch.push(op),
                                Err(_) => break,
                            }
                        }

                        if batch.len() >= batch_size {
                            flush_batch(&mut conn, &mut batch);
                        }
                    }
                    None => {
                        // Sender dropped — flush remaining and exit
                        if !batch.is_empty() {
                            flush_batch(&mut conn, &mut batch);
                        }
                        info!("Queue Persistence Writer stopped for {:?}", db_path);
                        return;
                    }''','''                    Some(op) => {
                        batch.push(op);
                        drain_into(&mut rx, &mut batch, batch_size);
                        if batch.len() < batch_size {
                            continue;
                        }
                        flush_batch(&mut conn, &mut batch);
                    }
                    None => break,''').replace('''                if !batch.is_empty() {
                    flush_batch(&mut conn, &mut batch);
                }
            }
        }
    }
}''','''                flush_batch(&mut conn, &mut batch);
            }
        }
    }

    // Sender dropped: whatever is left is written before the task ends
    flush_batch(&mut conn, &mut batch);
    info!("Queue Persistence Writer stopped for {:?}", db_path);
}

/// Moves what is waiting in the channel to the batch, up to `limit` operations in all.
fn drain_into(rx: &mut mpsc::UnboundedReceiver<StorageOp>, batch: &mut Vec<StorageOp>, limit: usize) {
    while batch.len() < limit {
        let Ok(op) = rx.try_recv() else { return };
        batch.push(op);
    }
}''')),F(P,'flush_batch','''
fn flush_batch(conn: &mut Connection, batch: &mut Vec<StorageOp>) {
    if batch.is_empty() {
        return;
    }
    match write_batch(conn, batch.as_slice()) {
        Ok(()) => batch.clear(),
        // The batch is kept and retried with the next flush
        Err(e) => error!("Failed to write batch: {}", e),
    }
}

fn write_batch(conn: &mut Connection, batch: &[StorageOp]) -> Result<()> {
    let tx = conn.transaction()?;
    for op in batch {
        exec_op(&tx, op).unwrap_or_else(|e| error!("Failed to exec op {:?}: {}", op, e));
    }
    tx.commit()
}
''')]),
('dlq-from',[F(D,'from_message','''
    pub fn from_message(msg: Message, reason: String) -> Self {
        let Message { id, payload, priority, attempts, created_at, .. } = msg;
        let failed_at = current_time_ms();
        Self { id, payload, priority, attempts, created_at, failed_at, failure_reason: reason }
    }
'''),F(D,'to_message','''
    pub fn to_message(self) -> Message {
        Message::from_dlq(self)
    }
'''),F(D,'push','''
    pub fn push(&mut self, msg: DlqMessage) {
        let id = msg.id;
        if self.messages.insert(id, msg).is_some() {
            tracing::debug!("dead letter {} replaced", id);
        }
    }
'''),F(D,'peek','''
    pub fn peek(&self, offset: usize, limit: usize) -> (usize, Vec<DlqMessage>) {
        let mut items = Vec::new();
        for (index, msg) in self.messages.values().rev().enumerate() {
            if items.len() >= limit {
                break;
            }
            if index >= offset {
                items.push(msg.clone());
            }
        }
        (self.messages.len(), items)
    }
''')]),
]
