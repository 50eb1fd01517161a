"""fourth batch of behaviour-preserving edits, queue"""
import sys; sys.path.insert(0,'/verif/mut')
from fnedit import F, text
Q='src/brokers/queue/domain/queue.rs'; M_='src/brokers/queue/manager.rs'
SH='''        let shared = match self.get_queue(queue_name) {
            Some(s) => s,
            None => return false,
        };
'''
M=[
('with-locked',[F(M_,'ack','''
    pub async fn ack(&self, queue_name: &str, id: Uuid) -> bool {
        self.with_queue(queue_name, |shared, inner| {
            let acked = inner.state.ack(id);
            if acked {
                shared.store.execute(StorageOp::Delete(id));
            }
            acked
        })
        .unwrap_or(false)
    }

    /// Runs `f` with the queue locked.
    fn with_queue<R>(&self, queue_name: &str, f: impl FnOnce(&QueueShared, &mut QueueInner) -> R) -> Option<R> {
        let shared = self.get_queue(queue_name)?;
        let mut inner = Self::lock(&shared.inner);
        Some(f(&shared, &mut inner))
    }
'''),F(M_,'delete_dlq','''
    pub async fn delete_dlq(&self, queue_name: &str, message_id: Uuid) -> Result<bool, String> {
        self.with_queue(queue_name, |shared, inner| {
            let removed = inner.dlq.remove(&message_id).is_some();
            if removed {
                shared.store.execute(StorageOp::DeleteDLQ(message_id));
            }
            removed
        })
        .ok_or_else(|| format!("Queue '{}' not found", queue_name))
    }
'''),F(M_,'purge_dlq','''
    pub async fn purge_dlq(&self, queue_name: &str) -> Result<usize, String> {
        self.with_queue(queue_name, |shared, inner| {
            let count = inner.dlq.len();
            inner.dlq.clear();
            shared.store.execute(StorageOp::PurgeDLQ);
            count
        })
        .ok_or_else(|| format!("Queue '{}' not found", queue_name))
    }
''')]),
('op-from',[F(M_,'persist_batch_state','''
    fn persist_batch_state(&self, shared: &Arc<QueueShared>, msgs: &[Message]) {
        msgs.iter().map(StorageOp::from).for_each(|op| shared.store.execute(op));
    }
'''),F(M_,'pop','''
    pub async fn pop(&self, queue_name: &str) -> Option<Message> {
        let shared = self.get_queue(queue_name)?;
        let mut inner = Self::lock(&shared.inner);
        let vt = inner.config.visibility_timeout_ms;
        let msg = inner.state.pop(vt).0?;
        shared.store.execute(StorageOp::from(&msg));
        Some(msg)
    }
'''),(M_,'''impl QueueManager {''','''impl From<&Message> for StorageOp {
    fn from(msg: &Message) -> Self {
        StorageOp::UpdateState { id: msg.id, visible_at: msg.visible_at, attempts: msg.attempts }
    }
}

impl QueueManager {''')]),
('nack-match2',[F(M_,'nack','''
    pub async fn nack(&self, queue_name: &str, id: Uuid, reason: String) -> bool {
        let Some(shared) = self.get_queue(queue_name) else {
            return false;
        };

        let mut inner = Self::lock(&shared.inner);
        let max_retries = inner.config.max_retries;
        match inner.state.nack(id, reason, max_retries) {
            (Some(msg), _) => {
                shared.store.execute(StorageOp::UpdateState {
                    id: msg.id,
                    visible_at: msg.visible_at,
                    attempts: msg.attempts,
                });
                shared.notify.notify_waiters();
                true
            }
            (None, Some(dead)) => {
                let op = StorageOp::MoveToDLQ { id: dead.id, msg: dead.clone() };
                inner.dlq.push(dead);
                shared.store.execute(op);
                true
            }
            (None, None) => false,
        }
    }
''')]),
('expired-outer',[F(Q,'process_expired','''
    pub fn process_expired(&mut self, max_retries: u32) -> (Vec<Message>, Vec<DlqMessage>) {
        let now = current_time_ms();
        let due: Vec<Uuid> = self
            .waiting_for_ack
            .iter()
            .take_while(|(&ts, _)| ts <= now)
            .flat_map(|(_, ids)| ids.iter().copied())
            .collect();

        let mut requeued = Vec::new();
        let mut dead = Vec::new();
        for id in due {
            let Some(attempts) = self.registry.get(&id).map(|m| m.attempts) else {
                continue;
            };
            if attempts < max_retries {
                requeued.extend(self.make_ready(id));
            } else if let Some(msg) = self.delete_message_and_return(id) {
                dead.push(DlqMessage::from_message(msg, String::from("Timeout")));
            }
        }
        (requeued, dead)
    }

    fn make_ready(&mut self, id: Uuid) -> Option<Message> {
        if !self.transition_to(id, MessageState::Ready) {
            return None;
        }
        let msg = self.registry.get_mut(&id)?;
        msg.visible_at = 0;
        Some(msg.clone())
    }
'''),F(Q,'nack','''
    pub fn nack(&mut self, id: Uuid, reason: String, max_retries: u32) -> (Option<Message>, Option<DlqMessage>) {
        let Some(msg) = self.registry.get_mut(&id) else {
            return (None, None);
        };
        msg.failure_reason = Some(reason.clone());

        if msg.attempts < max_retries {
            return (self.make_ready(id), None);
        }
        let dead = self.delete_message_and_return(id).map(|msg| DlqMessage::from_message(msg, reason));
        (None, dead)
    }
''')]),
('pop-labeled',[F(Q,'pop_single','''
    fn pop_single(&mut self, visibility_timeout_ms: u64) -> (Option<Message>, bool) {
        let now = current_time_ms();
        let mut head = None;
        'search: for queue in self.waiting_for_dispatch.values().rev() {
            for id in queue {
                head = Some(*id);
                break 'search;
            }
        }
        let Some(id) = head else { return (None, false) };

        let deadline = now + visibility_timeout_ms;
        self.transition_to(id, MessageState::InFlight(deadline));
        let Some(msg) = self.registry.get_mut(&id) else { return (None, false) };
        msg.attempts += 1;
        msg.visible_at = deadline;
        let taken = msg.clone();
        let is_earliest = self.next_inflight_timeout() == Some(deadline);
        (Some(taken), is_earliest)
    }
''')]),
('index-helpers',[F(Q,'push','''
    pub fn push(&mut self, msg: Message) {
        self.add_to_index(&msg.state.clone(), msg.id, msg.priority);
        self.registry.insert(msg.id, msg);
    }

    fn add_to_index(&mut self, state: &MessageState, id: Uuid, priority: u8) {
        let bucket = match state {
            MessageState::Ready => self.waiting_for_dispatch.entry(priority).or_default(),
            MessageState::InFlight(ts) => self.waiting_for_ack.entry(*ts).or_default(),
        };
        bucket.insert(id);
    }
'''),F(Q,'transition_to','''
    fn transition_to(&mut self, id: Uuid, new_state: MessageState) -> bool {
        let Some(msg) = self.registry.get_mut(&id) else {
            return false;
        };
        if msg.state == new_state {
            return true;
        }
        let priority = msg.priority;
        let old_state = std::mem::replace(&mut msg.state, new_state.clone());
        self.remove_from_index(&old_state, id, priority);
        self.add_to_index(&new_state, id, priority);
        true
    }
'''),F(Q,'remove_from_index','''
    fn remove_from_index(&mut self, state: &MessageState, id: Uuid, priority: u8) {
        fn take<K: Ord>(index: &mut BTreeMap<K, LinkedHashSet<Uuid>>, key: K, id: &Uuid) {
            if let Some(bucket) = index.get_mut(&key) {
                bucket.remove(id);
                if bucket.is_empty() {
                    index.remove(&key);
                }
            }
        }
        match *state {
            MessageState::Ready => take(&mut self.waiting_for_dispatch, priority, &id),
            MessageState::InFlight(ts) => take(&mut self.waiting_for_ack, ts, &id),
        }
    }
''')]),
('consume-once',[F(M_,'consume_batch','''
    pub async fn consume_batch(&self, queue_name: String, max: Option<usize>, wait_ms: Option<u64>) -> Result<Vec<Message>, String> {
        let Some(shared) = self.get_queue(&queue_name) else {
            return Err(format!("Queue '{}' not found. Create it first.", queue_name));
        };
        let max = max.unwrap_or(self.config.default_batch_size);
        let wait = Duration::from_millis(wait_ms.unwrap_or(self.config.default_wait_ms));

        let first = self.lease_batch(&shared, max);
        if wait.is_zero() || !first.is_empty() {
            return Ok(first);
        }

        let deadline = Instant::now() + wait;
        loop {
            let wakeup = shared.notify.notified();
            let batch = self.lease_batch(&shared, max);
            if !batch.is_empty() || Instant::now() >= deadline {
                return Ok(batch);
            }
            tokio::select! {
                _ = wakeup => continue,
                _ = sleep_until(deadline) => break,
            }
        }
        Ok(Vec::new())
    }

    /// Leases up to `max` messages and logs the leases before the lock is released.
    fn lease_batch(&self, shared: &Arc<QueueShared>, max: usize) -> Vec<Message> {
        let mut inner = Self::lock(&shared.inner);
        let timeout = inner.config.visibility_timeout_ms;
        let batch = inner.state.take_batch(max, timeout).0;
        self.persist_batch_state(shared, &batch);
        batch
    }
''')]),
]
