"""third batch of behaviour-preserving edits, stream: several functions at once"""
import sys; sys.path.insert(0,'/verif/mut')
from fnedit import F, text
G='src/brokers/stream/domain/group.rs'; T='src/brokers/stream/domain/topic.rs'; P='src/brokers/stream/domain/persistence.rs'; M_='src/brokers/stream/manager.rs'
M=[
('new-restore',[F(G,'new','''
    pub fn new(id: String, head_seq: u64, max_ack_pending: usize, ack_wait: Duration, max_deliveries: u32) -> Self {
        Self::at(id, head_seq.max(1), max_ack_pending, ack_wait, max_deliveries)
    }

    /// A group whose first message to deliver is `first`.
    fn at(id: String, first: u64, max_ack_pending: usize, ack_wait: Duration, max_deliveries: u32) -> Self {
        Self {
            id,
            ack_floor: first - 1,
            next_deliver_seq: first,
            pending: Default::default(),
            redeliver: Default::default(),
            parked: Default::default(),
            delivery_attempts: Default::default(),
            max_ack_pending,
            ack_wait,
            max_deliveries,
            members: Default::default(),
            is_fetching_cold: false,
            generation: 1,
            cancel: CancellationToken::new(),
        }
    }
'''),F(G,'restore','''
    pub fn restore(id: String, ack_floor: u64, head_seq: u64, max_ack_pending: usize, ack_wait: Duration, max_deliveries: u32) -> Self {
        let floor = ack_floor.max(head_seq.saturating_sub(1));
        let mut group = Self::new(id, head_seq, max_ack_pending, ack_wait, max_deliveries);
        group.ack_floor = floor;
        group.next_deliver_seq = floor.saturating_add(1).max(head_seq.max(1));
        group
    }
''')]),
('fetch-parts',[F(G,'fetch','''
    pub fn fetch(&mut self, consumer_id: &str, generation: u64, limit: usize, log: &VecDeque<Message>, ram_start_seq: u64, head_seq: u64) -> Result<Vec<Message>, String> {
        self.ensure_active_consumer(consumer_id, generation)?;
        self.clamp_head(head_seq);

        let window = self.max_ack_pending.saturating_sub(self.pending.len());
        let budget = limit.min(window);
        let mut result = Vec::with_capacity(budget);
        self.fetch_redeliveries(consumer_id, budget, log, ram_start_seq, &mut result);
        self.fetch_fresh(consumer_id, budget, log, ram_start_seq, &mut result);
        Ok(result)
    }

    fn fetch_redeliveries(&mut self, consumer_id: &str, budget: usize, log: &VecDeque<Message>, ram_start_seq: u64, out: &mut Vec<Message>) {
        while out.len() < budget {
            let Some(&seq) = self.redeliver.front() else { return };
            let Some(msg) = Self::read_from_log(log, ram_start_seq, seq) else { return };
            self.redeliver.pop_front();
            out.extend(self.issue_delivery(consumer_id, msg));
        }
    }

    fn fetch_fresh(&mut self, consumer_id: &str, budget: usize, log: &VecDeque<Message>, ram_start_seq: u64, out: &mut Vec<Message>) {
        while out.len() < budget {
            let seq = self.next_deliver_seq;
            let Some(msg) = Self::read_from_log(log, ram_start_seq, seq) else { return };
            self.next_deliver_seq = seq + 1;
            out.extend(self.issue_delivery(consumer_id, msg));
        }
    }
''')]),
('settle',[F(G,'ack','''
    pub fn ack(&mut self, consumer_id: &str, generation: u64, seq: u64) -> Result<(), String> {
        self.ensure_active_consumer(consumer_id, generation)?;
        let owner = self
            .pending
            .get(&seq)
            .map(|msg| msg.consumer_id.as_str())
            .ok_or_else(|| format!("seq {} not pending", seq))?;
        if owner != consumer_id {
            return Err("NOT_OWNER".to_string());
        }
        self.forget(seq);
        self.try_advance_floor();
        Ok(())
    }

    /// Drops everything the group remembers about one delivered message.
    fn forget(&mut self, seq: u64) {
        self.parked.remove(&seq);
        self.delivery_attempts.remove(&seq);
        self.pending.remove(&seq);
    }
'''),F(G,'check_redelivery','''
    pub fn check_redelivery(&mut self) -> bool {
        let ack_wait = self.ack_wait;
        let expired = self.take_pending(|msg| msg.delivered_at.elapsed() > ack_wait);
        if expired.is_empty() {
            return false;
        }
        self.release_all(expired);
        true
    }

    /// Removes the pending messages a test selects; returns their numbers and delivery counts.
    fn take_pending(&mut self, selected: impl Fn(&PendingMsg) -> bool) -> Vec<(u64, u32)> {
        let mut taken = Vec::new();
        self.pending.retain(|seq, msg| {
            let take = selected(msg);
            if take {
                taken.push((*seq, msg.delivery_count));
            }
            !take
        });
        taken
    }

    fn release_all(&mut self, released: Vec<(u64, u32)>) {
        for (seq, delivery_count) in released {
            self.release_seq(seq, delivery_count);
        }
        self.try_advance_floor();
    }
'''),F(G,'release_consumer','''
    fn release_consumer(&mut self, consumer_id: &str) {
        let owned = self.take_pending(|msg| msg.consumer_id == consumer_id);
        self.release_all(owned);
    }
''')]),
('clamp-drop',[F(G,'clamp_head','''
    pub fn clamp_head(&mut self, head_seq: u64) -> bool {
        let head_seq = head_seq.max(1);
        let before = self.footprint();

        self.ack_floor = self.ack_floor.max(head_seq - 1);
        self.next_deliver_seq = self.next_deliver_seq.max(head_seq);
        let attempts = &mut self.delivery_attempts;
        self.pending.retain(|seq, _| {
            let keep = *seq >= head_seq;
            if !keep {
                attempts.remove(seq);
            }
            keep
        });
        self.redeliver.retain(|&seq| seq >= head_seq);
        self.parked.retain(|&seq| seq >= head_seq);
        self.delivery_attempts.retain(|&seq, _| seq >= head_seq);

        let changed = self.footprint() != before;
        if changed {
            self.try_advance_floor();
            self.invalidate_inflight();
        }
        changed
    }

    fn footprint(&self) -> (u64, u64, usize, usize, usize, usize) {
        (
            self.ack_floor,
            self.next_deliver_seq,
            self.pending.len(),
            self.redeliver.len(),
            self.parked.len(),
            self.delivery_attempts.len(),
        )
    }
''')]),
('floor-open',[F(G,'try_advance_floor','''
    fn is_open(&self, seq: u64) -> bool {
        self.pending.contains_key(&seq) || self.redeliver.contains(&seq)
    }

    fn try_advance_floor(&mut self) {
        let mut next = self.ack_floor + 1;
        while next < self.next_deliver_seq && !self.is_open(next) {
            self.ack_floor = next;
            next += 1;
        }
    }
'''),F(G,'release_seq','''
    fn release_seq(&mut self, seq: u64, delivery_count: u32) {
        if delivery_count < self.max_deliveries {
            if !self.redeliver.contains(&seq) {
                self.redeliver.push_back(seq);
            }
            return;
        }
        self.delivery_attempts.remove(&seq);
        self.parked.insert(seq);
    }
'''),F(G,'issue_delivery','''
    fn issue_delivery(&mut self, consumer_id: &str, msg: Message) -> Option<Message> {
        let seq = msg.seq;
        let attempt = match self.delivery_attempts.get(&seq) {
            Some(previous) => previous.saturating_add(1),
            None => 1,
        };
        if attempt <= self.max_deliveries {
            let entry = PendingMsg {
                consumer_id: consumer_id.to_owned(),
                delivered_at: Instant::now(),
                delivery_count: attempt,
            };
            self.pending.insert(seq, entry);
            self.delivery_attempts.insert(seq, attempt);
            return Some(msg);
        }
        self.delivery_attempts.remove(&seq);
        self.parked.insert(seq);
        self.try_advance_floor();
        None
    }
''')]),
('cold-register',[F(G,'register_cold_messages','''
    pub fn register_cold_messages(&mut self, consumer_id: &str, generation: u64, messages: Vec<Message>, head_seq: u64) -> Result<Vec<Message>, String> {
        self.ensure_active_consumer(consumer_id, generation)?;
        self.clamp_head(head_seq);

        let mut result = Vec::new();
        for msg in messages.into_iter().filter(|msg| msg.seq >= head_seq) {
            if self.is_backpressured() {
                break;
            }
            if self.claim(msg.seq) {
                result.extend(self.issue_delivery(consumer_id, msg));
            }
        }
        Ok(result)
    }

    /// Takes a message out of the redelivery queue or moves past it if it is the next fresh one.
    fn claim(&mut self, seq: u64) -> bool {
        let queued = self.redeliver.iter().position(|&s| s == seq);
        if let Some(pos) = queued {
            self.redeliver.remove(pos);
        }
        let fresh = seq == self.next_deliver_seq;
        if fresh {
            self.next_deliver_seq += 1;
        }
        fresh || queued.is_some()
    }
''')]),
('seek-reset',[F(G,'seek_beginning','''
    pub fn seek_beginning(&mut self, head_seq: u64) {
        self.seek_to(head_seq.max(1));
    }

    fn seek_to(&mut self, next: u64) {
        self.reset_runtime();
        self.next_deliver_seq = next;
        self.ack_floor = next - 1;
    }
'''),F(G,'seek_end','''
    pub fn seek_end(&mut self, last_seq: u64) {
        self.seek_to(last_seq + 1);
    }
'''),F(G,'remove_member','''
    pub fn remove_member(&mut self, consumer_id: &str) -> Option<String> {
        let GroupMember { connection_client_id } = self.members.remove(consumer_id)?;
        self.release_consumer(consumer_id);
        self.invalidate_inflight();
        Some(connection_client_id)
    }
'''),F(G,'next_fetch_seq','''
    pub fn next_fetch_seq(&self, head_seq: u64) -> u64 {
        let wanted = match self.redeliver.front() {
            Some(&seq) => seq,
            None => self.next_deliver_seq,
        };
        wanted.max(head_seq).max(1)
    }
'''),F(G,'invalidate_inflight','''
    fn invalidate_inflight(&mut self) {
        std::mem::replace(&mut self.cancel, CancellationToken::new()).cancel();
        self.is_fetching_cold = false;
    }
''')]),
('topic-window',[F(T,'evict','''
    pub fn evict(&mut self, persisted_seq: u64) {
        while self.log.len() > self.ram_soft_limit {
            match self.log.front() {
                Some(front) if front.seq <= persisted_seq => {
                    let next = front.seq + 1;
                    self.log.pop_front();
                    self.ram_start_seq = next.max(self.head_seq);
                }
                _ => return,
            }
        }
    }
'''),F(T,'apply_head','''
    pub fn apply_head(&mut self, head_seq: u64) {
        let head = head_seq.max(1);
        self.head_seq = head;
        while self.log.front().is_some_and(|front| front.seq < head) {
            self.log.pop_front();
        }
        self.ram_start_seq = self.log.front().map_or(self.next_seq.max(head), |front| front.seq);
    }
'''),F(T,'append','''
    pub fn append(&mut self, payload: Bytes) -> (u64, u64) {
        let timestamp = Self::now_ms();
        let seq = self.next_seq;
        self.next_seq = seq + 1;
        if self.log.is_empty() {
            self.ram_start_seq = seq;
        }
        self.log.push_back(Message { seq, timestamp, payload });
        (seq, timestamp)
    }

    fn now_ms() -> u64 {
        SystemTime::now()
            .duration_since(UNIX_EPOCH)
            .unwrap()
            .as_millis() as u64
    }
'''),F(T,'read','''
    pub fn read(&self, from_seq: u64, limit: usize) -> Vec<Message> {
        let from_seq = from_seq.max(self.head_seq).max(1);
        match from_seq.checked_sub(self.ram_start_seq) {
            Some(offset) => self.log.iter().skip(offset as usize).take(limit).cloned().collect(),
            None => Vec::new(),
        }
    }
''')]),
('mgr-with-group',[F(M_,'ack','''
    pub async fn ack(&self, group: &str, topic: &str, consumer_id: &str, generation: u64, seq: u64) -> Result<(), String> {
        let topic_ref = self.get_topic(topic).ok_or("Topic not found")?;
        let mut guard = Self::lock_topic(&topic_ref.inner);
        let inner = &mut *guard;
        let head_seq = inner.state.head_seq;
        let group_ref = inner.groups.get_mut(group).ok_or("Group not found")?;
        group_ref.clamp_head(head_seq);
        group_ref.ack(consumer_id, generation, seq)?;
        inner.groups_dirty = true;
        Ok(())
    }
'''),F(M_,'seek','''
    pub async fn seek(&self, group: &str, topic: &str, target: SeekTarget) -> Result<(), String> {
        Self::check_group_id(group)?;
        let topic_ref = self.get_topic(topic).ok_or("Topic not found")?;
        {
            let mut inner = Self::lock_topic(&topic_ref.inner);
            let head_seq = inner.state.head_seq;
            let last_seq = inner.state.next_seq.saturating_sub(1);
            let group_ref = inner.group_or_new(group);
            match target {
                SeekTarget::Beginning => group_ref.seek_beginning(head_seq),
                SeekTarget::End => group_ref.seek_end(last_seq),
            }
            inner.groups_dirty = true;
        }
        topic_ref.notify.notify_waiters();
        Ok(())
    }
'''),F(M_,'join_group','''
    pub async fn join_group(&self, group: &str, topic: &str, connection_client_id: &str) -> Result<JoinGroupResult, String> {
        Self::check_group_id(group)?;
        let topic_ref = self.get_topic(topic).ok_or("Topic not found")?;
        let mut inner = Self::lock_topic(&topic_ref.inner);
        let head_seq = inner.state.head_seq;
        let created = !inner.groups.contains_key(group);

        let group_ref = inner.group_or_new(group);
        let clamped = group_ref.clamp_head(head_seq);
        let joined = JoinGroupResult {
            consumer_id: group_ref.add_member(connection_client_id.to_string()),
            ack_floor: group_ref.ack_floor,
            generation: group_ref.generation(),
        };

        inner.groups_dirty |= created || clamped;
        let binding = ConsumerBinding {
            group_id: group.to_string(),
            consumer_id: joined.consumer_id.clone(),
        };
        inner.client_map.entry(connection_client_id.to_string()).or_default().push(binding);
        Ok(joined)
    }
'''),(M_,'''impl StreamManager {''','''impl TopicInner {
    /// The group of that name, created at the head of the topic if there is none yet.
    fn group_or_new(&mut self, group: &str) -> &mut ConsumerGroup {
        let config = &self.full_config;
        let head_seq = self.state.head_seq;
        self.groups.entry(group.to_string()).or_insert_with(|| {
            ConsumerGroup::new(
                group.to_string(),
                head_seq,
                config.max_ack_pending,
                Duration::from_millis(config.ack_wait_ms),
                config.max_deliveries,
            )
        })
    }
}

impl StreamManager {''')]),
('mgr-leave',[F(M_,'leave_group','''
    pub async fn leave_group(&self, group: &str, topic: &str, consumer_id: &str, generation: u64) -> Result<(), String> {
        let topic_ref = self.get_topic(topic).ok_or("Topic not found")?;
        Self::leave_locked(&mut Self::lock_topic(&topic_ref.inner), group, consumer_id, generation)?;
        topic_ref.notify.notify_waiters();
        Ok(())
    }

    fn leave_locked(inner: &mut TopicInner, group: &str, consumer_id: &str, generation: u64) -> Result<(), String> {
        let group_ref = inner.groups.get_mut(group).ok_or_else(|| "Group not found".to_string())?;
        if generation != group_ref.generation() {
            return Err("FENCED".to_string());
        }
        let client_id = group_ref.remove_member(consumer_id).ok_or_else(|| "NOT_MEMBER".to_string())?;
        inner.groups_dirty = true;
        inner.unbind(&client_id, group, consumer_id);
        Ok(())
    }
'''),F(M_,'disconnect','''
    pub async fn disconnect(&self, client_id: String) {
        info!("[StreamManager] Disconnecting client: {}", client_id);
        for (_, topic_ref) in Self::collect_topics(&self.topics) {
            let released = Self::lock_topic(&topic_ref.inner).release_client(&client_id);
            if released {
                topic_ref.notify.notify_waiters();
            }
        }
    }
'''),(M_,'''impl StreamManager {''','''impl TopicInner {
    /// Removes every membership of a client; true if there was one.
    fn release_client(&mut self, client_id: &str) -> bool {
        let mut released = false;
        for ConsumerBinding { group_id, consumer_id } in self.client_map.remove(client_id).unwrap_or_default() {
            let left = self.groups.get_mut(&group_id).and_then(|g| g.remove_member(&consumer_id));
            released |= left.is_some();
        }
        if released {
            self.groups_dirty = true;
        }
        released
    }

    fn unbind(&mut self, client_id: &str, group: &str, consumer_id: &str) {
        let Some(bindings) = self.client_map.get_mut(client_id) else { return };
        bindings.retain(|b| b.group_id != group || b.consumer_id != consumer_id);
        if bindings.is_empty() {
            self.client_map.remove(client_id);
        }
    }
}

impl StreamManager {''')]),
('record-type',[F(P,'serialize_message','''
/// Checksum of a sequence of byte strings.
fn checksum(parts: &[&[u8]]) -> u32 {
    let mut hasher = Hasher::new();
    for part in parts {
        hasher.update(part);
    }
    hasher.finalize()
}

/// Serialize a message into a buffer (does NOT write to disk).
pub fn serialize_message(buf: &mut Vec<u8>, seq: u64, timestamp: u64, payload: &[u8]) {
    let seq = seq.to_be_bytes();
    let timestamp = timestamp.to_be_bytes();
    let len = (seq.len() + timestamp.len()) as u32 + payload.len() as u32;
    let crc = checksum(&[&seq, &timestamp, payload]);

    buf.extend_from_slice(&len.to_be_bytes());
    buf.extend_from_slice(&crc.to_be_bytes());
    buf.extend_from_slice(&seq);
    buf.extend_from_slice(&timestamp);
    buf.extend_from_slice(payload);
}

enum Record {
    Intact(Vec<u8>),
    Damaged,
}

/// The next record of a file, None at its end (or where it was cut off).
async fn next_record(reader: &mut BufReader<File>) -> Option<Record> {
    let len = reader.read_u32().await.ok()?;
    let stored_crc = reader.read_u32().await.ok()?;
    let mut content = vec![0u8; len as usize];
    reader.read_exact(&mut content).await.ok()?;
    if checksum(&[&content]) == stored_crc {
        Some(Record::Intact(content))
    } else {
        Some(Record::Damaged)
    }
}

fn decode_message(content: Vec<u8>) -> Option<Message> {
    use bytes::Buf;
    let mut content = Bytes::from(content);
    if content.len() < 16 {
        return None;
    }
    let seq = content.get_u64();
    let timestamp = content.get_u64();
    Some(Message { seq, timestamp, payload: content })
}
'''),F(P,'read_log_segment','''
pub async fn read_log_segment(path: &PathBuf, start_seq: u64, limit: usize) -> Vec<Message> {
    let mut msgs = Vec::new();
    let Ok(file) = File::open(path).await else {
        return msgs;
    };
    let mut reader = BufReader::new(file);
    while let Some(record) = next_record(&mut reader).await {
        let Record::Intact(content) = record else { continue };
        let Some(msg) = decode_message(content) else { continue };
        if msg.seq < start_seq {
            continue;
        }
        msgs.push(msg);
        if msgs.len() >= limit {
            break;
        }
    }
    msgs
}
'''),F(P,'load_segment_file','''
async fn load_segment_file(path: &PathBuf) -> VecDeque<Message> {
    let mut msgs = VecDeque::new();
    let Ok(file) = File::open(path).await else {
        return msgs;
    };
    let mut reader = BufReader::new(file);
    while let Some(Record::Intact(content)) = next_record(&mut reader).await {
        match decode_message(content) {
            Some(msg) => msgs.push_back(msg),
            None => break,
        }
    }
    msgs
}
''')]),
('groups-file',[F(P,'save_groups_file','''
pub async fn save_groups_file(base_path: &Path, groups: &HashMap<String, u64>) -> std::io::Result<()> {
    let tmp_path = base_path.join("groups.log.tmp");
    let mut contents = Vec::new();
    for (group_id, ack_floor) in groups.iter() {
        encode_group(&mut contents, group_id, *ack_floor);
    }

    let mut file = File::create(&tmp_path).await?;
    file.write_all(&contents).await?;
    file.flush().await?;
    drop(file);
    tokio::fs::rename(tmp_path, base_path.join("groups.log")).await
}
'''),F(P,'write_group_entry','''
fn encode_group(out: &mut Vec<u8>, group_id: &str, ack_floor: u64) {
    use bytes::BufMut;
    let mut body = Vec::with_capacity(10 + group_id.len());
    body.put_u64(ack_floor);
    body.put_u16(group_id.len() as u16);
    body.put_slice(group_id.as_bytes());

    let mut hasher = Hasher::new();
    hasher.update(&body);
    out.put_u32(body.len() as u32);
    out.put_u32(hasher.finalize());
    out.extend(body);
}
'''),F(P,'recover_topic','''
pub async fn recover_topic(topic_name: &str, base_path: PathBuf) -> RecoveredState {
    let dir = base_path.join(topic_name);
    if !dir.exists() {
        return RecoveredState::default();
    }

    let mut state = RecoveredState {
        groups_data: recover_groups(&dir).await,
        ..Default::default()
    };
    let Ok(segments) = find_segments(&dir).await else {
        return state;
    };
    state.head_seq = match segments.first() {
        Some(oldest) => oldest.start_seq,
        None => 1,
    };
    // A crash right after a rotation leaves an empty newest segment.
    let mut unread = segments.iter();
    while let Some(segment) = unread.next_back() {
        let messages = load_segment_file(&segment.path).await;
        if !messages.is_empty() {
            state.messages = messages;
            break;
        }
    }
    state.segments = segments;
    state
}

async fn recover_groups(dir: &Path) -> HashMap<String, u64> {
    let path = dir.join("groups.log");
    if !path.exists() {
        return HashMap::new();
    }
    load_groups_file(&path).await.unwrap_or_default()
}
''')]),
('append-ctx',[F(P,'handle_append','''
    async fn handle_append(
        &mut self,
        topic_name: String,
        messages: Vec<MessageToAppend>,
        persisted_seq: Arc<AtomicU64>,
    ) {
        let (Some(first), Some(last)) = (messages.first(), messages.last()) else {
            return;
        };
        if !self.ensure_topic(&topic_name, persisted_seq).await {
            return;
        }

        let mut buffer = Vec::new();
        messages.iter().for_each(|msg| serialize_message(&mut buffer, msg.seq, msg.timestamp, &msg.payload));

        let path = self.writable_segment(&topic_name, buffer.len() as u64, first.seq).await;
        let written = match self.get_or_open_writer(&path).await {
            Ok(writer) => writer.write_all(&buffer).await,
            Err(e) => {
                error!("StorageManager: Failed to open file {:?}: {}", path, e);
                return;
            }
        };
        if let Err(e) = written {
            error!("StorageManager: Failed to write to {:?}: {}", path, e);
            self.open_files.pop(&path);
            return;
        }

        if let Some(ctx) = self.topics.get_mut(&topic_name) {
            ctx.highest_pending_seq = last.seq;
            ctx.current_file_size += buffer.len() as u64;
        }
        self.dirty_topics.insert(topic_name);
    }

    /// Looks up (or sets up) what is remembered about a topic; false if its folder cannot be made.
    async fn ensure_topic(&mut self, topic_name: &str, persisted_seq: Arc<AtomicU64>) -> bool {
        if let Some(ctx) = self.topics.get_mut(topic_name) {
            ctx.persisted_seq = persisted_seq;
            return true;
        }

        let dir = self.base_path.join(topic_name);
        if !dir.exists() {
            if let Err(e) = tokio::fs::create_dir_all(&dir).await {
                error!("FATAL: Failed to create topic dir {:?}: {}", dir, e);
                return false;
            }
        }
        let newest = find_segments(&dir).await.unwrap_or_default().pop();
        let ctx = match newest {
            Some(segment) => TopicContext {
                current_file_size: tokio::fs::metadata(&segment.path).await.map_or(0, |m| m.len()),
                active_path: segment.path,
                persisted_seq,
                highest_pending_seq: 0,
            },
            None => TopicContext {
                current_file_size: 0,
                active_path: dir.join("1.log"),
                persisted_seq,
                highest_pending_seq: 0,
            },
        };
        self.topics.insert(topic_name.to_string(), ctx);
        true
    }

    /// The file the next `len` bytes go to: a new one, named by its first message, when they no longer fit.
    async fn writable_segment(&mut self, topic_name: &str, len: u64, first_seq: u64) -> PathBuf {
        let dir = self.base_path.join(topic_name);
        let ctx = self.topics.get_mut(topic_name).unwrap();
        let fits = ctx.current_file_size == 0 || ctx.current_file_size + len <= self.max_segment_size;
        if fits {
            return ctx.active_path.clone();
        }
        if let Some(mut full) = self.open_files.pop(&ctx.active_path) {
            let _ = full.flush().await;
        }
        ctx.current_file_size = 0;
        ctx.active_path = dir.join(format!("{first_seq}.log"));
        ctx.active_path.clone()
    }
''')]),
('flush-mark',[F(P,'flush_all','''
    async fn flush_all(&mut self) {
        let failed = self.flush_writers().await;
        for name in std::mem::take(&mut self.dirty_topics) {
            let Some(ctx) = self.topics.get_mut(&name) else { continue };
            if failed.contains(&ctx.active_path) {
                self.dirty_topics.insert(name);
            } else {
                ctx.mark_persisted();
            }
        }
    }

    /// Flushes every open file; returns those that could not be.
    async fn flush_writers(&mut self) -> HashSet<PathBuf> {
        let mut failed = HashSet::new();
        for (path, writer) in self.open_files.iter_mut() {
            match writer.flush().await {
                Ok(()) => {}
                Err(e) => {
                    error!("StorageManager: Failed to flush {:?}: {}", path, e);
                    failed.insert(path.to_owned());
                }
            }
        }
        failed
    }
'''),(P,'''// ==========================================
// STORAGE MANAGER ACTOR''','''impl TopicContext {
    fn mark_persisted(&mut self) {
        let seq = std::mem::take(&mut self.highest_pending_seq);
        if seq > 0 {
            self.persisted_seq.store(seq, Ordering::Release);
        }
    }
}

// ==========================================
// STORAGE MANAGER ACTOR''')]),
('find-parse',[F(P,'find_segments','''
fn segment_start(fname: &str) -> Option<u64> {
    fname.strip_suffix(".log")?.parse().ok()
}

pub async fn find_segments(base_path: &Path) -> std::io::Result<Vec<Segment>> {
    let mut segments = Vec::new();
    if base_path.exists() {
        let mut entries = tokio::fs::read_dir(base_path).await?;
        while let Some(entry) = entries.next_entry().await? {
            let path = entry.path();
            let start = segment_start(&entry.file_name().to_string_lossy());
            if let (true, Some(start_seq)) = (path.is_file(), start) {
                segments.push(Segment { path, start_seq });
            }
        }
        segments.sort_unstable_by(|a, b| a.start_seq.cmp(&b.start_seq));
    }
    Ok(segments)
}
'''),F(P,'cold_read','''
    async fn cold_read(&self, topic_name: &str, from_seq: u64, limit: usize) -> Vec<Message> {
        let segments = find_segments(&self.base_path.join(topic_name)).await.unwrap_or_default();
        let start = segments.iter().rposition(|s| s.start_seq <= from_seq).unwrap_or(0);

        let mut found: Vec<Message> = Vec::new();
        for segment in &segments[start..] {
            if found.len() >= limit {
                break;
            }
            let next = found.last().map_or(from_seq, |msg| msg.seq + 1);
            found.extend(read_log_segment(&segment.path, next, limit - found.len()).await);
        }
        found
    }
''') if 0 else F(P,'cold_read','''
    async fn cold_read(&self, topic_name: &str, from_seq: u64, limit: usize) -> Vec<Message> {
        let dir = self.base_path.join(topic_name);
        let mut found: Vec<Message> = Vec::new();
        let Ok(segments) = find_segments(&dir).await else {
            return found;
        };
        let first = segments.iter().rposition(|s| s.start_seq <= from_seq).unwrap_or(0);
        let mut from_seq = from_seq;
        for Segment { path, .. } in segments.into_iter().skip(first) {
            let missing = limit - found.len();
            if missing == 0 {
                break;
            }
            let batch = read_log_segment(&path, from_seq, missing).await;
            if let Some(last) = batch.last() {
                from_seq = last.seq + 1;
            }
            found.extend(batch);
        }
        found
    }
''')]),
('retention-parts',[F(P,'apply_retention','''
    async fn apply_retention(&mut self, _topic_name: &str, base_path: &PathBuf, retention: &RetentionOptions) -> RetentionOutcome {
        let mut segments = find_segments(base_path).await.unwrap_or_default();
        if segments.len() > 1 {
            if let Some(max_age) = retention.max_age_ms {
                segments = self.drop_old(segments, Duration::from_millis(max_age)).await;
            }
            if let Some(max_bytes) = retention.max_bytes {
                self.drop_excess(&segments, max_bytes).await;
            }
            segments = find_segments(base_path).await.unwrap_or_default();
        }
        RetentionOutcome {
            head_seq: segments.first().map_or(1, |s| s.start_seq),
        }
    }

    async fn remove_segment(&mut self, segment: &Segment) {
        self.open_files.pop(&segment.path);
        let _ = tokio::fs::remove_file(&segment.path).await;
    }

    /// Removes segments not written to for `max_age`, never the newest; returns what is left.
    async fn drop_old(&mut self, mut segments: Vec<Segment>, max_age: Duration) -> Vec<Segment> {
        let limit = std::time::SystemTime::now() - max_age;
        let Some(newest) = segments.pop() else {
            return segments;
        };
        let mut survivors = Vec::new();
        for segment in segments {
            let modified = tokio::fs::metadata(&segment.path).await.and_then(|m| m.modified());
            if modified.is_ok_and(|at| at < limit) {
                self.remove_segment(&segment).await;
            } else {
                survivors.push(segment);
            }
        }
        survivors.push(newest);
        survivors
    }

    /// Removes the oldest segments, never the newest, until the rest fits in `max_bytes`.
    async fn drop_excess(&mut self, segments: &[Segment], max_bytes: u64) {
        let mut sizes = Vec::with_capacity(segments.len());
        for segment in segments {
            sizes.push(tokio::fs::metadata(&segment.path).await.map_or(0, |m| m.len()));
        }
        let mut total: u64 = sizes.iter().sum();
        let removable = segments.len().saturating_sub(1);
        for (segment, size) in segments.iter().zip(sizes).take(removable) {
            if total <= max_bytes {
                break;
            }
            self.remove_segment(segment).await;
            total = total.saturating_sub(size);
        }
    }
''')]),
('mgr-build',[F(M_,'build_topic_shared','''
    async fn build_topic_shared(name: String, config: TopicConfig) -> Arc<TopicShared> {
        let root = PathBuf::from(&config.persistence_path);
        let topic_dir = root.join(&name);
        if let Err(e) = tokio::fs::create_dir_all(&topic_dir).await {
            tracing::error!("Failed to create topic directory at {:?}: {}", topic_dir, e);
        }

        let recovered = recover_topic(&name, root).await;
        let state = TopicState::restore(name, config.ram_soft_limit, recovered.head_seq.max(1), recovered.messages);
        let last_seq = state.next_seq.saturating_sub(1);
        let groups: HashMap<_, _> = recovered
            .groups_data
            .into_iter()
            // groups.log may be ahead of a log that lost its unflushed tail
            .map(|(id, floor)| (id.clone(), Self::restore_group(id, floor.min(last_seq), state.head_seq, &config)))
            .collect();

        let inner = TopicInner {
            state,
            groups,
            client_map: HashMap::new(),
            groups_dirty: false,
            full_config: config,
        };
        Arc::new(TopicShared {
            inner: Mutex::new(inner),
            notify: Notify::new(),
            persisted_seq: Arc::new(AtomicU64::new(last_seq)),
        })
    }

    fn restore_group(id: String, ack_floor: u64, head_seq: u64, config: &TopicConfig) -> ConsumerGroup {
        ConsumerGroup::restore(
            id,
            ack_floor,
            head_seq,
            config.max_ack_pending,
            Duration::from_millis(config.ack_wait_ms),
            config.max_deliveries,
        )
    }
''')]),
('mgr-ticks',[F(M_,'spawn_background_tasks','''
    fn spawn_background_tasks(&self) {
        let topics = self.topics.clone();
        self.every(Duration::from_millis(self.config.eviction_interval_ms), move || {
            for (_, topic) in Self::collect_topics(&topics) {
                let persisted = topic.persisted_seq.load(Ordering::Acquire);
                Self::lock_topic(&topic.inner).state.evict(persisted);
            }
        });

        let topics = self.topics.clone();
        let storage_tx = self.storage_tx.clone();
        self.every(Duration::from_millis(self.config.default_flush_ms * 10), move || {
            for (topic_name, topic) in Self::collect_topics(&topics) {
                if let Some(groups_data) = Self::lock_topic(&topic.inner).take_dirty_groups() {
                    let _ = storage_tx.send(StorageCommand::SaveGroups { topic_name, groups_data });
                }
            }
        });

        let topics = self.topics.clone();
        self.every(Duration::from_millis(100), move || {
            for (_, topic) in Self::collect_topics(&topics) {
                let released = {
                    let mut inner = Self::lock_topic(&topic.inner);
                    let mut released = false;
                    for group in inner.groups.values_mut() {
                        released |= group.check_redelivery();
                    }
                    inner.groups_dirty |= released;
                    released
                };
                if released {
                    topic.notify.notify_waiters();
                }
            }
        });

        self.spawn_retention();
    }

    /// Runs `work` at each tick until the manager shuts down.
    fn every(&self, period: Duration, mut work: impl FnMut() + Send + 'static) {
        let cancel = self.cancel.clone();
        tokio::spawn(async move {
            let mut timer = tokio::time::interval(period);
            timer.set_missed_tick_behavior(tokio::time::MissedTickBehavior::Skip);
            loop {
                tokio::select! {
                    _ = cancel.cancelled() => break,
                    _ = timer.tick() => work(),
                }
            }
        });
    }

    fn spawn_retention(&self) {
        let topics = self.topics.clone();
        let storage_tx = self.storage_tx.clone();
        let cancel = self.cancel.clone();
        let period = Duration::from_millis(self.config.retention_check_interval_ms);
        tokio::spawn(async move {
            let mut timer = tokio::time::interval(period);
            timer.set_missed_tick_behavior(tokio::time::MissedTickBehavior::Skip);
            loop {
                tokio::select! {
                    _ = cancel.cancelled() => break,
                    _ = timer.tick() => {}
                }
                for (topic_name, topic) in Self::collect_topics(&topics) {
                    Self::retain_topic(&storage_tx, topic_name, &topic).await;
                }
            }
        });
    }

    async fn retain_topic(storage_tx: &mpsc::UnboundedSender<StorageCommand>, topic_name: String, topic: &TopicShared) {
        let (retention, max_segment_size) = {
            let inner = Self::lock_topic(&topic.inner);
            (inner.full_config.retention.clone(), inner.full_config.max_segment_size)
        };
        let (reply, answer) = oneshot::channel();
        let command = StorageCommand::ApplyRetention { topic_name, retention, max_segment_size, reply };
        if storage_tx.send(command).is_err() {
            return;
        }
        let Ok(RetentionOutcome { head_seq }) = answer.await else {
            return;
        };
        if Self::lock_topic(&topic.inner).move_head(head_seq) {
            topic.notify.notify_waiters();
        }
    }
'''),(M_,'''impl StreamManager {''','''impl TopicInner {
    /// The positions to save, if any changed since the last time.
    fn take_dirty_groups(&mut self) -> Option<HashMap<String, u64>> {
        if !std::mem::take(&mut self.groups_dirty) {
            return None;
        }
        let positions = self.groups.iter().map(|(id, group)| (id.clone(), group.ack_floor));
        Some(positions.collect())
    }

    /// Forgets messages before `head_seq`; true if that changed anything.
    fn move_head(&mut self, head_seq: u64) -> bool {
        if head_seq == self.state.head_seq {
            return false;
        }
        self.state.apply_head(head_seq);
        let mut clamped = false;
        for group in self.groups.values_mut() {
            clamped |= group.clamp_head(head_seq);
        }
        self.groups_dirty |= clamped;
        true
    }
}

impl StreamManager {'''),(M_,'StorageCommand, ','StorageCommand, RetentionOutcome, ')]),
('mgr-fetch',[F(M_,'try_fetch_once','''
    fn try_fetch_once(&self, topic_ref: &Arc<TopicShared>, group: &str, consumer_id: &str, generation: u64, limit: usize) -> Result<FetchAttempt, String> {
        let mut guard = Self::lock_topic(&topic_ref.inner);
        let TopicInner { state, groups, groups_dirty, .. } = &mut *guard;
        let group_ref = groups.get_mut(group).ok_or("Group not found")?;

        let clamped = group_ref.clamp_head(state.head_seq);
        *groups_dirty = *groups_dirty || clamped;

        if group_ref.is_backpressured() {
            return Ok(FetchAttempt::Ready(Vec::new()));
        }
        let messages = group_ref.fetch(consumer_id, generation, limit, &state.log, state.ram_start_seq, state.head_seq)?;
        if !messages.is_empty() || group_ref.is_fetching_cold {
            return Ok(FetchAttempt::Ready(messages));
        }

        let from_seq = group_ref.next_fetch_seq(state.head_seq);
        let on_disk_only = from_seq < state.next_seq.min(state.ram_start_seq);
        if on_disk_only {
            group_ref.is_fetching_cold = true;
            Ok(FetchAttempt::NeedColdRead { from_seq })
        } else {
            Ok(FetchAttempt::Wait)
        }
    }
'''),F(M_,'cold_fetch','''
    async fn cold_fetch(&self, topic_ref: &Arc<TopicShared>, topic: &str, group: &str, consumer_id: &str, generation: u64, limit: usize, from_seq: u64, group_cancel: &CancellationToken) -> Result<Vec<Message>, String> {
        let read = self.read_disk(topic, from_seq, limit).await;

        let mut guard = Self::lock_topic(&topic_ref.inner);
        let inner = &mut *guard;
        let head_seq = inner.state.head_seq;
        let mut group_ref = inner.groups.get_mut(group);
        if let Some(group_ref) = group_ref.as_mut() {
            group_ref.is_fetching_cold = false;
        }

        let messages = read.ok_or("Disk read failed")?;
        let group_ref = group_ref.ok_or("Group disappeared during cold read")?;
        if group_cancel.is_cancelled() {
            return Ok(Vec::new());
        }
        let clamped = group_ref.clamp_head(head_seq);
        let registered = group_ref.register_cold_messages(consumer_id, generation, messages, head_seq)?;
        inner.groups_dirty |= clamped;
        Ok(registered)
    }

    /// Reads messages from disk; None when the storage task is gone.
    async fn read_disk(&self, topic: &str, from_seq: u64, limit: usize) -> Option<Vec<Message>> {
        let (reply, answer) = oneshot::channel();
        let command = StorageCommand::ColdRead { topic_name: topic.to_string(), from_seq, limit, reply };
        self.storage_tx.send(command).ok()?;
        answer.await.ok()
    }
'''),F(M_,'read','''
    pub async fn read(&self, topic: &str, from_seq: u64, limit: usize) -> Vec<Message> {
        let Some(topic_ref) = self.get_topic(topic) else {
            return Vec::new();
        };
        let from_seq = {
            let inner = Self::lock_topic(&topic_ref.inner);
            let state = &inner.state;
            let from_seq = from_seq.max(state.head_seq);
            let messages = state.read(from_seq, limit);
            if !messages.is_empty() || from_seq >= state.ram_start_seq.min(state.next_seq) {
                return messages;
            }
            from_seq
        };
        self.read_disk(topic, from_seq, limit).await.unwrap_or_default()
    }
''')]),
('mgr-publish-cmd',[F(M_,'publish','''
    pub async fn publish(&self, topic: &str, payload: Bytes) -> Result<u64, String> {
        let topic_ref = match self.get_topic(topic) {
            Some(topic_ref) => topic_ref,
            None => return Err("Topic not found".into()),
        };
        let seq = self.append_logged(&topic_ref, topic, payload);
        topic_ref.notify.notify_waiters();
        Ok(seq)
    }

    /// Appends in memory and queues the same for the disk, both under the topic lock.
    fn append_logged(&self, topic_ref: &TopicShared, topic: &str, payload: Bytes) -> u64 {
        let mut inner = Self::lock_topic(&topic_ref.inner);
        let (seq, timestamp) = inner.state.append(payload.clone());
        let entry = MessageToAppend { seq, timestamp, payload };
        let command = StorageCommand::Append {
            topic_name: topic.to_owned(),
            messages: vec![entry],
            persisted_seq: Arc::clone(&topic_ref.persisted_seq),
        };
        if self.storage_tx.send(command).is_err() {
            tracing::error!("Storage task is gone, message {} of {} stays in memory", seq, topic);
        }
        seq
    }
''')]),
]
