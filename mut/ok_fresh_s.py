"""second batch of behaviour-preserving edits, stream: whole functions rewritten"""
import sys; sys.path.insert(0,'/verif/mut')
from fnedit import F, text
T='src/brokers/stream/domain/topic.rs'; M_='src/brokers/stream/manager.rs'; S='src/brokers/stream/domain/persistence.rs'; G='src/brokers/stream/domain/group.rs'
HA=text(S,'handle_append')
M=[
('cold-slice',[F(S,'cold_read','''
    async fn cold_read(&self, topic_name: &str, from_seq: u64, limit: usize) -> Vec<Message> {
        let dir = self.base_path.join(topic_name);
        let segments = find_segments(&dir).await.unwrap_or_default();
        if segments.is_empty() {
            return Vec::new();
        }

        let mut cursor = std::cmp::max(from_seq, segments[0].start_seq);
        let mut out: Vec<Message> = Vec::new();
        let Some(start) = segments.iter().rposition(|s| s.start_seq <= cursor) else {
            return out;
        };
        for segment in &segments[start..] {
            let left = limit.saturating_sub(out.len());
            if left == 0 {
                break;
            }
            let batch = read_log_segment(&segment.path, cursor, left).await;
            if let Some(last) = batch.last() {
                cursor = last.seq + 1;
            }
            out.extend(batch);
        }
        out
    }
''')]),
('retention-helpers',[F(S,'apply_retention','''
    async fn head_on_disk(base_path: &Path) -> u64 {
        match find_segments(base_path).await {
            Ok(segments) => segments.first().map_or(1, |s| s.start_seq),
            Err(_) => 1,
        }
    }

    async fn drop_segment(&mut self, seg: &Segment) {
        self.open_files.pop(&seg.path);
        let _ = tokio::fs::remove_file(&seg.path).await;
    }

    async fn segment_len(seg: &Segment) -> u64 {
        tokio::fs::metadata(&seg.path).await.map(|m| m.len()).unwrap_or(0)
    }

    async fn apply_retention(&mut self, _topic_name: &str, base_path: &PathBuf, retention: &RetentionOptions) -> RetentionOutcome {
        if retention.max_age_ms.is_some() || retention.max_bytes.is_some() {
            let segments = find_segments(base_path).await.unwrap_or_default();
            if segments.len() > 1 {
                self.drop_old_segments(segments, retention).await;
            }
        }
        RetentionOutcome { head_seq: Self::head_on_disk(base_path).await }
    }

    async fn drop_old_segments(&mut self, mut segments: Vec<Segment>, retention: &RetentionOptions) {
        if let Some(max_age) = retention.max_age_ms {
            let limit = std::time::SystemTime::now() - Duration::from_millis(max_age);
            let newest = segments.pop();
            let mut survivors = Vec::with_capacity(segments.len() + 1);
            for seg in segments {
                let modified = match tokio::fs::metadata(&seg.path).await {
                    Ok(metadata) => metadata.modified().ok(),
                    Err(_) => None,
                };
                if modified.map_or(false, |m| m < limit) {
                    self.drop_segment(&seg).await;
                } else {
                    survivors.push(seg);
                }
            }
            survivors.extend(newest);
            segments = survivors;
        }

        let Some(max_bytes) = retention.max_bytes else { return };
        let mut total: u64 = 0;
        for seg in &segments {
            total += Self::segment_len(seg).await;
        }
        let removable = segments.len().saturating_sub(1);
        for seg in segments.iter().take(removable) {
            if total <= max_bytes {
                break;
            }
            let size = Self::segment_len(seg).await;
            self.drop_segment(seg).await;
            total = total.saturating_sub(size);
        }
    }
''')]),
('append-split',[F(S,'handle_append','''
    async fn handle_append(
        &mut self,
        topic_name: String,
        messages: Vec<MessageToAppend>,
        persisted_seq: Arc<AtomicU64>,
    ) {
        let (Some(first), Some(last)) = (messages.first(), messages.last()) else {
            return;
        };
        let (first_seq, highest_seq) = (first.seq, last.seq);

        if !self.ensure_topic(&topic_name, persisted_seq).await {
            return;
        }

        let mut buffer = Vec::new();
        messages.iter().for_each(|msg| serialize_message(&mut buffer, msg.seq, msg.timestamp, &msg.payload));
        let bytes_len = buffer.len() as u64;

        let path = self.rotate_if_needed(&topic_name, bytes_len, first_seq).await;
        let writer = match self.get_or_open_writer(&path).await {
            Ok(writer) => writer,
            Err(e) => {
                error!("StorageManager: Failed to open file {:?}: {}", path, e);
                return;
            }
        };
        if let Err(e) = writer.write_all(&buffer).await {
            error!("StorageManager: Failed to write to {:?}: {}", path, e);
            self.open_files.pop(&path);
            return;
        }
        if let Some(ctx) = self.topics.get_mut(&topic_name) {
            ctx.current_file_size += bytes_len;
            ctx.highest_pending_seq = highest_seq;
        }
        self.dirty_topics.insert(topic_name);
    }

    async fn ensure_topic(&mut self, topic_name: &str, persisted_seq: Arc<AtomicU64>) -> bool {
        if let Some(ctx) = self.topics.get_mut(topic_name) {
            ctx.persisted_seq = persisted_seq;
            return true;
        }
        let dir = self.base_path.join(topic_name);
        if !dir.exists() {
            if let Err(e) = tokio::fs::create_dir_all(&dir).await {
                error!("FATAL: Failed to create topic dir {:?}: {}", dir, e);
                return false;
            }
        }
        let segments = find_segments(&dir).await.unwrap_or_default();
        let (active_path, current_file_size) = match segments.into_iter().last() {
            Some(last) => {
                let size = match tokio::fs::metadata(&last.path).await {
                    Ok(m) => m.len(),
                    Err(_) => 0,
                };
                (last.path, size)
            }
            None => (dir.join("1.log"), 0),
        };
        let ctx = TopicContext { active_path, persisted_seq, highest_pending_seq: 0, current_file_size };
        self.topics.insert(topic_name.to_owned(), ctx);
        true
    }

    async fn rotate_if_needed(&mut self, topic_name: &str, bytes_len: u64, first_seq: u64) -> PathBuf {
        let max = self.max_segment_size;
        let dir = self.base_path.join(topic_name);
        let ctx = self.topics.get_mut(topic_name).unwrap();
        let full = ctx.current_file_size > 0 && ctx.current_file_size + bytes_len > max;
        if full {
            let old = std::mem::replace(&mut ctx.active_path, dir.join(format!("{}.log", first_seq)));
            ctx.current_file_size = 0;
            if let Some(mut writer) = self.open_files.pop(&old) {
                let _ = writer.flush().await;
            }
        }
        self.topics[topic_name].active_path.clone()
    }
''')]),
('append-entry',[(S,HA[HA.index('        if !self.topics.contains_key'):HA.index('        let mut buffer')],'''        match self.topics.get_mut(&topic_name) {
            Some(ctx) => ctx.persisted_seq = persisted_seq,
            None => {
                if !base_topic_path.exists() {
                    if let Err(e) = tokio::fs::create_dir_all(&base_topic_path).await {
                        error!("FATAL: Failed to create topic dir {:?}: {}", base_topic_path, e);
                        return;
                    }
                }
                let mut active_path = base_topic_path.join("1.log");
                let mut current_file_size = 0;
                if let Some(last) = find_segments(&base_topic_path).await.unwrap_or_default().pop() {
                    current_file_size = tokio::fs::metadata(&last.path).await.map_or(0, |m| m.len());
                    active_path = last.path;
                }
                self.topics.insert(topic_name.clone(), TopicContext {
                    active_path,
                    persisted_seq,
                    highest_pending_seq: 0,
                    current_file_size,
                });
            }
        }

''')]),
('flush-split',[F(S,'flush_all','''
    async fn flush_all(&mut self) {
        let failed = self.flush_writers().await;
        self.publish_persisted(&failed);
    }

    async fn flush_writers(&mut self) -> HashSet<PathBuf> {
        let mut failed = HashSet::new();
        for (path, writer) in self.open_files.iter_mut() {
            match writer.flush().await {
                Ok(()) => {}
                Err(e) => {
                    error!("StorageManager: Failed to flush {:?}: {}", path, e);
                    failed.insert(path.to_path_buf());
                }
            }
        }
        failed
    }

    fn publish_persisted(&mut self, failed: &HashSet<PathBuf>) {
        let dirty = std::mem::take(&mut self.dirty_topics);
        for name in dirty {
            let Some(ctx) = self.topics.get_mut(&name) else { continue };
            if failed.contains(&ctx.active_path) {
                self.dirty_topics.insert(name);
            } else if ctx.highest_pending_seq > 0 {
                let seq = std::mem::take(&mut ctx.highest_pending_seq);
                ctx.persisted_seq.store(seq, Ordering::Release);
            }
        }
    }
''')]),
('flush-retain',[F(S,'flush_all','''
    async fn flush_all(&mut self) {
        let mut failed: Vec<PathBuf> = Vec::new();
        for (path, writer) in self.open_files.iter_mut() {
            if writer.flush().await.is_err() {
                error!("StorageManager: Failed to flush {:?}", path);
                failed.push(path.clone());
            }
        }
        let topics = &mut self.topics;
        self.dirty_topics.retain(|name| match topics.get_mut(name) {
            Some(ctx) if failed.contains(&ctx.active_path) => true,
            Some(ctx) => {
                if ctx.highest_pending_seq != 0 {
                    ctx.persisted_seq.store(ctx.highest_pending_seq, Ordering::Release);
                    ctx.highest_pending_seq = 0;
                }
                false
            }
            None => false,
        });
    }
''')]),
('writer-evict',[F(S,'get_or_open_writer','''
    async fn make_room(&mut self) {
        if self.open_files.len() < self.open_files.cap().get() {
            return;
        }
        if let Some((_, mut oldest)) = self.open_files.pop_lru() {
            let _ = oldest.flush().await;
        }
    }

    async fn get_or_open_writer(&mut self, path: &PathBuf) -> Result<&mut BufWriter<File>, std::io::Error> {
        if !self.open_files.contains(path) {
            self.make_room().await;
            let mut options = OpenOptions::new();
            options.append(true).create(true);
            let writer = BufWriter::new(options.open(path).await?);
            self.open_files.put(path.clone(), writer);
        }
        self.open_files
            .get_mut(path)
            .ok_or_else(|| std::io::Error::new(std::io::ErrorKind::NotFound, "writer"))
    }
''')]),
('groups-onebuf',[F(S,'save_groups_file','''
    pub async fn save_groups_file(base_path: &Path, groups: &HashMap<String, u64>) -> std::io::Result<()> {
    let mut data = Vec::new();
    for (group_id, ack_floor) in groups.iter() {
        write_group_entry(&mut data, group_id, *ack_floor).await?;
    }
    let tmp_path = base_path.join("groups.log.tmp");
    let mut file = File::create(&tmp_path).await?;
    file.write_all(&data).await?;
    file.flush().await?;
    drop(file);
    tokio::fs::rename(&tmp_path, base_path.join("groups.log")).await
}
''')]),
('record-reader',[F(S,'load_groups_file','''
async fn read_record<R: AsyncReadExt + Unpin>(reader: &mut R) -> Option<(bool, Vec<u8>)> {
    let mut header = [0u8; 8];
    reader.read_exact(&mut header).await.ok()?;
    let len = u32::from_be_bytes([header[0], header[1], header[2], header[3]]);
    let stored_crc = u32::from_be_bytes([header[4], header[5], header[6], header[7]]);
    let mut content = vec![0u8; len as usize];
    reader.read_exact(&mut content).await.ok()?;
    let mut hasher = Hasher::new();
    hasher.update(&content);
    Some((hasher.finalize() == stored_crc, content))
}

async fn load_groups_file(path: &PathBuf) -> Result<HashMap<String, u64>, std::io::Error> {
    use bytes::Buf;
    let mut groups = HashMap::new();
    let file = File::open(path).await?;
    let mut reader = BufReader::new(file);
    while let Some((valid, content)) = read_record(&mut reader).await {
        if !valid { break; }
        let mut body = &content[..];
        if body.remaining() < 10 { continue; }
        let ack_floor = body.get_u64();
        let group_len = body.get_u16() as usize;
        if body.remaining() < group_len { continue; }
        let group_id = String::from_utf8_lossy(&body[..group_len]).into_owned();
        groups.insert(group_id, ack_floor);
    }
    Ok(groups)
}
'''),F(S,'load_segment_file','''
async fn load_segment_file(path: &PathBuf) -> VecDeque<Message> {
    let mut msgs = VecDeque::new();
    let Ok(file) = File::open(path).await else { return msgs };
    let mut reader = BufReader::new(file);
    while let Some((valid, content)) = read_record(&mut reader).await {
        if !valid { break; }
        match decode_message(&content) {
            Some(msg) => msgs.push_back(msg),
            None => break,
        }
    }
    msgs
}

fn decode_message(content: &[u8]) -> Option<Message> {
    if content.len() < 16 { return None; }
    let seq = u64::from_be_bytes(content[..8].try_into().ok()?);
    let timestamp = u64::from_be_bytes(content[8..16].try_into().ok()?);
    let payload = Bytes::copy_from_slice(&content[16..]);
    Some(Message { seq, timestamp, payload })
}
'''),F(S,'read_log_segment','''
pub async fn read_log_segment(path: &PathBuf, start_seq: u64, limit: usize) -> Vec<Message> {
    let mut msgs = Vec::new();
    let Ok(file) = File::open(path).await else { return msgs };
    let mut reader = BufReader::new(file);
    while let Some((valid, content)) = read_record(&mut reader).await {
        if !valid { continue; }
        let Some(msg) = decode_message(&content) else { continue };
        if msg.seq < start_seq { continue; }
        msgs.push(msg);
        if msgs.len() >= limit { break; }
    }
    msgs
}
''')]),
('recover-split',[F(S,'recover_topic','''
pub async fn recover_topic(topic_name: &str, base_path: PathBuf) -> RecoveredState {
    let dir = base_path.join(topic_name);
    if !dir.exists() {
        return RecoveredState::default();
    }
    let groups_data = recover_groups(&dir).await;
    match find_segments(&dir).await {
        Ok(segments) => {
            let head_seq = segments.first().map_or(1, |seg| seg.start_seq);
            let messages = newest_messages(&segments).await;
            RecoveredState { messages, segments, groups_data, head_seq }
        }
        Err(_) => RecoveredState { groups_data, ..Default::default() },
    }
}

async fn newest_messages(segments: &[Segment]) -> VecDeque<Message> {
    let mut index = segments.len();
    while index > 0 {
        index -= 1;
        let messages = load_segment_file(&segments[index].path).await;
        if !messages.is_empty() {
            return messages;
        }
    }
    VecDeque::new()
}

async fn recover_groups(dir: &Path) -> HashMap<String, u64> {
    let path = dir.join("groups.log");
    if !path.exists() {
        return HashMap::new();
    }
    load_groups_file(&path).await.unwrap_or_default()
}
''')]),
('segments-name',[(S,'''        if fname.ends_with(".log") && fname != "groups.log" {
            let name_part = &fname[..fname.len() - 4];
            if let Ok(start_seq) = name_part.parse::<u64>() {
                segments.push(Segment { path, start_seq });
            }
        }''','''        if let Some(start_seq) = segment_start(&fname) {
            segments.push(Segment { path, start_seq });
        }'''),(S,'/// Write the groups.log','''fn segment_start(fname: &str) -> Option<u64> {
    let name = fname.strip_suffix(".log")?;
    if name == "groups" { return None; }
    name.parse().ok()
}

/// Write the groups.log'''),(S,'segments.sort_by_key(|s| s.start_seq);','segments.sort_unstable_by(|a, b| a.start_seq.cmp(&b.start_seq));')]),
('run-match',[(S,'''                cmd_res = self.rx.recv() => {
                    match cmd_res {
                        Some(cmd) => {
                            self.handle_command(cmd).await;
                            while let Ok(next) = self.rx.try_recv() {
                                self.handle_command(next).await;
                            }
                        }
                        None => break,
                    }
                }''','''                received = self.rx.recv() => {
                    let Some(first) = received else { break };
                    let mut next = Some(first);
                    while let Some(cmd) = next {
                        self.handle_command(cmd).await;
                        next = self.rx.try_recv().ok();
                    }
                }''')]),
('drop-helper',[(S,'''                if let Some(ctx) = self.topics.remove(&topic_name) {
                    self.open_files.pop(&ctx.active_path);
                }
                let topic_path = self.base_path.join(&topic_name);
                if topic_path.exists() {
                    let _ = std::fs::remove_dir_all(&topic_path);
                }
                let _ = reply.send(());''','''                self.drop_topic(&topic_name);
                let _ = reply.send(());'''),(S,'    async fn handle_append(','''    fn drop_topic(&mut self, topic_name: &str) {
        let removed = self.topics.remove(topic_name);
        if let Some(TopicContext { active_path, .. }) = removed {
            drop(self.open_files.pop(&active_path));
        }
        let dir = self.base_path.join(topic_name);
        if !dir.exists() { return; }
        if let Err(e) = std::fs::remove_dir_all(&dir) {
            warn!("could not remove {:?}: {}", dir, e);
        }
    }

    async fn handle_append(''')]),
# ---- topic
('topic-read',[F(T,'read','''
    pub fn read(&self, from_seq: u64, limit: usize) -> Vec<Message> {
        let start = from_seq.max(self.head_seq).max(1);
        if self.log.is_empty() || start < self.ram_start_seq {
            return Vec::new();
        }
        let skip = (start - self.ram_start_seq) as usize;
        if skip >= self.log.len() {
            return Vec::new();
        }
        let mut out = Vec::new();
        for message in self.log.iter().skip(skip) {
            if out.len() >= limit { break; }
            out.push(message.clone());
        }
        out
    }
''')]),
('topic-evict',[F(T,'evict','''
    pub fn evict(&mut self, persisted_seq: u64) {
        loop {
            if self.log.len() <= self.ram_soft_limit {
                return;
            }
            let evictable = matches!(self.log.front(), Some(front) if front.seq <= persisted_seq);
            if !evictable {
                return;
            }
            let Some(removed) = self.log.pop_front() else { return };
            self.ram_start_seq = std::cmp::max(removed.seq + 1, self.head_seq);
        }
    }
'''),F(T,'apply_head','''
    pub fn apply_head(&mut self, head_seq: u64) {
        let head = std::cmp::max(head_seq, 1);
        self.head_seq = head;
        while self.log.front().map_or(false, |m| m.seq < head) {
            self.log.pop_front();
        }
        self.ram_start_seq = match self.log.front() {
            Some(m) => m.seq,
            None => self.next_seq.max(head),
        };
    }
''')]),
('topic-append',[F(T,'append','''
    pub fn append(&mut self, payload: Bytes) -> (u64, u64) {
        let timestamp = match SystemTime::now().duration_since(UNIX_EPOCH) {
            Ok(d) => d.as_millis() as u64,
            Err(_) => 0,
        };
        let seq = self.take_seq();
        if self.log.is_empty() {
            self.ram_start_seq = seq;
        }
        self.log.push_back(Message { seq, timestamp, payload });
        (seq, timestamp)
    }

    fn take_seq(&mut self) -> u64 {
        let seq = self.next_seq;
        self.next_seq = seq + 1;
        seq
    }
''')]),
# ---- manager
('mgr-publish',[F(M_,'publish','''
    pub async fn publish(&self, topic: &str, payload: Bytes) -> Result<u64, String> {
        let Some(topic_ref) = self.get_topic(topic) else {
            return Err("Topic not found".to_string());
        };
        let seq = self.append_and_log(topic, &topic_ref, payload);
        topic_ref.notify.notify_waiters();
        Ok(seq)
    }

    fn append_and_log(&self, topic: &str, shared: &TopicShared, payload: Bytes) -> u64 {
        let mut inner = Self::lock_topic(&shared.inner);
        let copy = payload.clone();
        let (seq, timestamp) = inner.state.append(payload);
        let message = MessageToAppend { seq, timestamp, payload: copy };
        let command = StorageCommand::Append {
            topic_name: topic.to_owned(),
            messages: vec![message],
            persisted_seq: Arc::clone(&shared.persisted_seq),
        };
        if self.storage_tx.send(command).is_err() {
            tracing::warn!("storage stopped");
        }
        seq
    }
''')]),
('mgr-read',[F(M_,'read','''
    pub async fn read(&self, topic: &str, from_seq: u64, limit: usize) -> Vec<Message> {
        let topic_ref = match self.get_topic(topic) {
            Some(t) => t,
            None => return vec![],
        };
        let cold_from = {
            let inner = Self::lock_topic(&topic_ref.inner);
            let state = &inner.state;
            let from = from_seq.max(state.head_seq);
            let hot = state.read(from, limit);
            if !hot.is_empty() || from >= state.ram_start_seq || from >= state.next_seq {
                return hot;
            }
            from
        };
        self.read_from_disk(topic, cold_from, limit).await.unwrap_or_default()
    }

    async fn read_from_disk(&self, topic: &str, from_seq: u64, limit: usize) -> Option<Vec<Message>> {
        let (reply, answer) = oneshot::channel();
        self.storage_tx.send(StorageCommand::ColdRead { topic_name: topic.to_string(), from_seq, limit, reply }).ok()?;
        answer.await.ok()
    }
''')]),
('mgr-ack',[F(M_,'ack','''
    pub async fn ack(&self, group: &str, topic: &str, consumer_id: &str, generation: u64, seq: u64) -> Result<(), String> {
        let topic_ref = self.get_topic(topic).ok_or_else(|| "Topic not found".to_string())?;
        let mut guard = Self::lock_topic(&topic_ref.inner);
        let inner = &mut *guard;
        match inner.groups.get_mut(group) {
            None => Err("Group not found".to_string()),
            Some(group_ref) => {
                group_ref.clamp_head(inner.state.head_seq);
                group_ref.ack(consumer_id, generation, seq)?;
                inner.groups_dirty = true;
                Ok(())
            }
        }
    }
''')]),
('mgr-group-helper',[F(M_,'seek','''
    pub async fn seek(&self, group: &str, topic: &str, target: SeekTarget) -> Result<(), String> {
        Self::check_group_id(group)?;
        let topic_ref = self.get_topic(topic).ok_or("Topic not found")?;
        let mut inner = Self::lock_topic(&topic_ref.inner);
        let (head, last) = (inner.state.head_seq, inner.state.next_seq.saturating_sub(1));
        let group_ref = inner.group_or_create(group);
        if let SeekTarget::Beginning = target {
            group_ref.seek_beginning(head);
        } else {
            group_ref.seek_end(last);
        }
        inner.groups_dirty = true;
        drop(inner);
        topic_ref.notify.notify_waiters();
        Ok(())
    }
'''),F(M_,'join_group','''
    pub async fn join_group(&self, group: &str, topic: &str, connection_client_id: &str) -> Result<JoinGroupResult, String> {
        Self::check_group_id(group)?;
        let topic_ref = self.get_topic(topic).ok_or("Topic not found")?;
        let mut inner = Self::lock_topic(&topic_ref.inner);
        let is_new = !inner.groups.contains_key(group);
        let head_seq = inner.state.head_seq;

        let group_ref = inner.group_or_create(group);
        let was_clamped = group_ref.clamp_head(head_seq);
        let result = JoinGroupResult {
            consumer_id: group_ref.add_member(connection_client_id.to_string()),
            ack_floor: group_ref.ack_floor,
            generation: group_ref.generation(),
        };

        let binding = ConsumerBinding {
            group_id: group.to_string(),
            consumer_id: result.consumer_id.clone(),
        };
        inner.client_map.entry(connection_client_id.to_string()).or_insert_with(Vec::new).push(binding);
        inner.groups_dirty |= is_new || was_clamped;
        Ok(result)
    }
'''),(M_,'impl StreamManager {','''impl TopicInner {
    fn group_or_create(&mut self, group: &str) -> &mut ConsumerGroup {
        let head_seq = self.state.head_seq;
        let config = &self.full_config;
        let (max_pending, deliveries) = (config.max_ack_pending, config.max_deliveries);
        let ack_wait = Duration::from_millis(config.ack_wait_ms);
        self.groups.entry(group.to_string()).or_insert_with(|| {
            ConsumerGroup::new(group.to_string(), head_seq, max_pending, ack_wait, deliveries)
        })
    }
}

impl StreamManager {''')]),
('mgr-leave',[F(M_,'leave_group','''
    pub async fn leave_group(&self, group: &str, topic: &str, consumer_id: &str, generation: u64) -> Result<(), String> {
        let topic_ref = self.get_topic(topic).ok_or("Topic not found")?;
        {
            let mut guard = Self::lock_topic(&topic_ref.inner);
            let inner = &mut *guard;
            let group_ref = inner.groups.get_mut(group).ok_or("Group not found")?;
            if group_ref.generation() != generation {
                return Err("FENCED".into());
            }
            let client = group_ref.remove_member(consumer_id).ok_or("NOT_MEMBER")?;
            inner.unbind(&client, group, consumer_id);
            inner.groups_dirty = true;
        }
        topic_ref.notify.notify_waiters();
        Ok(())
    }
'''),(M_,'impl StreamManager {','''impl TopicInner {
    fn unbind(&mut self, client: &str, group: &str, consumer: &str) {
        let Some(bindings) = self.client_map.get_mut(client) else { return };
        bindings.retain(|b| b.group_id != group || b.consumer_id != consumer);
        if bindings.is_empty() {
            self.client_map.remove(client);
        }
    }
}

impl StreamManager {''')]),
('mgr-disconnect',[F(M_,'disconnect','''
    pub async fn disconnect(&self, client_id: String) {
        info!("[StreamManager] Disconnecting client: {}", client_id);
        for (_, topic_ref) in Self::collect_topics(&self.topics) {
            if Self::remove_client(&topic_ref, &client_id) {
                topic_ref.notify.notify_waiters();
            }
        }
    }

    fn remove_client(topic_ref: &TopicShared, client_id: &str) -> bool {
        let mut guard = Self::lock_topic(&topic_ref.inner);
        let inner = &mut *guard;
        let bindings = match inner.client_map.remove(client_id) {
            Some(b) => b,
            None => return false,
        };
        let mut removed = 0usize;
        for ConsumerBinding { group_id, consumer_id } in &bindings {
            let left = inner.groups.get_mut(group_id).and_then(|g| g.remove_member(consumer_id));
            if left.is_some() {
                removed += 1;
            }
        }
        if removed > 0 {
            inner.groups_dirty = true;
        }
        removed > 0
    }
''')]),
('mgr-tryfetch',[F(M_,'try_fetch_once','''
    fn try_fetch_once(&self, topic_ref: &Arc<TopicShared>, group: &str, consumer_id: &str, generation: u64, limit: usize) -> Result<FetchAttempt, String> {
        let mut guard = Self::lock_topic(&topic_ref.inner);
        let inner = &mut *guard;
        let head_seq = inner.state.head_seq;
        let ram_start_seq = inner.state.ram_start_seq;

        let Some(group_ref) = inner.groups.get_mut(group) else {
            return Err("Group not found".to_string());
        };
        let was_clamped = group_ref.clamp_head(head_seq);
        if group_ref.is_backpressured() {
            return Ok(FetchAttempt::Ready(vec![]));
        }

        let messages = group_ref.fetch(consumer_id, generation, limit, &inner.state.log, ram_start_seq, head_seq)?;
        if was_clamped {
            inner.groups_dirty = true;
        }
        if !messages.is_empty() || group_ref.is_fetching_cold {
            return Ok(FetchAttempt::Ready(messages));
        }

        let from_seq = group_ref.next_fetch_seq(head_seq);
        let on_disk = from_seq < inner.state.next_seq && from_seq < ram_start_seq;
        if !on_disk {
            return Ok(FetchAttempt::Wait);
        }
        group_ref.is_fetching_cold = true;
        Ok(FetchAttempt::NeedColdRead { from_seq })
    }
''')]),
('mgr-coldfetch',[F(M_,'cold_fetch','''
    async fn cold_fetch(&self, topic_ref: &Arc<TopicShared>, topic: &str, group: &str, consumer_id: &str, generation: u64, limit: usize, from_seq: u64, group_cancel: &CancellationToken) -> Result<Vec<Message>, String> {
        let outcome = self.request_cold(topic, from_seq, limit).await;

        let mut guard = Self::lock_topic(&topic_ref.inner);
        let inner = &mut *guard;
        let head_seq = inner.state.head_seq;
        let Some(group_ref) = inner.groups.get_mut(group) else {
            return match outcome {
                Some(_) => Err("Group disappeared during cold read".to_string()),
                None => Err("Disk read failed".to_string()),
            };
        };
        group_ref.is_fetching_cold = false;
        let Some(messages) = outcome else {
            return Err("Disk read failed".to_string());
        };
        if group_cancel.is_cancelled() {
            return Ok(Vec::new());
        }
        if group_ref.clamp_head(head_seq) {
            inner.groups_dirty = true;
        }
        group_ref.register_cold_messages(consumer_id, generation, messages, head_seq)
    }

    async fn request_cold(&self, topic: &str, from_seq: u64, limit: usize) -> Option<Vec<Message>> {
        let (tx, rx) = oneshot::channel();
        let command = StorageCommand::ColdRead { topic_name: topic.to_string(), from_seq, limit, reply: tx };
        if self.storage_tx.send(command).is_err() {
            return None;
        }
        rx.await.ok()
    }
''')]),
('mgr-fetch',[F(M_,'fetch','''
    pub async fn fetch(&self, group: &str, consumer_id: &str, generation: u64, limit: usize, topic: &str, wait_ms: u64) -> Result<Vec<Message>, String> {
        let topic_ref = self.get_topic(topic).ok_or("Topic not found")?;
        let group_cancel = Self::lock_topic(&topic_ref.inner)
            .groups
            .get(group)
            .map(|g| g.cancel_token())
            .ok_or_else(|| "Group not found".to_string())?;

        let waiting = wait_ms > 0;
        let deadline = Instant::now() + Duration::from_millis(wait_ms);
        loop {
            let notified = topic_ref.notify.notified();

            let attempt = match self.try_fetch_once(&topic_ref, group, consumer_id, generation, limit) {
                Ok(attempt) => attempt,
                Err(e) => {
                    let left = waiting && e == "NOT_MEMBER" && !self.is_active_member(&topic_ref, group, consumer_id);
                    return if left { Ok(Vec::new()) } else { Err(e) };
                }
            };
            match attempt {
                FetchAttempt::Ready(messages) => return Ok(messages),
                FetchAttempt::NeedColdRead { from_seq } => {
                    return self.cold_fetch(&topic_ref, topic, group, consumer_id, generation, limit, from_seq, &group_cancel).await;
                }
                FetchAttempt::Wait if !waiting || Instant::now() >= deadline => return Ok(Vec::new()),
                FetchAttempt::Wait => {}
            }

            let woken = tokio::select! {
                _ = notified => true,
                _ = sleep_until(deadline) => false,
                _ = group_cancel.cancelled() => false,
            };
            if !woken {
                return Ok(Vec::new());
            }
        }
    }
''')]),
('mgr-create',[F(M_,'create_topic','''
    pub async fn create_topic(&self, name: String, options: StreamCreateOptions) -> Result<(), String> {
        self.deleted_topics.remove(&name);
        if self.topics.contains_key(&name) {
            return Ok(());
        }

        let base_path = PathBuf::from(&self.config.persistence_path).join(&name);
        let existed_on_disk = matches!(tokio::fs::metadata(&base_path).await, Ok(meta) if meta.is_dir());
        let topic_config = Self::load_topic_config(&base_path, options, &self.config).await;
        info!("[StreamManager] Creating topic '{}'", name);

        let usable = if existed_on_disk {
            true
        } else {
            match tokio::fs::create_dir_all(&base_path).await {
                Ok(()) => true,
                Err(e) => {
                    tracing::error!("Failed to create topic directory at {:?}: {}", base_path, e);
                    false
                }
            }
        };
        if usable {
            Self::write_config(&base_path, &topic_config, existed_on_disk).await;
        }

        let shared = Self::build_topic_shared(name.clone(), topic_config).await;
        self.topics.entry(name).or_insert(shared);
        Ok(())
    }

    async fn write_config(base_path: &PathBuf, topic_config: &TopicConfig, keep_existing: bool) {
        let config_path = base_path.join("config.json");
        if keep_existing && config_path.exists() {
            return;
        }
        if let Ok(data) = serde_json::to_string_pretty(topic_config) {
            let _ = tokio::fs::write(&config_path, data).await;
        }
    }
''')]),
('mgr-build',[F(M_,'build_topic_shared','''
    async fn build_topic_shared(name: String, config: TopicConfig) -> Arc<TopicShared> {
        let root = PathBuf::from(&config.persistence_path);
        if let Err(e) = tokio::fs::create_dir_all(root.join(&name)).await {
            tracing::error!("Failed to create topic directory for {}: {}", name, e);
        }

        let RecoveredState { messages, groups_data, head_seq, .. } = recover_topic(&name, root).await;
        let state = TopicState::restore(name, config.ram_soft_limit, head_seq.max(1), messages);
        let last_seq = state.next_seq.saturating_sub(1);
        let groups = Self::restore_groups(groups_data, last_seq, state.head_seq, &config);
        let inner = TopicInner {
            state,
            groups,
            client_map: HashMap::new(),
            groups_dirty: false,
            full_config: config,
        };
        Arc::new(TopicShared {
            inner: Mutex::new(inner),
            notify: Notify::new(),
            persisted_seq: Arc::new(AtomicU64::new(last_seq)),
        })
    }

    fn restore_groups(saved: HashMap<String, u64>, last_seq: u64, head_seq: u64, config: &TopicConfig) -> HashMap<String, ConsumerGroup> {
        let ack_wait = Duration::from_millis(config.ack_wait_ms);
        saved
            .into_iter()
            .map(|(id, floor)| {
                let floor = std::cmp::min(floor, last_seq);
                let group = ConsumerGroup::restore(id.clone(), floor, head_seq, config.max_ack_pending, ack_wait, config.max_deliveries);
                (id, group)
            })
            .collect()
    }
'''),(M_,'use crate::brokers::stream::domain::persistence::{','use crate::brokers::stream::domain::persistence::{RecoveredState, ')]),
('mgr-redeliv-helper',[(M_,'''                        let mut should_notify = false;
                        {
                            let mut inner = StreamManager::lock_topic(&topic_ref.inner);
                            let mut groups_changed = false;
                            for group in inner.groups.values_mut() {
                                if group.check_redelivery() {
                                    groups_changed = true;
                                    should_notify = true;
                                }
                            }
                            if groups_changed {
                                inner.groups_dirty = true;
                            }
                        }
                        if should_notify {
                            topic_ref.notify.notify_waiters();
                        }''','''                        if StreamManager::redeliver_expired(&topic_ref) {
                            topic_ref.notify.notify_waiters();
                        }'''),(M_,'    fn try_fetch_once(','''
    fn redeliver_expired(topic: &TopicShared) -> bool {
        let mut inner = Self::lock_topic(&topic.inner);
        let changed = inner
            .groups
            .values_mut()
            .fold(false, |changed, group| group.check_redelivery() || changed);
        if changed {
            inner.groups_dirty = true;
        }
        changed
    }

    fn try_fetch_once(''')]),
('mgr-save-helper',[(M_,'''                        let groups_data = {
                            let mut inner = StreamManager::lock_topic(&topic_ref.inner);
                            if !inner.groups_dirty {
                                None
                            } else {
                                inner.groups_dirty = false;
                                Some(inner.groups.iter().map(|(id, group)| (id.clone(), group.ack_floor)).collect::<HashMap<_, _>>())
                            }
                        };

                        if let Some(groups_data) = groups_data {
                            let _ = storage_tx.send(StorageCommand::SaveGroups {
                                topic_name,
                                groups_data,
                            });
                        }''','''                        let Some(groups_data) = StreamManager::take_dirty_groups(&topic_ref) else {
                            continue;
                        };
                        let command = StorageCommand::SaveGroups { topic_name, groups_data };
                        if storage_tx.send(command).is_err() {
                            break;
                        }'''),(M_,'    fn try_fetch_once(','''
    fn take_dirty_groups(topic: &TopicShared) -> Option<HashMap<String, u64>> {
        let mut inner = Self::lock_topic(&topic.inner);
        if !std::mem::replace(&mut inner.groups_dirty, false) {
            return None;
        }
        let mut positions = HashMap::with_capacity(inner.groups.len());
        for (id, group) in &inner.groups {
            positions.insert(id.clone(), group.ack_floor);
        }
        Some(positions)
    }

    fn try_fetch_once(''')]),
('mgr-retention-helper',[(M_,'''                        let mut should_notify = false;
                        {
                            let mut inner = StreamManager::lock_topic(&topic_ref.inner);
                            let mut groups_changed = false;
                            if outcome.head_seq != inner.state.head_seq {
                                inner.state.apply_head(outcome.head_seq);
                                for group in inner.groups.values_mut() {
                                    if group.clamp_head(outcome.head_seq) {
                                        groups_changed = true;
                                    }
                                }
                                if groups_changed {
                                    inner.groups_dirty = true;
                                }
                                should_notify = true;
                            }
                        }
                        if should_notify {
                            topic_ref.notify.notify_waiters();
                        }''','''                        if StreamManager::move_head(&topic_ref, outcome.head_seq) {
                            topic_ref.notify.notify_waiters();
                        }'''),(M_,'    fn try_fetch_once(','''
    fn move_head(topic: &TopicShared, head_seq: u64) -> bool {
        let mut inner = Self::lock_topic(&topic.inner);
        if inner.state.head_seq == head_seq {
            return false;
        }
        inner.state.apply_head(head_seq);
        let mut clamped = 0;
        for (_, group) in inner.groups.iter_mut() {
            clamped += usize::from(group.clamp_head(head_seq));
        }
        if clamped > 0 {
            inner.groups_dirty = true;
        }
        true
    }

    fn try_fetch_once(''')]),
]
