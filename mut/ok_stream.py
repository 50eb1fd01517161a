"""edits that change no behaviour: every stream rule must stay silent"""
T='src/brokers/stream/domain/topic.rs'; M_='src/brokers/stream/manager.rs'; S='src/brokers/stream/domain/persistence.rs'; G='src/brokers/stream/domain/group.rs'
M=[
('ok-append-local',[(T,"""        self.log.push_back(Message {
            seq,
            timestamp,
            payload,
        });
        self.next_seq += 1;

        (seq, timestamp)""","""        self.next_seq = seq + 1;
        let message = Message { payload, timestamp, seq };
        let result = (message.seq, message.timestamp);
        self.log.push_back(message);
        result""")]),
('ok-now-helper',[(T,"""        let timestamp = SystemTime::now()
            .duration_since(UNIX_EPOCH)
            .unwrap()
            .as_millis() as u64;
""","""        let timestamp = Self::now_ms();
"""),(T,"    pub fn read(&self, from","    fn now_ms() -> u64 {\n        SystemTime::now().duration_since(UNIX_EPOCH).map(|d| d.as_millis() as u64).unwrap_or(0)\n    }\n\n    pub fn read(&self, from")]),
('ok-evict-whilelet',[(T,"""        while self.log.len() > self.ram_soft_limit {
            if let Some(front) = self.log.front() {
                if front.seq <= persisted_seq {
                    if let Some(removed) = self.log.pop_front() {
                        self.ram_start_seq = (removed.seq + 1).max(self.head_seq);
                    }
                } else {
                    break; // don't evict unpersisted data
                }
            } else {
                break;
            }
        }""","""        while self.log.len() > self.ram_soft_limit {
            let front_seq = match self.log.front() {
                Some(front) => front.seq,
                None => return,
            };
            if front_seq > persisted_seq {
                return;
            }
            self.log.pop_front();
            self.ram_start_seq = self.head_seq.max(front_seq + 1);
        }""")]),
('ok-evict-helper',[(T,"""            if let Some(front) = self.log.front() {
                if front.seq <= persisted_seq {
                    if let Some(removed) = self.log.pop_front() {
                        self.ram_start_seq = (removed.seq + 1).max(self.head_seq);
                    }
                } else {
                    break; // don't evict unpersisted data
                }
            } else {
                break;
            }""","""            if !self.evict_front(persisted_seq) { break; }"""),(T,"    pub fn apply_head(","""    fn evict_front(&mut self, persisted_seq: u64) -> bool {
        match self.log.front() {
            Some(front) if front.seq <= persisted_seq => {}
            _ => return false,
        }
        if let Some(removed) = self.log.pop_front() {
            self.ram_start_seq = (removed.seq + 1).max(self.head_seq);
        }
        true
    }

    pub fn apply_head(""")]),
('ok-head-match',[(T,"""        while let Some(front) = self.log.front() {
            if front.seq < self.head_seq {
                self.log.pop_front();
            } else {
                break;
            }
        }
        if let Some(front) = self.log.front() {
            self.ram_start_seq = front.seq;
        } else {
            self.ram_start_seq = self.next_seq.max(self.head_seq);
        }""","""        while self.log.front().map_or(false, |m| m.seq < self.head_seq) {
            self.log.pop_front();
        }
        self.ram_start_seq = match self.log.front() {
            Some(front) => front.seq,
            None => self.next_seq.max(self.head_seq),
        };""")]),
('ok-read-guard',[(T,"""        if from_seq >= self.ram_start_seq && !self.log.is_empty() {
            let idx = (from_seq - self.ram_start_seq) as usize;
            if idx < self.log.len() {
                return self.log.iter().skip(idx).take(limit).cloned().collect();
            }
        }
        // Cold read is handled by the manager via StorageManager
        Vec::new()""","""        if from_seq < self.ram_start_seq || self.log.is_empty() {
            return Vec::new();
        }
        let idx = (from_seq - self.ram_start_seq) as usize;
        let mut out = Vec::new();
        for msg in self.log.iter().skip(idx).take(limit) {
            out.push(msg.clone());
        }
        out""")]),
('ok-restore-match',[(T,"""        let next_seq = messages.back().map(|m| m.seq + 1).unwrap_or(head_seq.max(1));
        let ram_start_seq = messages.front().map(|m| m.seq).unwrap_or(next_seq.max(head_seq));
""","""        let next_seq = match messages.back() {
            Some(last) => last.seq + 1,
            None => head_seq.max(1),
        };
        let ram_start_seq = if let Some(first) = messages.front() { first.seq } else { next_seq.max(head_seq) };
""")]),
('ok-publish-helper',[(M_,"""            let (seq, timestamp) = inner.state.append(payload.clone());

            // Sent while the topic is locked: the log on disk keeps the sequence order.
            let _ = self.storage_tx.send(StorageCommand::Append {
                topic_name: topic.to_string(),
                messages: vec![MessageToAppend {
                    seq,
                    timestamp,
                    payload,
                }],
                persisted_seq,
            });
            seq""","""            let (seq, timestamp) = inner.state.append(payload.clone());
            self.log_append(topic, MessageToAppend { seq, timestamp, payload }, persisted_seq);
            seq"""),(M_,"    /// groups.log stores","""    fn log_append(&self, topic: &str, message: MessageToAppend, persisted_seq: Arc<AtomicU64>) {
        let mut messages = Vec::with_capacity(1);
        messages.push(message);
        let cmd = StorageCommand::Append { topic_name: topic.to_owned(), messages, persisted_seq };
        if self.storage_tx.send(cmd).is_err() {
            tracing::error!("storage stopped");
        }
    }

    /// groups.log stores""")]),
('ok-publish-drop',[(M_,"        let seq = {\n            let mut inner = Self::lock_topic(&topic_ref.inner);\n            let (seq, timestamp)","        let mut inner = Self::lock_topic(&topic_ref.inner);\n            let (seq, timestamp)"),(M_,"                persisted_seq,\n            });\n            seq\n        };\n\n        topic_ref.notify","                persisted_seq,\n            });\n        drop(inner);\n\n        topic_ref.notify")]),
('ok-ack-dirty',[(M_,"""        let was_clamped = group_ref.clamp_head(head_seq);
        group_ref.ack(consumer_id, generation, seq)?;
        if was_clamped {
            inner.groups_dirty = true;
        }
        inner.groups_dirty = true;
        Ok(())""","""        group_ref.clamp_head(head_seq);
        let result = group_ref.ack(consumer_id, generation, seq);
        if result.is_ok() {
            inner.groups_dirty = true;
        }
        result""")]),
('ok-ack-early',[(M_,"""        let was_clamped = group_ref.clamp_head(head_seq);
        group_ref.ack(consumer_id, generation, seq)?;
        if was_clamped {
            inner.groups_dirty = true;
        }
        inner.groups_dirty = true;
        Ok(())""","""        let _ = group_ref.clamp_head(head_seq);
        if let Err(e) = group_ref.ack(consumer_id, generation, seq) {
            return Err(e);
        }
        Self::mark_groups_dirty(&mut inner);
        Ok(())"""),(M_,"    /// groups.log stores","    fn mark_groups_dirty(inner: &mut TopicInner) {\n        inner.groups_dirty = true;\n    }\n\n    /// groups.log stores")]),
('ok-disconnect-inline',[(M_,"""                    for binding in bindings {
                        if let Some(group_ref) = inner.groups.get_mut(&binding.group_id) {
                            if group_ref.remove_member(&binding.consumer_id).is_some() {
                                should_notify = true;
                                inner.groups_dirty = true;
                            }
                        }
                    }""","""                    let mut removed = 0usize;
                    for binding in bindings.iter() {
                        let Some(group_ref) = inner.groups.get_mut(&binding.group_id) else { continue };
                        if group_ref.remove_member(&binding.consumer_id).is_none() { continue; }
                        removed += 1;
                        inner.groups_dirty = true;
                    }
                    should_notify = removed > 0;""")]),
('ok-redeliver-any',[(M_,"""                            for group in inner.groups.values_mut() {
                                if group.check_redelivery() {
                                    groups_changed = true;
                                    should_notify = true;
                                }
                            }
                            if groups_changed {
                                inner.groups_dirty = true;
                            }""","""                            for (_, group) in inner.groups.iter_mut() {
                                groups_changed |= group.check_redelivery();
                            }
                            should_notify = groups_changed;
                            if groups_changed {
                                inner.groups_dirty = true;
                            }""")]),
('ok-save-for',[(M_,"""                                Some(inner.groups.iter().map(|(id, group)| (id.clone(), group.ack_floor)).collect::<HashMap<_, _>>())""","""                                let mut data = HashMap::with_capacity(inner.groups.len());
                                for (id, group) in &inner.groups {
                                    data.insert(id.clone(), group.ack_floor);
                                }
                                Some(data)""")]),
('ok-save-flat',[(M_,"""                        let groups_data = {
                            let mut inner = StreamManager::lock_topic(&topic_ref.inner);
                            if !inner.groups_dirty {
                                None
                            } else {
                                inner.groups_dirty = false;
                                Some(inner.groups.iter().map(|(id, group)| (id.clone(), group.ack_floor)).collect::<HashMap<_, _>>())
                            }
                        };

                        if let Some(groups_data) = groups_data {
                            let _ = storage_tx.send(StorageCommand::SaveGroups {
                                topic_name,
                                groups_data,
                            });
                        }""","""                        let mut inner = StreamManager::lock_topic(&topic_ref.inner);
                        if !std::mem::take(&mut inner.groups_dirty) { continue; }
                        let groups_data: HashMap<String, u64> = inner.groups.iter().map(|(id, group)| (id.clone(), group.ack_floor)).collect();
                        drop(inner);
                        let _ = storage_tx.send(StorageCommand::SaveGroups { topic_name, groups_data });""")]),
('ok-serialize-content',[(S,"""    let len = 8 + 8 + payload.len() as u32;
    let mut hasher = Hasher::new();
    hasher.update(&seq.to_be_bytes());
    hasher.update(&timestamp.to_be_bytes());
    hasher.update(payload);
    let crc = hasher.finalize();

    buf.put_u32(len);
    buf.put_u32(crc);
    buf.put_u64(seq);
    buf.put_u64(timestamp);
    buf.put_slice(payload);""","""    let crc = record_crc(seq, timestamp, payload);
    let content_len = payload.len() as u32 + 16;
    buf.put_u32(content_len);
    buf.put_u32(crc);
    buf.put_slice(&seq.to_be_bytes());
    buf.put_slice(&timestamp.to_be_bytes());
    buf.extend_from_slice(payload);"""),(S,"/// Read messages from a log segment file starting","""fn record_crc(seq: u64, timestamp: u64, payload: &[u8]) -> u32 {
    let mut hasher = Hasher::new();
    hasher.update(&seq.to_be_bytes());
    hasher.update(&timestamp.to_be_bytes());
    hasher.update(payload);
    hasher.finalize()
}

/// Read messages from a log segment file starting""")]),
('ok-crc-fn',[(S,"""        let mut hasher = Hasher::new();
        hasher.update(&content_buf);
        if hasher.finalize() != stored_crc { continue; }

        if content_buf.len() < 16 { continue; }
        ""","""        if crc32fast::hash(&content_buf) != stored_crc || content_buf.len() < 16 {
            continue;
        }
        """)]),
('ok-payload-slice',[(S,"""        if content_buf.len() < 16 { break; }
        
        let mut cursor = std::io::Cursor::new(content_buf);
        let seq = cursor.get_u64();
        let timestamp = cursor.get_u64();
        let payload_len = cursor.remaining();
        let payload = Bytes::copy_from_slice(&cursor.copy_to_bytes(payload_len));

        msgs.push_back(Message { seq, timestamp, payload });""","""        if (len as usize) < 16 { break; }

        let mut content = Bytes::from(content_buf);
        let seq = content.get_u64();
        let timestamp = content.get_u64();
        msgs.push_back(Message { seq, timestamp, payload: content });""")]),
('ok-readframe',[(S,"""        let mut len_buf = [0u8; 4];
        if reader.read_exact(&mut len_buf).await.is_err() { break; }
        let len = u32::from_be_bytes(len_buf);

        let mut crc_buf = [0u8; 4];
        if reader.read_exact(&mut crc_buf).await.is_err() { break; }
        let stored_crc = u32::from_be_bytes(crc_buf);

        let mut content_buf = vec![0u8; len as usize];
        if reader.read_exact(&mut content_buf).await.is_err() { break; }

        let mut hasher = Hasher::new();
        hasher.update(&content_buf);
        if hasher.finalize() != stored_crc { continue; }
""","""        let Some((stored_crc, content_buf)) = read_frame(&mut reader).await else { break };
        let mut hasher = Hasher::new();
        hasher.update(&content_buf);
        if hasher.finalize() != stored_crc { continue; }
"""),(S,"/// Recover topic state from","""async fn read_frame<R: tokio::io::AsyncRead + std::marker::Unpin>(reader: &mut R) -> Option<(u32, Vec<u8>)> {
    let len = reader.read_u32().await.ok()?;
    let crc = reader.read_u32().await.ok()?;
    let mut content = vec![0u8; len as usize];
    reader.read_exact(&mut content).await.ok()?;
    Some((crc, content))
}

/// Recover topic state from""")]),
('ok-flush-nodirtyif',[(S,"""        if !self.dirty_topics.is_empty() {
            let topics_to_flush: Vec<String> = self.dirty_topics.drain().collect();
            for name in topics_to_flush {
                if let Some(ctx) = self.topics.get_mut(&name) {
                    if failed.contains(&ctx.active_path) {
                        self.dirty_topics.insert(name);
                        continue;
                    }
                    if ctx.highest_pending_seq > 0 {
                        ctx.persisted_seq.store(ctx.highest_pending_seq, Ordering::Release);
                        ctx.highest_pending_seq = 0;
                    }
                }
            }
        }""","""        let topics_to_flush = std::mem::take(&mut self.dirty_topics);
        for name in topics_to_flush {
            let Some(ctx) = self.topics.get_mut(&name) else { continue };
            if failed.contains(&ctx.active_path) {
                self.dirty_topics.insert(name);
            } else if ctx.highest_pending_seq > 0 {
                let seq = std::mem::replace(&mut ctx.highest_pending_seq, 0);
                ctx.persisted_seq.store(seq, Ordering::Release);
            }
        }""")]),
('ok-append-open',[(S,"""        match self.get_or_open_writer(&path).await {
            Ok(writer) => {
                if let Err(e) = writer.write_all(&buffer).await {
                    error!("StorageManager: Failed to write to {:?}: {}", path, e);
                    self.open_files.pop(&path);
                    return;
                }
                let ctx = self.topics.get_mut(&topic_name).unwrap();
                ctx.current_file_size += bytes_len;
                ctx.highest_pending_seq = highest_seq;
                self.dirty_topics.insert(topic_name.clone());
            }
            Err(e) => error!("StorageManager: Failed to open file {:?}: {}", path, e),
        }""","""        let writer = match self.get_or_open_writer(&path).await {
            Ok(writer) => writer,
            Err(e) => {
                error!("StorageManager: Failed to open file {:?}: {}", path, e);
                return;
            }
        };
        if let Err(e) = writer.write_all(&buffer).await {
            error!("StorageManager: Failed to write to {:?}: {}", path, e);
            self.open_files.pop(&path);
            return;
        }
        if let Some(ctx) = self.topics.get_mut(&topic_name) {
            ctx.highest_pending_seq = highest_seq;
            ctx.current_file_size += bytes_len;
        }
        self.dirty_topics.insert(topic_name);""")]),
('ok-recover-find',[(S,"""        for segment in segments.iter().rev() {
            state.messages = load_segment_file(&segment.path).await;
            if !state.messages.is_empty() { break; }
        }""","""        let mut idx = segments.len();
        while idx > 0 && state.messages.is_empty() {
            idx -= 1;
            state.messages = load_segment_file(&segments[idx].path).await;
        }""")]),
('ok-groups-path',[(S,"""    let groups_path = base_path.join("groups.log");
    if groups_path.exists() {
        if let Ok(groups) = load_groups_file(&groups_path).await {
            state.groups_data = groups;
        }
    }
    state""","""    state.groups_data = load_groups_file(&base_path.join("groups.log")).await.unwrap_or_default();
    state""")]),
('ok-run-drain',[(S,"""                            self.handle_command(cmd).await;
                            while let Ok(next) = self.rx.try_recv() {
                                self.handle_command(next).await;
                            }""","""                            let mut pending = Some(cmd);
                            while let Some(next) = pending.take() {
                                self.handle_command(next).await;
                                pending = self.rx.try_recv().ok();
                            }""")]),
('ok-fetch-closure',[(M_,"""            let notified = topic_ref.notify.notified();

            match self.try_fetch_once(&topic_ref, group, consumer_id, generation, limit) {""","""            let notified = topic_ref.notify.notified();
            let attempt = self.try_fetch_once(&topic_ref, group, consumer_id, generation, limit);

            match attempt {""")]),
('ok-lookup',[(M_,"        self.topics.get(topic).map(|entry| entry.value().clone())","        let entry = self.topics.get(topic)?;\n        Some(Arc::clone(entry.value()))")]),
('ok-seek-let',[(M_,"""            match target {
                SeekTarget::Beginning => group_ref.seek_beginning(head_seq),
                SeekTarget::End => group_ref.seek_end(last_seq),
            }
            inner.groups_dirty = true;""","""            if matches!(target, SeekTarget::End) {
                group_ref.seek_end(last_seq);
            } else {
                group_ref.seek_beginning(head_seq);
            }
            inner.groups_dirty = true;""")]),
('ok-join-match',[(M_,"""            let group_ref = inner.groups.entry(group_id.clone())
                .or_insert_with(|| ConsumerGroup::new(group_id.clone(), head_seq, max_ack_pending, ack_wait, max_deliveries));
            let was_clamped""","""            if !group_exists {
                inner.groups.insert(group_id.clone(), ConsumerGroup::new(group_id.clone(), head_seq, max_ack_pending, ack_wait, max_deliveries));
            }
            let group_ref = inner.groups.get_mut(&group_id).expect("just inserted");
            let was_clamped""")]),
]
