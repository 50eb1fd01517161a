G='src/brokers/stream/manager.rs'; T='src/brokers/stream/domain/topic.rs'; P='src/brokers/stream/domain/persistence.rs'
M=[
('persist-flush-drop',[(P,"                if let Some(mut old_writer) = self.open_files.pop(&ctx.active_path) {\n                    let _ = old_writer.flush().await;\n                }","                let _ = self.open_files.pop(&ctx.active_path);")]),
('lru-noflush',[(P,"                if let Some((_, mut evicted_writer)) = self.open_files.pop_lru() {\n                    let _ = evicted_writer.flush().await;\n                }","                let _ = self.open_files.pop_lru();")]),
('mark-before-write',[(P,"        match self.get_or_open_writer(&path).await {","        self.topics.get_mut(&topic_name).unwrap().highest_pending_seq = highest_seq;\n        match self.get_or_open_writer(&path).await {")]),
('mark-first',[(P,"let highest_seq = messages.last().unwrap().seq;","let highest_seq = messages.last().unwrap().seq + 1;")]),
('ts-seq-swap',[(P,"serialize_message(&mut buffer, msg.seq, msg.timestamp, &msg.payload);","serialize_message(&mut buffer, msg.timestamp, msg.seq, &msg.payload);")]),
('le-ts',[(P,"    buf.put_u64(timestamp);","    buf.put_u64_le(timestamp);")]),
('crc-nots',[(P,"    hasher.update(&timestamp.to_be_bytes());\n","")]),
('len-off',[(P,"let len = 8 + 8 + payload.len() as u32;","let len = 8 + 8 + payload.len() as u32 + 4;")]),
('read-swap',[(P,"        let seq = cursor.get_u64();\n        let timestamp = cursor.get_u64();\n        let payload_len = cursor.remaining();\n        let payload = Bytes::copy_from_slice(&cursor.copy_to_bytes(payload_len));\n\n        if seq","        let timestamp = cursor.get_u64();\n        let seq = cursor.get_u64();\n        let payload_len = cursor.remaining();\n        let payload = Bytes::copy_from_slice(&cursor.copy_to_bytes(payload_len));\n\n        if seq")]),
('read-nocrc',[(P,"        if hasher.finalize() != stored_crc { continue; }\n","        if hasher.finalize() != stored_crc { warn!(\"crc\"); }\n")]),
('load-nolen',[(P,"        if content_buf.len() < 16 { break; }\n","        if content_buf.len() < 8 { break; }\n")]),
('groups-lossy',[(P,"        if cursor.remaining() < 10 { continue; }","        if cursor.remaining() < 8 { continue; }")]),
('groups-inplace',[(P,'let tmp_path = base_path.join("groups.log.tmp");','let tmp_path = base_path.join("groups.log");')]),
('groups-noflush',[(P,"        writer.flush().await?;\n    }","    }")]),
('groups-early-rename',[(P,"    {\n        let file = File::create(&tmp_path).await?;","    tokio::fs::rename(&tmp_path, &final_path).await.ok();\n    {\n        let file = File::create(&tmp_path).await?;")]),
('recover-fwd',[(P,"for segment in segments.iter().rev() {","for segment in segments.iter() {")]),
('recover-last',[(P,"        for segment in segments.iter().rev() {\n            state.messages = load_segment_file(&segment.path).await;\n            if !state.messages.is_empty() { break; }\n        }","        if let Some(segment) = segments.last() {\n            state.messages = load_segment_file(&segment.path).await;\n        }")]),
('recover-nobreak',[(P,"            if !state.messages.is_empty() { break; }\n","")]),
('head-last',[(P,"state.head_seq = segments.first().map","state.head_seq = segments.last().map")]),
('groups-file',[(P,'let groups_path = base_path.join("groups.log");','let groups_path = base_path.join("group.log");')]),
('exit-noflush',[(P,"        self.flush_all().await;\n        info!(\"StorageManager stopped\");","        info!(\"StorageManager stopped\");")]),
('flush-mark-first',[(P,"        let mut failed: HashSet<PathBuf> = HashSet::new();\n","        for ctx in self.topics.values_mut() { if ctx.highest_pending_seq > 0 { ctx.persisted_seq.store(ctx.highest_pending_seq, Ordering::Release); } }\n        let mut failed: HashSet<PathBuf> = HashSet::new();\n")]),
('flush-nofailcheck',[(P,"                    if failed.contains(&ctx.active_path) {\n                        self.dirty_topics.insert(name);\n                        continue;\n                    }\n","")]),
('pub-unlocked',[(G,"    pub async fn ack(&self, group","    pub async fn ack(&self, group")]),
('ack-nodirty',[(G,"        inner.groups_dirty = true;\n        Ok(())","        Ok(())")]),
('seek-nodirty',[(G,"                SeekTarget::End => group_ref.seek_end(last_seq),\n            }\n            inner.groups_dirty = true;","                SeekTarget::End => group_ref.seek_end(last_seq),\n            }")]),
('seek-swap',[(G,"SeekTarget::End => group_ref.seek_end(last_seq)","SeekTarget::End => group_ref.seek_end(head_seq)")]),
('redel-nodirty',[(G,"                            if groups_changed {\n                                inner.groups_dirty = true;\n                            }\n                        }\n                        if should_notify","                        }\n                        if should_notify")]),
('pub-nonotify',[(G,"topic_ref.notify.notify_waiters();","let _ = &topic_ref.notify;")]),
('longid',[(G,"        Self::check_group_id(group)?;\n","")]),
('save-wrong',[(G,"(id.clone(), group.ack_floor)","(id.clone(), group.generation())")]),
('notified-late',[(G,"            let notified = topic_ref.notify.notified();\n\n            match self.try_fetch_once(&topic_ref, group, consumer_id, generation, limit) {","            match self.try_fetch_once(&topic_ref, group, consumer_id, generation, limit) {"),(G,"            tokio::select! {\n                _ = notified => {}\n                _ = sleep_until(deadline) => return Ok(Vec::new()),","            let notified = topic_ref.notify.notified();\n            tokio::select! {\n                _ = notified => {}\n                _ = sleep_until(deadline) => return Ok(Vec::new()),")]),
]
