G='src/brokers/stream/domain/group.rs'
M=[
('ok-adv-loop',[(G,"""        while self.ack_floor + 1 < self.next_deliver_seq
            && !self.pending.contains_key(&(self.ack_floor + 1))
            && !self.redeliver.iter().any(|seq| *seq == self.ack_floor + 1)
        {
            self.ack_floor += 1;
        }""","""        loop {
            let next = self.ack_floor + 1;
            if next >= self.next_deliver_seq || self.pending.contains_key(&next) || self.redeliver.contains(&next) {
                break;
            }
            self.ack_floor = next;
        }""")]),
('ok-adv-closure',[(G,"""        while self.ack_floor + 1 < self.next_deliver_seq
            && !self.pending.contains_key(&(self.ack_floor + 1))
            && !self.redeliver.iter().any(|seq| *seq == self.ack_floor + 1)
        {
            self.ack_floor += 1;
        }""","""        while self.is_settled(self.ack_floor + 1) {
            self.ack_floor += 1;
        }"""),(G,"    fn read_from_log(","    fn is_settled(&self, seq: u64) -> bool {\n        seq < self.next_deliver_seq && !self.pending.contains_key(&seq) && !self.redeliver.iter().any(|s| *s == seq)\n    }\n\n    fn read_from_log(")]),
('ok-room-helper',[(G,"            if self.pending.len() >= self.max_ack_pending { break; }","            if self.is_backpressured() { break; }"),(G,"""        if self.pending.len() >= self.max_ack_pending {
            return Ok(vec![]); // backpressure
        }""","""        if self.is_backpressured() {
            return Ok(Vec::new());
        }""")]),
('ok-fetch-helper',[(G,"""                if let Some(msg) = Self::read_from_log(log, ram_start_seq, seq) {
                    if let Some(msg) = self.issue_delivery(consumer_id, msg) {
                        result.push(msg);
                    }
                } else {""","""                if let Some(msg) = Self::read_from_log(log, ram_start_seq, seq) {
                    self.deliver_into(consumer_id, msg, &mut result);
                } else {"""),(G,"""                self.next_deliver_seq = seq + 1;
                if let Some(msg) = self.issue_delivery(consumer_id, msg) {
                    result.push(msg);
                }
            } else {
                break; // no""","""                self.next_deliver_seq = seq + 1;
                self.deliver_into(consumer_id, msg, &mut result);
            } else {
                break; // no"""),(G,"    fn read_from_log(","    fn deliver_into(&mut self, consumer_id: &str, msg: Message, out: &mut Vec<Message>) {\n        if let Some(m) = self.issue_delivery(consumer_id, msg) {\n            out.push(m);\n        }\n    }\n\n    fn read_from_log(")]),
('ok-fetch-while-let',[(G,"""        while result.len() < budget {
            if let Some(seq) = self.redeliver.pop_front() {
                if seq < head_seq {
                    self.delivery_attempts.remove(&seq);
                    self.parked.remove(&seq);
                    continue;
                }

                if let Some(msg) = Self::read_from_log(log, ram_start_seq, seq) {
                    if let Some(msg) = self.issue_delivery(consumer_id, msg) {
                        result.push(msg);
                    }
                } else {
                    // Cold message: put back and stop (needs disk read or wait for RAM)
                    self.redeliver.push_front(seq);
                    break;
                }
            } else {
                break;
            }
        }""","""        loop {
            if result.len() >= budget { break; }
            let Some(seq) = self.redeliver.pop_front() else { break };
            if seq < head_seq {
                self.delivery_attempts.remove(&seq);
                self.parked.remove(&seq);
                continue;
            }
            match Self::read_from_log(log, ram_start_seq, seq) {
                Some(msg) => {
                    if let Some(msg) = self.issue_delivery(consumer_id, msg) {
                        result.push(msg);
                    }
                }
                None => {
                    self.redeliver.push_front(seq);
                    break;
                }
            }
        }""")]),
('ok-peek',[(G,"""            if let Some(seq) = self.redeliver.pop_front() {
                if seq < head_seq {
                    self.delivery_attempts.remove(&seq);
                    self.parked.remove(&seq);
                    continue;
                }

                if let Some(msg) = Self::read_from_log(log, ram_start_seq, seq) {
                    if let""","""            if let Some(seq) = self.redeliver.front().copied() {
                if seq < head_seq {
                    self.redeliver.pop_front();
                    self.delivery_attempts.remove(&seq);
                    self.parked.remove(&seq);
                    continue;
                }

                if let Some(msg) = Self::read_from_log(log, ram_start_seq, seq) {
                    self.redeliver.pop_front();
                    if let"""),(G,"""                    self.redeliver.push_front(seq);
                    break;""","""                    break;""")]),
('ok-ack-map',[(G,"""        match self.pending.get(&seq) {
            Some(msg) if msg.consumer_id == consumer_id => {}
            Some(_) => return Err("NOT_OWNER".to_string()),
            None => return Err(format!("seq {} not pending", seq)),
        }
""","""        let Some(entry) = self.pending.get(&seq) else {
            return Err(format!("seq {} not pending", seq));
        };
        if entry.consumer_id != consumer_id {
            return Err("NOT_OWNER".to_string());
        }
""")]),
('ok-release-filter',[(G,"""        let seqs: Vec<(u64, u32)> = self.pending.iter()
            .filter(|(_, msg)| msg.consumer_id == consumer_id)
            .map(|(seq, msg)| (*seq, msg.delivery_count))
            .collect();

        for (seq, delivery_count) in seqs {
            self.pending.remove(&seq);
            self.release_seq(seq, delivery_count);
        }
""","""        let mut owned: Vec<u64> = Vec::new();
        for (seq, msg) in &self.pending {
            if msg.consumer_id == consumer_id {
                owned.push(*seq);
            }
        }
        for seq in owned {
            if let Some(msg) = self.pending.remove(&seq) {
                self.release_seq(seq, msg.delivery_count);
            }
        }
""")]),
('ok-issue-reorder',[(G,"""        self.delivery_attempts.insert(msg.seq, next_attempt);
        self.pending.insert(msg.seq, PendingMsg {
            consumer_id: consumer_id.to_string(),
            delivered_at: Instant::now(),
            delivery_count: next_attempt,
        });""","""        let entry = PendingMsg {
            delivery_count: next_attempt,
            delivered_at: Instant::now(),
            consumer_id: consumer_id.to_string(),
        };
        self.pending.insert(msg.seq, entry);
        self.delivery_attempts.insert(msg.seq, next_attempt);""")]),
('ok-issue-entry',[(G,"""        let next_attempt = self.delivery_attempts.get(&msg.seq).copied().unwrap_or(0).saturating_add(1);""","""        let so_far = match self.delivery_attempts.get(&msg.seq) {
            Some(n) => *n,
            None => 0,
        };
        let next_attempt = so_far + 1;""")]),
('ok-clamp-keys',[(G,"""        let stale_pending: Vec<u64> = self.pending.keys().copied().filter(|seq| *seq < head_seq).collect();
        if !stale_pending.is_empty() {
            for seq in stale_pending {
                self.pending.remove(&seq);
                self.delivery_attempts.remove(&seq);
            }
            changed = true;
        }
""","""        let before_pending = self.pending.len();
        self.pending.retain(|seq, _| *seq >= head_seq);
        changed |= self.pending.len() != before_pending;
""")]),
('ok-clamp-early',[(G,"""        if changed {
            self.is_fetching_cold = false;
            self.try_advance_floor();
            self.invalidate_inflight();
        }

        changed
    }""","""        if !changed {
            return false;
        }
        self.is_fetching_cold = false;
        self.try_advance_floor();
        self.invalidate_inflight();
        true
    }""")]),
('ok-redel-for',[(G,"""        for seq in expired {
            if let Some(msg) = self.pending.remove(&seq) {
                tracing::debug!("[Group:{}] Redelivery timeout seq={} (attempts={})", self.id, seq, msg.delivery_count);
                self.release_seq(seq, msg.delivery_count);
            }
        }
""","""        for seq in expired.into_iter() {
            let Some(PendingMsg { delivery_count, .. }) = self.pending.remove(&seq) else { continue };
            self.release_seq(seq, delivery_count);
        }
""")]),
('ok-release-match',[(G,"""        if delivery_count >= self.max_deliveries {
            self.parked.insert(seq);
            self.delivery_attempts.remove(&seq);
        } else if !self.redeliver.iter().any(|queued| *queued == seq) {
            self.redeliver.push_back(seq);
        }""","""        let exhausted = delivery_count >= self.max_deliveries;
        if exhausted {
            self.delivery_attempts.remove(&seq);
            self.parked.insert(seq);
            return;
        }
        if self.redeliver.contains(&seq) {
            return;
        }
        self.redeliver.push_back(seq);""")]),
('ok-cold-restruct',[(G,"""            if is_redelivery || is_fresh {
                if is_fresh {
                    self.next_deliver_seq = seq + 1;
                }

                if let Some(msg) = self.issue_delivery(consumer_id, msg) {
                    result.push(msg);
                }
            }""","""            if !is_redelivery && !is_fresh {
                continue;
            }
            if is_fresh {
                self.next_deliver_seq = seq + 1;
            }
            if let Some(msg) = self.issue_delivery(consumer_id, msg) {
                result.push(msg);
            }""")]),
('ok-cold-clampdrop',[(G,"""            if self.next_deliver_seq < head_seq {
                self.next_deliver_seq = head_seq;
                self.ack_floor = self.ack_floor.max(head_seq.saturating_sub(1));
            }
            let is_fresh""","""            let is_fresh""")]),
('ok-elapsed',[(G,"now.duration_since(msg.delivered_at) > self.ack_wait","msg.delivered_at.elapsed() > self.ack_wait"),(G,"        let now = Instant::now();\n        let expired","        let expired")]),
('ok-deadline',[(G,"now.duration_since(msg.delivered_at) > self.ack_wait","now > msg.delivered_at + self.ack_wait")]),
('ok-loop',[(G,"""        let expired: Vec<u64> = self.pending.iter()
            .filter(|(_, msg)| now.duration_since(msg.delivered_at) > self.ack_wait)
            .map(|(seq, _)| *seq)
            .collect();
""","""        let mut expired: Vec<u64> = Vec::new();
        for (seq, msg) in &self.pending {
            if now.duration_since(msg.delivered_at) <= self.ack_wait { continue; }
            expired.push(*seq);
        }
""")]),
('ok-early',[(G,"        let now = Instant::now();\n        let expired","        if self.pending.is_empty() { return false; }\n        let now = Instant::now();\n        let expired")]),
]
