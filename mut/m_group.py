G='src/brokers/stream/domain/group.rs'
M=[
('redel-lost',[(G,"                    self.redeliver.push_front(seq);\n                    break;","                    break;")]),
('fetch-noroom',[(G,"let budget = limit.min(self.max_ack_pending - self.pending.len());","let budget = limit;")]),
('fresh-skip',[(G,"                self.next_deliver_seq = seq + 1;\n                if let Some(msg) = self.issue_delivery(consumer_id, msg) {\n                    result.push(msg);\n                }\n            } else {\n                break; // no","                self.next_deliver_seq = seq + 2;\n                if let Some(msg) = self.issue_delivery(consumer_id, msg) {\n                    result.push(msg);\n                }\n            } else {\n                break; // no")]),
('ack-noowner',[(G,"Some(msg) if msg.consumer_id == consumer_id => {}","Some(_msg) if !consumer_id.is_empty() => {}")]),
('floor-noredel',[(G,"            && !self.redeliver.iter().any(|seq| *seq == self.ack_floor + 1)\n","")]),
('floor-le',[(G,"while self.ack_floor + 1 < self.next_deliver_seq","while self.ack_floor + 1 <= self.next_deliver_seq")]),
('floor-pend-off',[(G,"!self.pending.contains_key(&(self.ack_floor + 1))","!self.pending.contains_key(&(self.ack_floor + 2))")]),
('park-gt',[(G,"if delivery_count >= self.max_deliveries {","if delivery_count + 1 >= self.max_deliveries {")]),
('deliver-ge',[(G,"if next_attempt > self.max_deliveries {","if next_attempt > self.max_deliveries + 1 {")]),
('deliver-early-park',[(G,"if next_attempt > self.max_deliveries {","if next_attempt >= self.max_deliveries {")]),
('cold-skip-fresh',[(G,"let is_fresh = seq == next_fresh_seq;","let is_fresh = seq >= next_fresh_seq;")]),
('cold-redel-notremoved',[(G,"                self.redeliver.remove(pos);\n","")]),
('cold-noroom',[(G,"            if self.pending.len() >= self.max_ack_pending { break; }\n","")]),
('gen-lt',[(G,"if generation != self.generation {","if generation < self.generation.saturating_sub(1) {")]),
('seek-keepgen',[(G,"        self.generation = self.generation.saturating_add(1);\n","")]),
('seek-keeppending',[(G,"        self.pending.clear();\n","")]),
('rel-noadv',[(G,"            self.pending.remove(&seq);\n            self.release_seq(seq, delivery_count);","            self.pending.remove(&seq);\n            if delivery_count > 1 { self.release_seq(seq, delivery_count); }")]),
('stale-cold',[(G,"        self.is_fetching_cold = false;\n        self.cancel.cancel();","        self.cancel.cancel();")]),
('clamp-le',[(G,"filter(|seq| *seq < head_seq).collect();","filter(|seq| *seq <= head_seq).collect();")]),
('clamp-redel',[(G,"self.redeliver.retain(|seq| *seq >= head_seq);","self.redeliver.retain(|seq| *seq > head_seq);")]),
('attempts-lost',[(G,"        self.delivery_attempts.insert(msg.seq, next_attempt);\n","")]),
('redel-attempt-removed',[(G,"            self.redeliver.push_back(seq);","            self.delivery_attempts.remove(&seq);\n            self.redeliver.push_back(seq);")]),
('restore-floor',[(G,"let normalized_floor = ack_floor.max(head_seq.saturating_sub(1));","let normalized_floor = ack_floor.max(head_seq);")]),
('seekend-skip',[(G,"self.next_deliver_seq = last_seq + 1;","self.next_deliver_seq = last_seq + 2;")]),
('ack-noremoveredel-ok',[(G,"        self.parked.remove(&seq);\n        self.try_advance_floor();","        self.try_advance_floor();")]),
('timeout-owner',[(G,"            if let Some(msg) = self.pending.remove(&seq) {\n                tracing","            if let Some(msg) = self.pending.remove(&seq).filter(|m| self.members.contains_key(&m.consumer_id)) {\n                tracing")]),
('deliver-newtime',[(G,"            delivered_at: Instant::now(),","            delivered_at: Instant::now() + self.ack_wait,")]),
('redel-dup-skip',[(G,"} else if !self.redeliver.iter().any(|queued| *queued == seq) {","} else if self.redeliver.len() < self.max_ack_pending {")]),
('wait-inv',[(G,"now.duration_since(msg.delivered_at) > self.ack_wait","now.duration_since(msg.delivered_at) * 2 > self.ack_wait && msg.delivery_count > 1 || now.duration_since(msg.delivered_at) > self.ack_wait")]),
('wait-limit',[(G,".filter(|(_, msg)| now.duration_since(msg.delivered_at) > self.ack_wait)",".filter(|(_, msg)| msg.delivery_count < self.max_deliveries && now.duration_since(msg.delivered_at) > self.ack_wait)")]),
('rel-other',[(G,".filter(|(_, msg)| msg.consumer_id == consumer_id)",".filter(|(_, msg)| msg.consumer_id == consumer_id || msg.delivery_count > 1)")]),
('rel-lim',[(G,".filter(|(_, msg)| msg.consumer_id == consumer_id)",".filter(|(_, msg)| msg.delivery_count < self.max_deliveries && msg.consumer_id == consumer_id)")]),
('redel-early',[(G,"        let now = Instant::now();\n        let expired","        if !self.redeliver.is_empty() { return false; }\n        let now = Instant::now();\n        let expired")]),
]
