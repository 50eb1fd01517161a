"""fourth batch of behaviour-preserving edits, consumer groups"""
import sys; sys.path.insert(0,'/verif/mut')
from fnedit import F, text
G='src/brokers/stream/domain/group.rs'
M=[
('fetch-split2',[F(G,'fetch','''
    pub fn fetch(&mut self, consumer_id: &str, generation: u64, limit: usize, log: &VecDeque<Message>, ram_start_seq: u64, head_seq: u64) -> Result<Vec<Message>, String> {
        self.ensure_active_consumer(consumer_id, generation)?;
        self.clamp_head(head_seq);

        if self.is_backpressured() {
            return Ok(Vec::new());
        }
        let budget = limit.min(self.max_ack_pending - self.pending.len());
        let mut out = Vec::with_capacity(budget);
        self.fill_redelivered(&mut out, budget, consumer_id, log, ram_start_seq, head_seq);
        self.fill_fresh(&mut out, budget, consumer_id, log, ram_start_seq, head_seq);
        Ok(out)
    }

    fn fill_redelivered(&mut self, out: &mut Vec<Message>, budget: usize, consumer_id: &str, log: &VecDeque<Message>, ram_start_seq: u64, head_seq: u64) {
        while out.len() < budget {
            let Some(seq) = self.redeliver.pop_front() else { return };
            if seq < head_seq {
                self.delivery_attempts.remove(&seq);
                self.parked.remove(&seq);
                continue;
            }
            let Some(msg) = Self::read_from_log(log, ram_start_seq, seq) else {
                self.redeliver.push_front(seq);
                return;
            };
            out.extend(self.issue_delivery(consumer_id, msg));
        }
    }

    fn fill_fresh(&mut self, out: &mut Vec<Message>, budget: usize, consumer_id: &str, log: &VecDeque<Message>, ram_start_seq: u64, head_seq: u64) {
        while out.len() < budget {
            if self.next_deliver_seq < head_seq {
                self.next_deliver_seq = head_seq;
                self.ack_floor = self.ack_floor.max(head_seq.saturating_sub(1));
            }
            let seq = self.next_deliver_seq;
            let Some(msg) = Self::read_from_log(log, ram_start_seq, seq) else { return };
            self.next_deliver_seq += 1;
            out.extend(self.issue_delivery(consumer_id, msg));
        }
    }
''')]),
('ack-owner',[F(G,'ack','''
    pub fn ack(&mut self, consumer_id: &str, generation: u64, seq: u64) -> Result<(), String> {
        self.ensure_active_consumer(consumer_id, generation)?;

        let owner = self.pending.get(&seq).map(|p| p.consumer_id.as_str());
        match owner {
            None => return Err(format!("seq {} not pending", seq)),
            Some(owner) if owner != consumer_id => return Err(String::from("NOT_OWNER")),
            Some(_) => self.forget(seq),
        }
        self.try_advance_floor();
        Ok(())
    }

    /// Drops every trace of a delivered message.
    fn forget(&mut self, seq: u64) {
        self.parked.remove(&seq);
        self.delivery_attempts.remove(&seq);
        self.pending.remove(&seq);
    }
''')]),
('redelivery-keys',[F(G,'check_redelivery','''
    pub fn check_redelivery(&mut self) -> bool {
        let now = Instant::now();
        let ack_wait = self.ack_wait;
        let overdue = |p: &PendingMsg| now.duration_since(p.delivered_at) > ack_wait;

        let mut expired = Vec::new();
        for (&seq, p) in self.pending.iter() {
            if overdue(p) {
                expired.push((seq, p.delivery_count));
            }
        }

        let any = !expired.is_empty();
        for (seq, attempts) in expired {
            self.pending.remove(&seq);
            self.release_seq(seq, attempts);
        }
        if any {
            self.try_advance_floor();
        }
        any
    }
''')]),
('clamp-count',[F(G,'clamp_head','''
    pub fn clamp_head(&mut self, head_seq: u64) -> bool {
        let head = head_seq.max(1);
        let tracked = |g: &Self| (g.ack_floor, g.next_deliver_seq, g.pending.len(), g.redeliver.len(), g.parked.len(), g.delivery_attempts.len());
        let before = tracked(self);

        self.ack_floor = self.ack_floor.max(head - 1);
        self.next_deliver_seq = self.next_deliver_seq.max(head);
        self.pending.retain(|seq, _| *seq >= head);
        self.redeliver.retain(|seq| *seq >= head);
        self.parked.retain(|seq| *seq >= head);
        self.delivery_attempts.retain(|seq, _| *seq >= head);

        let changed = before != tracked(self);
        if changed {
            self.is_fetching_cold = false;
            self.try_advance_floor();
            self.invalidate_inflight();
        }
        changed
    }
''')]),
('clamp-sep',[F(G,'clamp_head','''
    pub fn clamp_head(&mut self, head_seq: u64) -> bool {
        let head_seq = head_seq.max(1);
        let moved = self.raise_to(head_seq);
        let dropped = self.drop_below(head_seq);
        if !moved && !dropped {
            return false;
        }
        self.is_fetching_cold = false;
        self.try_advance_floor();
        self.invalidate_inflight();
        true
    }

    fn raise_to(&mut self, head_seq: u64) -> bool {
        let floor_behind = self.ack_floor < head_seq - 1;
        if floor_behind {
            self.ack_floor = head_seq - 1;
        }
        let next_behind = self.next_deliver_seq < head_seq;
        if next_behind {
            self.next_deliver_seq = head_seq;
        }
        floor_behind || next_behind
    }

    fn drop_below(&mut self, head_seq: u64) -> bool {
        let before = self.tracked();
        self.pending.retain(|&seq, _| seq >= head_seq);
        self.redeliver.retain(|&seq| seq >= head_seq);
        self.parked.retain(|&seq| seq >= head_seq);
        self.delivery_attempts.retain(|&seq, _| seq >= head_seq);
        self.tracked() != before
    }

    fn tracked(&self) -> usize {
        self.pending.len() + self.redeliver.len() + self.parked.len() + self.delivery_attempts.len()
    }
''')]),
('remove-member2',[F(G,'remove_member','''
    pub fn remove_member(&mut self, consumer_id: &str) -> Option<String> {
        let GroupMember { connection_client_id, .. } = self.members.remove(consumer_id)?;
        self.release_consumer(consumer_id);
        self.invalidate_inflight();
        Some(connection_client_id)
    }
'''),F(G,'add_member','''
    pub fn add_member(&mut self, connection_client_id: String) -> String {
        let id = Uuid::new_v4().to_string();
        let member = GroupMember { connection_client_id };
        self.members.insert(id.clone(), member);
        id
    }
''')]),
('floor-loop',[F(G,'try_advance_floor','''
    fn try_advance_floor(&mut self) {
        loop {
            let candidate = self.ack_floor + 1;
            if candidate >= self.next_deliver_seq || self.is_open(candidate) {
                break;
            }
            self.ack_floor = candidate;
        }
    }

    /// Delivered and not acknowledged, or waiting to be delivered again.
    fn is_open(&self, seq: u64) -> bool {
        self.pending.contains_key(&seq) || self.redeliver.contains(&seq)
    }
'''),F(G,'release_seq','''
    fn release_seq(&mut self, seq: u64, delivery_count: u32) {
        let exhausted = delivery_count >= self.max_deliveries;
        if exhausted {
            self.delivery_attempts.remove(&seq);
            self.parked.insert(seq);
            return;
        }
        if self.redeliver.contains(&seq) {
            return;
        }
        self.redeliver.push_back(seq);
    }
''')]),
('register-flags',[F(G,'register_cold_messages','''
    pub fn register_cold_messages(&mut self, consumer_id: &str, generation: u64, messages: Vec<Message>, head_seq: u64) -> Result<Vec<Message>, String> {
        self.ensure_active_consumer(consumer_id, generation)?;
        self.clamp_head(head_seq);

        let mut delivered = Vec::new();
        for msg in messages {
            if self.is_backpressured() {
                break;
            }
            let seq = msg.seq;
            if seq < head_seq {
                continue;
            }
            let queued = self.take_queued(seq);
            if self.next_deliver_seq < head_seq {
                self.next_deliver_seq = head_seq;
                self.ack_floor = self.ack_floor.max(head_seq.saturating_sub(1));
            }
            let fresh = seq == self.next_deliver_seq;
            if fresh {
                self.next_deliver_seq += 1;
            }
            if !queued && !fresh {
                continue;
            }
            if let Some(msg) = self.issue_delivery(consumer_id, msg) {
                delivered.push(msg);
            }
        }
        Ok(delivered)
    }

    /// Takes `seq` out of the redelivery queue; tells whether it was there.
    fn take_queued(&mut self, seq: u64) -> bool {
        let before = self.redeliver.len();
        self.redeliver.retain(|&s| s != seq);
        self.redeliver.len() < before
    }
''')]),
('release-drain',[F(G,'release_consumer','''
    fn release_consumer(&mut self, consumer_id: &str) {
        let mut released = Vec::new();
        self.pending.retain(|&seq, p| {
            let theirs = p.consumer_id == consumer_id;
            if theirs {
                released.push((seq, p.delivery_count));
            }
            !theirs
        });
        released.into_iter().for_each(|(seq, attempts)| self.release_seq(seq, attempts));
        self.try_advance_floor();
    }
'''),F(G,'issue_delivery','''
    fn issue_delivery(&mut self, consumer_id: &str, msg: Message) -> Option<Message> {
        let seq = msg.seq;
        let attempt = match self.delivery_attempts.get(&seq) {
            Some(n) => n.saturating_add(1),
            None => 1,
        };
        if attempt > self.max_deliveries {
            self.delivery_attempts.remove(&seq);
            self.parked.insert(seq);
            self.try_advance_floor();
            return None;
        }
        let entry = PendingMsg { consumer_id: consumer_id.to_owned(), delivered_at: Instant::now(), delivery_count: attempt };
        self.pending.insert(seq, entry);
        self.delivery_attempts.insert(seq, attempt);
        Some(msg)
    }
''')]),
('seek-one',[F(G,'seek_beginning','''
    pub fn seek_beginning(&mut self, head_seq: u64) {
        let first = head_seq.max(1);
        self.restart_at(first);
    }

    fn restart_at(&mut self, next: u64) {
        self.reset_runtime();
        self.ack_floor = next - 1;
        self.next_deliver_seq = next;
    }
'''),F(G,'reset_runtime','''
    fn reset_runtime(&mut self) {
        self.members = HashMap::new();
        self.pending = HashMap::new();
        self.redeliver = VecDeque::new();
        self.parked = HashSet::new();
        self.delivery_attempts = HashMap::new();
        self.generation = self.generation.saturating_add(1);
        self.invalidate_inflight();
    }
'''),F(G,'invalidate_inflight','''
    fn invalidate_inflight(&mut self) {
        let stale = std::mem::replace(&mut self.cancel, CancellationToken::new());
        stale.cancel();
        self.is_fetching_cold = false;
    }
''')]),
]
