M_='src/brokers/queue/manager.rs'; S='src/brokers/queue/domain/queue.rs'; D='src/brokers/queue/domain/dlq.rs'; P='src/brokers/queue/domain/persistence.rs'
EXP=open('/repo/'+S).read()
M=[
('push-match-ref',[(S,"""        let id = msg.id;
        let initial_state = msg.state.clone();
        let priority = msg.priority;

        self.registry.insert(id, msg);

        match initial_state {
            MessageState::Ready => {
                self.waiting_for_dispatch.entry(priority).or_default().insert(id);
            }
            MessageState::InFlight(ts) => {
                self.waiting_for_ack.entry(ts).or_default().insert(id);
            }
        }
""","""        let id = msg.id;
        match &msg.state {
            MessageState::Ready => {
                self.waiting_for_dispatch.entry(msg.priority).or_default().insert(id);
            }
            MessageState::InFlight(ts) => {
                self.waiting_for_ack.entry(*ts).or_default().insert(id);
            }
        }
        self.registry.insert(id, msg);
""")]),
('add-index-helper',[(S,"""        match initial_state {
            MessageState::Ready => {
                self.waiting_for_dispatch.entry(priority).or_default().insert(id);
            }
            MessageState::InFlight(ts) => {
                self.waiting_for_ack.entry(ts).or_default().insert(id);
            }
        }
    }
""","""        self.add_to_index(&initial_state, id, priority);
    }

    fn add_to_index(&mut self, state: &MessageState, id: Uuid, priority: u8) {
        match state {
            MessageState::Ready => {
                self.waiting_for_dispatch.entry(priority).or_default().insert(id);
            }
            MessageState::InFlight(ts) => {
                self.waiting_for_ack.entry(*ts).or_default().insert(id);
            }
        }
    }
"""),(S,"""            msg.state = new_state.clone();

            match new_state {
                MessageState::Ready => {
                    self.waiting_for_dispatch
                        .entry(msg.priority)
                        .or_default()
                        .insert(id);
                }
                MessageState::InFlight(ts) => {
                    self.waiting_for_ack.entry(ts).or_default().insert(id);
                }
            }
        }
""","""            msg.state = new_state.clone();
            self.add_to_index(&new_state, id, priority);
        }
""")]),
('take-batch-for',[(S,"""        while result.len() < max {
            match self.pop_single(visibility_timeout_ms) {
                (Some(msg), is_earliest) => {
                    if is_earliest {
                        any_earliest = true;
                    }
                    result.push(msg);
                }
                (None, _) => break,
            }
        }
""","""        for _ in 0..max {
            let (popped, is_earliest) = self.pop_single(visibility_timeout_ms);
            let Some(msg) = popped else { break };
            any_earliest |= is_earliest;
            result.push(msg);
        }
""")]),
('nack-early',[(S,"""        let (should_dlq, priority) = if let Some(msg) = self.registry.get_mut(&id) {
            msg.failure_reason = Some(reason.clone());
            (msg.attempts >= max_retries, msg.priority)
        } else {
            return (None, None);
        };
""","""        let Some(msg) = self.registry.get_mut(&id) else { return (None, None) };
        msg.failure_reason = Some(reason.clone());
        let should_dlq = !(msg.attempts < max_retries);
""")]),
('nack-invert',[(S,"""        if should_dlq {
            // Remove from here, return for DLQ
            if let Some(msg) = self.delete_message_and_return(id) {
                let dlq_msg = DlqMessage::from_message(msg, reason);
                return (None, Some(dlq_msg));
            }
            (None, None)
        } else {
            // Requeue (Ready)
            if self.transition_to(id, MessageState::Ready) {
                if let Some(msg) = self.registry.get_mut(&id) {
                    msg.visible_at = 0;
                    return (Some(msg.clone()), None);
                }
            }
            (None, None)
        }
""","""        if !should_dlq {
            if !self.transition_to(id, MessageState::Ready) { return (None, None); }
            let requeued = self.registry.get_mut(&id).map(|msg| {
                msg.visible_at = 0;
                msg.clone()
            });
            return (requeued, None);
        }
        let dead = self.delete_message_and_return(id).map(|msg| DlqMessage::from_message(msg, reason));
        (None, dead)
""")]),
('expired-takewhile',[(S,"""        for (&ts, ids) in &self.waiting_for_ack {
            if ts <= now {
                for &id in ids {
                    if let Some(msg) = self.registry.get(&id) {
                        if msg.attempts >= max_retries {
                            ids_to_dlq.push(id);
                        } else {
                            ids_to_ready.push(id);
                        }
                    }
                }
            } else {
                break;
            }
        }
""","""        for (_, ids) in self.waiting_for_ack.range(..=now) {
            for id in ids.iter() {
                let Some(msg) = self.registry.get(id) else { continue };
                if msg.attempts < max_retries { ids_to_ready.push(*id); } else { ids_to_dlq.push(*id); }
            }
        }
""")]),
('expired-break-first',[(S,"""            if ts <= now {
                for &id in ids {
                    if let Some(msg) = self.registry.get(&id) {
                        if msg.attempts >= max_retries {
                            ids_to_dlq.push(id);
                        } else {
                            ids_to_ready.push(id);
                        }
                    }
                }
            } else {
                break;
            }
""","""            if ts > now { break; }
            for &id in ids {
                match self.registry.get(&id) {
                    Some(msg) if msg.attempts >= max_retries => ids_to_dlq.push(id),
                    Some(_) => ids_to_ready.push(id),
                    None => {}
                }
            }
""")]),
('expired-dlq-helper',[(S,"""            if let Some(msg) = self.registry.remove(&id) { // Remove returns value
                // Clean up indexes
                match msg.state {
                    MessageState::InFlight(ts) => {
                        if let Some(queue) = self.waiting_for_ack.get_mut(&ts) {
                            queue.remove(&id);
                            if queue.is_empty() { self.waiting_for_ack.remove(&ts); }
                        }
                    },
                    // Should be InFlight mostly, but handle others if logic changes
                    _ => {}
                }
                dlq_msgs.push""","""            if let Some(msg) = self.delete_message_and_return(id) {
                dlq_msgs.push""")]),
('pop-last',[(S,"""        let next_id = self.waiting_for_dispatch
            .iter()
            .rev()
            .find_map(|(_, queue)| queue.front().cloned());

        let next_id = match next_id {
            Some(id) => id,
            None => return (None, false),
        };
""","""        let mut next_id = None;
        for (_, queue) in self.waiting_for_dispatch.iter().rev() {
            if let Some(id) = queue.front() { next_id = Some(*id); break; }
        }
        let Some(next_id) = next_id else { return (None, false) };
""")]),
('pop-questionless',[(S,"""        if let Some(msg) = self.registry.get_mut(&next_id) {
            msg.visible_at = timeout;
            msg.attempts += 1;

            // Check if this is the earliest timeout
            let is_earliest = self.waiting_for_ack
                .keys()
                .next()
                .map(|&t| t == timeout)
                .unwrap_or(false);

            return (Some(msg.clone()), is_earliest);
        }

        (None, false)
""","""        let is_earliest = self.next_inflight_timeout() == Some(timeout);
        match self.registry.get_mut(&next_id) {
            None => (None, false),
            Some(msg) => {
                msg.attempts += 1;
                msg.visible_at = timeout;
                (Some(msg.clone()), is_earliest)
            }
        }
""")]),
('rmindex-flat',[(S,"""                if let Some(queue) = self.waiting_for_dispatch.get_mut(&priority) {
                    queue.remove(&id);
                    if queue.is_empty() { self.waiting_for_dispatch.remove(&priority); }
                }
            }
            MessageState::InFlight(ts) => {
                if let Some(queue) = self.waiting_for_ack.get_mut(ts) {
                    queue.remove(&id);
                    if queue.is_empty() { self.waiting_for_ack.remove(ts); }
                }
            }
        }
    }
""","""                let Some(queue) = self.waiting_for_dispatch.get_mut(&priority) else { return };
                queue.remove(&id);
                if queue.len() == 0 { self.waiting_for_dispatch.remove(&priority); }
            }
            MessageState::InFlight(ts) => {
                let mut drop_bucket = false;
                if let Some(queue) = self.waiting_for_ack.get_mut(ts) {
                    queue.remove(&id);
                    drop_bucket = queue.is_empty();
                }
                if drop_bucket { self.waiting_for_ack.remove(ts); }
            }
        }
    }
""")]),
('rmindex-generic',[(S,"""                if let Some(queue) = self.waiting_for_dispatch.get_mut(&priority) {
                    queue.remove(&id);
                    if queue.is_empty() { self.waiting_for_dispatch.remove(&priority); }
                }
            }
            MessageState::InFlight(ts) => {
                if let Some(queue) = self.waiting_for_ack.get_mut(ts) {
                    queue.remove(&id);
                    if queue.is_empty() { self.waiting_for_ack.remove(ts); }
                }
            }
        }
    }
""","""                unlink(&mut self.waiting_for_dispatch, &priority, &id);
            }
            MessageState::InFlight(ts) => {
                unlink(&mut self.waiting_for_ack, ts, &id);
            }
        }
    }
"""),(S,"pub fn current_time_ms() -> u64 {","""fn unlink<K: Ord>(index: &mut BTreeMap<K, LinkedHashSet<Uuid>>, key: &K, id: &Uuid) {
    if let Some(queue) = index.get_mut(key) {
        queue.remove(id);
        if queue.is_empty() { index.remove(key); }
    }
}

pub fn current_time_ms() -> u64 {""")]),
('trans-takeclone',[(S,"""        let (old_state, priority) = match self.registry.get(&id) {
            Some(m) => (m.state.clone(), m.priority),
            None => return false,
        };
""","""        let Some(m) = self.registry.get(&id) else { return false };
        let old_state = m.state.clone();
        let priority = m.priority;
""")]),
('trans-replace',[(S,"""            msg.state = new_state.clone();

            match new_state {
                MessageState::Ready => {
                    self.waiting_for_dispatch
                        .entry(msg.priority)
                        .or_default()
                        .insert(id);
                }
                MessageState::InFlight(ts) => {
                    self.waiting_for_ack.entry(ts).or_default().insert(id);
                }
            }
        }
""","""            match &new_state {
                MessageState::Ready => {
                    self.waiting_for_dispatch.entry(priority).or_insert_with(LinkedHashSet::new).insert(id);
                }
                MessageState::InFlight(ts) => {
                    self.waiting_for_ack.entry(*ts).or_insert_with(LinkedHashSet::new).insert(id);
                }
            }
            msg.state = new_state;
        }
""")]),
('del-match',[(S,"""        let msg = self.registry.remove(&id)?;

        // Remove from index
        self.remove_from_index(&msg.state, id, msg.priority);

        Some(msg)
""","""        match self.registry.remove(&id) {
            Some(msg) => {
                self.remove_from_index(&msg.state, id, msg.priority);
                Some(msg)
            }
            None => None,
        }
""")]),
('requeue-get',[(S,"""        let is_inflight = self.registry.get(&id)
            .map(|m| matches!(m.state, MessageState::InFlight(_)))
            .unwrap_or(false);

        if !is_inflight { return false; }
""","""        match self.registry.get(&id) {
            Some(Message { state: MessageState::InFlight(_), .. }) => {}
            _ => return false,
        }
""")]),
('mgr-expire-fn',[(M_,"""                    let requeued = {
                        let mut inner = Self::lock(&shared.inner);
                        
                        // Check if processing is needed
                        let should_process = inner.state.next_inflight_timeout().map(|ts| ts <= now).unwrap_or(false);
                        if !should_process {
                            continue;
                        }

                        let max_retries = inner.config.max_retries;
                        let (requeued, dlq_msgs) = inner.state.process_expired(max_retries);

                        for ref dlq_msg in &dlq_msgs {
                            inner.dlq.push((*dlq_msg).clone());
                        }

                        // Log while still holding the lock: storage order must match state order
                        for msg in &requeued {
                            shared.store.execute(StorageOp::UpdateState {
                                id: msg.id,
                                visible_at: 0,
                                attempts: msg.attempts,
                            });
                        }

                        for dlq_msg in dlq_msgs {
                            shared.store.execute(StorageOp::MoveToDLQ {
                                id: dlq_msg.id,
                                msg: dlq_msg,
                            });
                        }

                        requeued
                    };

                    if !requeued.is_empty() {
                        shared.notify.notify_waiters();
                    }
""","""                    if Self::expire(&shared, now) {
                        shared.notify.notify_waiters();
                    }
"""),(M_,"    #[inline]\n    fn lock<T>","""    fn expire(shared: &QueueShared, now: u64) -> bool {
        let mut inner = Self::lock(&shared.inner);
        match inner.state.next_inflight_timeout() {
            Some(ts) if ts <= now => {}
            _ => return false,
        }
        let max_retries = inner.config.max_retries;
        let (requeued, dead) = inner.state.process_expired(max_retries);
        for msg in &requeued {
            shared.store.execute(StorageOp::UpdateState { id: msg.id, visible_at: msg.visible_at, attempts: msg.attempts });
        }
        for msg in dead {
            inner.dlq.push(msg.clone());
            shared.store.execute(StorageOp::MoveToDLQ { id: msg.id, msg });
        }
        !requeued.is_empty()
    }

    #[inline]
    fn lock<T>""")]),
('mgr-push-order',[(M_,"""            inner.state.push(msg.clone());
            shared.store.execute(StorageOp::Insert(msg));
""","""            shared.store.execute(StorageOp::Insert(msg.clone()));
            inner.state.push(msg);
""")]),
('mgr-push-notify-in',[(M_,"""            shared.store.execute(StorageOp::Insert(msg));
        }

        shared.notify.notify_waiters();
""","""            shared.store.execute(StorageOp::Insert(msg));
            shared.notify.notify_waiters();
        }
""")]),
('mgr-pop-helper',[(M_,"""        if let Some(msg) = &msg_opt {
            shared.store.execute(StorageOp::UpdateState {
                id: msg.id,
                visible_at: msg.visible_at,
                attempts: msg.attempts,
            });
        }

        msg_opt
""","""        self.persist_batch_state(&shared, msg_opt.as_slice());
        msg_opt
""")]),
('mgr-pop-letelse',[(M_,"""        if let Some(msg) = &msg_opt {
            shared.store.execute(StorageOp::UpdateState {
                id: msg.id,
                visible_at: msg.visible_at,
                attempts: msg.attempts,
            });
        }

        msg_opt
""","""        let msg = msg_opt?;
        shared.store.execute(StorageOp::UpdateState { id: msg.id, visible_at: msg.visible_at, attempts: msg.attempts });
        Some(msg)
""")]),
('mgr-ack-short',[(M_,"""        let shared = match self.get_queue(queue_name) {
            Some(s) => s,
            None => return false,
        };

        let mut inner = Self::lock(&shared.inner);
        let result = inner.state.ack(id);

        if result {
            shared.store.execute(StorageOp::Delete(id));
        }

        result
""","""        let Some(shared) = self.get_queue(queue_name) else { return false };
        let mut inner = Self::lock(&shared.inner);
        if !inner.state.ack(id) { return false; }
        shared.store.execute(StorageOp::Delete(id));
        true
""")]),
('mgr-nack-match',[(M_,"""        if let Some(ref dlq_message) = dlq_msg {
            inner.dlq.push(dlq_message.clone());
        }

        if let Some(msg) = requeued {
            shared.store.execute(StorageOp::UpdateState {
                id: msg.id,
                visible_at: msg.visible_at,
                attempts: msg.attempts,
            });
            shared.notify.notify_waiters();
            return true;
        }

        if let Some(dlq_message) = dlq_msg {
            shared.store.execute(StorageOp::MoveToDLQ {
                id: dlq_message.id,
                msg: dlq_message,
            });
            return true;
        }

        false
""","""        match (requeued, dlq_msg) {
            (Some(msg), _) => {
                self.persist_batch_state(&shared, std::slice::from_ref(&msg));
                drop(inner);
                shared.notify.notify_waiters();
                true
            }
            (None, Some(dead)) => {
                inner.dlq.push(dead.clone());
                shared.store.execute(StorageOp::MoveToDLQ { id: dead.id, msg: dead });
                true
            }
            (None, None) => false,
        }
""")]),
('mgr-consume-fetch',[(M_,"""        let msgs = {
            let mut inner = Self::lock(&shared.inner);
            let vt = inner.config.visibility_timeout_ms;
            let (msgs, _) = inner.state.take_batch(max_val, vt);
            self.persist_batch_state(&shared, &msgs);
            msgs
        };
        if !msgs.is_empty() {
            return Ok(msgs);
        }

        // No messages""","""        let msgs = self.take_now(&shared, max_val);
        if !msgs.is_empty() {
            return Ok(msgs);
        }

        // No messages"""),(M_,"""            let msgs = {
                let mut inner = Self::lock(&shared.inner);
                let vt = inner.config.visibility_timeout_ms;
                let (msgs, _) = inner.state.take_batch(max_val, vt);
                self.persist_batch_state(&shared, &msgs);
                msgs
            };
""","""            let msgs = self.take_now(&shared, max_val);
"""),(M_,"    fn persist_batch_state(","""    fn take_now(&self, shared: &Arc<QueueShared>, max: usize) -> Vec<Message> {
        let mut inner = Self::lock(&shared.inner);
        let vt = inner.config.visibility_timeout_ms;
        let (msgs, _) = inner.state.take_batch(max, vt);
        self.persist_batch_state(shared, &msgs);
        msgs
    }

    fn persist_batch_state(""")]),
('mgr-consume-timeout',[(M_,"""            tokio::select! {
                _ = notified => {}
                _ = sleep_until(deadline) => return Ok(vec![]),
            }
""","""            if tokio::time::timeout_at(deadline, notified).await.is_err() {
                return Ok(vec![]);
            }
""")]),
('mgr-movemain',[(M_,"""        if let Some(dlq_msg) = inner.dlq.remove(&message_id) {
            let msg = dlq_msg.to_message();
            inner.state.push(msg.clone());
            shared.store.execute(StorageOp::MoveToMain {
                id: message_id,
                msg,
            });
            shared.notify.notify_waiters();
            Ok(true)
        } else {
            Ok(false)
        }
""","""        let Some(dead) = inner.dlq.remove(&message_id) else { return Ok(false) };
        let msg = Message::from_dlq(dead);
        shared.store.execute(StorageOp::MoveToMain { id: msg.id, msg: msg.clone() });
        inner.state.push(msg);
        drop(inner);
        shared.notify.notify_waiters();
        Ok(true)
""")]),
('mgr-deldlq',[(M_,"""        let removed = inner.dlq.remove(&message_id).is_some();

        if removed {
            shared.store.execute(StorageOp::DeleteDLQ(message_id));
        }

        Ok(removed)
""","""        match inner.dlq.remove(&message_id) {
            Some(dead) => {
                shared.store.execute(StorageOp::DeleteDLQ(dead.id));
                Ok(true)
            }
            None => Ok(false),
        }
""")]),
('mgr-purge',[(M_,"""        let count = inner.dlq.len();
        inner.dlq.clear();

        shared.store.execute(StorageOp::PurgeDLQ);
        Ok(count)
""","""        let count = inner.dlq.len();
        if count == 0 { return Ok(0); }
        shared.store.execute(StorageOp::PurgeDLQ);
        inner.dlq.clear();
        Ok(count)
""")]),
('mgr-fromdlq',[(M_,"let msg = dlq_msg.to_message();","let msg = Message::from_dlq(dlq_msg);")]),
('dlq-peek',[(D,"""        let items = self.messages.values()
            .rev()
            .skip(offset)
            .take(limit)
            .cloned()
            .collect();
            
        (total, items)
""","""        let mut items = Vec::new();
        for msg in self.messages.values().rev().skip(offset) {
            if items.len() >= limit { break; }
            items.push(msg.clone());
        }
        (total, items)
""")]),
('mgr-get-queue',[(M_,"self.queues.get(name).map(|r| r.value().clone())","let entry = self.queues.get(name)?;\n        Some(Arc::clone(entry.value()))")]),
('mgr-persist-each',[(M_,"""        for msg in msgs {
            shared.store.execute(StorageOp::UpdateState {
                id: msg.id,
                visible_at: msg.visible_at,
                attempts: msg.attempts,
            });
        }
    }
""","""        msgs.iter()
            .map(|msg| StorageOp::UpdateState { id: msg.id, visible_at: msg.visible_at, attempts: msg.attempts })
            .for_each(|op| shared.store.execute(op));
    }
""")]),
('mgr-recover-extend',[(M_,"""                for msg in main_messages {
                    main_state.push(msg);
                }
                for msg in dlq_messages {
                    dlq_state.push(msg);
                }
""","""                main_messages.into_iter().for_each(|msg| main_state.push(msg));
                dlq_messages.into_iter().for_each(|msg| dlq_state.push(msg));
""")]),
('mgr-logs',[(M_,"        let result = inner.state.ack(id);\n","        let result = inner.state.ack(id);\n        tracing::debug!(%id, result, \"ack\");\n"),(M_,"            inner.state.push(msg.clone());\n            shared","            tracing::trace!(len = inner.state.len(), \"push\");\n            inner.state.push(msg.clone());\n            shared")]),
]
