Q='src/brokers/queue/domain/queue.rs'; D='src/brokers/queue/domain/dlq.rs'; M='src/brokers/queue/manager.rs'
M_=M
M=[
('ack-noindex',[(Q,"        self.remove_from_index(&msg.state, id, msg.priority);\n\n        Some(msg)","        Some(msg)")]),
('pop-noattempt',[(Q,"            msg.attempts += 1;","            msg.attempts += 0;")]),
('pop-novisible',[(Q,"            msg.visible_at = timeout;","")]),
('nack-gt',[(Q,"(msg.attempts >= max_retries, msg.priority)","(msg.attempts > max_retries, msg.priority)")]),
('exp-gt',[(Q,"if msg.attempts >= max_retries {\n                            ids_to_dlq","if msg.attempts > max_retries {\n                            ids_to_dlq")]),
('exp-early',[(Q,"if ts <= now {","if ts <= now + 1000 {")]),
('exp-noidx',[(Q,"queue.remove(&id);\n                            if queue.is_empty() { self.waiting_for_ack.remove(&ts); }","if queue.is_empty() { self.waiting_for_ack.remove(&ts); }")]),
('exp-bucket',[(Q,"queue.remove(&id);\n                            if queue.is_empty() { self.waiting_for_ack.remove(&ts); }","queue.remove(&id);\n                            self.waiting_for_ack.remove(&ts);")]),
('rfi-wrongprio',[(Q,".entry(msg.priority)",".entry(0)")]),
('nack-visible',[(Q,"                    msg.visible_at = 0;\n                    return (Some","                    return (Some")]),
('tomsg-attempts',[(D,"attempts: 0, // Reset","attempts: self.attempts, // Reset")]),
('tomsg-created',[(D,"            created_at: self.created_at,\n            visible_at","            created_at: current_time_ms(),\n            visible_at")]),
('dlq-prio',[(D,"priority: msg.priority,","priority: 0,")]),
('pop-noop',[(M_,"        if let Some(msg) = &msg_opt {","        if let (Some(msg), false) = (&msg_opt, vt == 0) {")]),
('ack-noop',[(M_,"            shared.store.execute(StorageOp::Delete(id));","            if inner.config.max_retries > 0 { shared.store.execute(StorageOp::Delete(id)); }")]),
('nack-outside',[(M_,"        if let Some(msg) = requeued {\n","        drop(inner);\n        if let Some(msg) = requeued {\n")]),
('batch-second-noop',[(M_,"                let (msgs, _) = inner.state.take_batch(max_val, vt);\n                self.persist_batch_state(&shared, &msgs);\n","                let (msgs, _) = inner.state.take_batch(max_val, vt);\n")]),
('timeout-nodlq',[(M_,"inner.dlq.push((*dlq_msg).clone());","let _ = dlq_msg;")]),
('move-delete-op',[(M_,"            shared.store.execute(StorageOp::MoveToMain {\n                id: message_id,\n                msg,\n            });","            shared.store.execute(StorageOp::DeleteDLQ(message_id)); ")]),
('purge-cond',[(M_,"        shared.store.execute(StorageOp::PurgeDLQ);","        if count > 1 { shared.store.execute(StorageOp::PurgeDLQ); }")]),
('purge-cond-ok',[(M_,"        shared.store.execute(StorageOp::PurgeDLQ);","        if count > 0 { shared.store.execute(StorageOp::PurgeDLQ); }")]),
('deldlq-false',[(M_,"        Ok(removed)","        Ok(true)")]),
('nack-wrong-att',[(M_,"                visible_at: msg.visible_at,\n                attempts: msg.attempts,\n            });\n            shared.notify","                visible_at: msg.visible_at,\n                attempts: 0,\n            });\n            shared.notify")]),
('lease-half',[(Q,"let timeout = now + visibility_timeout_ms;","let timeout = now + visibility_timeout_ms / 2;")]),
('push-prio',[(M_,"Message::new(payload, priority)","Message::new(payload, priority.min(9))")]),
('batch-drop',[(M_,"            if Instant::now() >= deadline {","            if Instant::now() >= deadline + Duration::from_millis(1) {")]),
('requeued-if',[(M_,"                        for msg in &requeued {","                        for msg in requeued.iter().skip(1) {")]),
('expired-skip-noncurrent',[(Q,"                if let Some(msg) = self.registry.get_mut(&id) {\n                    msg.visible_at = 0; // Ready","                if let Some(msg) = self.registry.get_mut(&id).filter(|m| m.attempts > 0) {\n                    msg.visible_at = 0; // Ready")]),
]
