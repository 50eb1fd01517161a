"""wrong versions of the second batch of refactorings, queue"""
import sys; sys.path.insert(0,'/verif/mut')
import ok_fresh_q as O
B=dict((m[0],m[1]) for m in O.M)
Q=O.Q; M_=O.M_; P=O.P
def v(base,name,*ed): return (base+':'+name, B[base]+list(ed))
M=[
v('mgr-warm','trim',(M_,'filename.strip_suffix(".db")','filename.split(".db").next()')),
v('mgr-warm','cfg',(M_,'format!("{}.config.json", queue_name)','format!("{}.json", queue_name)')),
v('mgr-warm','stop',(M_,'if !path.is_file() { continue; }','if !path.is_file() { break; }')),
v('mgr-warm','key',(M_,'            queues.insert(queue_name, shared);','            queues.insert(queue_name.to_lowercase(), shared);')),
v('index-entry','always',(Q,'if e.get().is_empty() { e.remove(); }\n                }\n            }\n            MessageState::InFlight','e.remove();\n                }\n            }\n            MessageState::InFlight')),
v('index-entry','wrongmap',(Q,'self.waiting_for_ack.entry(*ts)','self.waiting_for_ack.entry(*ts + 1)')),
v('index-entry','never',(Q,'                    e.get_mut().remove(&id);\n                    if e.get().is_empty() { e.remove(); }\n                }\n            }\n            MessageState::InFlight','                    if e.get().is_empty() { e.remove(); }\n                }\n            }\n            MessageState::InFlight')),
v('load-rows','cols',(P,'row.get::<_, i64>(3)? as u64;\n    let attempts','row.get::<_, i64>(5)? as u64;\n    let attempts')),
v('load-rows','limit',(P,'visible_at, attempts, created_at FROM queue")','visible_at, attempts, created_at FROM queue LIMIT 1000")')),
v('load-rows','swallow',(P,'while let Some(row) = rows.next()? {','while let Ok(Some(row)) = rows.next() {')),
v('load-rows','prio',(P,'        priority: row.get(2)?,\n        attempts,\n','        priority: row.get(4)?,\n        attempts,\n')),
v('load-rows','state',(P,'_ if visible_at > current_time_ms()','_ if visible_at < current_time_ms()')),
v('load-rows','dlqreason',(P,'row.get::<_, Option<String>>(6)?.unwrap_or_default()','row.get::<_, Option<String>>(6)?.map(|_| String::new()).unwrap_or_default()')),
v('expired-range','lt',(Q,'            if attempts < max_retries {','            if attempts <= max_retries {')),
v('expired-range','all',(Q,'.range(..=now)','.range(..)')),
v('expired-range','stop',(Q,'                None => continue,\n            };\n            if attempts','                None => break,\n            };\n            if attempts')),
v('expired-range','vis',(Q,'                        msg.visible_at = 0;\n                        requeued.push(msg.clone());','                        requeued.push(msg.clone());')),
v('expired-partition','flip',(Q,'map_or(false, |m| m.attempts >= max_retries)','map_or(false, |m| m.attempts > max_retries)')),
v('expired-partition','swapped',(Q,'let (to_dlq, to_ready)','let (to_ready, to_dlq)')),
v('expired-partition','lost',(Q,'        for id in to_dlq {\n            if let Some(msg)','        for id in to_dlq.into_iter().skip(1) {\n            if let Some(msg)')),
v('expired-partition','early',(Q,'.take_while(|(ts, _)| **ts <= now)','.take_while(|(ts, _)| **ts < now + 60_000)')),
v('recover-q','nodlq',(P,'.map(|main| (main, dead))','.map(|main| { let _ = dead; (main, Vec::new()) })')),
v('recover-q','shut',(P,'        let sender = self.sender.lock().unwrap().take();\n        drop(sender);\n','        let sender = self.sender.lock().unwrap().clone();\n        drop(sender);\n')),
v('recover-q','nowait',(P,'Some(handle) => { let _ = handle.await; }','Some(handle) => { handle.abort(); }')),
]
