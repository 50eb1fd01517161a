P='src/brokers/queue/domain/persistence.rs'; MG='src/brokers/queue/manager.rs'
INS="""msg.payload.as_ref(), // Bytes -> &[u8]
                msg.priority,
                msg.visible_at as i64,
                msg.attempts,
                msg.created_at as i64"""
M=[
# Q07
('suffix-trim',[(MG,'filename.strip_suffix(".db").map(|n| n.to_string())','Some(filename).filter(|f| f.ends_with(".db")).map(|n| n.trim_end_matches(".db").to_string())')]),
('swap-cols',[(P,'msg.visible_at as i64,\n                msg.attempts,\n                msg.created_at as i64','msg.created_at as i64,\n                msg.attempts,\n                msg.visible_at as i64')]),
('narrow',[(P,'let attempts: u32 = row.get(4)?;\n        let created_at = row.get::<_, i64>(5)? as u64;\n ','let attempts = row.get::<_, i64>(4)? as u8 as u32;\n        let created_at = row.get::<_, i64>(5)? as u64;\n ')]),
('ready-always',[(P,'if visible_at > now && attempts > 0','if visible_at > now && attempts > 1')]),
('inflight-now',[(P,'MessageState::InFlight(visible_at)','MessageState::InFlight(now)')]),
('where',[(P,'attempts, created_at FROM queue"','attempts, created_at FROM queue WHERE attempts = 0"')]),
('limit',[(P,'attempts, created_at FROM queue"','attempts, created_at FROM queue LIMIT 100000"')]),
('ignore',[(P,'"INSERT INTO dlq_messages','"INSERT OR IGNORE INTO dlq_messages')]),
('update-noattempts',[(P,'"UPDATE queue SET visible_at = ?1, attempts = ?2 WHERE id = ?3"','"UPDATE queue SET visible_at = ?1, attempts = MAX(attempts,?2) WHERE id = ?3"')]),
('update-swap',[(P,'params![*visible_at as i64, *attempts, id','params![*attempts, *visible_at as i64, id')]),
('movedlq-nodel',[(P,"""            let mut stmt = tx.prepare_cached("DELETE FROM queue WHERE id = ?1")?;
            stmt.execute(params![id.as_bytes()])?;
            
""","")]),
('movemain-att',[(P,'0u32, // reset attempts','msg.attempts.max(1),')]),
('purge-queue',[(P,'"DELETE FROM dlq_messages", []','"DELETE FROM dlq_messages WHERE attempts = 0", []')]),
('dlq-failedat',[(P,"""                msg.created_at as i64,
                msg.failed_at as i64,""","""                msg.failed_at as i64,
                msg.created_at as i64,""")]),
('skiprow',[(P,"""    for msg in message_iter {
        messages.push(msg?);""","""    for msg in message_iter {
        let Ok(msg) = msg else { continue };
        if msg.payload.is_empty() { continue; }
        let msg: Result<Message> = Ok(msg);
        messages.push(msg?);""")]),
('build-dlqskip',[(MG,"""                    dlq_state.push(msg);
                }""","""                    if msg.attempts > 0 { dlq_state.push(msg); }
                }""")]),
('build-inflight-skip',[(MG,"""                    main_state.push(msg);
                }""","""                    if msg.attempts < config.max_retries { main_state.push(msg); }
                }""")]),
('warm-cfgonly',[(MG,"""                                let shared = Self::build_queue(queue_name.clone(), config, &system_config);
                                queues.insert""","""                                if !config_path.exists() { continue; }
                                let shared = Self::build_queue(queue_name.clone(), config, &system_config);
                                queues.insert""")]),
('warm-lower',[(MG,"map(|n| n.to_string()) {","map(|n| n.to_lowercase()) {")]),
('pk',[(P,"CREATE TABLE IF NOT EXISTS queue (\n            id BLOB PRIMARY KEY","CREATE TABLE IF NOT EXISTS queue (\n            id BLOB NOT NULL")]),
# Q06
('commitclear',[(P,"        error!(\"Failed to commit batch: {}\", e);\n        return;","        error!(\"Failed to commit batch: {}\", e);")]),
('noexit',[(P,"                        if !batch.is_empty() {\n                            flush_batch(&mut conn, &mut batch);\n                        }\n                        info!","                        if batch.len() > 1 {\n                            flush_batch(&mut conn, &mut batch);\n                        }\n                        info!")]),
('beginclear',[(P,'error!("Failed to start transaction: {}", e);','batch.clear(); error!("Failed to start transaction: {}", e);')]),
('rev',[(P,'for op in batch.iter() {','for op in batch.iter().rev() {')]),
('nocommit',[(P,'    if let Err(e) = tx.commit() {','    if let Err(e) = tx.finish() {')]),
('firstonly',[(P,'''                        batch.push(op);

                        // Drain''','''                        if batch.len() < batch_size { batch.push(op); }

                        // Drain''')]),
('trunc',[(P,'if batch.len() >= batch_size {\n','if batch.len() >= batch_size { batch.truncate(batch_size);\n')]),
('tick-threshold',[(P,'''            _ = flush_timer.tick() => {
                if !batch.is_empty() {''','''            _ = flush_timer.tick() => {
                if batch.len() >= batch_size / 2 {''')]),
('shut-noawait',[(P,"            let _ = handle.await;","            handle.abort();")]),
('shut-order',[(P,"""        self.sender.lock().unwrap().take(); // drop sender → writer recv() returns None after draining
        let handle""","""        let handle""")]),
('trysend',[(P,"if let Some(sender) = self.sender.lock().unwrap().as_ref() {","if let Some(sender) = self.sender.try_lock().ok().as_ref().and_then(|g| g.as_ref()) {")]),
('take10',[(P,'for op in batch.iter() {','for op in batch.iter().take(1024) {')]),
('insert0',[(P,'Ok(op) => batch.push(op),','Ok(op) => batch.insert(0, op),')]),
('cfg-write',[(MG,'serde_json::to_string_pretty(&config)','serde_json::to_string_pretty(&QueueConfig::from_options(QueueCreateOptions::default(), &self.config))')]),
('cfg-unused',[(MG,'serde_json::from_str(&data).unwrap_or_else(|_| QueueConfig::from_options(QueueCreateOptions::default(), &system_config))','{ let _ = &data; QueueConfig::from_options(QueueCreateOptions::default(), &system_config) }')]),
('cfg-name',[(MG,'let config_path = persistence_path.join(format!("{}.config.json", queue_name));','let config_path = persistence_path.join(format!("{}.conf.json", queue_name));')]),
('del-early',[(MG,"""            shared.store.shutdown().await;
        }
""","""            let s = shared.clone(); tokio::spawn(async move { s.store.shutdown().await });
        }
""")]),
]
