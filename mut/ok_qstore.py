P='src/brokers/queue/domain/persistence.rs'; MG='src/brokers/queue/manager.rs'
M=[
('while-let',[(P,"""                        while batch.len() < batch_size {
                            match rx.try_recv() {
                                Ok(op) => batch.push(op),
                                Err(_) => break,
                            }
                        }
""","""                        while batch.len() < batch_size {
                            let Ok(next) = rx.try_recv() else { break };
                            batch.push(next);
                        }
""")]),
('flush-helper',[(P,"""                None => {
                        // Sender dropped — flush remaining and exit
                        if !batch.is_empty() {
                            flush_batch(&mut conn, &mut batch);
                        }""","""                None => {
                        flush_pending(&mut conn, &mut batch);"""),(P,"""            _ = flush_timer.tick() => {
                if !batch.is_empty() {
                    flush_batch(&mut conn, &mut batch);
                }""","""            _ = flush_timer.tick() => {
                flush_pending(&mut conn, &mut batch);"""),(P,"fn flush_batch(","fn flush_pending(conn: &mut Connection, batch: &mut Vec<StorageOp>) {\n    if batch.is_empty() { return; }\n    flush_batch(conn, batch);\n}\n\nfn flush_batch(")]),
('drain-helper',[(P,"""                        while batch.len() < batch_size {
                            match rx.try_recv() {
                                Ok(op) => batch.push(op),
                                Err(_) => break,
                            }
                        }
""","""                        drain_ready(&mut rx, &mut batch, batch_size);
"""),(P,"fn flush_batch(","fn drain_ready(rx: &mut mpsc::UnboundedReceiver<StorageOp>, batch: &mut Vec<StorageOp>, max: usize) {\n    while batch.len() < max {\n        match rx.try_recv() {\n            Ok(op) => batch.push(op),\n            Err(_) => break,\n        }\n    }\n}\n\nfn flush_batch(")]),
('commit-match',[(P,"""    if let Err(e) = tx.commit() {
        // Keep the batch: it is retried with the next flush
        error!("Failed to commit batch: {}", e);
        return;
    }
    
    batch.clear();
""","""    match tx.commit() {
        Ok(()) => batch.clear(),
        Err(e) => error!("Failed to commit batch: {}", e),
    }
""")]),
('for-idx',[(P,"    for op in batch.iter() {\n        if let Err(e) = exec_op(&tx, op) {\n            error!(\"Failed to exec op {:?}: {}\", op, e);\n        }\n    }","    for i in 0..batch.len() {\n        if let Err(e) = exec_op(&tx, &batch[i]) {\n            error!(\"Failed to exec op: {}\", e);\n        }\n    }")]),
('for-each',[(P,"    for op in batch.iter() {\n        if let Err(e) = exec_op(&tx, op) {\n            error!(\"Failed to exec op {:?}: {}\", op, e);\n        }\n    }","    batch.iter().for_each(|op| {\n        if let Err(e) = exec_op(&tx, op) {\n            error!(\"Failed to exec op {:?}: {}\", op, e);\n        }\n    });")]),
('split-exec',[(P,"""        StorageOp::Insert(msg) => {
            let mut stmt = tx.prepare_cached(
                "INSERT INTO queue (id, payload, priority, visible_at, attempts, created_at)
                 VALUES (?1, ?2, ?3, ?4, ?5, ?6)"
            )?;
            stmt.execute(params![
                msg.id.as_bytes(),
                msg.payload.as_ref(), // Bytes -> &[u8]
                msg.priority,
                msg.visible_at as i64,
                msg.attempts,
                msg.created_at as i64
            ])?;
        }""","""        StorageOp::Insert(msg) => insert_main(tx, msg)?,"""),(P,"fn exec_op(","""fn insert_main(tx: &rusqlite::Transaction, msg: &Message) -> Result<()> {
    let mut stmt = tx.prepare_cached(
        "INSERT INTO queue (id, payload, priority, visible_at, attempts, created_at)
         VALUES (?1, ?2, ?3, ?4, ?5, ?6)",
    )?;
    stmt.execute(params![
        msg.id.as_bytes(),
        msg.payload.as_ref(),
        msg.priority,
        msg.visible_at as i64,
        msg.attempts,
        msg.created_at as i64
    ])?;
    Ok(())
}

fn exec_op(""")]),
('dlq-helper',[(P,"""            let mut stmt = tx.prepare_cached(
                "INSERT INTO dlq_messages (id, payload, priority, attempts, created_at, failed_at, error)
                 VALUES (?1, ?2, ?3, ?4, ?5, ?6, ?7)"
            )?;
            stmt.execute(params![
                msg.id.as_bytes(),
                msg.payload.as_ref(),
                msg.priority,
                msg.attempts,
                msg.created_at as i64,
                msg.failed_at as i64,
                msg.failure_reason
            ])?;
        }
        StorageOp::DeleteDLQ""","""            insert_dlq(tx, msg)?;
        }
        StorageOp::DeleteDLQ"""),(P,"""            let mut stmt = tx.prepare_cached(
                "INSERT INTO dlq_messages (id, payload, priority, attempts, created_at, failed_at, error)
                 VALUES (?1, ?2, ?3, ?4, ?5, ?6, ?7)"
            )?;
            stmt.execute(params![
                msg.id.as_bytes(),
                msg.payload.as_ref(),
                msg.priority,
                msg.attempts,
                msg.created_at as i64,
                msg.failed_at as i64,
                msg.failure_reason
            ])?;
        }
        StorageOp::MoveToMain""","""            insert_dlq(tx, msg)?;
        }
        StorageOp::MoveToMain"""),(P,"fn exec_op(","""const INSERT_DLQ: &str = "INSERT INTO dlq_messages (id, payload, priority, attempts, created_at, failed_at, error) VALUES (?1, ?2, ?3, ?4, ?5, ?6, ?7)";

fn insert_dlq(tx: &rusqlite::Transaction, m: &DlqMessage) -> Result<()> {
    let mut stmt = tx.prepare_cached(INSERT_DLQ)?;
    stmt.execute(params![m.id.as_bytes(), m.payload.as_ref(), m.priority, m.attempts, m.created_at as i64, m.failed_at as i64, m.failure_reason])?;
    Ok(())
}

fn exec_op(""")]),
('direct-exec',[(P,"""            let mut stmt = tx.prepare_cached("DELETE FROM queue WHERE id = ?1")?;
            stmt.execute(params![id.as_bytes()])?;
        }
        StorageOp::UpdateState""","""            tx.execute("DELETE FROM queue WHERE id = ?1", params![id.as_bytes()])?;
        }
        StorageOp::UpdateState""")]),
('state-fn',[(P,"""         let state = if visible_at > now && attempts > 0 {
             MessageState::InFlight(visible_at)
         } else {
             MessageState::Ready
         };""","""         let state = restored_state(visible_at, attempts, now);"""),(P,"fn load_dlq_messages","""fn restored_state(visible_at: u64, attempts: u32, now: u64) -> MessageState {
    match attempts {
        0 => MessageState::Ready,
        _ if now >= visible_at => MessageState::Ready,
        _ => MessageState::InFlight(visible_at),
    }
}

fn load_dlq_messages""")]),
('collect',[(P,"""    let mut messages = Vec::new();
    for msg in message_iter {
        messages.push(msg?);
    }
    Ok(messages)
}

fn load_dlq""","""    message_iter.collect()
}

fn load_dlq""")]),
('row-names',[(P,'let payload: Vec<u8> = row.get(1)?;\n        let priority: u8 = row.get(2)?;','let priority: u8 = row.get("priority")?;\n        let payload: Vec<u8> = row.get("payload")?;')]),
('row-fn',[(P,"""    let message_iter = stmt.query_map([], |row| {
        let id_blob: Vec<u8> = row.get(0)?;
        let id = uuid_from_blob(id_blob)?;
        let payload: Vec<u8> = row.get(1)?;
        let priority: u8 = row.get(2)?;
        let attempts""","""    let message_iter = stmt.query_map([], |row| {
        let id = uuid_from_blob(row.get(0)?)?;
        let payload: Vec<u8> = row.get(1)?;
        let priority: u8 = row.get(2)?;
        let attempts""")]),
('restore-fn',[(MG,"""                for msg in main_messages {
                    main_state.push(msg);
                }
                for msg in dlq_messages {
                    dlq_state.push(msg);
                }
""","""                main_messages.into_iter().for_each(|m| main_state.push(m));
                dlq_messages.into_iter().for_each(|m| dlq_state.push(m));
""")]),
('warm-guards',[(MG,"""                    if path.is_file() {
                        if let Some(filename) = path.file_name().and_then(|n| n.to_str()) {
                            // Only""","""                    if !path.is_file() { continue; }
                    {
                        let Some(filename) = path.file_name().and_then(|n| n.to_str()) else { continue };
                        {
                            // Only""")]),
('cfg-helper',[(MG,"""                                let config = if let Ok(data) = std::fs::read_to_string(&config_path) {
                                    serde_json::from_str(&data).unwrap_or_else(|_| QueueConfig::from_options(QueueCreateOptions::default(), &system_config))
                                } else {
                                    QueueConfig::from_options(QueueCreateOptions::default(), &system_config)
                                };
""","""                                let config = Self::load_config(&config_path, &system_config);
"""),(MG,"    fn spawn_timeout_task(","""    fn load_config(path: &std::path::Path, system_config: &SystemQueueConfig) -> QueueConfig {
        std::fs::read_to_string(path)
            .ok()
            .and_then(|d| serde_json::from_str(&d).ok())
            .unwrap_or_else(|| QueueConfig::from_options(QueueCreateOptions::default(), system_config))
    }

    fn spawn_timeout_task(""")]),
('exec-match',[(P,"""        if let Some(sender) = self.sender.lock().unwrap().as_ref() {
            if let Err(e) = sender.send(op) {
                error!("Writer channel closed, op lost: {:?}", e.0);
            }
        }""","""        let guard = self.sender.lock().unwrap();
        match &*guard {
            Some(sender) => {
                let sent = sender.send(op);
                if let Err(e) = sent { error!("Writer channel closed, op lost: {:?}", e.0); }
            }
            None => {}
        }""")]),
('shut-let',[(P,"""        if let Some(handle) = handle {
            let _ = handle.await;
        }""","""        let Some(task) = handle else { return };
        if let Err(e) = task.await {
            error!("writer task failed: {}", e);
        }""")]),
('path-helper',[(MG,'let db_path = persistence_path.join(format!("{}.db", name));','let file = format!("{name}.db");\n        let db_path = persistence_path.join(file);')]),
('ins-replace',[(P,'"INSERT INTO queue (id','"INSERT OR REPLACE INTO queue (id')]),
]
