N='src/transport/tcp/connection.rs'; D='src/transport/tcp/dispatcher.rs'; C='src/transport/tcp/protocol/codec.rs'; U='src/transport/tcp/protocol/cursor.rs'; F='src/transport/tcp/protocol/frame.rs'
Q='src/brokers/queue/tcp.rs'; S='src/brokers/stream/tcp.rs'; B='src/brokers/pub-sub/tcp.rs'; K='src/brokers/store/tcp.rs'; H='src/brokers/pub-sub/domain/message.rs'
M=[
('cur-helper',[(U,"""    pub fn read_u8(&mut self) -> Result<u8, ParseError> {
        if !self.has_remaining(1) {
            return Err(ParseError::Invalid("Payload too short for u8".into()));
        }
""","""    fn need(&self, n: usize, what: &str) -> Result<(), ParseError> {
        if self.has_remaining(n) { return Ok(()); }
        Err(ParseError::Invalid(format!("Payload too short for {}", what)))
    }

    pub fn read_u8(&mut self) -> Result<u8, ParseError> {
        self.need(1, "u8")?;
"""),(U,"""        if !self.has_remaining(8) {
            return Err(ParseError::Invalid("Payload too short for u64".into()));
        }
""","""        self.need(8, "u64")?;
""")]),
('cur-len',[(U,"if !self.has_remaining(4) {","if self.data.len() < 4 {"),(U,"if !self.has_remaining(16) {","if 16 > self.data.len() {")]),
('cur-split',[(U,"let chunk = self.data.copy_to_bytes(len);\n        let s","let chunk = self.data.split_to(len);\n        let s")]),
('cur-string-from',[(U,"""        let s = std::str::from_utf8(&chunk).map_err(|e| ParseError::Invalid(format!("Invalid UTF-8 in string: {}", e)))?;
        Ok(s.to_string())""","""        match std::str::from_utf8(&chunk) {
            Ok(s) => Ok(s.to_owned()),
            Err(e) => Err(ParseError::Invalid(format!("Invalid UTF-8 in string: {}", e))),
        }""")]),
('cur-string-owned',[(U,"""        let s = std::str::from_utf8(&chunk).map_err(|e| ParseError::Invalid(format!("Invalid UTF-8 in string: {}", e)))?;
        Ok(s.to_string())""","""        String::from_utf8(chunk.to_vec()).map_err(|e| ParseError::Invalid(format!("Invalid UTF-8 in string: {}", e)))""")]),
('cur-rest-take',[(U,"let len = self.data.remaining();\n        self.data.copy_to_bytes(len)","self.data.split_to(self.data.len())")]),
('cur-rest-mem',[(U,"let len = self.data.remaining();\n        self.data.copy_to_bytes(len)","std::mem::take(&mut self.data)")]),
('dec-match-if',[(C,"""        let header_ref: &FrameHeader = match bytemuck::try_from_bytes(&src[..FrameHeader::SIZE]) {
            Ok(header) => header,
            Err(_) => {
                return Err(ParseError::Invalid(
                    "Header alignment or size mismatch".to_string(),
                ))
            }
        };
""","""        let header_ref: &FrameHeader = bytemuck::try_from_bytes(&src[..FrameHeader::SIZE])
            .map_err(|_| ParseError::Invalid("Header alignment or size mismatch".to_string()))?;
""")]),
('dec-advance',[(C,"""        let frame_bytes = src.split_to(total_len).freeze();
        let payload = frame_bytes.slice(FrameHeader::SIZE..);
""","""        let _ = src.split_to(FrameHeader::SIZE);
        let payload = src.split_to(payload_len).freeze();
""")]),
('dec-copyhdr',[(C,"""        let header = *header_ref;
        let frame_bytes""","""        let frame_bytes"""),(C,"        let payload_len = header_ref.payload_len() as usize;","        let header = *header_ref;\n        let payload_len = header.payload_len() as usize;")]),
('dec-sub',[(C,"        if src.len() < total_len {","        if src.len() - FrameHeader::SIZE < payload_len {")]),
('dec-reserve',[(C,"        if src.len() < total_len {\n","        if src.len() < total_len {\n            src.reserve(total_len - src.len());\n")]),
('dec-helper',[(C,"""        let max_payload_size = Config::global().server.max_payload_size;
        if payload_len > max_payload_size {
            return Err(ParseError::Invalid(format!(
                "Payload too large: {} bytes (max: {})", payload_len, max_payload_size
            )));
        }
""","""        check_len(payload_len)?;
"""),(C,"impl Decoder for NexoCodec {","""fn check_len(payload_len: usize) -> Result<(), ParseError> {
    let max = Config::global().server.max_payload_size;
    if payload_len <= max { return Ok(()); }
    Err(ParseError::Invalid(format!("Payload too large: {} bytes (max: {})", payload_len, max)))
}

impl Decoder for NexoCodec {""")]),
('enc-helper',[(C,"""                dst.put_u8(TYPE_RESPONSE);
                dst.put_u8(status);
                dst.put_u32(id);
                dst.put_u32(payload.len() as u32);
                dst.extend_from_slice(&payload);
""","""                put_frame(dst, TYPE_RESPONSE, status, id, &payload);
"""),(C,"""                dst.put_u8(TYPE_PUSH_PUBSUB);
                dst.put_u8(0); // meta byte unused for now
                dst.put_u32(id);
                dst.put_u32(payload.len() as u32);
                dst.extend_from_slice(&payload);
""","""                put_frame(dst, TYPE_PUSH_PUBSUB, 0, id, &payload);
"""),(C,"impl Decoder for NexoCodec {","""fn put_frame(dst: &mut BytesMut, kind: u8, meta: u8, id: u32, payload: &[u8]) {
    dst.reserve(FrameHeader::SIZE + payload.len());
    dst.put_u8(kind);
    dst.put_u8(meta);
    dst.put_u32(id);
    dst.put_u32(payload.len() as u32);
    dst.put_slice(payload);
}

impl Decoder for NexoCodec {""")]),
('enc-tobe',[(C,"                dst.put_u32(id);\n                dst.put_u32(payload.len() as u32);\n                dst.extend_from_slice(&payload);\n            }\n            OutboundFrame::PushPubSub","                dst.extend_from_slice(&id.to_be_bytes());\n                dst.extend_from_slice(&(payload.len() as u32).to_be_bytes());\n                dst.put(payload);\n            }\n            OutboundFrame::PushPubSub")]),
('conn-fn',[(N,"""                request_set.spawn(async move {
                    let id = frame.header.id();
                    let response = match frame.header.frame_type {
                        TYPE_REQUEST => {
                            let dispatcher = Dispatcher::new(&engine_clone, &client_id_clone);
                            dispatcher.dispatch(frame.header.meta, frame.payload).await
                        }
                        _ => Response::Error("Unsupported frame type".into()),
                    };
                    let _ = tx_clone.send(OutboundFrame::Response { id, response }).await;
                });
""","""                request_set.spawn(serve(frame, tx_clone, engine_clone, client_id_clone));
"""),(N,"async fn run_socket(","""async fn serve(frame: InboundFrame, tx: mpsc::Sender<OutboundFrame>, engine: Arc<NexoEngine>, client: ClientId) {
    let id = frame.header.id();
    let response = if frame.header.frame_type == TYPE_REQUEST {
        Dispatcher::new(&engine, &client).dispatch(frame.header.meta, frame.payload).await
    } else {
        Response::Error("Unsupported frame type".into())
    };
    if tx.send(OutboundFrame::Response { id, response }).await.is_err() {
        tracing::debug!("connection gone");
    }
}

async fn run_socket(""")]),
('conn-signoff-fn',[(N,"""    request_set.shutdown().await;
    bridge_handle.abort();
    engine.pubsub.disconnect(&client_id);
    engine.stream.disconnect(client_id.0.clone()).await;
""","""    request_set.shutdown().await;
    bridge_handle.abort();
    sign_off(&engine, &client_id).await;
"""),(N,"async fn run_socket(","""async fn sign_off(engine: &NexoEngine, client: &ClientId) {
    engine.stream.disconnect(client.0.clone()).await;
    engine.pubsub.disconnect(client);
}

async fn run_socket(""")]),
('conn-drain',[(N,"    request_set.shutdown().await;\n","    request_set.abort_all();\n    while request_set.join_next().await.is_some() {}\n")]),
('conn-loop-match',[(N,"""            Some(frame) = inbound_rx.recv() => {
                let tx_clone""","""            received = inbound_rx.recv(), if !closed => {
                let Some(frame) = received else { closed = true; continue; };
                let tx_clone"""),(N,"    let session_result = loop {","    let mut closed = false;\n    let session_result = loop {")]),
('conn-bridge-fn',[(N,"""    let bridge_handle = tokio::spawn(async move {
        while let Some(msg_arc) = push_rx.recv().await {
            let payload = msg_arc.get_network_packet().clone();
            let frame = OutboundFrame::PushPubSub { id: 0, payload };

            if outbound_bridge.send(frame).await.is_err() {
                break; // Socket closed, exit bridge
            }
        }
    });
""","""    let bridge_handle = tokio::spawn(async move {
        loop {
            let Some(msg) = push_rx.recv().await else { return };
            let frame = OutboundFrame::PushPubSub { id: 0, payload: msg.get_network_packet().clone() };
            if let Err(_) = outbound_bridge.send(frame).await { return; }
        }
    });
""")]),
('sock-letelse',[(N,"""                match frame {
                    Some(Ok(frame)) => {
                        if inbound_tx.send(frame).await.is_err() {
                            break;
                        }
                    }
                    Some(Err(err)) => return Err(err),
                    None => break,
                }
""","""                let Some(frame) = frame else { break };
                let frame = frame?;
                if inbound_tx.send(frame).await.is_err() {
                    return Ok(());
                }
""")]),
('sock-q',[(N,"""                        if let Err(err) = framed_writer.send(message).await {
                            return Err(err);
                        }
""","""                        framed_writer.send(message).await?;
""")]),
('disp-match',[(D,"op if (store::tcp::OPCODE_MIN..=store::tcp::OPCODE_MAX).contains(&op) => {\n                store::tcp::handle(op, &mut cursor, self.engine)","store::tcp::OPCODE_MIN..=store::tcp::OPCODE_MAX => {\n                store::tcp::handle(opcode, &mut cursor, self.engine)"),(D,"op if (stream::tcp::OPCODE_MIN..=stream::tcp::OPCODE_MAX).contains(&op) => {","op if op >= stream::tcp::OPCODE_MIN && op <= stream::tcp::OPCODE_MAX => {")]),
('q-match-map',[(Q,"""        QueueCommand::PurgeDLQ { q_name } => match queue.purge_dlq(&q_name).await {
            Ok(count) => Response::Data(CountResponse { count }.to_wire()),
            Err(e) => Response::Error(e),
        },""","""        QueueCommand::PurgeDLQ { q_name } => queue.purge_dlq(&q_name).await
            .map(|count| Response::Data(CountResponse { count }.to_wire()))
            .unwrap_or_else(Response::Error),""")]),
('q-unit-helper',[(Q,"""        QueueCommand::Delete { q_name } => match queue.delete_queue(q_name).await {
            Ok(_) => Response::Ok,
            Err(e) => Response::Error(e),
        },""","""        QueueCommand::Delete { q_name } => unit(queue.delete_queue(q_name).await),"""),(Q,"pub async fn handle(","fn unit(r: Result<(), String>) -> Response {\n    match r {\n        Ok(()) => Response::Ok,\n        Err(e) => Response::Error(e),\n    }\n}\n\npub async fn handle(")]),
('q-bool-if',[(Q,"""        QueueCommand::Ack { id, q_name } => match queue.ack(&q_name, id).await {
            true => Response::Ok,
            false => Response::Error("ACK failed".to_string()),
        },""","""        QueueCommand::Ack { id, q_name } => {
            let done = queue.ack(&q_name, id).await;
            if !done { return Response::Error("ACK failed".to_string()); }
            Response::Ok
        }""")]),
('q-prio-match',[(Q,"let priority = options.priority.unwrap_or(0);","let priority = match options.priority { Some(p) => p, None => 0 };")]),
('q-prio-default',[(Q,"let priority = options.priority.unwrap_or(0);","let priority = options.priority.unwrap_or_default();")]),
('q-wire-bytesmut',[(Q,"""        let mut buf = Vec::new();
        buf.extend_from_slice(&(self.messages.len() as u32).to_be_bytes());
        for msg in &self.messages {
            buf.extend_from_slice(msg.id.as_bytes());
            buf.extend_from_slice(&(msg.payload.len() as u32).to_be_bytes());
            buf.extend_from_slice(&msg.payload);
        }
        Bytes::from(buf)""","""        let mut buf = bytes::BytesMut::with_capacity(64);
        bytes::BufMut::put_u32(&mut buf, self.messages.len() as u32);
        for msg in self.messages.iter() {
            bytes::BufMut::put_slice(&mut buf, msg.id.as_bytes());
            bytes::BufMut::put_u32(&mut buf, msg.payload.len() as u32);
            bytes::BufMut::put_slice(&mut buf, &msg.payload);
        }
        buf.freeze()""")]),
('q-wire-cap',[(Q,"""        let mut buf = Vec::new();
        buf.extend_from_slice(&(self.messages.len() as u32).to_be_bytes());
        for msg in &self.messages {
            buf.extend_from_slice(msg.id.as_bytes());
            buf""","""        let size: usize = self.messages.iter().map(|m| 20 + m.payload.len()).sum();
        let mut buf = Vec::with_capacity(4 + size);
        buf.extend_from_slice(&(self.messages.len() as u32).to_be_bytes());
        for msg in &self.messages {
            buf.extend_from_slice(msg.id.as_bytes());
            buf""")]),
('q-wire-helper',[(Q,"""            buf.extend_from_slice(&(reason_bytes.len() as u32).to_be_bytes());
            buf.extend_from_slice(reason_bytes);
""","""            put_bytes(&mut buf, reason_bytes);
"""),(Q,"struct BoolResponse {","fn put_bytes(buf: &mut Vec<u8>, b: &[u8]) {\n    buf.extend_from_slice(&(b.len() as u32).to_be_bytes());\n    buf.extend_from_slice(b);\n}\n\nstruct BoolResponse {")]),
('q-boolwire',[(Q,"Bytes::from(vec![if self.value { 1u8 } else { 0u8 }])","Bytes::from(vec![self.value as u8])")]),
('q-boolwire2',[(Q,"Bytes::from(vec![if self.value { 1u8 } else { 0u8 }])","let mut b = BytesMut::with_capacity(1);\n        b.put_u8(u8::from(self.value));\n        b.freeze()"),(Q,"use bytes::Bytes;","use bytes::{BufMut, Bytes, BytesMut};")]),
('s-parse-json',[(S,"""                let options: StreamCreateOptions = serde_json::from_str(&json_str)
                    .map_err(|e| ParseError::Invalid(format!("Invalid JSON config: {}", e)))?;
                Ok(Self::Create""","""                let options: StreamCreateOptions = match serde_json::from_str(&json_str) {
                    Ok(o) => o,
                    Err(e) => return Err(ParseError::Invalid(format!("Invalid JSON config: {}", e))),
                };
                Ok(Self::Create""")]),
('s-seek-if',[(S,"""                let target = match target_byte {
                    0 => SeekTarget::Beginning,
                    1 => SeekTarget::End,
                    _ => return Err(ParseError::Invalid(format!("Invalid seek target: {}", target_byte))),
                };""","""                let target = if target_byte == 0 {
                    SeekTarget::Beginning
                } else if target_byte == 1 {
                    SeekTarget::End
                } else {
                    return Err(ParseError::Invalid(format!("Invalid seek target: {}", target_byte)));
                };""")]),
('s-join-direct',[(S,"""            Ok(result) => Response::Data(JoinGroupResponse {
                ack_floor: result.ack_floor,
                generation: result.generation,
                consumer_id: result.consumer_id,
            }.to_wire()),""","""            Ok(joined) => {
                let wire = JoinGroupResponse { consumer_id: joined.consumer_id, ack_floor: joined.ack_floor, generation: joined.generation };
                Response::Data(wire.to_wire())
            }""")]),
('s-client-late',[(S,"    let client = client_id.0.clone();\n",""),(S,"stream.join_group(&group, &topic, &client)","stream.join_group(&group, &topic, &client_id.0)")]),
('s-pub-q',[(S,"""        StreamCommand::Publish { topic, payload } => match stream.publish(&topic, payload).await {
            Ok(seq) => Response::Data(PublishResponse { seq }.to_wire()),
            Err(e) => Response::Error(e),
        },""","""        StreamCommand::Publish { topic, payload } => {
            let seq = match stream.publish(&topic, payload).await {
                Ok(seq) => seq,
                Err(e) => return Response::Error(e),
            };
            Response::Data(Bytes::copy_from_slice(&seq.to_be_bytes()))
        }""")]),
('s-wire-each',[(S,"        for msg in &self.messages {\n            buf.put_u64(msg.seq);\n            buf.put_u64(msg.timestamp);\n            buf.put_u32(msg.payload.len() as u32);\n            buf.put_slice(&msg.payload);\n        }","        self.messages.iter().for_each(|msg| {\n            buf.put_u64(msg.seq);\n            buf.put_u64(msg.timestamp);\n            buf.put_u32(msg.payload.len() as u32);\n            buf.extend_from_slice(&msg.payload);\n        });")]),
('s-wire-while',[(S,"        for msg in &self.messages {\n            buf.put_u64(msg.seq);","        let mut it = self.messages.iter();\n        while let Some(msg) = it.next() {\n            buf.put_u64(msg.seq);")]),
('parse-split',[(S,"""            OP_S_JOIN => {
                let group = cursor.read_string()?;
                let topic = cursor.read_string()?;
                Ok(Self::Join { group, topic })
            }""","""            OP_S_JOIN => Self::parse_join(cursor),"""),(S,"""impl StreamCommand {
""","""impl StreamCommand {
    fn parse_join(cursor: &mut PayloadCursor) -> Result<Self, ParseError> {
        let group = cursor.read_string()?;
        let topic = cursor.read_string()?;
        Ok(Self::Join { group, topic })
    }
""")]),
('handle-parse-q',[(Q,"""    let cmd = match QueueCommand::parse(opcode, cursor) {
        Ok(c) => c,
        Err(e) => return Response::Error(e.to_string()),
    };
""","""    let parsed = QueueCommand::parse(opcode, cursor);
    if let Err(e) = &parsed {
        tracing::debug!("bad queue request: {}", e);
        return Response::Error(e.to_string());
    }
    let Ok(cmd) = parsed else { unreachable!() };
""")]),
('log-lines',[(D,"        let mut cursor = PayloadCursor::new(payload);\n","        let mut cursor = PayloadCursor::new(payload);\n        tracing::trace!(opcode, len = cursor.len(), \"request\");\n")]),
('conn-metric',[(N,"                let tx_clone = outbound_tx.clone();","                let _started = std::time::Instant::now();\n                let tx_clone = outbound_tx.clone();")]),
]
