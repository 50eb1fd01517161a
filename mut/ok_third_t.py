"""third batch of behaviour-preserving edits, transport"""
import sys; sys.path.insert(0,'/verif/mut')
from fnedit import F, text
C='src/transport/tcp/connection.rs'; D='src/transport/tcp/dispatcher.rs'; K='src/transport/tcp/protocol/codec.rs'; U='src/transport/tcp/protocol/cursor.rs'; H='src/transport/tcp/protocol/frame.rs'
M=[
('codec-parts',[F(K,'decode','''
    fn decode(&mut self, src: &mut BytesMut) -> Result<Option<Self::Item>, Self::Error> {
        let Some(head) = src.get(..FrameHeader::SIZE) else {
            return Ok(None);
        };
        let header: FrameHeader = bytemuck::try_pod_read_unaligned(head)
            .map_err(|_| ParseError::Invalid("Header alignment or size mismatch".to_string()))?;
        let payload_len = check_size(header.payload_len())?;

        if src.len() - FrameHeader::SIZE < payload_len {
            return Ok(None);
        }
        let _ = src.split_to(FrameHeader::SIZE);
        let payload = src.split_to(payload_len).freeze();
        Ok(Some(InboundFrame { header, payload }))
    }
'''),F(K,'encode','''
    fn encode(&mut self, item: OutboundFrame, dst: &mut BytesMut) -> Result<(), Self::Error> {
        let (frame_type, meta, id, payload) = match item {
            OutboundFrame::PushPubSub { id, payload } => (TYPE_PUSH_PUBSUB, 0, id, payload),
            OutboundFrame::Response { id, response } => {
                let (status, payload) = body(response);
                (TYPE_RESPONSE, status, id, payload)
            }
        };
        dst.reserve(FrameHeader::SIZE + payload.len());
        dst.extend_from_slice(&[frame_type, meta]);
        dst.put_u32(id);
        dst.put_u32(payload.len() as u32);
        dst.put(payload);
        Ok(())
    }
'''),(K,'''#[cfg(test)]
mod tests''','''fn check_size(payload_len: u32) -> Result<usize, ParseError> {
    let len = payload_len as usize;
    let max = Config::global().server.max_payload_size;
    if len <= max {
        Ok(len)
    } else {
        Err(ParseError::Invalid(format!("Payload too large: {len} bytes (max: {max})")))
    }
}

/// Status and payload of a response.
fn body(response: Response) -> (u8, Bytes) {
    match response {
        Response::Ok => (STATUS_OK, Bytes::new()),
        Response::Null => (STATUS_NULL, Bytes::new()),
        Response::Data(data) => (STATUS_DATA, data),
        Response::Error(msg) => {
            let mut buf = Vec::with_capacity(4 + msg.len());
            buf.extend_from_slice(&(msg.len() as u32).to_be_bytes());
            buf.extend_from_slice(msg.as_bytes());
            (STATUS_ERR, buf.into())
        }
    }
}

#[cfg(test)]
mod tests''')]),
('cursor-need',[F(U,'read_u8','''
    fn need(&self, len: usize, what: &str) -> Result<(), ParseError> {
        if self.data.len() < len {
            Err(ParseError::Invalid(format!("Payload too short for {what}")))
        } else {
            Ok(())
        }
    }

    fn take<const N: usize>(&mut self, what: &str) -> Result<[u8; N], ParseError> {
        self.need(N, what)?;
        let mut out = [0u8; N];
        self.data.copy_to_slice(&mut out);
        Ok(out)
    }

    pub fn read_u8(&mut self) -> Result<u8, ParseError> {
        self.take::<1>("u8").map(|[byte]| byte)
    }
'''),F(U,'read_u32','''
    pub fn read_u32(&mut self) -> Result<u32, ParseError> {
        self.take("u32").map(u32::from_be_bytes)
    }
'''),F(U,'read_u64','''
    pub fn read_u64(&mut self) -> Result<u64, ParseError> {
        self.take("u64").map(u64::from_be_bytes)
    }
'''),F(U,'read_uuid_bytes','''
    pub fn read_uuid_bytes(&mut self) -> Result<[u8; 16], ParseError> {
        self.take::<16>("UUID")
    }
'''),F(U,'read_string','''
    pub fn read_string(&mut self) -> Result<String, ParseError> {
        let len = self.read_u32()? as usize;
        self.need(len, "string")?;
        let chunk = self.data.split_to(len);
        String::from_utf8(chunk.to_vec())
            .map_err(|e| ParseError::Invalid(format!("Invalid UTF-8 in string: {}", e)))
    }
'''),F(U,'read_remaining','''
    pub fn read_remaining(&mut self) -> Bytes {
        std::mem::take(&mut self.data)
    }
''')]),
('conn-answer',[(C,text(C,'handle_connection')[text(C,'handle_connection').index("                let tx_clone = outbound_tx.clone();"):text(C,'handle_connection').index("            // EVENT B")],'''                request_set.spawn(answer(frame, Arc::clone(&engine), client_id.clone(), outbound_tx.clone()));
            }

'''),F(C,'run_socket','''
/// Carries out one request and queues its response.
async fn answer(frame: InboundFrame, engine: Arc<NexoEngine>, client_id: ClientId, outbound: mpsc::Sender<OutboundFrame>) {
    let InboundFrame { header, payload } = frame;
    let response = if header.frame_type == TYPE_REQUEST {
        Dispatcher::new(&engine, &client_id).dispatch(header.meta, payload).await
    } else {
        Response::Error("Unsupported frame type".to_string())
    };
    let _ = outbound.send(OutboundFrame::Response { id: header.id(), response }).await;
}

'''+text(C,'run_socket').lstrip('\n'))]),
('conn-socket',[F(C,'run_socket','''
async fn run_socket(
    reader: OwnedReadHalf,
    writer: OwnedWriteHalf,
    inbound_tx: mpsc::Sender<InboundFrame>,
    mut outbound_rx: mpsc::Receiver<OutboundFrame>,
) -> Result<(), ParseError> {
    let mut incoming = FramedRead::new(reader, NexoCodec::new());
    let mut outgoing = FramedWrite::new(writer, NexoCodec::new());

    loop {
        tokio::select! {
            frame = incoming.next() => {
                let Some(frame) = frame else { return Ok(()) };
                if inbound_tx.send(frame?).await.is_err() {
                    return Ok(());
                }
            }
            message = outbound_rx.recv() => match message {
                None => return Ok(()),
                Some(message) => outgoing.send(message).await?,
            }
        }
    }
}
''')]),
('conn-session',[(C,text(C,'handle_connection')[text(C,'handle_connection').index("    let outbound_bridge = outbound_tx.clone();"):text(C,'handle_connection').index("    // ==========================================\n    // ACT 3")],'''    let bridge_handle = tokio::spawn(forward_pushes(push_rx, outbound_tx.clone()));

'''),(C,'mut push_rx) = mpsc','push_rx) = mpsc'),
(C,'''    // Wait for the aborted requests: one still running could register the client again
    request_set.shutdown().await;
    bridge_handle.abort();
    engine.pubsub.disconnect(&client_id);
    engine.stream.disconnect(client_id.0.clone()).await;

    session_result
}
''','''    // Wait for the aborted requests: one still running could register the client again
    bridge_handle.abort();
    request_set.shutdown().await;
    sign_off(&engine, client_id).await;

    session_result
}

async fn forward_pushes(mut pushes: mpsc::UnboundedReceiver<Arc<PubSubMessage>>, outbound: mpsc::Sender<OutboundFrame>) {
    while let Some(msg) = pushes.recv().await {
        let frame = OutboundFrame::PushPubSub { id: 0, payload: msg.get_network_packet().clone() };
        if let Err(_closed) = outbound.send(frame).await {
            return;
        }
    }
}

async fn sign_off(engine: &NexoEngine, client_id: ClientId) {
    engine.pubsub.disconnect(&client_id);
    engine.stream.disconnect(client_id.0).await;
}
''')]),
('dispatch-match',[F(D,'dispatch','''
    pub async fn dispatch(&self, opcode: u8, payload: Bytes) -> Response {
        let mut cursor = PayloadCursor::new(payload);
        match opcode {
            OP_DEBUG_ECHO => Response::Data(cursor.read_remaining()),
            store::tcp::OPCODE_MIN..=store::tcp::OPCODE_MAX => store::tcp::handle(opcode, &mut cursor, self.engine),
            queue::tcp::OPCODE_MIN..=queue::tcp::OPCODE_MAX => queue::tcp::handle(opcode, &mut cursor, self.engine).await,
            pub_sub::tcp::OPCODE_MIN..=pub_sub::tcp::OPCODE_MAX => {
                pub_sub::tcp::handle(opcode, &mut cursor, self.engine, self.client_id).await
            }
            stream::tcp::OPCODE_MIN..=stream::tcp::OPCODE_MAX => {
                stream::tcp::handle(opcode, &mut cursor, self.engine, self.client_id).await
            }
            unknown => Response::Error(format!("Unknown opcode: 0x{:02X}", unknown)),
        }
    }
'''),F(H,'id','''
    pub fn id(&self) -> u32 {
        let [a, b, c, d] = self.id;
        u32::from(a) << 24 | u32::from(b) << 16 | u32::from(c) << 8 | u32::from(d)
    }
''')]),
]
