"""second batch of behaviour-preserving edits, tcp"""
import sys; sys.path.insert(0,'/verif/mut')
from fnedit import F, text
C='src/transport/tcp/connection.rs'; D='src/transport/tcp/dispatcher.rs'; O='src/transport/tcp/protocol/codec.rs'; U='src/transport/tcp/protocol/cursor.rs'
QT='src/brokers/queue/tcp.rs'; ST='src/brokers/stream/tcp.rs'; PT='src/brokers/pub-sub/tcp.rs'; KT='src/brokers/store/tcp.rs'
HC=text(C,'handle_connection')
M=[
('dec-header',[F(O,'decode','''
    fn decode(&mut self, src: &mut BytesMut) -> Result<Option<Self::Item>, Self::Error> {
        let Some(header) = peek_header(src)? else {
            return Ok(None);
        };
        let payload_len = header.payload_len() as usize;
        check_limit(payload_len)?;
        if src.len() - FrameHeader::SIZE < payload_len {
            return Ok(None);
        }
        let _ = src.split_to(FrameHeader::SIZE);
        let payload = src.split_to(payload_len).freeze();
        Ok(Some(InboundFrame { header, payload }))
    }
'''),(O,'impl Decoder for NexoCodec {','''fn peek_header(src: &BytesMut) -> Result<Option<FrameHeader>, ParseError> {
    if src.len() < FrameHeader::SIZE {
        return Ok(None);
    }
    bytemuck::try_from_bytes::<FrameHeader>(&src[..FrameHeader::SIZE])
        .map(|header| Some(*header))
        .map_err(|_| ParseError::Invalid("Header alignment or size mismatch".to_string()))
}

fn check_limit(payload_len: usize) -> Result<(), ParseError> {
    let max = Config::global().server.max_payload_size;
    if payload_len <= max {
        return Ok(());
    }
    Err(ParseError::Invalid(format!("Payload too large: {} bytes (max: {})", payload_len, max)))
}

impl Decoder for NexoCodec {''')]),
('dec-get',[(O,'''        if src.len() < FrameHeader::SIZE {
            return Ok(None);
        }

        let header_ref: &FrameHeader = match bytemuck::try_from_bytes(&src[..FrameHeader::SIZE]) {''','''        let Some(head) = src.get(..FrameHeader::SIZE) else {
            return Ok(None);
        };
        let header_ref: &FrameHeader = match bytemuck::try_from_bytes(head) {''')]),
('enc-fn',[F(O,'encode','''
    fn encode(&mut self, item: OutboundFrame, dst: &mut BytesMut) -> Result<(), Self::Error> {
        let (frame_type, meta, id, payload) = match item {
            OutboundFrame::PushPubSub { id, payload } => (TYPE_PUSH_PUBSUB, 0, id, payload),
            OutboundFrame::Response { id, response } => {
                let (status, payload) = response_parts(response);
                (TYPE_RESPONSE, status, id, payload)
            }
        };
        dst.reserve(FrameHeader::SIZE + payload.len());
        put_header(dst, frame_type, meta, id, payload.len() as u32);
        dst.put_slice(&payload);
        Ok(())
    }
'''),(O,'impl Decoder for NexoCodec {','''fn put_header(dst: &mut BytesMut, frame_type: u8, meta: u8, id: u32, len: u32) {
    dst.put_slice(&[frame_type, meta]);
    dst.put_slice(&id.to_be_bytes());
    dst.put_slice(&len.to_be_bytes());
}

fn response_parts(response: Response) -> (u8, Bytes) {
    match response {
        Response::Ok => (STATUS_OK, Bytes::new()),
        Response::Null => (STATUS_NULL, Bytes::new()),
        Response::Data(data) => (STATUS_DATA, data),
        Response::Error(msg) => {
            let text = msg.as_bytes();
            let mut buf = Vec::with_capacity(4 + text.len());
            buf.extend_from_slice(&(text.len() as u32).to_be_bytes());
            buf.extend_from_slice(text);
            (STATUS_ERR, Bytes::from(buf))
        }
    }
}

impl Decoder for NexoCodec {''')]),
('cur-need',[F(U,'read_u8','''
    fn need(&self, len: usize, what: &str) -> Result<(), ParseError> {
        if self.data.len() < len {
            return Err(ParseError::Invalid(format!("Payload too short for {}", what)));
        }
        Ok(())
    }

    fn take<const N: usize>(&mut self, what: &str) -> Result<[u8; N], ParseError> {
        self.need(N, what)?;
        let mut out = [0u8; N];
        self.data.copy_to_slice(&mut out);
        Ok(out)
    }

    pub fn read_u8(&mut self) -> Result<u8, ParseError> {
        self.need(1, "u8")?;
        Ok(self.data.get_u8())
    }
'''),F(U,'read_u32','''
    pub fn read_u32(&mut self) -> Result<u32, ParseError> {
        self.take::<4>("u32").map(u32::from_be_bytes)
    }
'''),F(U,'read_u64','''
    pub fn read_u64(&mut self) -> Result<u64, ParseError> {
        self.take::<8>("u64").map(u64::from_be_bytes)
    }
'''),F(U,'read_uuid_bytes','''
    pub fn read_uuid_bytes(&mut self) -> Result<[u8; 16], ParseError> {
        self.take("UUID")
    }
''')]),
('cur-split',[F(U,'read_string','''
    pub fn read_string(&mut self) -> Result<String, ParseError> {
        let len = self.read_u32()? as usize;
        if len > self.data.len() {
            return Err(ParseError::Invalid(format!("Incomplete string: expected {} bytes", len)));
        }
        let chunk = self.data.split_to(len);
        match String::from_utf8(chunk.to_vec()) {
            Ok(s) => Ok(s),
            Err(e) => Err(ParseError::Invalid(format!("Invalid UTF-8 in string: {}", e))),
        }
    }
'''),F(U,'read_remaining','''
    pub fn read_remaining(&mut self) -> Bytes {
        std::mem::take(&mut self.data)
    }
''')]),
('disp-if',[F(D,'dispatch','''
    pub async fn dispatch(&self, opcode: u8, payload: Bytes) -> Response {
        if opcode == OP_DEBUG_ECHO {
            return Response::Data(payload);
        }
        let mut cursor = PayloadCursor::new(payload);
        match opcode {
            store::tcp::OPCODE_MIN..=store::tcp::OPCODE_MAX => store::tcp::handle(opcode, &mut cursor, self.engine),
            queue::tcp::OPCODE_MIN..=queue::tcp::OPCODE_MAX => queue::tcp::handle(opcode, &mut cursor, self.engine).await,
            pub_sub::tcp::OPCODE_MIN..=pub_sub::tcp::OPCODE_MAX => {
                pub_sub::tcp::handle(opcode, &mut cursor, self.engine, self.client_id).await
            }
            stream::tcp::OPCODE_MIN..=stream::tcp::OPCODE_MAX => {
                stream::tcp::handle(opcode, &mut cursor, self.engine, self.client_id).await
            }
            other => Response::Error(format!("Unknown opcode: 0x{:02X}", other)),
        }
    }
''')]),
('conn-split',[F(C,'handle_connection','''
pub async fn handle_connection(socket: TcpStream, engine: NexoEngine) -> Result<(), String> {
    let capacity = Config::global().server.channel_capacity_socket_write;
    let engine = Arc::new(engine);
    let client_id = ClientId(Uuid::new_v4().to_string());

    let (inbound_tx, inbound_rx) = mpsc::channel(capacity);
    let (outbound_tx, outbound_rx) = mpsc::channel(capacity);
    let (reader, writer) = socket.into_split();
    let socket_task = tokio::spawn(run_socket(reader, writer, inbound_tx, outbound_rx));

    let (push_tx, push_rx) = mpsc::unbounded_channel::<Arc<PubSubMessage>>();
    engine.pubsub.connect(client_id.clone(), push_tx);
    let bridge_handle = tokio::spawn(forward_pushes(push_rx, outbound_tx.clone()));

    let mut requests = tokio::task::JoinSet::new();
    let result = serve(&engine, &client_id, inbound_rx, &outbound_tx, socket_task, &mut requests).await;

    tracing::debug!("Client {:?} disconnected", client_id);
    requests.shutdown().await;
    bridge_handle.abort();
    engine.pubsub.disconnect(&client_id);
    engine.stream.disconnect(client_id.0.clone()).await;
    result
}

async fn forward_pushes(mut pushes: mpsc::UnboundedReceiver<Arc<PubSubMessage>>, outbound: mpsc::Sender<OutboundFrame>) {
    while let Some(msg) = pushes.recv().await {
        let frame = OutboundFrame::PushPubSub { id: 0, payload: msg.get_network_packet().clone() };
        if outbound.send(frame).await.is_err() {
            return;
        }
    }
}

async fn serve(
    engine: &Arc<NexoEngine>,
    client_id: &ClientId,
    mut inbound: mpsc::Receiver<InboundFrame>,
    outbound: &mpsc::Sender<OutboundFrame>,
    mut socket_task: tokio::task::JoinHandle<Result<(), ParseError>>,
    requests: &mut tokio::task::JoinSet<()>,
) -> Result<(), String> {
    loop {
        tokio::select! {
            Some(frame) = inbound.recv() => {
                requests.spawn(answer(Arc::clone(engine), client_id.clone(), frame, outbound.clone()));
            }
            ended = &mut socket_task => {
                return match ended {
                    Ok(result) => result.map_err(|err| format!("Protocol error: {err:?}")),
                    Err(err) => Err(format!("Socket task panicked: {err:?}")),
                };
            }
            _ = requests.join_next(), if !requests.is_empty() => {}
        }
    }
}

async fn answer(engine: Arc<NexoEngine>, client_id: ClientId, frame: InboundFrame, outbound: mpsc::Sender<OutboundFrame>) {
    let InboundFrame { header, payload } = frame;
    let response = if header.frame_type == TYPE_REQUEST {
        Dispatcher::new(&engine, &client_id).dispatch(header.meta, payload).await
    } else {
        Response::Error("Unsupported frame type".into())
    };
    let _ = outbound.send(OutboundFrame::Response { id: header.id(), response }).await;
}
''')]),
('socket-inner',[F(C,'run_socket','''
async fn run_socket(
    reader: OwnedReadHalf,
    writer: OwnedWriteHalf,
    inbound_tx: mpsc::Sender<InboundFrame>,
    mut outbound_rx: mpsc::Receiver<OutboundFrame>,
) -> Result<(), ParseError> {
    let mut frames = FramedRead::new(reader, NexoCodec::new());
    let mut sink = FramedWrite::new(writer, NexoCodec::new());
    loop {
        tokio::select! {
            next = frames.next() => {
                let Some(decoded) = next else { return Ok(()) };
                let frame = decoded?;
                if inbound_tx.send(frame).await.is_err() {
                    return Ok(());
                }
            }
            next = outbound_rx.recv() => {
                let Some(message) = next else { return Ok(()) };
                sink.send(message).await?;
            }
        }
    }
}
''')]),
('q-json',[F(QT,'parse','''
    fn options<T: serde::de::DeserializeOwned>(cursor: &mut PayloadCursor, what: &str) -> Result<T, ParseError> {
        let json = cursor.read_string()?;
        serde_json::from_str(&json).map_err(|e| ParseError::Invalid(format!("Invalid JSON {}: {}", what, e)))
    }

    fn id(cursor: &mut PayloadCursor) -> Result<Uuid, ParseError> {
        cursor.read_uuid_bytes().map(Uuid::from_bytes)
    }

    fn parse(opcode: u8, cursor: &mut PayloadCursor) -> Result<Self, ParseError> {
        let command = match opcode {
            OP_Q_CREATE => Self::Create { q_name: cursor.read_string()?, options: Self::options(cursor, "config")? },
            OP_Q_PUSH => Self::Push {
                q_name: cursor.read_string()?,
                options: Self::options(cursor, "options")?,
                payload: cursor.read_remaining(),
            },
            OP_Q_CONSUME => Self::Consume { q_name: cursor.read_string()?, options: Self::options(cursor, "options")? },
            OP_Q_ACK => Self::Ack { id: Self::id(cursor)?, q_name: cursor.read_string()? },
            OP_Q_NACK => Self::Nack { id: Self::id(cursor)?, q_name: cursor.read_string()?, reason: cursor.read_string()? },
            OP_Q_EXISTS => Self::Exists { q_name: cursor.read_string()? },
            OP_Q_DELETE => Self::Delete { q_name: cursor.read_string()? },
            OP_Q_PEEK_DLQ => {
                let q_name = cursor.read_string()?;
                let (limit, offset) = (cursor.read_u32()?, cursor.read_u32()?);
                Self::PeekDLQ { q_name, limit: limit as usize, offset: offset as usize }
            }
            OP_Q_MOVE_TO_QUEUE => Self::MoveToQueue { q_name: cursor.read_string()?, message_id: Self::id(cursor)? },
            OP_Q_DELETE_DLQ => Self::DeleteDLQ { q_name: cursor.read_string()?, message_id: Self::id(cursor)? },
            OP_Q_PURGE_DLQ => Self::PurgeDLQ { q_name: cursor.read_string()? },
            _ => return Err(ParseError::Invalid(format!("Unknown Queue opcode: 0x{:02X}", opcode))),
        };
        Ok(command)
    }
''')]),
('q-wire',[(QT,text(QT,'to_wire',0),'''    fn to_wire(&self) -> Bytes {
        use bytes::{BufMut, BytesMut};
        let mut buf = BytesMut::new();
        buf.put_u32(self.messages.len() as u32);
        self.messages.iter().for_each(|msg| {
            buf.put_slice(msg.id.as_bytes());
            put_blob(&mut buf, &msg.payload);
        });
        buf.freeze()
    }'''),(QT,'struct ConsumeBatchResponse','''fn put_blob(buf: &mut bytes::BytesMut, data: &[u8]) {
    use bytes::BufMut;
    buf.put_u32(data.len() as u32);
    buf.put_slice(data);
}

struct ConsumeBatchResponse'''),(QT,text(QT,'to_wire',1),'''    fn to_wire(&self) -> Bytes {
        use bytes::{BufMut, BytesMut};
        let PeekDlqResponse { total, messages } = self;
        let mut buf = BytesMut::new();
        buf.put_u32(*total as u32);
        buf.put_u32(messages.len() as u32);
        for DlqMessage { id, payload, attempts, failure_reason, .. } in messages {
            buf.put_slice(id.as_bytes());
            put_blob(&mut buf, payload);
            buf.put_u32(*attempts);
            put_blob(&mut buf, failure_reason.as_bytes());
        }
        buf.freeze()
    }''')]),
('q-handle',[F(QT,'handle','''
fn ok_or_error<T>(result: Result<T, String>) -> Response {
    match result {
        Ok(_) => Response::Ok,
        Err(e) => Response::Error(e),
    }
}

fn wire<T, W: ToWire>(result: Result<T, String>, make: impl FnOnce(T) -> W) -> Response {
    result.map_or_else(Response::Error, |value| Response::Data(make(value).to_wire()))
}

fn check(done: bool, error: &str) -> Response {
    if done { Response::Ok } else { Response::Error(error.to_string()) }
}

pub async fn handle(opcode: u8, cursor: &mut PayloadCursor, engine: &NexoEngine) -> Response {
    match QueueCommand::parse(opcode, cursor) {
        Ok(cmd) => run(cmd, engine).await,
        Err(e) => Response::Error(e.to_string()),
    }
}

async fn run(cmd: QueueCommand, engine: &NexoEngine) -> Response {
    let queue = &engine.queue;
    match cmd {
        QueueCommand::Create { q_name, options } => ok_or_error(queue.create_queue(q_name, options).await),
        QueueCommand::Push { q_name, options, payload } => {
            ok_or_error(queue.push(q_name, payload, options.priority.unwrap_or_default()).await)
        }
        QueueCommand::Consume { q_name, options } => {
            let result = queue.consume_batch(q_name, options.batch_size, options.wait_ms).await;
            wire(result, |messages| ConsumeBatchResponse { messages })
        }
        QueueCommand::Ack { id, q_name } => check(queue.ack(&q_name, id).await, "ACK failed"),
        QueueCommand::Nack { id, q_name, reason } => check(queue.nack(&q_name, id, reason).await, "NACK failed"),
        QueueCommand::Exists { q_name } => check(queue.exists(&q_name).await, "Queue not found"),
        QueueCommand::Delete { q_name } => ok_or_error(queue.delete_queue(q_name).await),
        QueueCommand::PeekDLQ { q_name, limit, offset } => {
            wire(queue.peek_dlq(&q_name, limit, offset).await, |(total, messages)| PeekDlqResponse { total, messages })
        }
        QueueCommand::MoveToQueue { q_name, message_id } => {
            wire(queue.move_to_queue(&q_name, message_id).await, |value| BoolResponse { value })
        }
        QueueCommand::DeleteDLQ { q_name, message_id } => {
            wire(queue.delete_dlq(&q_name, message_id).await, |value| BoolResponse { value })
        }
        QueueCommand::PurgeDLQ { q_name } => wire(queue.purge_dlq(&q_name).await, |count| CountResponse { count }),
    }
}
''')]),
('s-handle',[F(ST,'handle','''
pub async fn handle(
    opcode: u8,
    cursor: &mut PayloadCursor,
    engine: &NexoEngine,
    client_id: &ClientId,
) -> Response {
    let result = match StreamCommand::parse(opcode, cursor) {
        Ok(cmd) => execute(cmd, engine, client_id).await,
        Err(e) => Err(e.to_string()),
    };
    result.unwrap_or_else(Response::Error)
}

async fn execute(cmd: StreamCommand, engine: &NexoEngine, client_id: &ClientId) -> Result<Response, String> {
    let stream = &engine.stream;
    let response = match cmd {
        StreamCommand::Create { topic, options } => {
            stream.create_topic(topic, options).await?;
            Response::Ok
        }
        StreamCommand::Publish { topic, payload } => {
            let seq = stream.publish(&topic, payload).await?;
            Response::Data(PublishResponse { seq }.to_wire())
        }
        StreamCommand::Fetch { topic, group, consumer_id, generation, limit, wait_ms } => {
            let (limit, wait) = (limit as usize, u64::from(wait_ms));
            let messages = stream.fetch(&group, &consumer_id, generation, limit, &topic, wait).await?;
            Response::Data(FetchResponse { messages }.to_wire())
        }
        StreamCommand::Join { group, topic } => {
            let joined = stream.join_group(&group, &topic, &client_id.0).await?;
            let answer = JoinGroupResponse {
                consumer_id: joined.consumer_id,
                generation: joined.generation,
                ack_floor: joined.ack_floor,
            };
            Response::Data(answer.to_wire())
        }
        StreamCommand::Ack { topic, group, consumer_id, generation, seq } => {
            stream.ack(&group, &topic, &consumer_id, generation, seq).await?;
            Response::Ok
        }
        StreamCommand::Seek { topic, group, target } => {
            stream.seek(&group, &topic, target).await?;
            Response::Ok
        }
        StreamCommand::Leave { topic, group, consumer_id, generation } => {
            stream.leave_group(&group, &topic, &consumer_id, generation).await?;
            Response::Ok
        }
        StreamCommand::Exists { topic } => {
            if !stream.exists(&topic).await {
                return Err("Stream not found".to_string());
            }
            Response::Ok
        }
        StreamCommand::Delete { topic } => {
            stream.delete_topic(topic).await?;
            Response::Ok
        }
    };
    Ok(response)
}
''')]),
('s-wire',[(ST,text(ST,'to_wire',1),'''    fn to_wire(&self) -> Bytes {
        let size: usize = self.messages.iter().map(|m| 20 + m.payload.len()).sum();
        let mut buf = Vec::with_capacity(4 + size);
        buf.extend_from_slice(&(self.messages.len() as u32).to_be_bytes());
        for Message { seq, timestamp, payload } in self.messages.iter() {
            buf.extend_from_slice(&seq.to_be_bytes());
            buf.extend_from_slice(&timestamp.to_be_bytes());
            buf.extend_from_slice(&(payload.len() as u32).to_be_bytes());
            buf.extend_from_slice(payload);
        }
        buf.into()
    }'''),(ST,text(ST,'to_wire',0),'''    fn to_wire(&self) -> Bytes {
        Bytes::copy_from_slice(&self.seq.to_be_bytes())
    }'''),(ST,text(ST,'to_wire',2),'''    fn to_wire(&self) -> Bytes {
        let consumer = self.consumer_id.as_bytes();
        let mut buf = Vec::new();
        for number in [self.ack_floor, self.generation] {
            buf.put_u64(number);
        }
        buf.put_u32(consumer.len() as u32);
        buf.put_slice(consumer);
        Bytes::from(buf)
    }''')]),
]
