N='src/transport/tcp/connection.rs'; D='src/transport/tcp/dispatcher.rs'; C='src/transport/tcp/protocol/codec.rs'; U='src/transport/tcp/protocol/cursor.rs'
Q='src/brokers/queue/tcp.rs'; S='src/brokers/stream/tcp.rs'; B='src/brokers/pub-sub/tcp.rs'; K='src/brokers/store/tcp.rs'; H='src/brokers/pub-sub/domain/message.rs'
M=[
# T01
('dec-nolimit-partial',[(C,'if payload_len > max_payload_size {','if payload_len > max_payload_size && src.len() >= FrameHeader::SIZE + payload_len {')]),
('dec-limit-total',[(C,"        if payload_len > max_payload_size {","        if FrameHeader::SIZE + payload_len > max_payload_size {")]),
('dec-le',[(C,'if src.len() < total_len {','if src.len() <= total_len {')]),
('dec-eq',[(C,'if src.len() < total_len {','if src.len() + 1 < total_len {')]),
('dec-skip',[(C,'let frame_bytes = src.split_to(total_len).freeze();','let frame_bytes = src.split().freeze();'),(C,'frame_bytes.slice(FrameHeader::SIZE..)','frame_bytes.slice(FrameHeader::SIZE..total_len)')]),
('dec-payload-off',[(C,'frame_bytes.slice(FrameHeader::SIZE..)','frame_bytes.slice(if payload_len == 0 { FrameHeader::SIZE } else { FrameHeader::SIZE - 1 }..)')]),
('dec-reserve',[(C,"        let payload_len = header_ref.payload_len() as usize;\n","        let payload_len = header_ref.payload_len() as usize;\n        let _spare: Vec<u8> = Vec::with_capacity(payload_len);\n")]),
('cur-u64-short',[(U,'if !self.has_remaining(8)','if !self.has_remaining(4)')]),
('cur-uuid-short',[(U,'if !self.has_remaining(16)','if !self.has_remaining(15)')]),
('cur-str-nocheck',[(U,"if !self.has_remaining(len) {","if len > 0xFFFF && !self.has_remaining(len) {")]),
('cur-str-u32',[(U,"if !self.has_remaining(len) {","if !self.has_remaining(len as u16 as usize) {")]),
('cur-utf8-unwrap',[(U,".map_err(|e| ParseError::Invalid(format!(\"Invalid UTF-8 in string: {}\", e)))?;",".unwrap();")]),
('cur-json-unwrap',[(S,"serde_json::from_str(&json_str)\n                    .map_err(|e| ParseError::Invalid(format!(\"Invalid JSON config: {}\", e)))?;","serde_json::from_str(&json_str).expect(\"options\");")]),
('hdr-le',[('src/transport/tcp/protocol/frame.rs','u32::from_be_bytes(self.payload_len)','u32::from_be_bytes([0, self.payload_len[1], self.payload_len[2], self.payload_len[3]])')]),
# T02
('resp-id',[(N,'let id = frame.header.id();','let id = frame.header.id() & 0x7FFF_FFFF;')]),
('resp-id0',[(N,'OutboundFrame::Response { id, response }','OutboundFrame::Response { id: if matches!(response, Response::Null) { 0 } else { id }, response }')]),
('resp-try',[(N,'tx_clone.send(OutboundFrame::Response { id, response }).await;','tx_clone.try_send(OutboundFrame::Response { id, response });')]),
('resp-noanswer',[(N,'_ => Response::Error("Unsupported frame type".into()),','_ => return,')]),
('resp-skip-null',[(N,'let _ = tx_clone.send(OutboundFrame','if !matches!(response, Response::Error(ref e) if e.is_empty()) { let _ = tx_clone.send(OutboundFrame'),(N,'{ id, response }).await;\n','{ id, response }).await; }\n')]),
('resp-twice',[(N,'                    let _ = tx_clone.send(OutboundFrame','                    if let Response::Error(ref e) = response { let _ = tx_clone.send(OutboundFrame::Response { id, response: Response::Error(e.clone()) }).await; }\n                    let _ = tx_clone.send(OutboundFrame')]),
('push-try',[(N,'if outbound_bridge.send(frame).await.is_err() {','if let Err(mpsc::error::TrySendError::Closed(_)) = outbound_bridge.try_send(frame) {')]),
('push-skip-empty',[(N,'            let payload = msg_arc.get_network_packet().clone();','            if msg_arc.payload.is_empty() { continue; }\n            let payload = msg_arc.get_network_packet().clone();')]),
('sock-drop-frame',[(N,'if inbound_tx.send(frame).await.is_err() {','if let Err(mpsc::error::TrySendError::Closed(_)) = inbound_tx.try_send(frame) {')]),
('sock-timeout',[(N,'if inbound_tx.send(frame).await.is_err() {','if !frame.payload.is_empty() && inbound_tx.send(frame).await.is_err() {')]),
('sock-feed',[(N,'framed_writer.send(message).await','framed_writer.feed(message).await')]),
('sock-skip-push',[(N,'if let Err(err) = framed_writer.send(message).await {','if matches!(message, OutboundFrame::PushPubSub { ref payload, .. } if payload.len() > 65536) { continue; }\n                        if let Err(err) = framed_writer.send(message).await {')]),
('frame-drop-busy',[(N,"                let tx_clone = outbound_tx.clone();","                if request_set.len() > 10_000 { continue; }\n                let tx_clone = outbound_tx.clone();")]),
('enc-len16',[(C,"dst.put_u32(id);\n                dst.put_u32(payload.len() as u32);\n                dst.extend_from_slice(&payload);\n            }\n            OutboundFrame::PushPubSub","dst.put_u32(id);\n                dst.put_u32(payload.len() as u16 as u32);\n                dst.extend_from_slice(&payload);\n            }\n            OutboundFrame::PushPubSub")]),
('enc-status',[(C,'Response::Null => (STATUS_NULL,','Response::Null => (STATUS_OK,')]),
('enc-err-len',[(C,'buf.put_u32(msg.len() as u32);','buf.put_u32(msg.chars().count() as u32);')]),
('enc-err-plain',[(C,"                        buf.put_u32(msg.len() as u32);\n","")]),
('enc-data-empty',[(C,'Response::Data(data) => (STATUS_DATA, data),','Response::Data(data) if data.is_empty() => (STATUS_OK, data),\n                    Response::Data(data) => (STATUS_DATA, data),')]),
('enc-push-type',[(C,'dst.put_u8(TYPE_PUSH_PUBSUB);','dst.put_u8(TYPE_RESPONSE);')]),
('enc-trunc',[(C,'dst.extend_from_slice(&payload);\n            }\n        }','dst.extend_from_slice(&payload[..payload.len().min(1 << 20)]);\n            }\n        }')]),
('enc-id-meta',[(C,'dst.put_u8(0); // meta byte unused for now\n                dst.put_u32(id);','dst.put_u32(id);\n                dst.put_u8(0);')]),
# T03
('end-early',[(N,"Err(err) => break Err(format!(\"Socket task panicked: {err:?}\")),","Err(err) => return Err(format!(\"Socket task panicked: {err:?}\")),")]),
('end-noshutdown',[(N,'request_set.shutdown().await;','request_set.abort_all();')]),
('end-detach',[(N,'request_set.shutdown().await;','request_set.detach_all();')]),
('end-order',[(N,'    request_set.shutdown().await;\n    bridge_handle.abort();\n    engine.pubsub.disconnect(&client_id);\n','    bridge_handle.abort();\n    engine.pubsub.disconnect(&client_id);\n    request_set.shutdown().await;\n')]),
('end-nostream',[(N,'    engine.stream.disconnect(client_id.0.clone()).await;\n','    if session_result.is_ok() { engine.stream.disconnect(client_id.0.clone()).await; }\n')]),
('end-noawait',[(N,'    engine.stream.disconnect(client_id.0.clone()).await;\n','    let _ = engine.stream.disconnect(client_id.0.clone());\n')]),
('end-pubsub-err',[(N,'    engine.pubsub.disconnect(&client_id);\n','    if session_result.is_ok() { engine.pubsub.disconnect(&client_id); }\n')]),
('end-other',[(N,'engine.stream.disconnect(client_id.0.clone()).await','engine.stream.disconnect(Uuid::new_v4().to_string()).await')]),
('spawn-loose',[(N,'request_set.spawn(async move {','if request_set.is_empty() { request_set.spawn(async {}); }\n                tokio::spawn(async move {')]),
# T04
('op-range',[(D,'(queue::tcp::OPCODE_MIN..=queue::tcp::OPCODE_MAX).contains(&op)','(queue::tcp::OPCODE_MIN..queue::tcp::OP_Q_NACK).contains(&op)')]),
('op-echo-skip',[(D,'Response::Data(cursor.read_remaining())','Response::Data(cursor.read_remaining().slice(..0))')]),
('op-unknown-ok',[(D,'_ => Response::Error(format!("Unknown opcode: 0x{:02X}", opcode)),','0xFF => Response::Ok,\n            _ => Response::Error(format!("Unknown opcode: 0x{:02X}", opcode)),')]),
('q-peek-swap',[(Q,"let limit = cursor.read_u32()? as usize;\n                let offset = cursor.read_u32()? as usize;","let offset = cursor.read_u32()? as usize;\n                let limit = cursor.read_u32()? as usize;")]),
('q-ack-swap',[(Q,"let id = Uuid::from_bytes(cursor.read_uuid_bytes()?);\n                let q_name = cursor.read_string()?;\n                Ok(Self::Ack","let q_name = cursor.read_string()?;\n                let id = Uuid::from_bytes(cursor.read_uuid_bytes()?);\n                Ok(Self::Ack")]),
('q-ack-true',[(Q,'false => Response::Error("ACK failed".to_string()),','false => Response::Ok,')]),
('q-push-prio',[(Q,'options.priority.unwrap_or(0)','options.priority.unwrap_or(1)')]),
('q-push-prio-clamp',[(Q,'options.priority.unwrap_or(0)','options.priority.unwrap_or(0).min(9)')]),
('q-consume-swap',[(Q,'consume_batch(q_name, options.batch_size, options.wait_ms)','consume_batch(q_name, options.batch_size.or(Some(1)), options.wait_ms)')]),
('q-consume-wait',[(Q,'consume_batch(q_name, options.batch_size, options.wait_ms)','consume_batch(q_name, options.batch_size, options.wait_ms.map(|w| w / 1000))')]),
('q-nack-reason',[(Q,'queue.nack(&q_name, id, reason)','queue.nack(&q_name, id, reason.trim().to_string())')]),
('q-peek-total',[(Q,'buf.extend_from_slice(&(self.total as u32).to_be_bytes());','buf.extend_from_slice(&(self.messages.len() as u32).to_be_bytes());')]),
('q-peek-order',[(Q,"buf.extend_from_slice(&msg.attempts.to_be_bytes());\n","buf.extend_from_slice(&(msg.attempts + 1).to_be_bytes());\n")]),
('q-peek-reason-len',[(Q,'(reason_bytes.len() as u32)','(msg.failure_reason.chars().count() as u32)')]),
('q-bool-inv',[(Q,'if self.value { 1u8 } else { 0u8 }','if self.value { 0u8 } else { 1u8 }')]),
('q-move-delete',[(Q,'queue.delete_dlq(&q_name, message_id)','queue.move_to_queue(&q_name, message_id)')]),
('q-purge-le',[(Q,'(self.count as u32).to_be_bytes()','(self.count as u32).to_le_bytes()')]),
('q-purge-err',[(Q,'Ok(count) => Response::Data(CountResponse { count }.to_wire()),','Ok(0) => Response::Null,\n            Ok(count) => Response::Data(CountResponse { count }.to_wire()),')]),
('q-create-default',[(Q,"                let q_name = cursor.read_string()?;\n                let json_str = cursor.read_string()?;\n","                let q_name = cursor.read_string()?;\n                let json_str = cursor.read_string().unwrap_or_else(|_| \"{}\".to_string());\n")]),
('s-fetch-swap',[(S,"let limit = cursor.read_u32()?;\n                let wait_ms = cursor.read_u32()?;","let wait_ms = cursor.read_u32()?;\n                let limit = cursor.read_u32()?;")]),
('s-fetch-gen0',[(S,'stream.fetch(&group, &consumer_id, generation, limit','stream.fetch(&group, &consumer_id, generation & 0xFFFF_FFFF, limit')]),
('s-fetch-group',[(S,'stream.fetch(&group, &consumer_id,','stream.fetch(&consumer_id, &group,')]),
('s-fetch-payload',[(S,'buf.put_u64(msg.seq);\n            buf.put_u64(msg.timestamp);','buf.put_u64(msg.timestamp);\n            buf.put_u64(msg.seq);')]),
('s-join-client',[(S,'stream.join_group(&group, &topic, &client)','stream.join_group(&group, &topic, &group)')]),
('s-join-swap',[(S,'buf.put_u64(self.ack_floor);\n        buf.put_u64(self.generation);','buf.put_u64(self.generation);\n        buf.put_u64(self.ack_floor);')]),
('s-ack-seq',[(S,'stream.ack(&group, &topic, &consumer_id, generation, seq)','stream.ack(&group, &topic, &consumer_id, seq, generation)')]),
('s-ack-ok',[(S,"stream.ack(&group, &topic, &consumer_id, generation, seq).await {\n            Ok(_) => Response::Ok,\n            Err(e) => Response::Error(e),","stream.ack(&group, &topic, &consumer_id, generation, seq).await {\n            Ok(_) => Response::Ok,\n            Err(e) if e.is_empty() => Response::Ok,\n            Err(e) => Response::Error(e),")]),
('s-seek-default',[(S,"_ => return Err(ParseError::Invalid(format!(\"Invalid seek target: {}\", target_byte))),","_ => SeekTarget::End,")]),
('s-seek-swap',[(S,"0 => SeekTarget::Beginning,\n                    1 => SeekTarget::End,","1 => SeekTarget::Beginning,\n                    0 => SeekTarget::End,")]),
('s-leave-twice',[(S,"StreamCommand::Exists { topic } => match","StreamCommand::Exists { topic } if topic.is_empty() => match stream.delete_topic(topic).await { Ok(_) => Response::Ok, Err(e) => Response::Error(e) },\n        StreamCommand::Exists { topic } => match")]),
('s-pub-retry',[(S,"match stream.publish(&topic, payload).await {","match { let r = stream.publish(&topic, payload.clone()).await; if r.is_err() { stream.publish(&topic, payload).await } else { r } } {")]),
('s-pub-str',[(S,"let payload = cursor.read_remaining();\n                Ok(Self::Publish","let payload = Bytes::from(cursor.read_string()?.into_bytes());\n                Ok(Self::Publish")]),
('ps-client',[(B,'pubsub.subscribe(client_id, &topic);','pubsub.subscribe(&ClientId(topic.clone()), &topic);')]),
('ps-order',[(B,'pubsub.unsubscribe(client_id, &topic);','pubsub.subscribe(client_id, &topic);')]),
('k-get-error',[(K,'.unwrap_or(Response::Null)','.unwrap_or(Response::Ok)')]),
]
