"""wrong versions of the second batch of refactorings, tcp"""
import sys; sys.path.insert(0,'/verif/mut')
import ok_fresh_t as O_
B=dict((m[0],m[1]) for m in O_.M)
O=O_.O; U=O_.U; QT=O_.QT
def v(base,name,*ed): return (base+':'+name, B[base]+list(ed))
M=[
v('dec-get','short',(O,'src.get(..FrameHeader::SIZE)','src.get(..FrameHeader::SIZE + 1).map(|h| &h[..FrameHeader::SIZE])')),
v('dec-get','off',(O,'src.get(..FrameHeader::SIZE)','src.get(1..FrameHeader::SIZE + 1)')),
v('enc-fn','swap',(O,'&[frame_type, meta]','&[meta, frame_type]')),
v('enc-fn','le',(O,'dst.put_slice(&len.to_be_bytes());','dst.put_slice(&len.to_le_bytes());')),
v('enc-fn','len',(O,'put_header(dst, frame_type, meta, id, payload.len() as u32);','put_header(dst, frame_type, meta, id, payload.len() as u16 as u32);')),
v('enc-fn','null',(O,'Response::Null => (STATUS_NULL, Bytes::new())','Response::Null => (STATUS_OK, Bytes::new())')),
v('enc-fn','order',(O,'    dst.put_slice(&id.to_be_bytes());\n    dst.put_slice(&len.to_be_bytes());','    dst.put_slice(&len.to_be_bytes());\n    dst.put_slice(&id.to_be_bytes());')),
v('cur-need','u64le',(U,'self.take::<8>("u64").map(u64::from_be_bytes)','self.take::<8>("u64").map(u64::from_le_bytes)')),
v('cur-need','noneed',(U,'        self.need(N, what)?;\n','        self.need(1, what)?;\n')),
v('cur-need','lt',(U,'if self.data.len() < len {','if self.data.len() <= len {')),
v('q-handle','peek',(QT,'PeekDlqResponse { total, messages }','PeekDlqResponse { total: messages.len() + 0 * total, messages }')),
v('q-handle','exists',(QT,'check(queue.exists(&q_name).await, "Queue not found")','check(!queue.exists(&q_name).await, "Queue not found")')),
v('q-handle','err',(QT,'result.map_or_else(Response::Error, |value|','result.map_or_else(|_| Response::Null, |value|')),
v('q-handle','swap',(QT,'queue.peek_dlq(&q_name, limit, offset)','queue.peek_dlq(&q_name, offset, limit)')),
]
