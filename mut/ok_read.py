L='src/brokers/stream/domain/persistence.rs'
S=open('/repo/'+L).read()
def body(name):
    i=S.index(name); j=S.index('\n    }\n',i)+7 if name.startswith('    ') else S.index('\n}\n',i)+3
    return S[i:j]
CR=body('    async fn cold_read(')
RS=body('pub async fn read_log_segment(')
FS=body('pub async fn find_segments(')
H='''    async fn cold_read(&self, topic_name: &str, from_seq: u64, limit: usize) -> Vec<Message> {
        let base_path = self.base_path.join(topic_name);
        let segments = find_segments(&base_path).await.unwrap_or_default();
'''
M=[
('cold-pp',[(L,CR,H+'''        if segments.is_empty() { return Vec::new(); }
        let start = segments.partition_point(|s| s.start_seq <= from_seq).saturating_sub(1);
        let mut out = Vec::new();
        let mut from = from_seq;
        for segment in &segments[start..] {
            let left = limit - out.len();
            if left == 0 { break; }
            let found = read_log_segment(&segment.path, from, left).await;
            if let Some(last) = found.last() { from = last.seq + 1; }
            out.extend(found);
        }
        out
    }
''')]),
('cold-all',[(L,CR,H+'''        let mut out = Vec::new();
        for segment in segments {
            if out.len() >= limit { break; }
            let found = read_log_segment(&segment.path, from_seq, limit - out.len()).await;
            out.extend(found);
        }
        out
    }
''')]),
('cold-loop',[(L,CR,H+'''        let mut out = Vec::new();
        let Some(first) = segments.first() else { return out; };
        let mut next = if from_seq < first.start_seq { first.start_seq } else { from_seq };
        let mut left = limit;
        let Some(mut idx) = segments.iter().rposition(|s| s.start_seq <= next) else { return out; };
        while idx < segments.len() && left > 0 {
            let mut part = read_log_segment(&segments[idx].path, next, left).await;
            if let Some(m) = part.last() {
                next = m.seq + 1;
                left -= part.len();
            }
            out.append(&mut part);
            idx += 1;
        }
        out
    }
''')]),
('cold-whilelet',[(L,CR,H+'''        let mut out: Vec<Message> = Vec::new();
        let mut next = match segments.first() { Some(f) => from_seq.max(f.start_seq), None => return out };
        let start = segments.iter().rposition(|s| s.start_seq <= next).unwrap_or(0);
        let mut it = segments.iter().skip(start);
        while let Some(segment) = it.next() {
            if out.len() == limit { break; }
            let part = read_log_segment(&segment.path, next, limit - out.len()).await;
            for m in part {
                next = m.seq + 1;
                out.push(m);
            }
        }
        out
    }
''')]),
('cold-rsplit',[(L,CR,CR.replace('''        if let Some(idx) = segments.iter().rposition(|s| s.start_seq <= current_from_seq) {
            for segment in segments.iter().skip(idx) {''','''        if let Some((idx, _)) = segments.iter().enumerate().rev().find(|(_, s)| s.start_seq <= current_from_seq) {
            for segment in segments[idx..].iter() {'''))]),
('scan-if',[(L,RS,RS.replace('''        if seq >= start_seq {
            msgs.push(Message { seq, timestamp, payload });
            if msgs.len() >= limit { break; }
        }''','''        if seq < start_seq { continue; }
        msgs.push(Message { seq, timestamp, payload });
        if msgs.len() >= limit { return msgs; }'''))]),
('scan-while',[(L,RS,RS.replace('    loop {\n','    let mut left = limit.max(1);\n    while left > 0 {\n').replace('''            if msgs.len() >= limit { break; }
''','''            left -= 1;
'''))]),
('scan-nested',[(L,RS,RS.replace('''        if hasher.finalize() != stored_crc { continue; }

        if content_buf.len() < 16 { continue; }
''','''        let intact = hasher.finalize() == stored_crc;
        if !intact || content_buf.len() < 16 { continue; }
'''))]),
('find-vecsort',[(L,FS,FS.replace('segments.sort_by_key(|s| s.start_seq)','segments.sort_unstable_by(|a, b| a.start_seq.cmp(&b.start_seq))'))]),
('find-strip',[(L,FS,FS.replace('''        if fname.ends_with(".log") && fname != "groups.log" {
            let name_part = &fname[..fname.len() - 4];
            if let Ok(start_seq) = name_part.parse::<u64>() {
                segments.push(Segment { path, start_seq });
            }
        }''','''        let Some(name_part) = fname.strip_suffix(".log") else { continue };
        if let Ok(start_seq) = name_part.parse::<u64>() {
            segments.push(Segment { start_seq, path });
        }'''))]),
('find-match',[(L,FS,FS.replace('''            if let Ok(start_seq) = name_part.parse::<u64>() {
                segments.push(Segment { path, start_seq });
            }''','''            match name_part.parse() {
                Ok(start_seq) => segments.push(Segment { path, start_seq }),
                Err(_) => continue,
            }'''))]),
]
for n,e in M:
    for x in e: assert x[1]!=x[2], n
M+=[
('cold-range',[(L,CR,H+'''        let mut out = Vec::new();
        let Some(first) = segments.first() else { return out; };
        let mut next = from_seq.max(first.start_seq);
        let start = segments.partition_point(|s| s.start_seq <= next) - 1;
        for i in start..segments.len() {
            let part = read_log_segment(&segments[i].path, next, limit - out.len()).await;
            if let Some(m) = part.last() { next = m.seq + 1; }
            out.extend(part);
            if out.len() >= limit { break; }
        }
        out
    }
''')]),
]
M+=[
('cold-get',[(L,CR,H+'''        let mut out = Vec::new();
        let mut i = segments.partition_point(|s| s.start_seq <= from_seq).saturating_sub(1);
        let mut left = limit;
        while let Some(segment) = segments.get(i) {
            if left == 0 { break; }
            let part = read_log_segment(&segment.path, from_seq, left).await;
            left -= part.len();
            out.extend(part);
            i += 1;
        }
        out
    }
''')]),
]
T='src/brokers/stream/manager.rs'
ST=open('/repo/'+T).read()
def bm(name):
    i=ST.index(name); j=ST.index('\n    }\n',i)+7
    return ST[i:j]
TF=bm('    fn try_fetch_once('); RD=bm('    pub async fn read('); CF=bm('    async fn cold_fetch(')
M+=[
('mgr-read2',[(T,RD,'''    pub async fn read(&self, topic: &str, from_seq: u64, limit: usize) -> Vec<Message> {
        let Some(topic_ref) = self.get_topic(topic) else { return vec![] };
        let cold = {
            let inner = Self::lock_topic(&topic_ref.inner);
            let from = std::cmp::max(from_seq, inner.state.head_seq);
            let found = inner.state.read(from, limit);
            if !found.is_empty() { return found; }
            let s = &inner.state;
            (from < s.ram_start_seq.min(s.next_seq)).then_some(from)
        };
        let Some(from_seq) = cold else { return vec![] };
        let (reply, rx) = oneshot::channel();
        let cmd = StorageCommand::ColdRead { topic_name: topic.to_owned(), from_seq, limit, reply };
        if self.storage_tx.send(cmd).is_err() { return Vec::new(); }
        match rx.await { Ok(v) => v, Err(_) => Vec::new() }
    }
''')]),
('mgr-try',[(T,TF,TF.replace('''        if !messages.is_empty() {
            return Ok(FetchAttempt::Ready(messages));
        }

        if is_fetching_cold {
            return Ok(FetchAttempt::Ready(Vec::new()));
        }

        if from_seq < next_seq {
            if from_seq < ram_start_seq {
                if let Some(group_ref) = groups.get_mut(group) {
                    group_ref.is_fetching_cold = true;
                }
                return Ok(FetchAttempt::NeedColdRead { from_seq });
            }
        }

        Ok(FetchAttempt::Wait)
''','''        if is_fetching_cold || !messages.is_empty() {
            return Ok(FetchAttempt::Ready(messages));
        }
        if from_seq >= next_seq || from_seq >= ram_start_seq {
            return Ok(FetchAttempt::Wait);
        }
        if let Some(group_ref) = groups.get_mut(group) {
            group_ref.is_fetching_cold = true;
        }
        Ok(FetchAttempt::NeedColdRead { from_seq })
'''))]),
('mgr-try-match',[(T,TF,TF.replace('''        if !messages.is_empty() {
            return Ok(FetchAttempt::Ready(messages));
        }

        if is_fetching_cold {
            return Ok(FetchAttempt::Ready(Vec::new()));
        }

        if from_seq < next_seq {
            if from_seq < ram_start_seq {
''','''        match (messages.len(), is_fetching_cold) {
            (0, false) => {}
            (0, true) => return Ok(FetchAttempt::Ready(Vec::new())),
            _ => return Ok(FetchAttempt::Ready(messages)),
        }

        {
            let on_disk = state.log.front().is_none() || from_seq < ram_start_seq;
            if from_seq < next_seq && from_seq < ram_start_seq && on_disk {
'''))]),
]
