L='src/brokers/stream/domain/persistence.rs'
RD='        if seq >= start_seq {\n            msgs.push'
PS='            msgs.push(Message { seq, timestamp, payload });\n            if msgs.len() >= limit { break; }\n'
RP='segments.iter().rposition(|s| s.start_seq <= current_from_seq)'
NX='                    current_from_seq = msgs.last().unwrap().seq + 1;'
LM='                    remaining_limit = remaining_limit.saturating_sub(msgs.len());'
ST='segments.iter().skip(idx)'
M=[
('scan-gt',[(L,RD,RD.replace('>=','>'))]),
('scan-limit1',[(L,'if msgs.len() >= limit { break; }','if msgs.len() + 1 >= limit { break; }')]),
('scan-half',[(L,'if msgs.len() >= limit { break; }','if msgs.len() >= limit / 2 { break; }')]),
('scan-crcbreak',[(L,'        if hasher.finalize() != stored_crc { continue; }\n\n        if content_buf.len() < 16 { continue; }\n        \n        let mut cursor','        if hasher.finalize() != stored_crc { break; }\n\n        if content_buf.len() < 16 { continue; }\n        \n        let mut cursor')]),
('scan-empty',[(L,RD,'        if seq >= start_seq && payload_len > 0 {\n            msgs.push')]),
('scan-short',[(L,'        if content_buf.len() < 16 { continue; }\n        \n        let mut cursor','        if content_buf.len() <= 16 { continue; }\n        \n        let mut cursor')]),
('scan-old',[(L,RD,'        if seq >= start_seq && timestamp > 0 {\n            msgs.push')]),
('scan-passbreak',[(L,RD,'        if seq > start_seq + 100_000 { break; }\n        if seq >= start_seq {\n            msgs.push')]),
('scan-dup',[(L,RD,'        if msgs.last().map_or(false, |m: &Message| m.timestamp == timestamp) { continue; }\n        if seq >= start_seq {\n            msgs.push')]),
('cold-rev',[(L,ST,'segments.iter().skip(idx).rev()')]),
('cold-lt',[(L,RP,'segments.iter().rposition(|s| s.start_seq < current_from_seq).or(Some(segments.len() - 1))')]),
('cold-skip1',[(L,ST,'segments.iter().skip(idx + 1)')]),
('cold-first',[(L,RP,'segments.iter().position(|s| s.start_seq >= current_from_seq)')]),
('cold-one',[(L,ST,'segments.iter().skip(idx).take(1)')]),
('cold-three',[(L,ST,'segments.iter().skip(idx).take(3)')]),
('cold-noext',[(L,'                    all_msgs.extend(msgs);\n','                    if all_msgs.len() < 1000 { all_msgs.extend(msgs); }\n')]),
('cold-plus2',[(L,NX,NX.replace('+ 1','+ 2'))]),
('cold-firstseq',[(L,NX,NX.replace('last()','first()'))]),
('cold-limit',[(L,LM,'                    remaining_limit = remaining_limit.saturating_sub(msgs.len() + 1);')]),
('cold-nolimit',[(L,LM+'\n','')]),
('cold-emptybreak',[(L,'                if !msgs.is_empty() {','                if msgs.is_empty() { break; }\n                {')]),
('cold-stop',[(L,'                if remaining_limit == 0 { break; }','                if remaining_limit <= 1 { break; }')]),
('cold-max',[(L,'let mut current_from_seq = from_seq.max(first_segment.start_seq);','let mut current_from_seq = from_seq.max(1);')]),
('cold-last',[(L,'segments.first() else','segments.last() else')]),
('cold-from1',[(L,'from_seq.max(first_segment.start_seq)','(from_seq + 1).max(first_segment.start_seq)')]),
('cold-name',[(L,'read_log_segment(&segment.path, current_from_seq, remaining_limit)','read_log_segment(&first_segment.path, current_from_seq, remaining_limit)')]),
('find-unsort',[(L,'    segments.sort_by_key(|s| s.start_seq);\n','')]),
('find-path',[(L,'segments.sort_by_key(|s| s.start_seq)','segments.sort_by(|a, b| a.path.cmp(&b.path))')]),
('find-desc',[(L,'segments.sort_by_key(|s| s.start_seq)','segments.sort_by(|a, b| b.start_seq.cmp(&a.start_seq))')]),
]

PP='        let mut all_msgs = Vec::new();\n        let Some(first_segment)'
M+=[
('pp-wrong',[(L,'segments.iter().rposition(|s| s.start_seq <= current_from_seq)','Some(segments.partition_point(|s| s.start_seq <= current_from_seq + 1).saturating_sub(1))')]),
('pp-nosub',[(L,'segments.iter().rposition(|s| s.start_seq <= current_from_seq)','Some(segments.partition_point(|s| s.start_seq <= current_from_seq))')]),
('cold-step',[(L,'for segment in segments.iter().skip(idx) {','for segment in segments.iter().skip(idx).step_by(2) {')]),
('cold-idx2',[(L,"            for segment in segments.iter().skip(idx) {\n","            let mut at = idx;\n            while let Some(segment) = segments.get(at) {\n                at += if remaining_limit > 500 { 2 } else { 1 };\n")]),
]
T='src/brokers/stream/manager.rs'
M+=[
('mem-ramlt',[(T,'                && effective_from_seq < inner.state.ram_start_seq','                && effective_from_seq + 1 < inner.state.ram_start_seq')]),
('mem-nextlt',[(T,'                && effective_from_seq < inner.state.next_seq;','                && effective_from_seq + limit as u64 <= inner.state.next_seq;')]),
('mem-from',[(T,'            let messages = inner.state.read(effective_from_seq, limit);','            let messages = inner.state.read(effective_from_seq.max(inner.state.ram_start_seq), limit);')]),
('mem-limit',[(T,'            let messages = inner.state.read(effective_from_seq, limit);','            let messages = inner.state.read(effective_from_seq, limit.min(1000));')]),
('disk-from',[(T,'            from_seq: effective_from_seq,','            from_seq: effective_from_seq + 1,')]),
('disk-limit',[(T,'            from_seq: effective_from_seq,\n            limit,','            from_seq: effective_from_seq,\n            limit: limit.saturating_sub(1),')]),
('group-ramlt',[(T,'            if from_seq < ram_start_seq {','            if from_seq + 1 < ram_start_seq {')]),
('group-next',[(T,'        if from_seq < next_seq {','        if from_seq + 1 < next_seq {')]),
('group-from',[(T,'            let from_seq = group_ref.next_fetch_seq(head_seq);','            let from_seq = group_ref.next_fetch_seq(head_seq) + 1;')]),
('group-limit',[(T,'            from_seq,\n            limit,\n            reply: tx,\n        }).is_err()','            from_seq,\n            limit: 1 + limit / 2,\n            reply: tx,\n        }).is_err()')]),
('group-wait',[(T,'                Ok(FetchAttempt::NeedColdRead { from_seq }) => {\n','                Ok(FetchAttempt::NeedColdRead { .. }) if wait_ms < 5 => return Ok(Vec::new()),\n                Ok(FetchAttempt::NeedColdRead { from_seq }) => {\n')]),
('group-depth',[(T,'            if from_seq < ram_start_seq {','            if from_seq < ram_start_seq && ram_start_seq - from_seq < 100_000 {')]),
]
