"""wrong versions of the second batch of refactorings, stream"""
import sys; sys.path.insert(0,'/verif/mut')
import ok_fresh_s as O
B=dict((m[0],m[1]) for m in O.M)
S=O.S; M_=O.M_
def v(base,name,*ed): return (base+':'+name, B[base]+list(ed))
M=[
v('record-reader','len8',(S,'if content.len() < 16 { return None; }','if content.len() < 8 { return None; }')),
v('record-reader','swap',(S,'u32::from_be_bytes([header[4], header[5], header[6], header[7]])','u32::from_be_bytes([header[4], header[5], header[7], header[6]])')),
v('record-reader','le',(S,'let len = u32::from_be_bytes([','let len = u32::from_le_bytes([')),
v('record-reader','nocrc-groups',(S,'        if !valid { break; }\n        let mut body','        let mut body')),
v('record-reader','nocrc-seg',(S,'        if !valid { break; }\n        match','        match')),
v('record-reader','nocrc-read',(S,'        if !valid { continue; }\n        let Some(msg)','        let Some(msg)')),
v('record-reader','off',(S,'content[8..16].try_into','content[7..15].try_into')),
v('record-reader','start',(S,'if msg.seq < start_seq { continue; }','if msg.seq <= start_seq { continue; }')),
v('record-reader','limit',(S,'        msgs.push(msg);\n        if msgs.len() >= limit { break; }','        if msgs.len() + 1 >= limit { break; }\n        msgs.push(msg);')),
v('flush-retain','failgone',(S,'Some(ctx) if failed.contains(&ctx.active_path) => true,','Some(ctx) if failed.contains(&ctx.active_path) => false,')),
v('flush-retain','nofailed',(S,'                failed.push(path.clone());\n            }\n        }\n        let topics','                let _ = path;\n            }\n        }\n        failed.clear();\n        let topics')),
v('flush-retain','keep0',(S,'                    ctx.highest_pending_seq = 0;\n                }\n                false','                    ctx.highest_pending_seq = 0;\n                }\n                ctx.persisted_seq.store(0, Ordering::Release);\n                false')),
v('recover-split','first',(S,'        index -= 1;\n        let messages = load_segment_file(&segments[index].path).await;\n        if !messages.is_empty() {','        index -= 1;\n        let messages = load_segment_file(&segments[index].path).await;\n        if !messages.is_empty() || index == 1 {')),
v('recover-split','head',(S,'segments.first().map_or(1, |seg| seg.start_seq)','segments.last().map_or(1, |seg| seg.start_seq)')),
v('recover-split','once',(S,'    while index > 0 {','    if index > 0 {')),
v('mgr-disconnect','nomark',(M_,'        if removed > 0 {\n            inner.groups_dirty = true;\n        }\n        removed > 0','        if removed > 1 {\n            inner.groups_dirty = true;\n        }\n        removed > 0')),
v('mgr-disconnect','nonotify',(M_,'            inner.groups_dirty = true;\n        }\n        removed > 0','            inner.groups_dirty = true;\n        }\n        removed > 1')),
v('mgr-disconnect','first',(M_,'for ConsumerBinding { group_id, consumer_id } in &bindings {','for ConsumerBinding { group_id, consumer_id } in bindings.iter().take(1) {')),
v('mgr-redeliv-helper','lost',(M_,'group.check_redelivery() || changed','changed || group.check_redelivery()')),
v('mgr-redeliv-helper','last',(M_,'group.check_redelivery() || changed','{ let _ = changed; group.check_redelivery() }')),
v('mgr-redeliv-helper','true',(M_,'        if changed {\n            inner.groups_dirty = true;\n        }\n        changed','        if !changed {\n            inner.groups_dirty = true;\n        }\n        changed')),
]
