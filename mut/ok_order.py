Q='src/brokers/queue/domain/queue.rs'
POP="""        let next_id = self.waiting_for_dispatch
            .iter()
            .rev()
            .find_map(|(_, queue)| queue.front().cloned());
"""
M=[
('values',[(Q,POP,"        let next_id = self.waiting_for_dispatch.values().rev().find_map(|b| b.front().copied());\n")]),
('loop',[(Q,POP,"""        let mut next_id = None;
        for (_, bucket) in self.waiting_for_dispatch.iter().rev() {
            if let Some(id) = bucket.front() { next_id = Some(*id); break; }
        }
""")]),
('loop-empty',[(Q,POP,"""        let mut next_id = None;
        for bucket in self.waiting_for_dispatch.values().rev() {
            if bucket.is_empty() { continue; }
            next_id = bucket.iter().next().cloned();
            break;
        }
""")]),
('lastkv',[(Q,POP,"        let next_id = self.waiting_for_dispatch.last_key_value().and_then(|(_, b)| b.front().cloned());\n")]),
('lastentry',[(Q,POP,"        let next_id = self.waiting_for_dispatch.last_entry().and_then(|e| e.get().front().cloned());\n")]),
('nextback',[(Q,POP,"        let next_id = match self.waiting_for_dispatch.iter().next_back() { Some((_, b)) => b.front().cloned(), None => None };\n")]),
('filter',[(Q,POP,"        let next_id = self.waiting_for_dispatch.values().rev().filter(|b| !b.is_empty()).find_map(|b| b.front().cloned());\n")]),
('flat',[(Q,POP,"        let next_id = self.waiting_for_dispatch.iter().rev().flat_map(|(_, b)| b.iter()).next().cloned();\n")]),
('keys',[(Q,POP,"        let next_id = self.waiting_for_dispatch.keys().next_back().copied().and_then(|p| self.waiting_for_dispatch.get(&p)).and_then(|b| b.front().cloned());\n")]),
('lastval',[(Q,POP,"        let next_id = self.waiting_for_dispatch.values().last().and_then(|b| b.front().cloned());\n")]),
]
