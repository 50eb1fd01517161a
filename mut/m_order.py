Q='src/brokers/queue/domain/queue.rs'
POP="""            .iter()
            .rev()
            .find_map(|(_, queue)| queue.front().cloned());"""
M=[
('norev',[(Q,POP,POP.replace("            .rev()\n",""))]),
('back',[(Q,POP,POP.replace("front","back"))]),
('skip1',[(Q,POP,POP.replace(".rev()",".rev()\n            .skip(1)"))]),
('last',[(Q,POP,POP.replace("queue.front()","queue.iter().last()"))]),
('min',[(Q,POP,"            .iter().filter(|(_, q)| q.len() > 1).last().or_else(|| self.waiting_for_dispatch.iter().next_back()).and_then(|(_, queue)| queue.front().cloned());")]),
('filterbig',[(Q,POP,POP.replace(".rev()",".rev()\n            .filter(|(_, q)| q.len() < 1000)"))]),
('lowfirst',[(Q,POP,POP.replace("front().cloned()","iter().find(|i| self.registry.get(*i).map(|m| m.attempts == 0).unwrap_or(false)).cloned()"))]),
('push-front',[(Q,"                self.waiting_for_dispatch.entry(priority).or_default().insert(id);\n            }\n            MessageState::InFlight","                let b = self.waiting_for_dispatch.entry(priority).or_default();\n                b.insert(id);\n                if b.len() > 1 { b.to_front(&id); }\n            }\n            MessageState::InFlight")]),
]
