"""wrong versions of the second batch of refactorings, pub/sub"""
import sys; sys.path.insert(0,'/verif/mut')
import ok_fresh_p as O
B=dict((m[0],m[1]) for m in O.M)
R=O.R; P=O.P
def v(base,name,*ed): return (base+':'+name, B[base]+list(ed))
M=[
v('persist-rows','keepdead',(P,'.filter(|(_, msg)| !msg.is_expired())','.filter(|(_, msg)| msg.is_expired() || true)')),
v('persist-rows','onlydead',(P,'.filter(|(_, msg)| !msg.is_expired())','.filter(|(_, msg)| msg.is_expired())')),
v('persist-rows','stop',(P,'rows.flatten().filter(','rows.flatten().take_while(')),
v('persist-rows','take',(P,'rows.flatten().filter(','rows.flatten().take(100).filter(')),
v('persist-rows','cols',(P,'let path: String = row.get("path")?','let path: String = row.get("data")?')),
v('persist-rows','noexp',(P,'expires.map(|v| v as u64)','expires.filter(|v| *v > i64::MAX).map(|v| v as u64)')),
v('persist-rows','width',(P,'let expires: Option<i64> = row.get("expires_at")?;','let expires: Option<i32> = row.get("expires_at")?;')),
v('persist-rows','where',(P,'expires_at FROM retained"','expires_at FROM retained WHERE expires_at IS NULL"')),
v('match-extend','noany',(R,'exact.into_iter().chain(any)','exact.into_iter().chain(any.filter(|_| exact.is_none()))')),
v('match-extend','one',(R,'exact.into_iter().chain(any) {','exact.into_iter().chain(any).take(1) {')),
v('match-extend','parts',(R,'node.match_subscribers(tail, results);\n                }','node.match_subscribers(parts, results);\n                }')),
v('match-extend','nohash',(R,'results.extend(node.subscribers.iter().cloned());\n        }\n        match','if parts.len() > 1 { results.extend(node.subscribers.iter().cloned()); }\n        }\n        match')),
v('ins-rec','tail',(R,'''                    .get_or_insert_with(|| Box::new(Node::new()))
                    .insert_subscriber(tail, client),''','''                    .get_or_insert_with(|| Box::new(Node::new()))
                    .insert_subscriber(&[], client),''')),
v('ins-rec','skip',(R,'            [head, tail @ ..] => match head.as_str() {','            [_, head, tail @ ..] => match head.as_str() {\n                "x" => {}'),(R,'            [] => {\n                self.subscribers','            [] | [_] => {\n                self.subscribers')),
v('ins-rec','self',(R,'                    node.subscribers.insert(client.clone());\n                }\n                "+"','                    let _ = node; self.subscribers.insert(client.clone());\n                }\n                "+"')),
v('set-self-rec','tail',(R,'child.set_retained(tail, retained);','child.set_retained(&tail[tail.len().min(1)..], retained);')),
v('set-self-rec','one',(R,'if let [head, tail @ ..] = parts {','if let [head, _, tail @ ..] = parts {')),
v('set-rec','skip',(R,'            .iter()\n            .fold(self','            .iter()\n            .skip(1)\n            .fold(self')),
v('set-rec','rev',(R,'            .iter()\n            .fold(self','            .iter()\n            .rev()\n            .fold(self')),
v('set-rec','none',(R,'        node.retained = retained;','        if retained.is_some() { node.retained = retained; }')),
]
