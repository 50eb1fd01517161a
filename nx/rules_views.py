"""V01: looking at the broker changes nothing.

An effect analysis over the MIR of everything a viewing request runs.  Shared state can only be changed through a `&mut`
obtained from a lock guard (or from the exclusive owner of a task), through a type with interior mutability, over a channel,
or through the file system.  Each of these is looked for in every function reachable from a view; a `&mut` to shared state is
followed through reborrows, moves, closures and calls, and is an effect when something is stored through it or when it is
handed to a library function that is not known to only pass it on."""
import re
from mir import Prog, is_guard_def, strip_generics
from core import Report, where, methods

# library functions that turn `&mut T` into something that lies in it without changing it
PASS = {'deref_mut', 'as_mut', 'as_deref_mut', 'iter_mut', 'values_mut', 'get_mut', 'index_mut', 'borrow_mut', 'next', 'next_back', 'into_iter', 'value_mut', 'pair_mut', 'first_mut', 'last_mut',
        'unwrap', 'expect', 'map', 'and_then', 'filter', 'enumerate', 'rev', 'skip', 'take', 'zip', 'chain', 'by_ref', 'unwrap_or_else', 'unwrap_or', 'ok_or_else', 'ok_or', 'ok', 'from', 'into', 'new_unchecked', 'new', 'get_unchecked_mut', 'get_ref', 'as_ref',
        'into_future', 'poll', 'branch', 'from_output', 'as_mut_slice', 'last_entry', 'first_entry', 'inspect', 'for_each', 'fold', 'any', 'all', 'find', 'position', 'count', 'len', 'collect', 'filter_map', 'flat_map', 'peekable', 'peek', 'clone', 'fmt', 'eq', 'cmp', 'partial_cmp', 'is_empty', 'contains_key', 'contains', 'get', 'is_some', 'is_none', 'drop', 'key', 'value', 'instrument', 'pin', 'into_inner'}
MAPMUT = {'insert', 'remove', 'remove_if', 'remove_if_mut', 'retain', 'clear', 'alter', 'alter_all', 'or_insert', 'or_insert_with', 'or_default', 'or_try_insert_with', 'or_insert_with_key', 'insert_entry', 'insert_with', 'remove_entry', 'replace_entry', 'extend', 'swap_remove', 'and_modify'}
ATOMMUT = re.compile(r'^(store|swap|fetch_\w+|compare_exchange\w*|compare_and_swap|get_mut)$')
FSMUT = {'write', 'create_dir', 'create_dir_all', 'remove_dir', 'remove_dir_all', 'remove_file', 'rename', 'copy', 'hard_link', 'set_permissions', 'symlink', 'create', 'create_new', 'set_len', 'write_all'}
OPENMUT = {'write', 'append', 'create', 'create_new', 'truncate'}
NOTIFY = {'notify_one', 'notify_waiters', 'notify_last', 'cancel', 'abort', 'abort_all', 'add_permits', 'forget', 'close', 'shutdown', 'notify_all'}

class Views:
    def __init__(self, P, rep, ok_variants=('ColdRead',)):
        self.P = P; self.rep = rep; self.ok = ok_variants; self.done = set(); self.ncalls = 0; self.commands = {}
    # ---- types
    def mutref(self, ti, depth=0):
        """may a value of this type be used to change what it points to?"""
        t = self.P.ty(ti); k = t['k']
        if k == 'ref': return '&mut' in t['s'][:40].split(' ')[0] or t['s'].startswith('&mut') or bool(re.match(r"&('\w+ )?mut ", t['s']))
        if k in ('closure', 'coroutine'): return True
        if k == 'ptr': return '*mut' in t['s']
        if depth > 5: return False
        if k == 'adt' and re.search(r'(IterMut|ValuesMut|RefMut|OccupiedEntry|VacantEntry|Drain)$', t['def']): return True
        if k in ('dyn', 'alias'): return '&mut' in t['s'] or '&\'' in t['s'] and ' mut ' in t['s']
        return any(self.mutref(a, depth + 1) for a in t.get('args', []) if self.P.ty(a)['k'] != 'lifetime')
    def guardty(self, ti):
        """a guard that gives out `&mut` to what it locks, behind references"""
        t = self.P.ty(ti)
        while t['k'] == 'ref' and t.get('args'): t = self.P.ty(t['args'][0])
        return t['k'] == 'adt' and (is_guard_def(t['def']) or t['def'].startswith('core::cell::RefMut'))
    # ---- one function
    def run(self, f, tainted=(), path=(), root='', blocks=None, exempt=()):
        """effects of f when the parameters `tainted` are `&mut` to shared state"""
        key = (f.path, tuple(sorted(tainted)), None if blocks is None else tuple(sorted(blocks)), root)
        if key in self.done: return
        self.done.add(key)
        P = self.P; path = path + (f.path,)
        self.rep.fns.add(f.path); self.rep.count('functions analysed')
        T = set(tainted)
        bl = every = [(i, b) for i, b in enumerate(f.blocks) if not b['c']]
        def isT(p): return p[0] in T
        def opT(o): return o[0] in ('cp', 'mv') and isT(o[1]) and self.mutref(self.pty(f, o[1]))
        ch = True
        while ch:
            ch = False
            def taint(l):
                nonlocal ch
                if l not in T: T.add(l); ch = True
            for i, b in bl:
                for s in b['s']:
                    if s[0] != '=': continue
                    d, r = s[1], s[2]
                    if r[0] == 'ref' and isT(r[2]) and r[1] not in ('shared', 'fake', '') and self.mutref(f.locals[d[0]][0]):
                        taint(d[0])
                    elif r[0] in ('use',) and opT(r[1]): taint(d[0])
                    elif r[0] == 'cast' and opT(r[2]): taint(d[0])
                    elif r[0] == 'agg' and any(opT(o) for o in r[1]['ops']): taint(d[0])
                t = b['t']
                if t['k'] == 'call':
                    n, full, g = self.callee(t)
                    src = n in ('deref_mut', 'index_mut', 'value_mut', 'pair_mut', 'get_mut', 'as_mut', 'iter_mut') and t['at'] and self.guardty(t['at'][0]) or n in ('iter_mut',) and 'dashmap' in full
                    dty = f.locals[t['d'][0]][0] if not t['d'][1] else None
                    if src and not (full.startswith('dashmap') and n == 'get_mut') or (any(opT(o) for o in t['a']) and dty is not None and self.mutref(dty)):
                        taint(t['d'][0])
        if blocks is not None: bl = [(i, b) for i, b in every if i in blocks]
        for i, b in bl:
            for s in b['s']:
                if s[0] == '=' and isT(s[1]) and any(e[0] == '*' for e in s[1][1]) and not self.ownenv(f, s[1]):
                    self.bad(f, path, root, 'store', 'writes to state that is shared', s[3] if len(s) > 3 else f.span)
            t = b['t']
            if t['k'] == 'drop': continue
            if t['k'] != 'call':
                continue
            self.ncalls += 1; self.rep.count('calls looked at')
            n, full, g = self.callee(t)
            targs = [j for j, o in enumerate(t['a']) if opT(o)]
            self.effect(f, path, root, t, n, full, exempt)
            if t['d'][1] and isT(t['d']) and any(e[0] == '*' for e in t['d'][1]) and not self.ownenv(f, t['d']):
                self.bad(f, path, root, 'store', 'writes to state that is shared', t.get('sp', f.span))
            if g is not None:
                self.enter(g, targs, path, root)
            elif targs and n not in PASS and not self.lent(f, t, targs):
                self.bad(f, path, root, 'call:' + n, 'changes shared state through %s' % n, t.get('sp', f.span))
            # closures handed over run here; what they were made of decides what they may change
        for i, b in bl:
            for s in b['s']:
                if s[0] == '=' and s[2][0] == 'agg' and s[2][1]['k'] in ('closure', 'coroutine'):
                    c = P.fns.get(s[2][1]['def'])
                    if c is None: continue
                    tt = any(opT(o) for o in s[2][1]['ops'])
                    self.run(c, (1,) if tt else (), path, root)
                # functions named as values
                if s[0] == '=':
                    for o in ([s[2][1]] if s[2][0] == 'use' else [s[2][2]] if s[2][0] == 'cast' else s[2][1]['ops'] if s[2][0] == 'agg' else []): self.named(o, path, root)
            if b['t']['k'] == 'call':
                for o in b['t']['a']: self.named(o, path, root)
    def named(self, o, path, root):
        if o[0] == 'c' and 'fn' in o[1]:
            for q in (o[1].get('res'), o[1]['fn']):
                if q in self.P.fns: self.enter(self.P.fns[q], (), path, root); break
    def enter(self, g, targs, path, root):
        self.run(g, tuple(j + 1 for j in targs), path, root)
        c = self.P.fns.get(g.path + '::{closure#0}') if g.j.get('async') else None
        if c is not None: self.run(c, (1,) if targs else (), path, root)
    def ownenv(self, f, p):
        """a store into the closure's or coroutine's own captured values (not through a reference they hold)"""
        return f.kind in ('closure', 'coroutine') and p[0] == 1 and sum(1 for e in p[1] if e[0] == '*') <= (1 if f.kind == 'closure' else 1) and not self.refcapt(f, p)
    def refcapt(self, f, p):
        return sum(1 for e in p[1] if e[0] == '*') >= 1 and any(e[0] == 'f' and self.mutref(e[4]) and p[1][k + 1:] and p[1][k + 1][0] == '*' for k, e in enumerate(p[1]))
    def lent(self, f, t, targs):
        """the library only gets a closure or a future that holds the `&mut`; it is judged where it is defined"""
        return all(self.P.ty(t['at'][j])['k'] in ('closure', 'coroutine') for j in targs)
    def pty(self, f, p):
        ti = f.locals[p[0]][0]
        for e in p[1]:
            if e[0] == 'f': ti = e[4]
            elif e[0] == '*':
                a = [x for x in self.P.ty(ti).get('args', []) if self.P.ty(x)['k'] != 'lifetime']
                if a: ti = a[0]
        return ti
    def callee(self, t):
        c = t['f']
        if c[0] != 'c' or 'fn' not in c[1]: return '?', '?', None
        g = None
        for q in (c[1].get('res'), c[1]['fn']):
            if q in self.P.fns: g = self.P.fns[q]; break
        full = strip_generics(c[1].get('res') or c[1]['fn'])
        return full.split('::')[-1], full, g
    def bad(self, f, path, root, key, msg, span):
        self.rep.violation('%s:%s' % (root, key), '%s: a request that only looks %s' % (root, msg), where(span) or f.path, path)
    # ---- effects of library calls on shared things
    def effect(self, f, path, root, t, n, full, exempt):
        rt = self.P.tys(t['at'][0]) if t['at'] else ''
        sp = t.get('sp', f.span)
        def bad(k, m): self.bad(f, path, root, k, m, sp)
        if full.startswith('dashmap') and n in MAPMUT: bad('map:' + n, 'changes a shared map (%s)' % n)
        elif 'sync::atomic' in full and ATOMMUT.match(n): bad('atomic', 'changes an atomic (%s)' % n)
        elif re.search(r'(Once(Lock|Cell)|cell::(Ref)?Cell|LazyCell|ArcSwap)', rt) and n in ('set', 'replace', 'swap', 'get_or_init', 'take', 'store', 'rcu', 'get_or_try_init'): bad('cell', 'changes a shared cell')
        elif n in ('send', 'try_send', 'blocking_send', 'send_timeout', 'send_replace', 'send_modify', 'send_if_modified') and re.search(r'(mpsc|broadcast|watch|crossbeam|flume)', full + rt):
            v = self.sent(f, t)
            if v and set(v) <= set(self.ok): self.rep.count('requests for data sent'); self.commands.setdefault(root, set()).update(v)
            else: bad('send', 'sends %s to another task' % ('/'.join(sorted(v)) if v else 'something'))
        elif n in NOTIFY and re.search(r'(Notify|CancellationToken|JoinHandle|JoinSet|Semaphore|Condvar|Sender|AbortHandle|TcpStream)', full + rt): bad('notify:' + n, 'wakes or ends somebody (%s)' % n)
        elif re.search(r'\bfs::', full) and n in FSMUT and 'OpenOptions' not in full: bad('fs:' + n, 'changes files (%s)' % n)
        elif 'OpenOptions' in full and n in OPENMUT: bad('fs:open', 'opens a file for writing')
        elif full.startswith('rusqlite') and n in ('execute', 'execute_batch', 'open', 'open_with_flags', 'pragma_update', 'commit'): bad('sql:' + n, 'changes a database (%s)' % n)
        elif n in ('spawn', 'spawn_blocking', 'spawn_local') : self.rep.count('tasks of views followed')
    def sent(self, f, t):
        """variants of the command handed to a send"""
        a = t['a'][-1]
        if a[0] not in ('mv', 'cp'): return None
        work = [a[1][0]]; seen = set(); out = set()
        while work:
            l = work.pop()
            if l in seen: continue
            seen.add(l)
            for b in f.blocks:
                for s in b['s']:
                    if s[0] != '=' or s[1][1] or s[1][0] != l: continue
                    if s[2][0] == 'agg' and s[2][1]['k'] == 'adt': out.add(s[2][1].get('variant') or s[2][1]['def'])
                    elif s[2][0] == 'use' and s[2][1][0] in ('mv', 'cp'): work.append(s[2][1][1][0])
                    else: return None
                if b['t']['k'] == 'call' and b['t']['d'] == [l, []]: return None
        return out

def served(P):
    """functions that serve GET requests: handed to `get` of a router"""
    out = []
    for f in P.libfns:
        for b in f.blocks:
            t = b['t']
            if b['c'] or t['k'] != 'call' or t['f'][0] != 'c': continue
            n = strip_generics(str(t['f'][1].get('fn', '')))
            if not (n.startswith('axum') and n.split('::')[-1] in ('get', 'get_service', 'on')): continue
            for o, ti in zip(t['a'], t['at']):
                if o[0] == 'c' and 'fn' in o[1]:
                    for q in (o[1].get('res'), o[1]['fn']):
                        if q in P.fns: out.append(P.fns[q]); break
                elif P.ty(ti)['k'] == 'closure' and P.ty(ti)['def'] in P.fns: out.append(P.fns[P.ty(ti)['def']])
    return out

def handlers(P, variants):
    """(function, variant, blocks of its arm, locals taken from it) for every match on a command that has one of the variants"""
    for f in P.libfns:
        dis = {}
        for i, b in enumerate(f.blocks):
            for s in b['s']:
                if s[0] == '=' and s[2][0] == 'discr' and not s[1][1]: dis[s[1][0]] = s[2][1]
            t = b['t']
            if b['c'] or t['k'] != 'switch' or t['d'][0] not in ('mv', 'cp') or t['d'][1][0] not in dis: continue
            p = dis[t['d'][1][0]]; ti = f.locals[p[0]][0]
            for e in p[1]:
                if e[0] == 'f': ti = e[4]
            ty = P.ty(ti)
            while ty['k'] == 'ref' and ty.get('args'): ty = P.ty([a for a in ty['args'] if P.ty(a)['k'] != 'lifetime'][0])
            ad = P.adts.get(ty.get('def'))
            if not ad or len(ad['variants']) < 2: continue
            names = {v['name']: k for k, v in enumerate(ad['variants'])}
            for v in variants:
                if v not in names: continue
                arm = [x[1] for x in t['ts'] if x[0] == names[v]]
                others = [x[1] for x in t['ts'] if x[0] != names[v]] + [t['else']]
                if not arm: continue
                def rch(starts):
                    seen = set(); w = list(starts)
                    while w:
                        x = w.pop()
                        if x in seen: continue
                        seen.add(x); w += f.succs(x)
                    return seen
                yield f, v, rch(arm) - rch(others)

def run_views(P, rep, props):
    rep.rule = 'nothing reachable from a viewing request stores through, or hands to a changing function, a `&mut` to shared state; nor sends, notifies, or changes files'
    V = Views(P, rep)
    roots = {}
    for f in served(P):
        if not f.path.startswith('transport::http::assets'): roots[f.path.split('::')[-1]] = f
    rep.count('GET handlers', len(roots)); rep.floor('GET handlers', 6)
    nviews = 0
    for ty, ms in (('QueueManager', ('peek_dlq', 'exists')), ('StreamManager', ('exists',))):
        M = methods(P, ty)
        for m in ms:
            if m not in M: rep.violation('missing:%s::%s' % (ty, m), 'the request %s of %s is gone or no longer recognised' % (m, ty)); continue
            roots['%s::%s' % (ty, m)] = M[m][0]; nviews += 1
    rep.count('view operations of the protocol', nviews)
    for n, f in sorted(roots.items()):
        V.enter(f, (), (), n)
        rep.sample('%s: nothing changed in %d functions' % (n, len({k[0] for k in V.done if k[3] == n})))
    want = {v: sorted(r for r in V.commands if v in V.commands[r]) for v in V.ok}
    for f, v, blocks in handlers(P, V.ok):
        if not want.get(v): continue
        rep.count('handlers of requests for data')
        V.run(f, (1,), tuple(want[v][:1]), 'answering ' + v, blocks=blocks)
    for v in V.ok:
        if want[v] and not rep.counts.get('handlers of requests for data'): rep.violation('missing:' + v, 'what serves %s is gone or no longer recognised' % v)
