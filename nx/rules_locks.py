"""L01: locks are taken in one order, never again while held, and not held across a wait.

A flow-sensitive may-held analysis over the MIR of every function: which locals own a lock guard (moves follow the guard,
a variant without the guard clears it), what each call may acquire (library calls that return guards, short internal locking
of DashMap, local functions and closures passed along, transitively), and from that the held -> acquired graph."""
from mir import Prog, is_guard_def, strip_generics
from core import Report, where

SHORT = {'insert', 'remove', 'remove_if', 'remove_if_mut', 'contains_key', 'len', 'is_empty', 'clear', 'retain', 'alter', 'alter_all', 'view', 'get', 'get_mut', 'entry', 'iter', 'iter_mut', 'shrink_to_fit', 'capacity', 'extend', 'into_iter', 'try_get', 'try_get_mut', 'try_entry', 'into_read_only', 'clone'}
HOLDING = {'retain', 'alter', 'alter_all', 'view', 'remove_if', 'remove_if_mut'}     # run a closure under the shard lock
SPAWN = ('spawn', 'spawn_blocking', 'spawn_local', 'spawn_on', 'block_in_place', 'new_thread')
WAITS = ('thread::sleep', 'blocking_send', 'blocking_recv', 'block_on', 'blocking_lock', 'JoinHandle::join', 'thread::park', 'park_timeout', 'Barrier::wait')

class Locks:
    def __init__(self, P, rep):
        self.P = P; self.rep = rep
        self.acq = {}        # fn path -> {class: (mode, span, via)}
        self.edges = {}      # (held, taken) -> [(held mode, mode, span, fn, via)]
        self.waits = []
        self.nacq = 0; self.nheld = 0
        self.gcache = {}; self.pcache = {}
    # ---- types
    def guard(self, ti, seen=()):
        """lock class and mode of the guard a value of type ti may own"""
        if ti in self.gcache: return self.gcache[ti]
        if ti in seen: return None
        r = self._guard(ti, seen)
        if not seen: self.gcache[ti] = r
        return r
    def _guard(self, ti, seen):
        P = self.P; t = P.ty(ti)
        if t['k'] in ('ref', 'ptr', 'fndef', 'fnptr', 'dyn'): return None
        if t['k'] == 'adt' and is_guard_def(t['def']):
            l = t['def'].split('::')[-1]; a = t.get('args', [])
            if t['def'].startswith('dashmap'):
                xs = [P.tys(x) for x in a if P.ty(x)['k'] != 'lifetime']
                return ('DashMap<' + ', '.join(xs[:2]) + '>', 'write' if 'Mut' in l or 'Entry' in l else 'read', True)
            x = None
            for y in a:
                if 'Raw' in P.tys(y): continue
                if P.ty(y)['k'] == 'lifetime': continue
                x = y; break
            return (('RwLock<' if 'Rw' in l else 'Mutex<') + (P.tys(x) if x is not None else '?') + '>', 'read' if 'Read' in l else 'write', not t['def'].startswith('tokio'))
        for a in t.get('args', []):
            r = self.guard(a, tuple(seen) + (ti,))
            if r: return r
        if t['k'] in ('closure', 'coroutine'):
            return None
        if t['k'] == 'adt':
            ad = self.P.adts.get(t['def'])
            if ad and ad['local']:
                for v in ad['variants']:
                    for f in v['fields']:
                        if 'ty' in f:
                            r = self.guard(f['ty'], tuple(seen) + (ti,))
                            if r: return r
        return None
    def fut(self, ti):
        """does the type stand for a future that has not run?"""
        t = self.P.ty(ti); return t['k'] == 'coroutine' or t['k'] == 'alias' or 'Future' in t.get('s', '')[:80] and t['k'] != 'adt'
    def closures(self, ti, seen=None, depth=0):
        """closures and coroutines among the components of a type"""
        seen = set() if seen is None else seen
        if ti in seen or depth > 6: return
        seen.add(ti); t = self.P.ty(ti)
        if t['k'] in ('closure', 'coroutine'):
            if t['def'] in self.P.fns: yield t['k'], self.P.fns[t['def']]
        for a in t.get('args', []): yield from self.closures(a, seen, depth + 1)
    # ---- calls
    def target(self, t):
        f = t['f']
        if f[0] != 'c' or 'fn' not in f[1]: return None, ''
        p = f[1].get('res', f[1]['fn'])
        for q in (p, f[1]['fn']):
            if q in self.P.fns: return self.P.fns[q], q
        return None, f[1].get('fn') if p is None else p
    def mapclass(self, ti):
        P = self.P; k = 0
        while ti is not None and k < 6:
            t = P.ty(ti); k += 1
            if t['k'] == 'adt' and t['def'].split('::')[-1] == 'DashMap' and t['def'].startswith('dashmap'):
                return 'DashMap<' + ', '.join(P.tys(x) for x in [y for y in t['args'] if P.ty(y)['k'] != 'lifetime'][:2]) + '>'
            if not t.get('args'): return None
            ti = t['args'][0]
        return None
    def acquires(self, fn, t, ginargs):
        """{class: (mode, span, via)} a call may take, and the classes held while closures run inside it"""
        out = {}; inside = []; sp = t.get('sp')
        g, name = self.target(t)
        base = strip_generics(name or '').split('::')[-1]
        polled = base == 'poll'
        if g is not None:
            for c, (m, s, via) in self.acq.get(g.path, {}).items(): out[self.subst(c, g, fn, t)] = (m, sp, (g.path.split('::')[-1],) + via[:4])
        else:
            dt = fn.locals[t['d'][0]][0] if not t['d'][1] else None
            gd = self.guard(dt) if dt is not None else None
            byref = [self.guard(self.P.ty(x)['args'][0]) for x in t.get('at', []) if self.P.ty(x)['k'] == 'ref' and self.P.ty(x).get('args')] if gd else []
            if gd and any(x and x[0] == gd[0] for x in byref): pass        # an iterator or guard gives out what it holds
            elif gd and not ginargs and not base.startswith('try_') and base not in ('clone',):
                out[gd[0]] = (gd[1], sp, ())
            full = name or ''
            if 'dashmap' in full:
                mc = next((c for c in (self.mapclass(a) for a in t.get('at', [])[:1]) if c), None)
                if mc and base in SHORT:
                    out.setdefault(mc, ('read' if base in ('get', 'contains_key', 'len', 'is_empty', 'iter', 'view', 'capacity') else 'write', sp, ()))
                if mc and base in HOLDING: inside.append(mc)
        # closures that run during the call; futures run when polled
        if base not in SPAWN:
            for a in t.get('at', []):
                for k, c in self.closures(a):
                    if k == 'coroutine' and not polled: continue
                    if g is not None and c.path == g.path: continue
                    for cl, (m, s, via) in self.acq.get(c.path, {}).items():
                        out.setdefault(cl, (m, sp, (c.path.split('::', 2)[-1],) + via[:4]))
                        for i in inside: self.edge(i, 'write', cl, m, s, fn, via)
        return out
    def subst(self, c, g, fn, t):
        """the class c of a generic function g at this call"""
        ps = sorted({x['s'] for x in self.params(g)})
        if not ps or not any('<' + p + '>' in c or '<' + p + ',' in c or ' ' + p + '>' in c for p in ps): return c
        dt = fn.locals[t['d'][0]][0] if not t['d'][1] else None
        gd = self.guard(dt) if dt is not None else None
        if gd and '<T>' not in gd[0] and gd[0].split('<')[0] == c.split('<')[0]: return gd[0]
        ta = t['f'][1].get('targs', [])
        if len(ps) == 1 and len(ta) == 1:
            import re
            return re.sub(r'(?<=[< ])%s(?=[>,])' % re.escape(ps[0]), self.P.tys(ta[0]), c)
        return c
    def params(self, g):
        if g.path not in self.pcache:
            seen = set(); st = [l[0] for l in g.locals]; self.pcache[g.path] = []
            while st:
                x = st.pop()
                if x in seen: continue
                seen.add(x); ty = self.P.ty(x)
                if ty['k'] == 'param': self.pcache[g.path].append(ty)
                st += ty.get('args', [])
        return self.pcache[g.path]
    def edge(self, held, hm, cl, m, span, fn, via):
        self.edges.setdefault((held, cl), {}).setdefault((fn.path, span[1] if span else 0), (hm, m, span, via))
    # ---- per function
    def opmoved(self, o): return o[1][0] if o[0] == 'mv' else None
    def analyse(self, fn, final):
        P = self.P
        if fn.kind in ('const', 'static'): return {}
        gl = {}
        def gof(l):
            if l not in gl: gl[l] = self.guard(fn.locals[l][0])
            return gl[l]
        n = len(fn.blocks); fn.compute()
        IN = [None] * n
        start = frozenset((l, gof(l)) for l in range(1, fn.argc + 1) if gof(l))
        IN[0] = start; work = [0]; acq = {}
        while work:
            b = work.pop()
            held = set(IN[b]); bb = fn.blocks[b]
            if bb['c']: continue
            discr = {}
            def clear(l):
                for x in [x for x in held if x[0] == l]: held.discard(x)
            def take(l):
                r = {x[1] for x in held if x[0] == l}; clear(l); return r
            for s in bb['s']:
                if s[0] == '=':
                    d, r = s[1], s[2]; moved = set()
                    if r[0] == 'use':
                        if r[1][0] == 'mv' and self.movesguard(fn, r[1][1], d): moved = take(r[1][1][0])
                    elif r[0] == 'cast':
                        if r[2][0] == 'mv': moved = take(r[2][1][0]) if gof(d[0]) else set()
                    elif r[0] == 'agg':
                        for o in r[1]['ops']:
                            if o[0] == 'mv' and gof(o[1][0]): moved |= take(o[1][0])
                    elif r[0] == 'discr': discr[d[0]] = r[1]
                    if not d[1]: clear(d[0])
                    for c in moved: held.add((d[0], c))
                elif s[0] in ('dead',): clear(s[1])
            t = bb['t']; k = t['k']; succ = {}
            if k == 'call':
                gin = set()
                for o in t['a']:
                    if o[0] == 'mv' and not o[1][1]: gin |= {x[1] for x in held if x[0] == o[1][0]}
                a = self.acquires(fn, t, bool(gin))
                for c, (m, sp, via) in a.items():
                    acq.setdefault(c, (m, sp, via))
                    if final:
                        for l, h in held: self.edge(h[0], h[1], c, m, sp, fn, via)
                if final:
                    g, name = self.target(t)
                    if held and name and any(strip_generics(name).endswith(w) for w in WAITS): self.waits.append((fn, t.get('sp'), {x[1] for x in held}))
                    self.nacq += len(a); self.nheld += len(a) if held else 0
                for o in t['a']:
                    if o[0] == 'mv' and not o[1][1]: clear(o[1][0])
                if not t['d'][1]: clear(t['d'][0])
                gd = gof(t['d'][0])
                if not gd and not t['d'][1] and P.ty(fn.locals[t['d'][0]][0])['k'] == 'alias':
                    g = self.target(t)[0]        # an opaque return type
                    if g is not None and P.ty(g.locals[0][0])['k'] != 'coroutine': gd = gl[t['d'][0]] = self.guard(g.locals[0][0])
                if gd:
                    for c in gin or {gd}: held.add((t['d'][0], c))
            elif k == 'drop':
                if final:
                    for c, (m, sp, via) in self.dropacq(fn, t).items():
                        acq.setdefault(c, (m, sp, via))
                        for l, h in held:
                            if l != t['p'][0]: self.edge(h[0], h[1], c, m, sp, fn, via)
                else:
                    for c, v in self.dropacq(fn, t).items(): acq.setdefault(c, v)
                if not t['p'][1] or gof(t['p'][0]): clear(t['p'][0])
            elif k == 'yield':
                if final and held and any(h[2] for l, h in held): self.waits.append((fn, t.get('sp'), {x[1] for x in held}))
            for s in fn.succs(b):
                h2 = set(held)
                if k == 'switch' and t['d'][0] in ('mv', 'cp') and t['d'][1][0] in discr:
                    p = discr[t['d'][1][0]]
                    if not p[1] and gof(p[0]):
                        vals = [x[0] for x in t['ts'] if x[1] == s]
                        if not self.mayhold(fn.locals[p[0]][0], vals, [x[0] for x in t['ts']], s == t['else']):
                            h2 = {x for x in h2 if x[0] != p[0]}
                ns = frozenset(h2)
                if IN[s] is None or not ns <= IN[s]:
                    IN[s] = ns if IN[s] is None else IN[s] | ns
                    work.append(s)
        return acq
    def movesguard(self, fn, src, dst):
        """does moving place src out take the guard of its local with it?"""
        if not src[1]: return True
        if not self.guard(fn.locals[src[0]][0]): return False
        return self.guard(fn.locals[dst[0]][0]) is not None if not dst[1] else True
    def mayhold(self, ti, vals, listed, other):
        """may the variants with these discriminants of type ti own a guard?"""
        t = self.P.ty(ti)
        d = t.get('def', '')
        names = {'core::option::Option': ('None', 'Some'), 'core::result::Result': ('Ok', 'Err'), 'core::task::poll::Poll': ('Ready', 'Pending'), 'core::ops::control_flow::ControlFlow': ('Continue', 'Break')}.get(d)
        if not names: return True
        idx = set(int(v) for v in vals)
        if other: idx |= {i for i in range(2) if str(i) not in [str(x) for x in listed]}
        args = [a for a in t['args'] if self.P.ty(a)['k'] != 'lifetime']
        for i in idx:
            if i > 1: continue
            nm = names[i]
            a = None
            if nm in ('Some', 'Ok', 'Ready'): a = args[0]
            elif nm == 'Err': a = args[1]
            elif nm == 'Break': a = args[0]
            elif nm == 'Continue': a = args[1] if len(args) > 1 else None
            if a is not None and self.guard(a): return True
        return False
    def dropacq(self, fn, t):
        ti = fn.locals[t['p'][0]][0]
        if t['p'][1]: return {}
        out = {}
        seen = set(); st = [ti]
        while st:
            x = st.pop()
            if x in seen or len(seen) > 60: continue
            seen.add(x); ty = self.P.ty(x)
            if ty['k'] in ('ref', 'ptr'): continue
            d = ty.get('def')
            if d in self.drops:
                for c, (m, s, via) in self.acq.get(self.drops[d].path, {}).items(): out[c] = (m, t.get('sp'), ('drop',) + via[:4])
            st += ty.get('args', [])
            ad = self.P.adts.get(d) if ty['k'] == 'adt' else None
            if ad and ad['local']: st += [f['ty'] for v in ad['variants'] for f in v['fields'] if 'ty' in f]
        return out
    def run(self):
        P = self.P
        self.drops = {}
        for f in P.libfns:
            if f.trait == 'core::ops::drop::Drop' and f.selfty is not None:
                d = P.ty(f.selfty).get('def') if isinstance(f.selfty, int) else None
                if d: self.drops[d] = f
        fns = [f for f in P.libfns if f.kind not in ('const', 'static')]
        for _ in range(12):
            ch = False
            for f in fns:
                a = self.analyse(f, False)
                if set(a) != set(self.acq.get(f.path, {})): ch = True
                self.acq[f.path] = a
            if not ch: break
        for f in fns: self.analyse(f, True)
        return fns

def short(c):
    import re
    return re.sub(r'[a-z_0-9]+::', '', c)
def run_locks(P, rep, props):
    if 'L01' not in props: return rep
    L = Locks(P, rep); fns = L.run()
    rep.fns |= {f.path for f in fns}
    classes = sorted({c for a in L.acq.values() for c in a})
    rep.count('functions analysed', len(fns)); rep.count('lock classes', len(classes)); rep.count('acquisitions', L.nacq)
    rep.count('acquisitions under another lock', L.nheld); rep.count('order edges', len(L.edges))
    rep.floor('lock classes', 5); rep.floor('acquisitions', 40); rep.floor('acquisitions under another lock', 2)
    for fn, sp, h in L.waits:
        rep.violation('wait:' + fn.path.split('::{')[0].split('::')[-1], '%s waits while it holds %s' % (fn.path, ', '.join(sorted(short(x[0]) for x in h))), where(sp))
    # cycles
    G = {}
    for (a, b) in L.edges: G.setdefault(a, set()).add(b)
    onlyread = {c for c in classes if all(a[c][0] == 'read' for a in L.acq.values() if c in a)}
    def path(a, b):
        seen = {a: None}; w = [a]
        while w:
            x = w.pop(0)
            for y in sorted(G.get(x, ())):
                if y == b: 
                    p = [b]
                    while x is not None: p.append(x); x = seen[x]
                    return p[::-1]
                if y not in seen: seen[y] = x; w.append(y)
        return None
    done = set()
    for (a, b) in sorted(L.edges):
        p = [a, a] if a == b else None
        if a != b:
            q = path(b, a)
            if q: p = [a] + q
        if not p or frozenset(p) in done: continue
        if set(p) <= onlyread: continue
        done.add(frozenset(p))
        tr = []; places = []
        for x, y in zip(p, p[1:]):
            (f, l), (hm, m, sp, via) = sorted(L.edges[(x, y)].items())[0]
            tr.append('%s: holds %s, takes %s at %s%s' % (f, short(x), short(y), where(sp), ' through ' + ' > '.join(via) if via else ''))
            places.append(where(sp))
        rep.violation('cycle:' + '>'.join(sorted(set(short(x) for x in p))), ('a lock is taken while it is already held: ' if a == b else 'locks are taken in opposite orders: ') + '; '.join(tr), places[0], tr)
    for (a, b) in sorted(L.edges): rep.sample('%s before %s' % (short(a), short(b)))
    return rep

if __name__ == '__main__':
    import sys, time, os
    P = Prog(os.environ.get('NX_OUT', '/verif/build/out')); rep = Report('L01'); t = time.time()
    run_locks(P, rep, {'L01'})
    print(rep.counts, '%.1fs' % (time.time() - t))
    for v in rep.viol.values(): print(v['key'], '|', v['msg'][:600], '|', v['where'])
