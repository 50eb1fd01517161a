"""Queue broker: the message store in memory and its durable mirror (Q01..Q05)."""
from core import *
import interp
from models import track

LINT = ('bin',)
def local_fields(P, pred):
    """{(owner, field)} of local structs whose field type satisfies pred(type)"""
    out = set()
    for d, a in P.adts.items():
        if not a['local']: continue
        for v in a['variants']:
            for f in v['fields']:
                if 'ty' in f and pred(P.ty(f['ty'])): out.add((d, f['name']))
    return out
def tydef(P, ti): return P.ty(ti).get('def', '')
def args_of(P, t): return [P.ty(a) for a in t.get('args', [])]
def last(d): return d.split('::')[-1]

class QAnchors:
    def __init__(self, P):
        def m(kinds, k, v):
            def pred(t):
                if t['k'] != 'adt' or last(t['def']) not in kinds: return False
                a = args_of(P, t)
                return len(a) >= 2 and k(a[0]) and v(a[1])
            return local_fields(P, pred)
        uuid = lambda t: last(t.get('def', '')) == 'Uuid'
        self.reg = m(('HashMap', 'BTreeMap', 'IndexMap', 'LinkedHashMap'), uuid, lambda t: last(t.get('def', '')) == 'Message' and 'queue' in t['def'])
        self.dlq = m(('LinkedHashMap', 'HashMap', 'IndexMap', 'BTreeMap'), uuid, lambda t: last(t.get('def', '')) == 'DlqMessage')
        isset = lambda t: last(t.get('def', '')) in ('LinkedHashSet', 'HashSet', 'VecDeque', 'BTreeSet', 'IndexSet')
        self.disp = m(('BTreeMap', 'HashMap'), lambda t: t['s'] == 'u8', isset)
        self.ack = m(('BTreeMap', 'HashMap'), lambda t: t['s'] == 'u64', isset)
        for f in self.reg | self.dlq: interp.IDMAPS[f] = 'id'
        owners = {o for o, _ in self.reg | self.dlq}
        def holds(t, n=0):
            if t['k'] != 'adt' or n > 4: return False
            if t['def'] in owners: return True
            a = P.adts.get(t['def'])
            if a and a['local']:
                return any(holds(P.ty(f['ty']), n + 1) for v in a['variants'] for f in v['fields'] if 'ty' in f)
            return False
        lk = local_fields(P, lambda t: t['k'] == 'adt' and last(t['def']) in ('Mutex', 'RwLock') and any(holds(a) for a in args_of(P, t)))
        self.locks = {last(o) + '.' + f for o, f in lk} | {'async ' + last(o) + '.' + f for o, f in lk}
        self.ok = bool(self.reg and self.dlq and self.disp and self.ack and self.locks)

# persisted columns: field of Message / DlqMessage
QCOLS = ('payload', 'priority', 'visible_at', 'attempts', 'created_at')
DCOLS = ('payload', 'priority', 'attempts', 'created_at', 'failed_at', 'failure_reason')

class QMon(Monitor):
    """One critical section at a time: what happened to the followed message in memory, and what was logged for it."""
    def __init__(self, P, A, api, rep, params=()):
        self.P = P; self.A = A; self.api = api; self.v = {}; self.cnt = {}; self.params = params
        self.MSG = [d for d in P.adts if d.endswith('queue::Message')][0]; self.DLQM = [d for d in P.adts if d.endswith('::DlqMessage')][0]
        self.rep = rep
    def bad(self, prop, kind, msg, span, st):
        k = (prop, '%s:%s' % (self.api, kind))
        if k not in self.v: self.v[k] = (msg, where(span) if span else '', st.tracelist())
    def F(self, v, name):
        """field of a message or dead letter, whichever v is"""
        own = self.MSG
        x = v
        while x.op == 'upd': x = x.a[0]
        if x.op == 'agg': own = x.a[0]
        elif x.op == 'ent' and x.a[0].op == 'entry' and self.kind(x.a[0].a[0]) == ('dlq',): own = self.DLQM
        return project(v, (('f', name, own),))
    def n(self, what): self.cnt[what] = self.cnt.get(what, 0) + 1
    # ---- recognising the places
    def kind(self, loc):
        if loc[0] != 'H': return None
        f = lastfield(loc)
        if f:
            q = (f[2], f[1])
            if q in self.A.reg: return ('reg',)
            if q in self.A.dlq: return ('dlq',)
            if q in self.A.disp: return ('d',)
            if q in self.A.ack: return ('a',)
            return None
        b = loc[1]
        if b.op == 'entry' and b.a[0][0] == 'H':
            k = self.kind(b.a[0])
            if k and k[0] in 'da': return ('bucket', k[0], b.a[1])
        return None
    def origin(self, K):
        """(index, bucket key) when the id was read out of an index"""
        x = K
        while x.op == 'deref': x = x.a[0]
        if x.op == 'elem' and isinstance(x.a[0], Term) and x.a[0].op == 'ref':
            k = self.kind(x.a[0].a[0])
            if k and k[0] == 'bucket': return (k[1], k[2])
        return None
    def msgty(self): return [d for d in self.P.adts if d.endswith('::MessageState')][0]
    # ---- records: K -> (reg0, reg1, dlq0, dlq1, variant0, home0, idx, q0, d0)
    def rec(self, st, K):
        for k, r in st.mon.get('recs', ()):
            if k is K: return dict(r)
        return None
    def put(self, st, K, r):
        l = [(k, x) for k, x in st.mon.get('recs', ()) if k is not K]
        l.append((K, tuple(sorted(r.items()))))
        st.mon['recs'] = tuple(sorted(l, key=lambda x: x[0].id))
    def regentry(self, loc, K): return ('H', mk('entry', loc, K), ())
    def first(self, I, st, K, regloc):
        """states in which K is a message of the main queue that has not been touched yet in this section"""
        out = []
        o = self.origin(K)
        MS = self.msgty()
        e = self.regentry(regloc, K)
        v0 = I.readloc(st, e)
        own = [f for f in (regloc and lastfield(regloc),)]
        M = [d for d in self.P.adts if d.endswith('queue::Message')][0]
        for var in ('Ready', 'InFlight'):
            if o and {'d': 'Ready', 'a': 'InFlight'}[o[0]] != var: continue
            s = st.copy()
            def w(field, val): I.fullproj[(e[1], (('f', field),))] = (('f', field, M),); s.heap[(e[1], (('f', field),))] = val
            state0 = project(v0, (('f', 'state', M),))
            if var == 'Ready':
                w('state', agg(MS, 'Ready', (), ()))
                prio = project(v0, (('f', 'priority', M),))
                if o: prio = o[1]; w('priority', prio)
                home = ('d', prio)
            else:
                ts = o[1] if o else project(state0, (('v', 'InFlight'), ('f', '0', MS)))
                w('state', agg(MS, 'InFlight', ('0',), (ts,)))
                w('visible_at', ts)
                home = ('a', ts)
            r = dict(reg0=1, reg1=1, dlq0=0, dlq1=0, var=var, home=home, idx=(home,), q0=I.readloc(s, e), d0=None, lim='', loc=e, dloc=None)
            self.put(s, K, r)
            out.append(s)
        return out
    def same(self, I, st, a, b):
        return a is b or I.decide(st, mk('bin', 'Eq', a, b)) == 1
    def on_map(self, I, st, op, loc, key, was, val, ev):
        k = self.kind(loc)
        if k is None: return (st,)
        if k[0] == 'dlq' and op == 'clear':
            st.note('DLQ cleared %s' % where(ev.span))
            st.mon['cleared'] = val if val is not None else mk('unit')
            return (st,)
        if op == 'clear':
            if k[0] in ('reg', 'd', 'a', 'bucket'): self.bad('Q03', 'clear:' + k[0], 'a message collection is cleared as a whole: messages disappear from one place without the others', ev.span, st)
            return (st,)
        if key is None or not track(key) or (k[0] == 'bucket' and not track(k[2])): return (st,)
        r = self.rec(st, key)
        if k[0] == 'reg':
            if op == 'hit':
                if r is None: return self.first(I, st, key, loc)
                if r['reg1'] == 0 and r['reg0'] is not None: return ()
                if r['reg0'] is None and r['reg1'] == 0: return ()
                return (st,)
            if op == 'miss':
                if r is None:
                    if self.origin(key): return ()
                    self.put(st, key, dict(reg0=0, reg1=0, dlq0=-1, dlq1=-1, var='', home=None, idx=(), q0=None, d0=None, lim='', loc=self.regentry(loc, key), dloc=None))
                elif r['reg1'] == 1: return ()
                return (st,)
            if op == 'insert':
                st.note('registry insert %s' % where(ev.span)); self.n('map updates')
                if r is None: r = dict(reg0=0, reg1=0, dlq0=-1, dlq1=-1, var='', home=None, idx=(), q0=None, d0=None, lim='', loc=None, dloc=None)
                if self.F(val, 'id') is not key:
                    self.bad('Q03', 'key', 'a message is stored under a key that is not its own id (key %s, id %s)' % (show(key), show(self.F(val, 'id'))), ev.span, st)
                r['reg1'] = 1; r['loc'] = self.regentry(loc, key)
                self.put(st, key, r)
                out = []
                for s in self.split_state(I, st, r['loc']): out.append(s)
                return out
            if op == 'remove':
                st.note('registry remove %s' % where(ev.span)); self.n('map updates')
                r['reg1'] = 0; self.put(st, key, r)
                return (st,)
        if k[0] == 'dlq':
            if op == 'hit':
                if r is None:
                    e = self.regentry(loc, key)
                    self.put(st, key, dict(reg0=0, reg1=0, dlq0=1, dlq1=1, var='', home=None, idx=(), q0=None, d0=I.readloc(st, e), lim='', loc=None, dloc=e))
                    return (st,)
                if r['dlq1'] == 0: return ()
                if r['dlq1'] == -1: r['dlq0'] = r['dlq1'] = 1; e = self.regentry(loc, key); r['dloc'] = e; r['d0'] = I.readloc(st, e); self.put(st, key, r)
                return (st,)
            if op == 'miss':
                if r is None:
                    self.put(st, key, dict(reg0=-1, reg1=-1, dlq0=0, dlq1=0, var='', home=None, idx=(), q0=None, d0=None, lim='', loc=None, dloc=self.regentry(loc, key)))
                elif r['dlq1'] == 1: return ()
                elif r['dlq1'] == -1: r['dlq0'] = r['dlq1'] = 0; self.put(st, key, r)
                return (st,)
            if op == 'insert':
                st.note('DLQ insert %s' % where(ev.span)); self.n('map updates')
                if r is None: r = dict(reg0=-1, reg1=-1, dlq0=0, dlq1=0, var='', home=None, idx=(), q0=None, d0=None, lim='', loc=None, dloc=None)
                if self.F(val, 'id') is not key:
                    self.bad('Q03', 'dlqkey', 'a dead letter is stored under a key that is not its own id', ev.span, st)
                r['dlq1'] = 1; r['dloc'] = self.regentry(loc, key)
                self.put(st, key, r)
                return (st,)
            if op == 'remove':
                st.note('DLQ remove %s' % where(ev.span)); self.n('map updates')
                r['dlq1'] = 0; self.put(st, key, r); return (st,)
        if k[0] == 'bucket':
            here = (k[1], k[2])
            if r is None:
                if op in ('hit', 'miss', 'remove'): return (st,)
                r = dict(reg0=0, reg1=0, dlq0=-1, dlq1=-1, var='', home=None, idx=(), q0=None, d0=None, lim='', loc=None, dloc=None)
            member = any(x[0] == here[0] and self.same(I, st, x[1], here[1]) for x in r['idx'])
            if op == 'hit': return (st,) if member or not r['reg0'] == 1 else ()
            if op == 'miss': return (st,) if not member else ()
            if op == 'insert':
                st.note('index insert %s' % where(ev.span)); self.n('map updates')
                if not member: r['idx'] = r['idx'] + (here,)
                self.put(st, key, r); return (st,)
            if op == 'remove':
                st.note('index remove %s' % where(ev.span)); self.n('map updates')
                r['idx'] = tuple(x for x in r['idx'] if not (x[0] == here[0] and self.same(I, st, x[1], here[1])))
                self.put(st, key, r); return (st,)
        if k[0] in 'da':
            mem = [(K, x) for K, rr in st.mon.get('recs', ()) for x in dict(rr)['idx'] if x[0] == k[0] and self.same(I, st, x[1], key)]
            if op == 'miss' and any(dict(rr)['home'] and dict(rr)['home'][0] == k[0] and self.same(I, st, dict(rr)['home'][1], key) and dict(rr)['home'] in dict(rr)['idx'] for K, rr in st.mon.get('recs', ())): return ()
            if op == 'remove':
                b = val
                emp = I.decide(st, mk('un', 'is_empty', b)) == 1 or I.decide(st, mk('bin', 'Eq', mk('len', b), K0)) == 1
                self.n('bucket removals')
                if mem or not emp:
                    self.bad('Q03', 'bucket', 'an index bucket is dropped while it may still hold messages', ev.span, st)
                st.note('index bucket dropped %s' % where(ev.span))
        return (st,)
    def zero(self, I, st, n):
        for t, want in ((n, 0), (mk('bin', 'Eq', n, K0), 1), (mk('bin', 'Gt', n, K0), 0), (mk('bin', 'Ge', n, K(1)), 0)):
            if I.decide(st, t) == want: return True
        return False
    def split_state(self, I, st, e):
        MS = self.msgty()
        sv = self.F(I.readloc(st, e), 'state')
        if I.variant_of(st, sv, MS) is not None: return [st]
        out = []
        I.nvar[mk('discr', sv)] = 2
        for i, var in enumerate(('Ready', 'InFlight')):
            s = st.copy()
            if I.assume(s, mk('discr', sv), I.vidx(MS, var)): out.append(s)
        return out
    # ---- branches that decide the retry limit / the due time
    def on_branch(self, I, st, term, val, span):
        for s in subterms(term):
            n = s.a[0] if s.op == 'len' else s.a[1] if s.op == 'un' and s.a[0] == 'is_empty' else None
            if isinstance(n, Term) and n.op == 'fld' and any(n.a[1] == f for _, f in self.A.dlq):
                if self.zero(I, st, s) if s.op == 'len' else I.decide(st, s) == 1: st.mon['dlqnone'] = 1
        if term.op == 'discr' and term.a[0].op == 'deref' and self.tyname(term.a[0]) and I.variant_of(st, term.a[0], OPT) == 'None': st.mon['nosend'] = 1
        x = term; v = val
        while x.op in ('un', 'cast') :
            if x.op == 'un' and x.a[0] == 'Not': v = None if v is None else 1 - v; x = x.a[1]
            elif x.op == 'cast': x = x.a[2] if len(x.a) > 2 else x.a[1]
            else: break
        if x.op != 'bin' or v not in (0, 1): return
        self.compare(I, st, x, v)
    def compare(self, I, st, x, v):
        o, a, b = x.a
        if o in ('BitAnd',) and v == 1: 
            for y in (a, b):
                if y.op == 'bin': self.compare(I, st, y, 1)
            return
        if o in ('BitOr',) and v == 0:
            for y in (a, b):
                if y.op == 'bin': self.compare(I, st, y, 0)
            return
        if o not in ('Lt', 'Le', 'Gt', 'Ge'): return
        la, lb = lin(a), lin(b)
        for K_, rr in st.mon.get('recs', ()):
            r = dict(rr)
            if r['reg0'] != 1 or r['q0'] is None: continue
            att = self.F(r['q0'], 'attempts')
            for (p, cp), (q, cq), oo in ((la, lb, o), (lb, la, {'Lt': 'Gt', 'Le': 'Ge', 'Gt': 'Lt', 'Ge': 'Le'}[o])):
                if p is att and q.op == 'fld' and q.a[1] == 'max_retries':
                    # att + cp  oo  max + cq   is v
                    if v == 0: oo = {'Lt': 'Ge', 'Le': 'Gt', 'Gt': 'Le', 'Ge': 'Lt'}[oo]
                    d = cq - cp
                    if oo == 'Gt': oo, d = 'Ge', d + 1
                    if oo == 'Le': oo, d = 'Lt', d + 1
                    # att >= max + d   |   att < max + d
                    r['lim'] = r['lim'] + ('' if r['lim'] == '' else ',') + ('%s%d' % (oo, d)) if ('%s%d' % (oo, d)) not in r['lim'].split(',') else r['lim']
                    self.put(st, K_, r)
                    st.note('attempts %s max_retries%+d %s' % (oo, d, where(None) if False else ''))
        # due: bucket key <= now
        for p, q, oo in ((a, b, o), (b, a, {'Lt': 'Gt', 'Le': 'Ge', 'Gt': 'Lt', 'Ge': 'Le'}[o])):
            if isnow(q) and not isnow(p) and track(p):
                if v == 0: oo2 = {'Lt': 'Ge', 'Le': 'Gt', 'Gt': 'Le', 'Ge': 'Lt'}[oo]
                else: oo2 = oo
                if oo2 in ('Lt', 'Le'):
                    d = st.mon.get('due', ())
                    if p not in d: st.mon['due'] = d + (p,)
    # ---- sections
    def on_split(self, I, st, v, variant):
        if variant == 'None' and 'UnboundedSender' in self.tyname(v): st.mon['nosend'] = 1
    def tyname(self, v):
        for s in subterms(v):
            if s.op == 'guard' and any(self.sender_lock(s.a[1]) for _ in (0,)): return 'UnboundedSender'
        return ''
    def sender_lock(self, cls):
        if not hasattr(self, '_sl'):
            P = self.P
            def has(t, n=0):
                return n < 6 and (last(t.get('def', '')) in ('UnboundedSender', 'Sender') or any(has(P.ty(a), n + 1) for a in t.get('args', [])))
            self._sl = {last(o) + '.' + f for o, f in local_fields(P, lambda t: t['k'] == 'adt' and last(t['def']) in ('Mutex', 'RwLock') and has(t))}
        return cls in self._sl
    def on_ret(self, I, st, ev, val):
        m = ev.name.split('::')
        if m[-1] in ('send', 'try_send') and m[0] in ('UnboundedSender', 'Sender') and len(ev.args) == 2:
            op = I.val(st, ev.args[1])
            if op.op == 'agg' and last(op.a[0]) == 'StorageOp':
                self.n('durable operations')
                st.note('log %s %s' % (op.a[1], where(ev.span)))
                if not any(c in self.A.locks for c, _, _ in I.held(st)):
                    self.bad('Q02', 'unlocked:' + op.a[1], 'the durable operation %s is sent to the writer without the queue lock: operations of concurrent calls can be logged in another order than they took effect' % op.a[1], ev.span, st)
                if track(op): st.mon['ops'] = st.mon.get('ops', ()) + (op,)
            elif 'StorageOp' in self.P.tys(ev.dty or 0):
                self.bad('Q01', 'opaqueop', 'a durable operation whose kind is not known is sent', ev.span, st)
        if m[-1] in ('notify_waiters', 'notify_one', 'notify_last') and m[0] == 'Notify':
            self.n('notifications'); st.note('notify %s' % where(ev.span)); st.mon.pop('owe', None); st.mon['told'] = 1
        if m[-1] == 'notified' and m[0] == 'Notify': st.mon['waiter'] = val; st.mon.pop('checked', None); st.note('notified() %s' % where(ev.span))
        g = guards_of(val)
        if g and any(x.a[1] in self.A.locks for x in g):
            st.mon.pop('told', None)
            if 'waiter' in st.mon: st.mon['checked'] = 1
            self.settle(I, st, ev.span, 'the next critical section')
    def on_drop(self, I, st, v, ti, span):
        if any(c in self.A.locks for c, _, _ in I.guards_in(st, v, ti)): self.finalize(I, st, span)
    def finalize(self, I, st, span):
        recs = st.mon.pop('recs', ())
        st.mon.pop('due', None) if False else None
        fins = []
        MS = self.msgty()
        for K_, rr in recs:
            r = dict(rr)
            reg1 = r['reg1']; q1 = d1 = None; var1 = ''; home1 = None
            if reg1 == 1:
                q1 = I.readloc(st, r['loc'])
                sv = self.F(q1, 'state')
                var1 = I.variant_of(st, sv, MS) or '?'
                if var1 == 'Ready': home1 = ('d', self.F(q1, 'priority'))
                elif var1 == 'InFlight': home1 = ('a', project(sv, (('v', 'InFlight'), ('f', '0', MS))))
            if r['dlq1'] == 1 and r['dloc']: d1 = I.readloc(st, r['dloc'])
            changed = (r['reg0'] != reg1 and reg1 != -1) or (r['dlq0'] != r['dlq1'] and r['dlq1'] != -1) or (q1 is not None and q1 is not r['q0']) or r['home'] is not None and r['idx'] != (r['home'],)
            # exactly one place
            if changed:
                self.n('message transitions')
                self.sect3(I, st, K_, r, reg1, var1, home1, q1, d1, span)
            if changed or r['reg1'] == 0 or r['dlq1'] == 0:
                f = dict(reg0=r['reg0'], reg1=reg1, dlq0=r['dlq0'], dlq1=r['dlq1'], var0=r['var'], var1=var1, home0=r['home'], home1=home1, q0=r['q0'], q1=q1, d0=r['d0'], d1=d1, lim=r['lim'], changed=changed, due=bool(r['home'] and r['home'][0] == 'a' and any(self.same(I, st, r['home'][1], x) for x in st.mon.get('due', ()))))
                fins.append((K_, tuple(sorted(f.items()))))
            if changed and reg1 == 1 and var1 == 'Ready' and (r['reg0'] != 1 or r['var'] != 'Ready') and self.api != 'QueueState::push':
                self.n('messages made ready')
                if 'told' not in st.mon: st.mon['owe'] = where(span)
        st.mon.pop('due', None)
        st.mon['fins'] = st.mon.get('fins', ()) + tuple(fins)
        bad = self.mismatch(I, st)
        if bad and 'nosend' not in st.mon: st.mon['late'] = where(span)
    def sect3(self, I, st, K_, r, reg1, var1, home1, q1, d1, span):
        """index membership and single residence after a critical section"""
        want = [home1] if reg1 == 1 and home1 else []
        if reg1 == 1 and var1 == '?':
            return self.bad('Q03', 'state', 'a message is left with a state that cannot be told to be Ready or InFlight', span, st)
        got = list(r['idx'])
        miss = [w for w in want if not any(w[0] == g[0] and self.same(I, st, w[1], g[1]) for g in got)]
        extra = [g for g in got if not any(w[0] == g[0] and self.same(I, st, w[1], g[1]) for w in want)]
        nm = {'d': 'dispatch index', 'a': 'in-flight index'}
        for w in miss: self.bad('Q03', 'unindexed:' + w[0], 'a message in state %s is not in the %s under its own key: it can never be delivered or timed out' % (var1, nm[w[0]]), span, st)
        for g in extra: self.bad('Q03', 'stale:' + g[0], 'the %s still lists a message that is %s' % (nm[g[0]], 'no longer in the queue' if reg1 != 1 else 'in state ' + var1), span, st)
        if reg1 == 1 and r['dlq1'] == 1: self.bad('Q03', 'twoplaces', 'a message is both in the queue and in the dead-letter queue', span, st)
        if reg1 == 1 and var1 == 'InFlight' and self.api != 'QueueState::push':
            va = self.F(q1, 'visible_at')
            if not self.same(I, st, va, home1[1]): self.bad('Q03', 'visible', 'an in-flight message whose visible_at is not the time of its in-flight slot', span, st)
        if reg1 == 1 and var1 == 'Ready' and r['var'] == 'InFlight':
            va = self.F(q1, 'visible_at')
            if I.decide(st, va) != 0: self.bad('Q03', 'visible0', 'a message made ready again keeps a visibility deadline (after a restart it would be treated as in flight)', span, st)
        # content is preserved across moves
        src = r['q0'] if r['q0'] is not None else r['d0']
        for dst, cols in ((q1, ('payload', 'priority', 'created_at')), (d1, ('payload', 'priority', 'created_at'))):
            if src is None or dst is None or dst is src: continue
            for c in cols:
                a, b = self.F(src, c), self.F(dst, c)
                if not self.same(I, st, a, b): self.bad('Q03', 'content:' + c, 'the %s of a message changes when it moves (%s -> %s)' % (c, show(a), show(b)), span, st)
        if d1 is not None and r['q0'] is not None and d1 is not r['d0']:
            a, b = self.F(r['q0'], 'attempts'), self.F(d1, 'attempts')
            if not self.same(I, st, a, b): self.bad('Q03', 'content:attempts', 'the attempt count recorded in the dead letter is not the one the message had', span, st)
        if r['reg0'] == 1 and reg1 == 0 and r['dlq1'] != 1 and self.api not in ('ack',):
            self.bad('Q03', 'lost', 'a message leaves the queue without being acknowledged or dead-lettered', span, st)
        if r['dlq0'] == 1 and r['dlq1'] == 0 and reg1 != 1 and self.api not in ('delete_dlq', 'purge_dlq'):
            self.bad('Q03', 'lostdlq', 'a dead letter disappears without being replayed, deleted or purged', span, st)
        if r['reg0'] == 0 and reg1 == 1 and r['dlq0'] != 1 and q1 is not None and not fresh(K_) and self.api not in ('QueueState::push',):
            self.bad('Q03', 'notfresh', 'a message is created under an id that is not known to be unused', span, st)
    # ---- durable mirror
    def mismatch(self, I, st):
        fins = {}
        order = []
        for K_, ff in st.mon.get('fins', ()):
            f = dict(ff)
            if K_ in fins:
                g = fins[K_]
                for a in ('reg1', 'dlq1', 'var1', 'home1', 'q1', 'd1'): g[a] = f[a]
                g['changed'] = g['changed'] or f['changed']
            else: fins[K_] = f; order.append(K_)
        ops = st.mon.get('ops', ())
        bad = []
        row = lambda v, cols: None if v is None else {c: self.F(v, c) for c in cols}
        db = {}
        for K_, f in fins.items():
            db[K_] = {'q': row(f['q0'], QCOLS) if f['reg0'] == 1 else None, 'd': row(f['d0'], DCOLS) if f['dlq0'] == 1 else None}
        purged = 0
        for op in ops:
            kind = op.a[1]
            a = dict(zip(op.a[2], op.a[3]))
            v = a.get('msg', a.get('0'))
            if kind == 'PurgeDLQ':
                purged = 1
                for K_ in db: db[K_]['d'] = None
                continue
            if kind in ('Insert', 'InsertDLQ'): key = self.F(v, 'id')
            elif kind in ('Delete', 'DeleteDLQ'): key = v
            else: key = a.get('id')
            if key is None: bad.append(('op', 'operation %s without a key' % kind)); continue
            key = I.val(st, key)
            if kind in ('MoveToDLQ', 'MoveToMain') and self.F(v, 'id') is not key:
                bad.append(('opkey', '%s deletes one id and inserts another' % kind)); continue
            if key not in db:
                bad.append(('foreign:' + kind, 'the durable operation %s concerns a message (%s) this call did not change in memory' % (kind, show(key)[:80]))); continue
            r = db[key]
            if kind == 'Insert': r['q'] = row(v, QCOLS)
            elif kind == 'Delete': r['q'] = None
            elif kind == 'UpdateState':
                if r['q'] is not None: r['q'] = dict(r['q'], visible_at=a['visible_at'], attempts=a['attempts'])
            elif kind == 'InsertDLQ': r['d'] = row(v, DCOLS)
            elif kind == 'DeleteDLQ': r['d'] = None
            elif kind == 'MoveToDLQ': r['q'] = None; r['d'] = row(v, DCOLS)
            elif kind == 'MoveToMain': r['d'] = None; r['q'] = dict(row(v, QCOLS), visible_at=K0, attempts=K0)
            else: bad.append(('unknown:' + kind, 'durable operation %s has no known meaning' % kind))
        for K_ in order:
            f = fins[K_]
            if not f['changed']: 
                continue
            for t, mem, cols, what in (('q', f['q1'] if f['reg1'] == 1 else None, QCOLS, 'queue'), ('d', f['d1'] if f['dlq1'] == 1 else None, DCOLS, 'dead-letter queue')):
                d = db[K_][t]; m = row(mem, cols)
                if (d is None) != (m is None):
                    if f['reg1' if t == 'q' else 'dlq1'] == -1: continue
                    bad.append((t + (':extra' if m is None else ':missing'), 'after the call the message is %s the %s in memory but %s it on disk' % ('not in' if m is None else 'in', what, 'in' if d is not None else 'not in')))
                elif d is not None:
                    for c in cols:
                        if not self.same(I, st, d[c], m[c]): bad.append((t + ':' + c, 'the durable %s row would hold %s = %s while memory holds %s' % (what, c, show(d[c])[:80], show(m[c])[:80])))
        if 'cleared' in st.mon and not purged and not self.zero(I, st, st.mon['cleared']): bad.append(('purge', 'the dead-letter queue is cleared in memory but not on disk'))
        if purged and 'cleared' not in st.mon: bad.append(('purge2', 'the dead-letter queue is purged on disk but not in memory'))
        return bad
    def settle(self, I, st, span, when, final=False):
        if 'nosend' not in st.mon:
            bad = self.mismatch(I, st)
            for k, m in bad: self.bad('Q01', k, m, span, st)
            if not bad and 'late' in st.mon:
                self.bad('Q02', 'late', 'a state change is logged only after the critical section that made it has ended (%s)' % st.mon['late'], span, st)
            self.n('sections compared')
        if not final: self.transitions(I, st, span, None)
        for k in ('fins', 'ops', 'late', 'cleared', 'dlqnone'): st.mon.pop(k, None)
    def owed(self, st, span):
        if 'owe' in st.mon:
            self.bad('W01', 'notify', 'a message became ready (%s) but waiting consumers are not notified: a long poll sleeps until its timeout' % st.mon['owe'], span, st); st.mon.pop('owe')
    def on_poll(self, I, st, v, ev):
        if v.op == 'call' and v.a[0].split('::')[-1] == 'notified':
            self.n('waits checked')
            if v is not st.mon.get('waiter') or 'checked' not in st.mon:
                self.bad('W01', 'lost', 'a consumer starts to wait with a notification handle that was not taken before it last looked for messages: a message arriving in between is missed', ev.span, st)
        if any(x in show(v)[:30] for x in ('tick', 'sleep', 'notified')): self.owed(st, ev.span)
    def on_yield(self, I, st, span): self.settle(I, st, span, 'a suspension')
    def on_end(self, I, st, kind, val):
        if kind == 'panic': return
        if self.api == 'QueueState::push':
            self.finalize(I, st, None); return
        if 'recs' in st.mon: self.finalize(I, st, None)
        self.owed(st, None)
        self.transitions(I, st, None, val)
        self.settle(I, st, None, 'the end', True)
    # ---- what each call is allowed to do and must report (Q04, Q05)
    def transitions(self, I, st, span, val):
        fins = [(K_, dict(f)) for K_, f in st.mon.get('fins', ())]
        ch = [(K_, f) for K_, f in fins if f['changed']]
        api = self.api
        if api == 'QueueState::push': return
        for K_, f in ch:
            self.allowed(I, st, api, K_, f, span)
        if val is None:
            if ch and api not in ('timeouts',): self.bad('Q04', 'undelivered', 'the call goes on (suspends or starts over) after changing a message, without reporting it', span, st)
            return
        if api == 'timeouts': return
        self.result(I, st, api, fins, ch, val)
    def allowed(self, I, st, api, K_, f, span):
        a = (f['reg0'] == 1, f['var0'], f['dlq0'] == 1); b = (f['reg1'] == 1, f['var1'], f['dlq1'] == 1)
        inq0, inq1 = a[0], b[0]
        ok = False
        if api == 'push': ok = not inq0 and inq1 and b[1] == 'Ready' and not b[2]
        elif api in ('pop', 'consume_batch'):
            ok = inq0 and inq1 and a[1] == 'Ready' and b[1] == 'InFlight' and not b[2]
            if inq0 and inq1 and a[1] == 'InFlight': self.bad('Q04', 'doublelease', 'a message that is already in flight is handed out again before its lease ends', span, st); return
        elif api == 'ack': ok = inq0 and not inq1 and not b[2]
        elif api in ('nack', 'timeouts'):
            ok = inq0 and ((inq1 and b[1] == 'Ready' and not b[2]) or (not inq1 and b[2]))
            if api == 'timeouts' and ok:
                if a[1] != 'InFlight': self.bad('Q04', 'revoke', 'the timeout task moves a message that is not in flight', span, st); return
                if not f['due']: self.bad('Q04', 'early', 'the timeout task ends a lease without having checked that its deadline has passed', span, st)
            if ok:
                l = [x for x in f['lim'].split(',') if x]
                if b[2] and 'Ge0' not in l: self.bad('Q05', 'dlq-early', 'a message is dead-lettered on a path that does not establish attempts >= max_retries (known: %s)' % (f['lim'] or 'nothing'), span, st)
                if not b[2] and 'Lt0' not in l: self.bad('Q05', 'requeue-late', 'a message is requeued on a path that does not establish attempts < max_retries (known: %s)' % (f['lim'] or 'nothing'), span, st)
                self.n('retry decisions')
                if not b[2] and not self.same(I, st, self.F(f['q0'], 'attempts'), self.F(f['q1'], 'attempts')):
                    self.bad('Q05', 'attempts', 'requeueing changes the attempt count', span, st)
        elif api == 'move_to_queue':
            ok = f['dlq0'] == 1 and not b[2] and inq1 and b[1] == 'Ready' and not inq0
            if ok and I.decide(st, self.F(f['q1'], 'attempts')) != 0: self.bad('Q04', 'replay-attempts', 'a replayed message does not start over with zero attempts', span, st)
        elif api in ('delete_dlq', 'purge_dlq'): ok = f['dlq0'] == 1 and not b[2] and f['reg1'] != 1
        if not ok:
            d = lambda x, v, dl: ('queue/' + v if x else '') + ('dlq' if dl else '') or 'nowhere'
            self.bad('Q04', 'transition', 'a message goes from %s to %s, which this call may not do' % (d(*a), d(*b)), span, st)
        if api in ('pop', 'consume_batch') and ok:
            at0, at1 = self.F(f['q0'], 'attempts'), self.F(f['q1'], 'attempts')
            if lin(at1) != (lin(at0)[0], lin(at0)[1] + 1): self.bad('Q05', 'count', 'handing out a message does not add exactly one attempt (%s -> %s)' % (show(at0)[-40:], show(at1)[-60:]), span, st)
            ts = f['home1'][1]
            if not lease_ok(ts): self.bad('Q04', 'lease', 'the lease does not end at now + visibility_timeout_ms of the queue (%s)' % show(ts)[:200], span, st)
            self.n('leases')
    def result(self, I, st, api, fins, ch, val):
        names = self.params
        def upv(pred):
            for u in names:
                if pred(self.P.ty(u[1])): return mk('arg', u[0])
            return None
        isres = last(self.P.ty(I.root.locals[0][0]).get('def', ''))
        rv = val
        if isres == 'Result':
            k = I.variant_of(st, val, RES)
            if k is None: return
            if k == 'Err':
                if ch: self.bad('Q04', 'err', 'the call reports an error after changing a message', None, st)
                return
            rv = project(val, (('v', 'Ok'), ('f', '0', RES)))
        self.n('results checked')
        if api == 'push':
            if len(ch) != 1: self.bad('Q04', 'accepted', 'push reports success without storing the message', None, st); return
            K_, f = ch[0]
            pay = upv(lambda t: last(t.get('def', '')) == 'Bytes'); pr = upv(lambda t: t['s'] == 'u8')
            for c, w in (('payload', pay), ('priority', pr)):
                got = self.F(f['q1'], c) if f['q1'] is not None else None
                if w is not None and got is not None and got is not w: self.bad('Q04', 'pushed:' + c, 'the stored %s is not the one given to push' % c, None, st)
            if f['q1'] is not None and I.decide(st, self.F(f['q1'], 'attempts')) != 0: self.bad('Q05', 'newattempts', 'a new message does not start with zero attempts', None, st)
        elif api in ('ack', 'nack', 'move_to_queue', 'delete_dlq'):
            d = I.decide(st, rv)
            if ch and d != 1: self.bad('Q04', 'unreported', 'the call changes the message but does not report success', None, st)
            if not ch and d != 0: self.bad('Q04', 'falsesuccess', 'the call reports success on a path on which it changed nothing', None, st)
            mid = upv(lambda t: last(t.get('def', '')) == 'Uuid')
            for K_, f in ch:
                if mid is not None and K_ is not mid: self.bad('Q04', 'wrongid', 'the call changes a message other than the one it was asked to', None, st)
                if api == 'nack' and f['d1'] is not None:
                    rs = [mk('arg', u[0]) for u in names if 'String' in self.P.tys(u[1])]
                    if rs and self.F(f['d1'], 'failure_reason') not in rs: self.bad('Q04', 'reason', 'the failure reason recorded in the dead letter is not the one given', None, st)
        elif api in ('pop', 'consume_batch'):
            got = []
            if api == 'pop':
                k = I.variant_of(st, rv, OPT)
                if k == 'Some': got = [project(rv, (('v', 'Some'), ('f', '0', OPT)))]
                elif k is None: return
            else:
                v = I.val(st, rv)
                if v.op == 'vec': got = list(v.a[1])
                else: return
            for K_, f in ch:
                m = [x for x in got if self.F(x, 'id') is K_]
                if not m: self.bad('Q04', 'undelivered', 'a message is put in flight but is not in the result', None, st); continue
                for c in ('payload', 'priority', 'attempts'):
                    if f['q1'] is not None and not self.same(I, st, self.F(m[0], c), self.F(f['q1'], c)):
                        self.bad('Q04', 'delivered:' + c, 'the %s handed out differs from the stored one' % c, None, st)
            for x in got:
                if track(x) and not any(self.F(x, 'id') is K_ for K_, f in ch):
                    self.bad('Q04', 'unleased', 'a message is handed out without being put in flight', None, st)
        elif api == 'purge_dlq':
            c = st.mon.get('cleared')
            if not c and not st.mon.get('dlqnone'): self.bad('Q04', 'purge', 'purge reports success without emptying the dead-letter queue', None, st)
        elif ch or st.mon.get('cleared'):
            self.bad('Q04', 'readonly', 'this call changes messages', None, st)
        if ch and api == 'exists': pass

K0 = K(0)
def isnow(t):
    x = t
    while x.op in ('cast', 'fld', 'var'): x = x.a[0] if x.op != 'cast' else x.a[1]
    return x.op == 'call' and any(s.op == 'call' and s.a[0].split('::')[-1] == 'now' for s in subterms(x))
def lin(t):
    """t as (term, constant)"""
    c = 0
    while True:
        if t.op == 'bin' and t.a[0] in ('Add', 'Sub') and t.a[2].op == 'k' and isinstance(t.a[2].a[1], int):
            c += t.a[2].a[1] if t.a[0] == 'Add' else -t.a[2].a[1]; t = t.a[1]; continue
        if t.op == 'bin' and t.a[0] == 'Add' and t.a[1].op == 'k' and isinstance(t.a[1].a[1], int):
            c += t.a[1].a[1]; t = t.a[2]; continue
        if t.op == 'call' and t.a[0].split('::')[-1] in ('saturating_add', 'wrapping_add') and len(t.a[1]) == 2 and t.a[1][1].op == 'k':
            c += t.a[1][1].a[1]; t = t.a[1][0]; continue
        if t.op == 'cast': t = t.a[1]; continue
        return (t, c)
def lease_ok(ts):
    x = ts
    ab = None
    if x.op == 'bin' and x.a[0] == 'Add': ab = x.a[1:]
    elif x.op == 'call' and x.a[0].split('::')[-1] in ('saturating_add', 'wrapping_add') and len(x.a[1]) == 2: ab = x.a[1]
    if not ab: return False
    for a, b in (ab, ab[::-1]):
        while b.op == 'cast': b = b.a[1]
        if isnow(a) and b.op == 'fld' and b.a[1] == 'visibility_timeout_ms': return True
    return False
def fresh(K_):
    return any(s.op == 'call' and 'uuid' in s.a[0].lower() and s.a[0].split('::')[-1].startswith(('new_v', 'now_v')) for s in subterms(K_))
def guards_of(v):
    if v.op == 'guard': return [v]
    if v.op == 'agg' and v.a[3]: return [g for x in v.a[3] if isinstance(x, Term) for g in guards_of(x)]
    return []

API = ('push', 'pop', 'ack', 'nack', 'consume_batch', 'move_to_queue', 'delete_dlq', 'purge_dlq')
FLOOR = {'push': ('message transitions', 'durable operations', 'results checked'), 'pop': ('message transitions', 'durable operations', 'leases', 'results checked'),
    'consume_batch': ('message transitions', 'durable operations', 'leases', 'results checked'), 'ack': ('message transitions', 'durable operations', 'results checked'),
    'nack': ('message transitions', 'durable operations', 'retry decisions', 'results checked'), 'timeouts': ('message transitions', 'durable operations', 'retry decisions'),
    'move_to_queue': ('message transitions', 'durable operations', 'results checked'), 'delete_dlq': ('message transitions', 'durable operations', 'results checked'),
    'purge_dlq': ('durable operations', 'results checked'), 'QueueState::push': ('message transitions',)}
def run_queue(P, rep, props, maxsteps=600000):
    A = QAnchors(P)
    if not A.ok:
        rep.violation('anchors', 'the queue state (message map, dead-letter map, dispatch and in-flight indexes, lock) is not recognised: %s' % A.__dict__); return
    M = methods(P, 'QueueManager')
    roots = []
    for nm, (sig, body) in sorted(M.items()):
        if sig.j.get('vis') != 'Public': continue
        if nm in ('new', 'create_queue', 'delete_queue'): continue
        roots.append((nm, body, [(l[1], l[0]) for l in sig.locals[1:sig.argc + 1] if l[1]]))
    for f in spawned(P, 'brokers::queue::manager'): roots.append(('timeouts', f, ()))
    for f in P.libfns:
        if f.path.endswith('queue::QueueState::push'): roots.append(('QueueState::push', f, ()))
    seen = set()
    for api, f, params in roots:
        seen.add(api)
        m = QMon(P, A, api, rep, params)
        I = Interp(P, m, maxsteps)
        try: I.run(f)
        except Budget as e:
            rep.violation('budget:' + api, 'the paths of %s could not all be analysed: %s' % (api, e)); continue
        rep.fns |= I.analysed
        rep.count('roots analysed'); rep.count('paths', I.paths); rep.count('abstract steps', I.steps)
        for k, n in m.cnt.items(): rep.count(k, n)
        for need in FLOOR.get(api, ()):
            if not m.cnt.get(need): rep.violation('vacuous:%s:%s' % (api, need), 'no %s found on any path of %s: the rule would hold vacuously' % (need, api), where(f.span))
        for (p, k), (msg, wh, tr) in m.v.items():
            if p in props: rep.violation(k, '%s: %s' % (api, msg), wh or where(f.span), tr)
    for a in API + ('timeouts', 'QueueState::push'):
        if a not in seen: rep.violation('missing:' + a, 'queue operation %s not found' % a)
    return rep

ITERS = ('iter', 'iter_mut', 'into_iter', 'keys', 'values', 'values_mut', 'into_values', 'into_keys', 'range', 'range_mut', 'drain')
ENDS = {'front': 'front', 'first': 'front', 'pop_front': 'front', 'front_mut': 'front', 'first_key_value': 'front', 'pop_first': 'front', 'first_entry': 'front', 'first_mut': 'front',
        'back': 'back', 'last': 'back', 'pop_back': 'back', 'back_mut': 'back', 'last_key_value': 'back', 'pop_last': 'back', 'last_entry': 'back', 'last_mut': 'back', 'pop': 'back'}
REORDER = ('to_front', 'to_back', 'push_front', 'insert_before', 'swap_remove', 'swap_remove_back', 'swap_remove_front', 'reverse', 'sort', 'sort_by', 'sort_by_key', 'sort_unstable', 'sort_unstable_by', 'sort_unstable_by_key', 'swap', 'rotate_left', 'rotate_right', 'move_index', 'shift_insert', 'insert_sorted', 'cursor_front_mut', 'cursor_back_mut')
class OrderMon(QMon):
    """Q08: which bucket and which of its messages a delivery takes."""
    def bad(self, prop, kind, msg, span, st):
        if prop == 'Q08': QMon.bad(self, prop, kind, msg, span, st)
    def src(self, I, st, a):
        t = a; k = 0
        while isinstance(t, Term) and k < 8:
            k += 1
            if t.op == 'ref':
                kd = self.kind(t.a[0])
                if kd in (('d',),) or kd and kd[0] == 'bucket' and kd[1] == 'd': return kd, t.a[0]
                t = I.readloc(st, t.a[0]); continue
            return None, None
        return None, None
    rejects = True
    def walk(self, I, st, a):
        """(adaptors, base collection) of an iterator"""
        it = I.val(st, a); k = 0; ad = []
        while isinstance(it, Term) and it.op in ('iterad', 'ref', 'iter') and k < 16:
            k += 1
            if it.op == 'iter': it = it.a[1]; break
            if it.op == 'ref':
                kd = self.kind(it.a[0])
                if kd and (kd == ('d',) or kd[0] == 'bucket' and kd[1] == 'd'): break
                it = I.readloc(st, it.a[0])
            else: ad.append(it.a[0]); it = it.a[2]
        if isinstance(it, Term) and it.op == 'rng': it = it.a[0]
        kd = self.kind(it.a[0]) if isinstance(it, Term) and it.op == 'ref' else None
        return ad, kd, (it.a[0] if kd else None)
    def dirof(self, ad, name):
        rev = name.split('::')[-1] in ('next_back', 'rfind', 'rfold', 'rposition', 'try_rfold', 'last', 'max', 'nth_back')
        for a in ad:
            if a == 'rev': rev = not rev
        return 'back' if rev else 'front'
    def empty(self, I, st, p):
        b = I.readloc(st, p)
        return I.decide(st, mk('un', 'is_empty', b)) == 1 or I.decide(st, mk('bin', 'Eq', mk('len', b), K0)) == 1
    def unknown(self, st, p):
        """the id p stands for no message"""
        return any(k[0] == 'has' and k[2] is p and v == 0 for k, v in st.facts.items() if isinstance(k, tuple) and len(k) == 3)
    def passed(self, I, st):
        """the bucket visited last is left behind"""
        p = st.mon.get('pd')
        if p is None: return
        if st.mon.get('exh') == p and not st.mon.get('iskip'): return
        if not self.empty(I, st, p): st.mon['skipped'] = 1
    def prune(self, I, st):
        QMon.prune(self, I, st)
        p = st.mon.get('pd')      # facts about anonymous buckets do not outlive long loops
        if p is not None and st.mon.get('exh') != p and self.empty(I, st, p): st.mon['exh'] = p
    def bucketof(self, loc, e):
        """place of the bucket an element of the index stands for"""
        return ('H', mk('entry', loc, mk(e.op, e, 'key', e.a[-1])), ())
    def on_draw(self, I, st, e, ev):
        if e.op not in ('elem', 'other') or not isinstance(e.a[0], Term): return
        s = e.a[0]
        if s.op == 'rng': s = s.a[0]
        if s.op != 'ref': return
        kd = self.kind(s.a[0])
        if not kd: return
        ad = self.walk(I, st, ev.args[0])[0] if ev.args else []
        if kd == ('d',):
            if 'skip' in ad or 'step_by' in ad: st.mon['skipped'] = 1
            st.mon['pd'] = self.bucketof(s.a[0], e); st.mon['pdir'] = self.dirof(ad, ev.name); st.mon['ds'] = ev.site; st.mon.pop('pi', None); st.mon.pop('exh', None)
        elif kd[0] == 'bucket' and kd[1] == 'd': self.inner(I, st, e, self.dirof(ad, ev.name), ad, ev)
    def inner(self, I, st, e, d, ad, ev):
        if 'skip' in ad or 'step_by' in ad: st.mon['iskip'] = 1
        st.mon['pi'] = e
        self.took(I, st, e, d, ev.site)
    def on_inner(self, I, st, e, it, stages, ev):
        ad, kd, loc = self.walk(I, st, it)
        if kd and kd[0] == 'bucket' and kd[1] == 'd':
            ad = ad + [x.a[0] for x in stages]
            self.inner(I, st, e, self.dirof(ad, ev.name), ad, ev)
    def on_reject(self, I, st, ev):
        ad, kd, loc = self.walk(I, st, ev.args[0]) if ev.args else ([], None, None)
        if kd == ('d',):
            p = st.mon.get('pi')
            if p is not None:
                if not self.unknown(st, p): self.rej.setdefault(('i', ev.site), ev.span)
            elif st.mon.get('pd') is not None and not self.empty(I, st, st.mon['pd']): self.rej.setdefault(('d', ev.site), ev.span)
        elif kd and kd[0] == 'bucket' and kd[1] == 'd':
            p = st.mon.get('pi')
            if p is not None and not self.unknown(st, p): self.rej.setdefault(('i', ev.site), ev.span)
    def took(self, I, st, e, d, site=None):
        if track(e):
            self.n('selections')
            s = e.a[0]
            if s.op == 'rng': s = s.a[0]
            same = st.mon.get('pd') is None or not (s.op == 'ref' and s.a[0][1].op == 'entry') or s.a[0][:2] == st.mon['pd'][:2] or self.samekey(s.a[0][1].a[1], st.mon['pd'][1].a[1])
            st.mon['how'] = tuple(x for x in st.mon.get('how', ()) if x[0] is not e) + ((e, st.mon.get('pdir', '?') if same else '?', d, st.mon.get('skipped', 0), st.mon.get('iskip', 0), st.mon.get('ds'), site),)
    def samekey(self, a, b):
        while isinstance(a, Term) and a.op == 'valbox': a = a.a[0]
        return a is b or isinstance(a, Term) and any(x is b for x in subterms(a)) and a.op not in ('bin', 'call')
    def on_call(self, I, st, ev):
        QMon.on_call(self, I, st, ev)
        m = ev.name.split('::')[-1]
        if not ev.args: return
        if m in ('next', 'next_back', 'nth', 'last'):
            ad, kd, loc = self.walk(I, st, ev.args[0])
            if kd == ('d',): self.passed(I, st)
            elif kd and kd[0] == 'bucket' and kd[1] == 'd':
                if m == 'nth': st.mon['iskip'] = 1
                p = st.mon.get('pi')
                if p is not None and not self.unknown(st, p): st.mon['iskip'] = 1
            if m in ('nth', 'last') and kd == ('d',) and m == 'nth': st.mon['skipped'] = 1
        if m not in ITERS and m not in ENDS and m not in REORDER: return
        kd, loc = self.src(I, st, ev.args[0])
        if kd is None: return
        if m in REORDER and kd[0] == 'bucket': self.bad('Q08', 'reorder', 'ready messages of one priority are put in another order than they became ready', ev.span, st)
        if m in ITERS or m in ENDS and kd == ('d',):
            if kd == ('d',):
                for k in ('pd', 'pdir', 'skipped', 'pi', 'iskip', 'exh', 'ds'): st.mon.pop(k, None)
            else:
                st.mon.pop('pi', None); st.mon.pop('exh', None); st.mon.pop('iskip', None)
        if m in ENDS and kd == ('d',): st.mon['pdir'] = ENDS[m]; st.mon['ds'] = ev.site
    def on_ret(self, I, st, ev, val):
        m = ev.name.split('::')[-1]
        if m in ENDS and ev.args:
            kd, loc = self.src(I, st, ev.args[0])
            if kd and kd[0] == 'bucket':
                st.mon.pop('iskip', None)
                for s in subterms(val):
                    if s.op == 'elem' and isinstance(s.a[0], Term) and s.a[0].op == 'ref' and s.a[0].a[0] == loc: self.took(I, st, s, ENDS[m], ev.site)
        if m in ('next', 'next_back') and ev.args:
            ad, kd, loc = self.walk(I, st, ev.args[0])
            if kd and kd[0] == 'bucket' and kd[1] == 'd' and I.variant_of(st, val, OPT) == 'None' and not ad: st.mon['exh'] = loc
        QMon.on_ret(self, I, st, ev, val)
    def allowed(self, I, st, api, K_, f, span):
        if api not in ('pop', 'consume_batch') or f['var0'] != 'Ready' or f['var1'] != 'InFlight': return
        h = [x for x in st.mon.get('how', ()) if x[0] is K_ or any(y is x[0] for y in subterms(K_))]
        self.n('deliveries checked')
        if not h: return self.bad('Q08', 'unknown', 'a message is delivered that was not selected from the index of ready messages', span, st)
        _, pd, d, sk, isk, s1, s2 = h[-1]
        self.sel |= {s1, s2}
        if pd != 'back': self.bad('Q08', 'priority', 'the message delivered is not taken from the highest priority that has ready messages', span, st)
        if d != 'front' or isk: self.bad('Q08', 'fifo', 'the message delivered is not the one of its priority that has been ready longest', span, st)
        if sk: self.bad('Q08', 'skipped', 'a higher priority that may have ready messages is passed over', span, st)
    def finalize(self, I, st, span):
        QMon.finalize(self, I, st, span)
        # decided where the section ends
        for K_, fr in st.mon.get('fins', ()):
            f = dict(fr)
            if f['changed']: self.allowed(I, st, self.api, K_, f, span)
        for k in ('how', 'pd', 'pdir', 'skipped', 'pi', 'iskip', 'exh', 'ds'): st.mon.pop(k, None)
        for k in ('fins', 'ops', 'late', 'cleared', 'dlqnone'): st.mon.pop(k, None)

ORDERED = ('LinkedHashSet', 'VecDeque', 'IndexSet', 'LinkedHashMap', 'IndexMap')
def run_order(P, rep, props):
    if 'Q08' not in props: return rep
    A = QAnchors(P)
    if not A.ok: rep.violation('anchors', 'the queue state is not recognised: %s' % A.__dict__); return rep
    for o, fn in A.disp:
        for v in P.adts[o]['variants']:
            for f in v['fields']:
                if f.get('name') == fn and 'ty' in f:
                    t = P.ty(f['ty']); b = args_of(P, t)[1]; rep.count('indexes checked')
                    if last(t['def']) != 'BTreeMap': rep.violation('index', 'the index of ready messages is not sorted by priority (%s)' % t['s'])
                    if last(b['def']) not in ORDERED: rep.violation('bucket', 'ready messages of one priority are kept in a collection without arrival order (%s)' % b['s'])
    M = methods(P, 'QueueManager')
    seen = set()
    for nm, (sig, body) in sorted(M.items()):
        if nm not in ('pop', 'consume_batch', 'push', 'nack', 'move_to_queue'): continue
        seen.add(nm)
        m = OrderMon(P, A, nm, rep, [(l[1], l[0]) for l in sig.locals[1:sig.argc + 1] if l[1]])
        m.rej = {}; m.sel = set()
        I = Interp(P, m, 600000)
        try: I.run(body)
        except Budget as e: rep.violation('budget:' + nm, 'the paths of %s could not all be analysed: %s' % (nm, e)); continue
        for (what, site), span in m.rej.items():
            if site in m.sel: rep.violation('filter:' + nm + ':' + what, '%s: the selection of the message to deliver leaves out %s that may be ready' % (nm, 'messages' if what == 'i' else 'a priority with messages'), where(span))
        rep.fns |= I.analysed
        rep.count('roots analysed'); rep.count('paths', I.paths); rep.count('abstract steps', I.steps)
        for k in ('selections', 'deliveries checked'): rep.count(k, m.cnt.get(k, 0))
        if nm in ('pop', 'consume_batch') and not m.cnt.get('deliveries checked'): rep.violation('vacuous:' + nm, 'no delivery found on any path of %s: the rule would hold vacuously' % nm, where(body.span))
        for (p, k), (msg, wh, tr) in m.v.items(): rep.violation(k, '%s: %s' % (nm, msg), wh or where(body.span), tr)
    for a in ('pop', 'consume_batch'):
        if a not in seen: rep.violation('missing:' + a, 'queue operation %s not found' % a)
    return rep

if __name__ == '__main__':
    import sys, time
    import os; P = Prog(os.environ.get('NX_OUT', '/verif/build/out'))
    rep = Report('Q')
    t = time.time(); pr = set(sys.argv[1].split(','))
    if pr != {'Q08'}: run_queue(P, rep, pr)
    run_order(P, rep, pr)
    print(rep.counts, '%.1fs' % (time.time() - t))
    for v in rep.viol.values():
        print(v['key'], '|', v['msg'][:300], '|', v['where'])
        if len(sys.argv) > 2:
            for x in v['trace']: print('      ', x)
