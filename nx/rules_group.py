"""Stream consumer groups: nothing delivered is lost, the acknowledged position never passes an open message, fencing (S04..S06, S08)."""
from core import *
from models import track
from rules_queue import lin, last

GROUP = 'ConsumerGroup'
def isfld(t, name): return t.op == 'fld' and t.a[1] == name
def strip(t):
    while t.op in ('cast', 'deref', 'valbox', 'vref'): t = t.a[1] if t.op == 'cast' else t.a[0]
    return t
def ismax(t): return t.op == 'call' and t.a[0].split('::')[-1] == 'max' and len(t.a[1]) == 2
def satsub1(t):
    if t.op == 'call' and t.a[0].split('::')[-1] in ('saturating_sub', 'wrapping_sub') and len(t.a[1]) == 2 and t.a[1][1].op == 'k' and t.a[1][1].a[1] == 1: return t.a[1][0]
    if t.op == 'bin' and t.a[0] == 'Sub' and t.a[2].op == 'k' and t.a[2].a[1] == 1: return t.a[1]
    return None
def lineq(a, b, d=0):
    (x, m), (y, n) = lin(a), lin(b)
    return x is y and m == n + d
def cmpfact(o, a, b, v):
    """normal form of a decided comparison: (op, a, b) with op in Lt Le Eq Ne, or None"""
    if v not in (0, 1): return None
    if v == 0: o = {'Lt': 'Ge', 'Le': 'Gt', 'Gt': 'Le', 'Ge': 'Lt', 'Eq': 'Ne', 'Ne': 'Eq'}.get(o)
    if o == 'Gt': o, a, b = 'Lt', b, a
    if o == 'Ge': o, a, b = 'Le', b, a
    return (o, a, b) if o in ('Lt', 'Le', 'Eq', 'Ne') else None
def decided(term, val):
    """comparisons established by branching on term == val"""
    x, v = term, val
    while x.op in ('un', 'cast'):
        if x.op == 'un' and x.a[0] == 'Not': v = None if v is None else 1 - v; x = x.a[1]
        elif x.op == 'cast': x = x.a[1]
        else: break
    if x.op != 'bin': return []
    o, a, b = x.a
    if o == 'BitAnd' and v == 1: return decided(a, 1) + decided(b, 1)
    if o == 'BitOr' and v == 0: return decided(a, 0) + decided(b, 0)
    c = cmpfact(o, a, b, v)
    return [c] if c else []
def factcmps(st):
    for t, v in st.facts.items():
        if isinstance(t, Term) and t.op == 'cmp' and v in (0, 1):
            c = cmpfact(t.a[0], t.a[1], t.a[2], v)
            if c: yield c

def order(x):
    if isinstance(x, Term): return (x.id,)
    if isinstance(x, tuple): return tuple(y.id if isinstance(y, Term) else hash(y) if not isinstance(y, str) else sum(map(ord, y)) for y in x)
    return (sum(map(ord, x)),)
class GroupMon(Monitor):
    def __init__(self, P, api, fn, roots=()):
        self.roots = roots; self.P = P; self.api = api; self.v = {}; self.cnt = {}; self.fn = fn
        self.params = {l[1]: P.tys(l[0]) for l in fn.locals[1:fn.argc + 1] if l[1]}
        self.mono = bool([n for n in self.params if 'generation' in n])
        self.self0 = mk('deref', mk('arg', 'self'))
        self.MSG = ([d for d in P.adts if d.endswith('stream::domain::message::Message')] + [''])[0]
        self.PM = [d for d in P.adts if d.endswith('::PendingMsg')]
    def bad(self, prop, kind, msg, span, st):
        k = (prop, '%s:%s' % (self.api, kind))
        if k not in self.v: self.v[k] = (msg, where(span) if span else '', st.tracelist())
    def n(self, what): self.cnt[what] = self.cnt.get(what, 0) + 1
    def coll(self, loc):
        f = lastfield(loc)
        if f and f[2].endswith('::' + GROUP): return f[1]
        return None
    def key(self, t):
        """a sequence number: reading log[seq - ram_start] yields the message numbered seq (log contiguity, property S01)"""
        t = strip(t)
        if isfld(t, 'seq'):
            for s in subterms(t):
                if s.op == 'call' and s.a[0].endswith('VecDeque::get') and len(s.a[1]) == 2:
                    i = strip(s.a[1][1])
                    if i.op == 'bin' and i.a[0] == 'Sub' and strip(i.a[2]).op == 'arg': return strip(i.a[1])
        return t
    def headish(self, t):
        t = strip(t)
        if t.op == 'arg' and 'head' in t.a[0]: return True
        if ismax(t): return any(self.headish(a) for a in t.a[1]) and all(self.headish(a) or strip(a).op == 'k' for a in t.a[1])
        return False
    def get(self, st, k): return st.mon.get(k, ())
    def add(self, st, k, x):
        s = st.mon.get(k, ())
        if x not in s: st.mon[k] = tuple(sorted(s + (x,), key=order))
    def rm(self, st, k, pred):
        n = tuple(x for x in st.mon.get(k, ()) if not pred(x))
        if n: st.mon[k] = n
        else: st.mon.pop(k, None)
    def cur(self, st, f): return st.mon.get('cur:' + f) or project(st.mon.get('base', self.self0), (('f', f, ''),))
    def curs(self, st, f, t):
        """is t the current value of group field f"""
        c = st.mon.get('cur:' + f)
        if c is not None: return t is c
        return isfld(t, f) and t.a[0] is st.mon.get('base', self.self0)
    # -- facts
    def below_head(self, st, K_):
        for o, a, b in list(factcmps(st)) + list(self.get(st, 'cmps')):
            if o == 'Lt' and self.key(a) is K_ and self.headish(b): return True
        return False
    def on_elem(self, I, st, loc, key):
        if self.coll(loc) == 'pending' and self.api in ('check_redelivery', 'remove_member'):
            st.mon['iterated'] = 1
            if track(key): self.add(st, 'visited', self.key(key)); self.n('deliveries visited')
    def about(self, t, field):
        """the message whose delivery record t is a field of"""
        for s in subterms(t):
            if isfld(s, field):
                for e in subterms(s):
                    if e.op == 'entry' and self.collof(e) == 'pending': return self.key(e.a[1])
        return None
    def deadline(self, x, y):
        """x against y is the age of a delivery against ack_wait, or its deadline against now: (message, x is an age)"""
        x, y = strip(x), strip(y)
        nm = lambda t: t.a[0].split('::')[-1] if t.op == 'call' else t.a[0] if t.op == 'bin' else ''
        args = lambda t: [strip(z) for z in (t.a[1] if t.op == 'call' else t.a[1:] if t.op == 'bin' else ())]
        now = lambda t: nm(t) == 'now'
        at = lambda t: self.about(t, 'delivered_at') if isfld(t, 'delivered_at') else self.about(project(mk('deref', t), ()), 'delivered_at') if t.op == 'ref' else None
        if isfld(y, 'ack_wait'):
            a = args(x)
            if nm(x) in ('duration_since', 'saturating_duration_since', 'sub', 'Sub') and len(a) == 2 and now(a[0]): return at(a[1]), True
            if nm(x) == 'elapsed' and len(a) == 1: return at(a[0]), True
        if now(y) and nm(x) in ('add', 'Add'):
            a = args(x)
            for p, q in (a, a[::-1]):
                if isfld(q, 'ack_wait') and at(p) is not None: return at(p), False
        return None, False
    def on_branch(self, I, st, term, val, span):
        if val is not None and 'iterated' not in st.mon:
            x, v = term, val
            while x.op == 'un' and x.a[0] == 'Not': x, v = x.a[1], 1 - v if v in (0, 1) else v
            if v == 1 and x.op in ('call', 'un') and 'is_empty' in str(x.a[0]) and 'pending' in show(x): st.mon['iterated'] = 1
        for c in decided(term, val):
            o, a, b = c
            for x, y in ((a, b), (b, a)):
                K_, late = self.deadline(x, y)
                if K_ is not None and o in ('Lt', 'Le'):
                    # age > wait, or delivered_at + wait < now: due
                    due = (x is b) if late else (x is a)
                    self.rm(st, 'visited', lambda z: z is K_ and not due)
                    if due: self.add(st, 'due', K_)
                K_ = self.about(x, 'consumer_id') if isfld(strip(x), 'consumer_id') else None
                if K_ is not None and strip(y).op == 'arg':
                    if o == 'Eq': self.add(st, 'mine', K_)
                    elif o == 'Ne' and self.api == 'remove_member': self.rm(st, 'visited', lambda z: z is K_)
            names = [x for x in (a, b) if isfld(x, 'generation') or (x.op == 'arg' and 'generation' in x.a[0])]
            if o == 'Eq' and len(names) == 2 and names[0].op != names[1].op: st.mon['gen'] = 1; continue
            if o == 'Lt' and self.headish(b):
                for k in ('debt', 'adebt'): self.rm(st, k, lambda K_: K_ is self.key(a))
            keep = any(isfld(lin(x)[0], 'max_deliveries') or isfld(x, 'consumer_id') or self.headish(b) or self.isnext(st, x) or self.curs(st, 'ack_floor', x) for x in (a, b)) or \
                o == 'Eq' and any(ismax(strip(x)) for x in (a, b))
            if o == 'Ne' or (o == 'Le' and self.headish(a)): keep = False
            if keep and track(a) and track(b): self.add(st, 'cmps', c)
            if isfld(strip(a), 'max_ack_pending') or isfld(strip(b), 'max_ack_pending') or any(isfld(s, 'max_ack_pending') for x in (a, b) for s in subterms(x)):
                if o == 'Lt': st.mon['room'] = 1
    def isnext(self, st, t): return self.curs(st, 'next_deliver_seq', t)
    # -- collections
    def on_map(self, I, st, op, loc, key, was, val, ev):
        c = self.coll(loc)
        if c is None: return (st,)
        if op == 'clear':
            self.add(st, 'cleared', c); st.note('%s cleared %s' % (c, where(ev.span))); return (st,)
        if c == 'members':
            if op == 'hit' and strip(key).op == 'arg': st.mon['member'] = strip(key)
            if op in ('insert', 'remove'): self.add(st, 'membership', op)
            return (st,)
        if c not in ('pending', 'redeliver', 'parked', 'delivery_attempts'): return (st,)
        if key is None or not track(key): 
            if op == 'insert' and c in ('pending', 'redeliver'): self.rm(st, 'miss', lambda x: x[0] == c)
            return (st,)
        K_ = self.key(key)
        if op in ('insert', 'remove'): st.note('%s.%s(%s) %s' % (c, op, show(K_)[-50:], where(ev.span)))
        if op == 'miss' and c in ('pending', 'redeliver'): self.add(st, 'miss', (c, K_))
        if op == 'hit':
            self.rm(st, 'miss', lambda x: x == (c, K_))
            if c in ('redeliver', 'pending') : self.settle(st, K_)
            if c == 'redeliver': self.add(st, 'queued', K_)
        if op == 'remove':
            self.n('removals followed')
            if c == 'pending':
                if self.api == 'ack': self.acked(I, st, K_, val, ev)
                elif not self.below_head(st, K_):
                    self.add(st, 'debt', K_)
                    self.n('leases ended')
                    if not (any(x is K_ for x in self.get(st, 'due')) or (any(x is K_ for x in self.get(st, 'mine')) and 'remove' in self.get(st, 'membership'))):
                        self.bad('S06', 'lease', 'a delivered message is taken from its consumer on a path that establishes neither that its acknowledgement time has passed nor that this consumer left the group', ev.span, st)
                self.rm(st, 'visited', lambda z: z is K_)
                self.add(st, 'left', (K_, val))
            elif c == 'redeliver':
                # one found to be the same as another that is not followed: that one is followed on another path
                eq = self.same(st, K_)
                if not self.below_head(st, K_) and all(track(x) for x in eq): self.add(st, 'debt', next((x for x in eq if x.op == 'fld'), K_))
                self.rm(st, 'queued', lambda x: x is K_)
            elif c == 'delivery_attempts':
                if not (self.below_head(st, K_) or st.mon.pop('gone', None) is K_ or (self.api == 'ack' and K_.op == 'arg')): self.add(st, 'adebt', K_)
        if op == 'insert':
            if c == 'delivery_attempts' and (K_, val) in self.get(st, 'uncounted'): self.rm(st, 'uncounted', lambda x: x == (K_, val))
            elif c == 'delivery_attempts': st.mon['att'] = tuple(x for x in st.mon.get('att', ()) if x[0] is not K_) + ((K_, val),)
            elif c == 'parked':
                self.n('give-ups checked')
                self.parked(I, st, K_, ev); self.settle(st, K_)
                if any(x is K_ for x in self.get(st, 'adebt')): self.rm(st, 'adebt', lambda x: x is K_)
                else: st.mon['gone'] = K_
            elif c == 'redeliver':
                self.rm(st, 'miss', lambda x: x[0] == c); self.settle(st, K_)
                if self.limit(st, K_, 'Ge', 0): self.bad('S08', 'redeliver', 'a message that already had its last allowed delivery is queued for redelivery', ev.span, st)
            elif c == 'pending':
                self.rm(st, 'miss', lambda x: x[0] == c); self.settle(st, K_)
                self.delivered(I, st, K_, val, ev)
                if any(x is K_ for x in self.get(st, 'queued')): self.bad('S04', 'both', 'a message is delivered while it stays on the redelivery list', ev.span, st)
            if c in ('parked', 'pending'):
                self.rm(st, 'cmps', lambda x: any(isfld(lin(y)[0], 'max_deliveries') for y in x[1:]))
                self.rm(st, 'att', lambda x: x[0] is K_)
                for k in ('cmps', 'att', 'miss', 'debt'):
                    if not st.mon.get(k, 1): del st.mon[k]
        return (st,)
    def same(self, st, K_):
        """the messages a path has found to be the same as K"""
        r = []
        for o, x, y in list(self.get(st, 'cmps')) + list(factcmps(st)):
            if o == 'Eq':
                for p, q in ((x, y), (y, x)):
                    if self.key(p) is K_: r.append(self.key(q))
        return r
    def settle(self, st, K_):
        if self.get(st, 'debt'):
            eq = self.same(st, K_)
            self.rm(st, 'debt', lambda x: x is K_ or any(x is y for y in eq))
    # -- the delivery limit: comparisons of a delivery count of K with max_deliveries
    def limit(self, st, K_, op, d):
        """is `deliveries so far of K  op  max_deliveries + d` established"""
        for o, a, b in self.get(st, 'cmps'):
            for x, y, oo in ((a, b, o), (b, a, {'Lt': 'Gt', 'Le': 'Ge', 'Eq': 'Eq', 'Ne': 'Ne'}[o])):
                (p, m), (q, n) = lin(x), lin(y)
                if not isfld(q, 'max_deliveries') or isfld(p, 'max_deliveries'): continue
                if p.op == 'k': base = None; m += p.a[1]      # no delivery yet
                elif isfld(p, 'delivery_count') or any(s.op == 'entry' for s in subterms(p)):
                    if K_ not in subterms(p) and not any(self.key(s) is K_ for s in subterms(p)): continue
                else: continue
                # p + m oo max + n
                e = n - m
                if oo == 'Gt': oo, e = 'Ge', e + 1
                if oo == 'Le': oo, e = 'Lt', e + 1
                if oo == op and (e >= d if op == 'Ge' else e <= d): return True
        return False
    def parked(self, I, st, K_, ev):
        if not self.limit(st, K_, 'Ge', 0):
            self.bad('S08', 'park', 'a message is given up (parked) on a path that does not establish that it was already delivered max_deliveries times', ev.span, st)
            self.bad('S04', 'park', 'a message is given up (parked) on a path that does not establish that it was already delivered max_deliveries times', ev.span, st)
    def delivered(self, I, st, K_, val, ev):
        self.n('deliveries checked')
        self.add(st, 'given', K_)
        if val is None or val.op != 'agg': self.bad('S06', 'opaque', 'a delivery is recorded whose content is not known', ev.span, st); return
        f = dict(zip(val.a[2], val.a[3]))
        if 'gen' not in st.mon: self.bad('S06', 'gen', 'a message is delivered on a path that does not establish that the caller has the current generation of the group', ev.span, st)
        if 'member' not in st.mon: self.bad('S06', 'member', 'a message is delivered on a path that does not establish that the caller is a member of the group', ev.span, st)
        elif strip(f.get('consumer_id', UNIT)) is not strip(st.mon['member']): self.bad('S06', 'owner', 'a delivery is recorded for a consumer other than the member it is given to', ev.span, st)
        at = strip(f.get('delivered_at', UNIT))
        if not (at.op == 'call' and at.a[0].endswith('::now')): self.bad('S04', 'time', 'the delivery time recorded for a message is not the current time: its redelivery deadline is wrong', ev.span, st)
        cnt = f.get('delivery_count', UNIT)
        b, c = lin(cnt)
        prev = (b.op == 'k' and b.a[1] + c == 1) or (c == 1 and any(s.op == 'entry' and self.collof(s) == 'delivery_attempts' for s in subterms(b)))
        if not prev: self.bad('S08', 'count', 'the delivery count recorded for a message is not its previous count plus one (%s)' % show(cnt)[-80:], ev.span, st)
        att = [v for k, v in st.mon.get('att', ()) if k is K_]
        if not att: self.add(st, 'uncounted', (K_, cnt))
        elif att[0] is not cnt: self.bad('S08', 'attempts', 'the remembered number of deliveries is not the one recorded with the delivery', ev.span, st)
        if not self.limit(st, K_, 'Lt', 0): self.bad('S08', 'limit', 'a message is delivered on a path that does not establish that it was delivered fewer than max_deliveries times', ev.span, st)
        if not st.mon.pop('room', None): self.bad('S08', 'room', 'a message is delivered on a path that does not check the number of unacknowledged messages against max_ack_pending', ev.span, st)
    def collof(self, e): return self.coll(e.a[0])
    def acked(self, I, st, K_, val, ev):
        self.n('acknowledgements checked')
        if K_.op != 'arg': self.bad('S06', 'ackother', 'ack removes a message other than the one named', ev.span, st)
        if 'gen' not in st.mon: self.bad('S06', 'gen', 'an acknowledgement is accepted on a path that does not establish that the caller has the current generation of the group', ev.span, st)
        if 'member' not in st.mon: self.bad('S06', 'member', 'an acknowledgement is accepted on a path that does not establish that the caller is a member of the group', ev.span, st)
        own = False
        for o, a, b in list(self.get(st, 'cmps')) + list(factcmps(st)):
            if o == 'Eq' and any(isfld(x, 'consumer_id') and K_ in subterms(x) for x in (a, b)) and any(strip(x).op == 'arg' for x in (a, b)): own = True
        if not own: self.bad('S06', 'owner', 'an acknowledgement is accepted on a path that does not establish that the message was delivered to this consumer', ev.span, st)
    # -- positions
    def on_store(self, I, st, loc, val, span):
        f = lastfield(loc)
        if not f or not f[2].endswith('::' + GROUP) or loc[0] != 'H': return
        if f[1] in ('members', 'pending', 'redeliver', 'parked', 'delivery_attempts') and (val.op == 'vec' and val.a[0] == 'E' or val.op == 'call' and not val.a[1] and val.a[0].split('::')[-1] in ('new', 'default')):
            self.add(st, 'cleared', f[1]); st.note('%s emptied %s' % (f[1], where(span)))
        if f[1] == 'ack_floor': self.floor(I, st, val, span)
        elif f[1] == 'next_deliver_seq': self.nxt(I, st, val, span)
        if f[1] in ('ack_floor', 'next_deliver_seq', 'generation', 'is_fetching_cold', 'cancel'):
            if f[1] in ('ack_floor', 'next_deliver_seq') and not self.api.startswith('seek') and not self.headish(val):
                # from here on the position is just `the current one`
                v0, val = val, mk('pos', f[1])
                was = {k_: val for k_, x in st.env.items() if isinstance(x, Term) and x.op == 'bin' and lineq(x, v0)}   # counted along with it
                for k_, x in st.env.items():        # what was decided about the earlier one stays decided
                    if isinstance(x, Term) and x.op in ('bin', 'un', 'cmp') and val in subterms(x) and k_ not in was:
                        d = I.decide(st, x)
                        if d in (0, 1): was[k_] = K(d)
                I.rebind(st, val)
                st.env.update(was)
                for k in ('cmps', 'miss'): self.rm(st, k, lambda x: any(val in subterms(y) for y in x if isinstance(y, Term)))
                I.writeloc(st, loc, val)
            old = self.cur(st, f[1])
            st.mon['cur:' + f[1]] = val
            if f[1] == 'next_deliver_seq' and self.headish(val): st.mon['prev:' + f[1]] = old
            else: st.mon.pop('prev:' + f[1], None)
            self.add(st, 'stored', f[1])
            if f[1] == 'ack_floor': st.mon.pop('miss', None)
            self.rm(st, 'cmps', lambda x: any(lin(y)[0] is old for y in x[1:] if isinstance(y, Term)) and x[0] != 'Eq')
    def floor(self, I, st, v, span):
        if self.api.startswith('seek'): return
        old = self.cur(st, 'ack_floor')
        isold = lambda t: self.curs(st, 'ack_floor', t)
        self.n('position updates checked')
        st.note('ack_floor = %s %s' % (show(v)[-60:], where(span)))
        (b, c) = lin(v)
        for base, d in ((b, c),):
            ob, oc = lin(old) if 'cur:ack_floor' in st.mon else (None, 0)
            if (ob is None and isold(base) and d == 1) or (ob is not None and base is ob and d == oc + 1):
                for coll in ('pending', 'redeliver'):
                    if not any(x[0] == coll and lineq(x[1], v) for x in self.get(st, 'miss')):
                        self.bad('S05', 'open:' + coll, 'the acknowledged position advances over a message on a path that does not establish that it is not %s' % {'pending': 'delivered and unacknowledged', 'redeliver': 'waiting for redelivery'}[coll], span, st)
                ok = False
                for o, x, y in list(self.get(st, 'cmps')) + list(factcmps(st)):
                    if self.isnext(st, lin(y)[0]) or lin(y)[0] is lin(self.cur(st, 'next_deliver_seq'))[0]:
                        (p, m), (q, n) = lin(x), lin(y)
                        k = n if self.isnext(st, q) else n - lin(self.cur(st, 'next_deliver_seq'))[1]
                        # p + m  o  next + k    and v = base + d
                        if p is base and ((o == 'Lt' and m - k >= d) or (o == 'Le' and m - k > d)): ok = True
                if not ok: self.bad('S05', 'undelivered', 'the acknowledged position advances on a path that does not establish that the message was ever delivered', span, st)
                for K_ in self.get(st, 'debt'): self.bad('S05', 'transit', 'the acknowledged position may advance over a message that is on its way from one list to another', span, st)
                return
        h = satsub1(v)
        if h is not None and self.headish(h):
            for o, x, y in list(self.get(st, 'cmps')) + list(factcmps(st)):
                if o == 'Lt' and isold(x) and (y is v or (satsub1(y) is not None and strip(satsub1(y)) is strip(h))): return
            self.bad('S05', 'back', 'the acknowledged position is set to the start of the log on a path that does not establish that it was before it', span, st); return
        if ismax(v):
            o = [x for x in v.a[1] if not isold(x)]
            if len(o) == 1 and satsub1(o[0]) is not None and self.headish(satsub1(o[0])): return
        if isold(v): return
        self.bad('S05', 'floor', 'the acknowledged position is set to something other than its successor or the start of the log (%s)' % show(v)[-100:], span, st)
    def freshform(self, st, t):
        """is t the next sequence number to deliver: next, or max(next, head)"""
        t = strip(t)
        if self.isnext(st, t): return True
        if self.headish(t) and self.headish(self.cur(st, 'next_deliver_seq')): return True
        if ismax(t):
            a = [strip(x) for x in t.a[1]]
            for x, y in (a, a[::-1]):
                if not self.headish(y): continue
                if self.isnext(st, x): return True
                if self.headish(self.cur(st, 'next_deliver_seq')) and (x is st.mon.get('prev:next_deliver_seq') or isfld(x, 'next_deliver_seq')): return True
        return False
    def nxt(self, I, st, v, span):
        if self.api.startswith('seek'): return
        self.n('position updates checked')
        st.note('next_deliver_seq = %s %s' % (show(v)[-60:], where(span)))
        if self.headish(v):
            for o, x, y in list(self.get(st, 'cmps')) + list(factcmps(st)):
                if o in ('Lt', 'Le') and self.isnext(st, x) and self.headish(y): return
            self.bad('S04', 'skip', 'the delivery position is set to the start of the log on a path that does not establish that it was before it', span, st); return
        if ismax(v) and any(self.isnext(st, x) for x in v.a[1]) and any(self.headish(x) for x in v.a[1]): return
        b, c = lin(v)
        S = self.key(b)
        if not track(S): return           # every element of a list is followed on some path
        if c == 1:
            ok = self.freshform(st, S)
            if not ok:
                for o, x, y in list(self.get(st, 'cmps')) + list(factcmps(st)):
                    if o == 'Eq' and ((self.key(x) is S and self.freshform(st, y)) or (self.key(y) is S and self.freshform(st, x))): ok = True
            if ok and self.freshform(st, S):        # the message known to be the next one
                for o, x, y in list(self.get(st, 'cmps')) + list(factcmps(st)):
                    if o == 'Eq':
                        for p, q in ((x, y), (y, x)):
                            if self.freshform(st, q) and not self.freshform(st, p): S = self.key(p)
                if not track(S): return
            if ok:
                if not any(S is x for x in self.get(st, 'given')): self.add(st, 'debt', S)
                self.rm(st, 'cmps', lambda c: c[0] == 'Lt' and self.isnext(st, c[2]))
                return
        if self.isnext(st, v): return
        self.bad('S04', 'skip', 'the delivery position moves to something other than the successor of the message being delivered (%s): messages in between are skipped' % show(v)[-100:], span, st)
    def opaque(self, I, path):
        # calls of one operation by another: the callee is checked on its own, from every state
        p = path.split('::')
        return p[-2] == GROUP and p[-1] in self.roots and p[-1] != self.api if len(p) > 1 else False
    def prune(self, I, st):
        # whether a message is in memory decides nothing here; order comparisons with the bounds are kept in 'cmps'
        def drop(t):
            if t.op == 'call': return t.a[0].endswith('is_empty')
            if t.op == 'un': return t.a[0] == 'is_empty'
            if t.op != 'cmp': return False
            if any(x.op == 'arg' and 'ram' in x.a[0] for x in t.a[1:]): return True
            return t.a[0] in ('Lt', 'Le') and (any(isfld(lin(x)[0], 'max_deliveries') for x in t.a[1:]) or any(self.headish(x) for x in t.a[1:]) and any(isfld(x, 'next_deliver_seq') or x.op == 'pos' for x in t.a[1:]))
        for t in [t for t in st.facts if isinstance(t, Term) and drop(t)]: del st.facts[t]
    def forget(self, st, K_):
        """what is known about the entries of the group's collections (for one message, or all) is given up"""
        mine = lambda loc, key: loc[0] == 'H' and loc[1] is self.self0.a[0] and (K_ is None or self.key(key) is K_)
        for k in [k for k in st.heap if k[0].op == 'entry' and mine(k[0].a[0], k[0].a[1])]: del st.heap[k]
        for d in (st.facts, st.nfacts):
            for t in [t for t in d if isinstance(t, tuple) and t[0] == 'has' and mine(t[1], t[2])]: del d[t]
    def on_ret(self, I, st, ev, val):
        if self.api in ('check_redelivery', 'remove_member') and ev.args and ev.args[0].op == 'ref' and self.coll(ev.args[0].a[0]) == 'pending' and \
                ev.name.split('::')[-1] in ('iter', 'iter_mut', 'keys', 'values', 'values_mut', 'retain', 'extract_if', 'drain', 'into_iter', 'range', 'first_key_value'): st.mon['iterated'] = 1
        if ev.name == 'Vec::push' and self.api in ('fetch', 'register_cold_messages'):
            # a delivered message that is in the result is done with
            loc = I.deref_loc(st, ev.args[0]); v = I.readloc(st, loc)
            K_ = self.key(project(ev.args[1], (('f', 'seq', self.MSG),)))
            if v.op == 'vec' and any(K_ is x for x in self.get(st, 'given')):
                self.rm(st, 'given', lambda x: x is K_)
                self.n('deliveries put in the result')
                st.mon['out'] = v.a[2]
                nv = mk('vec', 'N', tuple(x for x in v.a[1] if x is not ev.args[1]), v.a[2])
                I.rebind(st, mk('len', nv)); I.writeloc(st, loc, nv)
                self.forget(st, K_)
        if ev.loc and self.opaque(I, ev.res):
            for K_ in self.get(st, 'debt'): self.bad('S05', 'transit', '%s is called while a message is on its way from one list to another' % ev.name, ev.span, st)
            st.note('call %s %s' % (ev.name, where(ev.span)))
            self.forget(st, None); st.mon.pop('gone', None); st.mon.pop('queued', None)
            st.mon['base'] = I.readloc(st, ('H', mk('arg', 'self'), ()))
            for k in [k for k in st.mon if k.startswith(('cur:', 'prev:'))] + ['cmps', 'miss', 'att']: st.mon.pop(k, None)
            self.n('calls of other operations')
    # -- ends
    def on_end(self, I, st, kind, val):
        if kind == 'panic': return
        self.n('paths checked')
        seek = self.api.startswith('seek')
        if self.api == 'check_redelivery' or (self.api == 'remove_member' and 'remove' in self.get(st, 'membership')):
            if 'iterated' not in st.mon: self.bad('S04', 'unvisited', 'returns without having looked at the delivered messages', None, st)
            for K_ in self.get(st, 'visited'):
                self.bad('S04', 'overdue', 'a delivered message is left in place on a path that does not establish that %s' % ('its acknowledgement time has not passed' if self.api == 'check_redelivery' else 'it belongs to another consumer') + ': it is never redelivered', None, st)
        for K_ in self.get(st, 'debt'):
            if self.below_head(st, K_) or not track(K_): continue
            self.bad('S04', 'lost', 'a message taken off one of the group\'s lists (or passed by the delivery position) is on none of them when the call returns: it will never be delivered again', None, st)
        for K_, cnt in self.get(st, 'uncounted'):
            if track(K_): self.bad('S08', 'attempts', 'the remembered number of deliveries is not the one recorded with the delivery', None, st)
        for K_ in self.get(st, 'adebt'):
            if track(K_) and not self.below_head(st, K_): self.bad('S08', 'forget', 'the number of deliveries of a message that is neither acknowledged nor given up is forgotten: it may be delivered more often than max_deliveries', None, st)
        cl = set(self.get(st, 'cleared'))
        sto = set(self.get(st, 'stored'))
        if cl & {'pending', 'redeliver'}:
            if not {'ack_floor', 'next_deliver_seq'} <= sto: self.bad('S04', 'clear', 'the delivered or redelivery list is emptied without moving the group to a new position', None, st)
            for c in ('pending', 'redeliver', 'parked', 'delivery_attempts'):
                if c not in cl: self.bad('S04', 'partial:' + c, 'the group is repositioned but its list %s keeps entries of the old position' % c, None, st)
        if seek:
            fl, nx = self.cur(st, 'ack_floor'), self.cur(st, 'next_deliver_seq')
            self.position(I, st, fl, nx)
            if not {'pending', 'redeliver'} <= cl: self.bad('S04', 'seekkeep', 'seek keeps old deliveries', None, st)
            g = st.mon.get('cur:generation')
            if g is None or not (lin(g)[1] >= 1 and isfld(lin(g)[0], 'generation')): self.bad('S06', 'nogen', 'repositioning the group does not raise its generation: consumers of the old position are not fenced off', None, st)
            if 'members' not in cl: self.bad('S06', 'members', 'repositioning the group keeps its old members', None, st)
        elif 'generation' in sto:
            g = st.mon.get('cur:generation')
            if not (lin(g)[1] >= 0 and isfld(lin(g)[0], 'generation')): self.bad('S06', 'genback', 'the generation of the group is set to something that may be an old one', None, st)
        ret = I.val(st, val) if val is not None else None
        if self.api in ('fetch', 'register_cold_messages'): self.result(I, st, val)
        if self.api in ('remove_member',) or 'cancelled' in st.mon or seek:
            if seek or ('membership' in st.mon and 'remove' in self.get(st, 'membership')):
                c = st.mon.get('cur:is_fetching_cold')
                if c is None or I.decide(st, c) != 0: self.bad('S11', 'stuck', 'a member leaves (or the group is repositioned) without clearing the mark that a disk read is under way: if that member\'s read was aborted the group never reads from disk again', None, st)
        if self.api == 'ack':
            k = I.variant_of(st, val, RES)
            done = any(True for x in self.get(st, 'left'))
            if k == 'Ok' and not done: self.bad('S06', 'falseack', 'ack reports success on a path on which no message was acknowledged', None, st)
            if k == 'Err' and done: self.bad('S06', 'errack', 'ack reports an error after acknowledging the message', None, st)
    def position(self, I, st, fl, nx):
        (fb, fc), (nb, nc) = lin(fl), lin(nx)
        h = satsub1(fl)
        if self.api == 'seek_end':
            if not (fb.op == 'arg' and fc == 0 and nb is fb and nc == 1): self.bad('S05', 'seek', 'seek to the end does not put the group behind the last message (position %s, next %s)' % (show(fl), show(nx)), None, st)
        elif self.api == 'seek_beginning':
            if not (h is not None and self.headish(h) and self.headish(nx) and strip_sites(h) == strip_sites(nx)): self.bad('S05', 'seek', 'seek to the beginning does not put the group at the first retained message (position %s, next %s)' % (show(fl), show(nx)), None, st)
    def result(self, I, st, val):
        k = I.variant_of(st, val, RES)
        given = [x for x in self.get(st, 'given')]
        if k == 'Err':
            if given: self.bad('S04', 'err', 'messages are marked as delivered on a path that returns an error', None, st)
            return
        if k is None: return
        v = I.val(st, project(val, (('v', 'Ok'), ('f', '0', RES))))
        if v.op != 'vec':
            if given: self.bad('S04', 'opaque', 'the returned messages cannot be told', None, st)
            return
        self.n('results checked')
        if 'out' in st.mon and st.mon['out'] != v.a[2]: self.bad('S04', 'otherresult', 'delivered messages are put in a list that is not the one returned', None, st)
        out = [self.key(project(x, (('f', 'seq', self.MSG),))) for x in v.a[1]]
        for K_ in given:
            if not any(K_ is x for x in out): self.bad('S04', 'undelivered', 'a message is marked as delivered but is not in the result', None, st)
        for x, e in zip(out, v.a[1]):
            if track(e) and not any(K_ is x for K_ in given): self.bad('S04', 'untracked', 'a message is returned to the consumer without being recorded as delivered: if the consumer fails it is not redelivered', None, st)

def strip_sites(t):
    return show(t)

ROOTS = ('fetch', 'ack', 'check_redelivery', 'clamp_head', 'seek_beginning', 'seek_end', 'remove_member', 'register_cold_messages', 'add_member')
FLOOR = {'fetch': ('deliveries checked', 'results checked', 'position updates checked', 'give-ups checked'), 'register_cold_messages': ('deliveries checked', 'results checked', 'position updates checked'),
         'ack': ('acknowledgements checked',), 'check_redelivery': ('removals followed', 'give-ups checked', 'deliveries visited', 'leases ended'), 'remove_member': ('removals followed', 'give-ups checked', 'deliveries visited', 'leases ended'),
         'clamp_head': ('removals followed', 'position updates checked')}
def loops(f):
    """does the control flow of f have a cycle"""
    color = {}
    def go(n):
        color[n] = 1
        for m in f.succs(n):
            if color.get(m) == 1 or (m not in color and go(m)): return True
        color[n] = 2
        return False
    return go(0)
def helpers(P):
    """operations of a group on itself that loop: analysed on their own, from every state"""
    out = []
    for nm, (sig, f) in methods(P, GROUP).items():
        if nm in ROOTS or f.argc != 1 or not P.tys(f.locals[1][0]).startswith('&mut '): continue
        if loops(f): out.append(nm)
    return out
def ctor(P, rep, props):
    """positions a new / restored group starts from"""
    if 'S05' not in props: return
    for nm in ('new', 'restore'):
        M = methods(P, GROUP)
        if nm not in M: rep.violation('missing:' + nm, 'ConsumerGroup::%s not found' % nm); continue
        sig, f = M[nm]
        got = []
        class C(Monitor):
            def on_end(self, I, st, kind, val):
                if kind != 'panic': got.append((I, st, val))
        I = Interp(P, C(), 50000); I.run(f)
        rep.fns |= I.analysed
        g = GroupMon(P, nm, f)
        for I, st, val in got:
            fl, nx = [project(val, (('f', x, ''),)) for x in ('ack_floor', 'next_deliver_seq')]
            rep.count('group constructors checked')
            ok = False
            if nm == 'new':
                h = satsub1(fl)
                ok = h is not None and g.headish(h) and g.headish(nx) and show(h) == show(nx)
            else:
                # floor = max(saved, head-1); next = floor + 1 (or max of that and head)
                fok = ismax(fl) and any(strip(x).op == 'arg' and 'head' not in strip(x).a[0] for x in fl.a[1]) and any(satsub1(x) is not None and g.headish(satsub1(x)) for x in fl.a[1])
                c = [nx] + (list(nx.a[1]) if ismax(nx) else [])
                nok = any(lineq(x, fl, 1) for x in c) and all(lineq(x, fl, 1) or g.headish(x) or x is nx for x in c)
                ok = fok and nok
            if not ok: rep.violation('%s:start' % nm, 'a %s group does not start right behind its acknowledged position (floor %s, next %s)' % ({'new': 'new', 'restore': 'restored'}[nm], show(fl), show(nx)), where(f.span))

def run_group(P, rep, props, maxsteps=900000):
    M = methods(P, GROUP)
    H = helpers(P)
    for api in ROOTS + tuple(H):
        if api not in M: rep.violation('missing:' + api, 'ConsumerGroup::%s not found' % api); continue
        sig, f = M[api]
        m = GroupMon(P, api, f, ROOTS + tuple(H))
        I = Interp(P, m, maxsteps)
        try: I.run(f)
        except Budget as e:
            rep.violation('budget:' + api, 'the paths of %s could not all be analysed: %s' % (api, e)); continue
        rep.fns |= I.analysed
        rep.count('roots analysed'); rep.count('abstract steps', I.steps)
        for k, n in m.cnt.items(): rep.count(k, n)
        for need in FLOOR.get(api, ()):
            if not m.cnt.get(need): rep.violation('vacuous:%s:%s' % (api, need), 'no %s found on any path of %s: the rule would hold vacuously' % (need, api), where(f.span))
        for (p, k), (msg, wh, tr) in m.v.items():
            if p in props: rep.violation(k, 'ConsumerGroup::%s: %s' % (api, msg), wh or where(f.span), tr)
    # any other method that changes a group goes through these
    ctor(P, rep, props)

if __name__ == '__main__':
    import sys, time, os
    P = Prog(os.environ.get('NX_OUT', '/verif/build/out'))
    rep = Report('S'); t = time.time()
    run_group(P, rep, set(sys.argv[1].split(',')))
    print(rep.counts, '%.1fs' % (time.time() - t))
    for v in rep.viol.values():
        print(v['key'], '|', v['msg'][:300], '|', v['where'])
        if len(sys.argv) > 2:
            for x in v['trace']: print('      ', x)
