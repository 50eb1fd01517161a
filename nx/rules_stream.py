"""Stream topics: the log in memory (S01, S07), publish, what the manager does around the group operations (S09, W01, identity of the caller)."""
from core import *
from models import track
from rules_queue import lin, last
from rules_group import isfld, strip, ismax, satsub1, lineq, decided, factcmps, order, GROUP

TOPIC = 'TopicState'; SHARED = 'TopicShared'; INNER = 'TopicInner'
class Base(Monitor):
    def __init__(self, P, api): self.P = P; self.api = api; self.v = {}; self.cnt = {}
    def bad(self, prop, kind, msg, span, st):
        for p in (prop if isinstance(prop, tuple) else (prop,)):
            k = (p, '%s:%s' % (self.api, kind))
            if k not in self.v: self.v[k] = (msg, where(span) if span else '', st.tracelist() if st else [])
    def n(self, what, k=1): self.cnt[what] = self.cnt.get(what, 0) + k
    def get(self, st, k): return st.mon.get(k, ())
    def add(self, st, k, x):
        s = st.mon.get(k, ())
        if x not in s: st.mon[k] = tuple(sorted(s + (x,), key=lambda y: repr(order(y)) if not isinstance(y, tuple) else repr([order(z) if isinstance(z, (Term, str)) else z for z in y])))
    def rm(self, st, k, pred):
        n = tuple(x for x in st.mon.get(k, ()) if not pred(x))
        if n: st.mon[k] = n
        else: st.mon.pop(k, None)

def maxargs(t):
    t = strip(t)
    if ismax(t): return [y for x in t.a[1] for y in maxargs(x)]
    return [t]
def isone(t): return t.op == 'k' and t.a[1] in (0, 1)

# ---------------------------------------------------------------- TopicState
class TopicMon(Base):
    """one method of TopicState: the log is contiguous, starts at ram_start_seq and ends before next_seq"""
    def __init__(self, P, api, fn):
        Base.__init__(self, P, api)
        self.selfa = mk('arg', 'self'); self.fn = fn
    def fld(self, I, st, f): return I.readloc(st, ('H', self.selfa, (('f', f, self.T(I)),)))
    def T(self, I): return [d for d in self.P.adts if d.endswith('::' + TOPIC)][0]
    def islog(self, loc):
        f = lastfield(loc)
        return bool(f) and f[1] == 'log' and f[2].endswith('::' + TOPIC)
    def isfield(self, t, f): return isfld(strip(t), f) and strip(t).a[0] is mk('deref', self.selfa)
    def headish(self, I, st, t):
        h = self.fld(I, st, 'head_seq')
        for x in maxargs(t):
            if x is strip(h) or x in maxargs(h) or self.isfield(x, 'head_seq') or (x.op == 'arg' and 'head' in x.a[0]): return True
        return False
    def on_ret(self, I, st, ev, val):
        m = ev.name.split('::')
        if not ev.args or ev.args[0].op != 'ref' or not self.islog(ev.args[0].a[0]): 
            if m[-1] in ('skip', 'range', 'nth') and self.api == 'read' and len(ev.args) == 2: self.index(I, st, ev.args[1], ev)
            return
        op = m[-1]
        if op in ('front', 'back'):
            k = I.variant_of(st, val, OPT)
            st.mon.pop('nofront', None)
            if k == 'Some':
                x = I.val(st, project(val, (('v', 'Some'), ('f', '0', OPT))))
                x = I.readloc(st, x.a[0]) if x.op == 'ref' else x
                while x.op in ('vref', 'valbox'): x = x.a[0]
                if op == 'front': st.mon['front'] = x
            else: st.mon['nofront'] = 1; st.mon.pop('front', None)
        elif op in ('pop_back', 'push_front', 'clear', 'truncate', 'insert', 'swap', 'make_contiguous', 'extend', 'append', 'resize', 'rotate_left', 'swap_remove_back', 'iter_mut', 'get_mut', 'front_mut', 'back_mut'):
            if op not in ('make_contiguous',): self.bad('S01', 'log:' + op, 'the log is changed in a way that does not keep it contiguous (%s)' % op, ev.span, st)
        elif op in ('get', 'range') and self.api == 'read': self.index(I, st, ev.args[1], ev)
    def index(self, I, st, i, ev):
        """reading from memory: index = from - ram_start, from at or after the head"""
        i = strip(i)
        if i.op == 'k' and i.a[1] == 0: return
        ok = i.op == 'bin' and i.a[0] == 'Sub' and strip(i.a[2]) is strip(self.fld(I, st, 'ram_start_seq')) and any(x.op == 'arg' for x in maxargs(i.a[1]))
        self.n('reads from memory')
        if not ok: self.bad('S01', 'index', 'a read from memory starts at an index other than the distance of the requested message from the first one in memory (%s)' % show(i)[-90:], ev.span, st); return
        if not self.headish(I, st, i.a[1]): self.bad('S01', 'belowhead', 'a read may start at a message that retention has removed', ev.span, st)
        for o, a, b in factcmps(st):
            if o in ('Le', 'Lt') and strip(a) is strip(i.a[2]) and strip(b) is strip(i.a[1]): break
        else: self.bad('S01', 'underflow', 'a read from memory does not establish that the message is in memory', ev.span, st)
        st.mon['indexed'] = 1
    def on_map(self, I, st, op, loc, key, was, val, ev):
        if not self.islog(loc): return (st,)
        if op == 'insert':
            self.n('messages appended')
            v = key
            st.note('push %s %s' % (show(v)[-60:], where(ev.span)))
            if v is None or v.op != 'agg': self.bad('S01', 'opaque', 'a message whose content is not known is put in the log', ev.span, st); return (st,)
            f = dict(zip(v.a[2], v.a[3]))
            if 'pushed' in st.mon: self.bad('S01', 'twice', 'one append puts two messages in the log', ev.span, st)
            st.mon['pushed'] = v
            s = f.get('seq')
            nx = self.fld(I, st, 'next_seq')
            if not (strip(s) is strip(nx) or lineq(nx, s, 1)) or not isfld(strip(lin(s)[0]), 'next_seq') or lin(s)[1] != 0: self.bad('S01', 'seq', 'the message is not given the next sequence number (%s)' % show(s)[-60:], ev.span, st)
            p = strip(f.get('payload', UNIT))
            if p.op != 'arg': self.bad('S01', 'payload', 'the message stored is not the one given', ev.span, st)
        if op == 'remove' and key is not None and track(key):
            self.n('evictions checked')
            s = strip(key)
            st.note('pop %s' % where(ev.span))
            st.mon['popped'] = s; st.mon['stale'] = 1; st.mon.pop('front', None); st.mon.pop('nofront', None)
            ok = False
            for o, a, b in list(factcmps(st)) + list(self.get(st, 'cmps')):
                a, b = strip(a), strip(b)
                if isfld(a, 'seq') and a.a[0] is s:
                    if o in ('Le', 'Lt') and b.op == 'arg' and 'head' not in b.a[0]: ok = True; st.mon['evicted'] = 1
                    if o == 'Lt' and self.headish(I, st, b) and all(self.headish(I, st, x) or isone(x) for x in maxargs(b)): ok = True
            if not ok: self.bad('S07', 'evict', 'a message is removed from memory on a path that establishes neither that it is on disk nor that retention removed it', ev.span, st)
        elif op == 'remove': st.mon['stale'] = 1; st.mon.pop('popped', None); st.mon.pop('front', None); st.mon.pop('nofront', None)
        elif op == 'clear': self.bad('S07', 'clear', 'the log in memory is emptied', ev.span, st)
        return (st,)
    def on_branch(self, I, st, term, val, span):
        for o, a, b in decided(term, val):
            if any(isfld(strip(x), 'seq') for x in (a, b)) and track(a) and track(b): self.add(st, 'cmps', (o, a, b))
            if o == 'Eq':
                for x, y in ((a, b), (b, a)):
                    if 'len' in show(x)[:8] and y.op == 'k' and y.a[1] == 1 and 'pushed' in st.mon: st.mon['wasempty'] = 1
            if o == 'Ne' and 'pushed' in st.mon and any(x.op == 'k' and x.a[1] == 1 for x in (a, b)): st.mon['wasempty'] = 0
        x, v = term, val
        while x.op == 'un' and x.a[0] == 'Not': x, v = x.a[1], 1 - v if v in (0, 1) else v
        if 'pushed' not in st.mon and v in (0, 1) and x.op in ('call', 'un') and 'is_empty' in str(x.a[0]) and 'log' in show(x): st.mon['wasempty'] = v
        if 'pushed' not in st.mon and x.op == 'bin' and x.a[0] in ('Eq', 'Ne') and any(y.op == 'k' and y.a[1] == 0 for y in x.a[1:]) and 'len' in show(x): st.mon['wasempty'] = v if x.a[0] == 'Eq' else 1 - v
    def on_store(self, I, st, loc, val, span):
        f = lastfield(loc)
        if not f or not f[2].endswith('::' + TOPIC) or loc[0] != 'H': return
        n = f[1]
        if n in ('next_seq', 'ram_start_seq', 'head_seq', 'log'): st.note('%s = %s %s' % (n, show(val)[-60:], where(span)))
        if n == 'next_seq':
            self.n('sequence numbers assigned')
            self.add(st, 'stored', n)
            b, c = lin(val)
            if not (isfld(b, 'next_seq') and c == 1): self.bad('S01', 'next', 'the next sequence number is not raised by exactly one (%s)' % show(val)[-60:], span, st)
        elif n == 'head_seq':
            if not (any(x.op == 'arg' for x in maxargs(val)) and all(x.op == 'arg' or isone(x) or isfld(x, 'head_seq') for x in maxargs(val))): self.bad('S01', 'head', 'the head of the log is set to something other than the given one (%s)' % show(val)[-60:], span, st)
        elif n == 'ram_start_seq':
            self.n('window updates checked')
            ok = False; v = strip(val)
            m = maxargs(v)
            pop = st.mon.get('popped')
            rest = lambda keep: all(x in keep or self.headish(I, st, x) or isone(x) for x in m)
            if pop is not None:
                k = [x for x in m if lin(x)[1] == 1 and isfld(lin(x)[0], 'seq') and lin(x)[0].a[0] is pop]
                ok = bool(k) and rest(k)
            if not ok and not track(val): ok = True
            fr = st.mon.get('front')
            if not ok and fr is not None: ok = len(m) == 1 and isfld(v, 'seq') and v.a[0] is fr
            if not ok and 'nofront' in st.mon:
                k = [x for x in m if isfld(strip(x), 'next_seq')]
                ok = bool(k) and rest(k)
            if not ok and (st.mon.get('wasempty') == 1 or 'pushed' in st.mon):
                s = dict(zip(st.mon['pushed'].a[2], st.mon['pushed'].a[3])).get('seq') if 'pushed' in st.mon else None
                ok = (s is not None and v is strip(s)) or (s is None and isfld(v, 'next_seq'))
                if ok: st.mon['setstart'] = 1
            if not ok: self.bad('S01', 'window', 'the number of the first message in memory is set to something else (%s)' % show(val)[-90:], span, st)
            st.mon.pop('stale', None)
        elif n == 'log': self.bad('S01', 'relog', 'the log in memory is replaced', span, st)
    def on_end(self, I, st, kind, val):
        if kind == 'panic': return
        self.n('paths checked')
        if 'stale' in st.mon: self.bad('S01', 'stale', 'messages are removed from memory without updating the number of the first message in memory', None, st)
        if self.api == 'append':
            v = st.mon.get('pushed')
            if v is None: self.bad('S01', 'noappend', 'append returns on a path that does not put the message in the log', None, st); return
            f = dict(zip(v.a[2], v.a[3]))
            if not lineq(self.fld(I, st, 'next_seq'), f['seq'], 1): self.bad('S01', 'nonext', 'append does not advance the next sequence number: the next message gets the same one', None, st)
            r0, r1 = I.val(st, project(val, (('f', '0', 'tuple'),))), I.val(st, project(val, (('f', '1', 'tuple'),)))
            if strip(r0) is not strip(f['seq']): self.bad('S01', 'retseq', 'append returns another sequence number than the message got', None, st)
            if strip(r1) is not strip(f.get('timestamp', UNIT)): self.bad('S01', 'rettime', 'append returns another timestamp than the message got', None, st)
            e = st.mon.get('wasempty')
            if e is None: self.bad('S01', 'start', 'append does not look whether the log was empty', None, st)
            if e == 1 and 'setstart' not in st.mon: self.bad('S01', 'start', 'the first message put in an empty log does not become the first message in memory', None, st)
            if e == 0 and 'setstart' in st.mon: self.bad('S01', 'start', 'the number of the first message in memory is moved although the log is not empty', None, st)
        if self.api == 'apply_head':
            h = self.fld(I, st, 'head_seq')
            if not any(x.op == 'arg' for x in maxargs(h)): self.bad('S01', 'nohead', 'the new head of the log is not recorded', None, st)
        if self.api == 'read':
            v = I.val(st, val)
            if v.op == 'vec' and [x for x in v.a[1]] and 'indexed' not in st.mon: self.bad('S01', 'unindexed', 'messages are returned that were not looked up by their number', None, st)

def run_topic(P, rep, props):
    M = methods(P, TOPIC)
    T = [d for d in P.adts if d.endswith('::' + TOPIC)]
    for api in ('append', 'evict', 'apply_head', 'read'):
        if api not in M: rep.violation('missing:' + api, 'TopicState::%s not found' % api)
    for api, (sig, f) in M.items():
        if api in ('new', 'restore') or not f.argc or 'self' != f.locals[1][1]: continue
        if api not in ('append', 'evict', 'apply_head', 'read') and helper(P, sig): continue
        m = TopicMon(P, api, f); runone(P, rep, props, m, f, TOPIC + '::' + api, {'append': ('messages appended', 'sequence numbers assigned'), 'evict': ('evictions checked', 'window updates checked'), 'apply_head': ('evictions checked', 'window updates checked'), 'read': ('reads from memory',)}.get(api, ()))
    for api in ('new', 'restore'):
        if api not in M: rep.violation('missing:' + api, 'TopicState::%s not found' % api); continue
        sig, f = M[api]
        runone(P, rep, props, CtorMon(P, api), f, TOPIC + '::' + api, ('topics built',))
class CtorMon(Base):
    def on_ret(self, I, st, ev, val):
        op = ev.name.split('::')[-1]
        if op in ('front', 'back', 'first', 'last') and ev.name.startswith(('VecDeque', 'slice')):
            k = I.variant_of(st, val, OPT); op = {'first': 'front', 'last': 'back'}.get(op, op)
            if k == 'Some':
                x = I.val(st, project(val, (('v', 'Some'), ('f', '0', OPT))))
                x = I.readloc(st, x.a[0]) if x.op == 'ref' else x
                while x.op in ('vref', 'valbox'): x = x.a[0]
                st.mon[op] = x
            else: st.mon['none'] = 1
        if op == 'is_empty' and ev.name.startswith('VecDeque'): st.mon['emp'] = val
    def on_branch(self, I, st, term, val, span):
        if term is st.mon.get('emp') and val == 1: st.mon['none'] = 1
    def on_end(self, I, st, kind, val):
        if kind == 'panic': return
        v = I.val(st, val)
        if v.op != 'agg': self.bad('S03', 'opaque', 'the topic built is not known', None, st); return
        f = dict(zip(v.a[2], v.a[3])); self.n('topics built')
        nx, rs, hd = strip(f['next_seq']), strip(f['ram_start_seq']), strip(f['head_seq'])
        if self.api == 'new':
            if not (nx.op == rs.op == hd.op == 'k' and nx.a[1] == rs.a[1] == hd.a[1] and nx.a[1] >= 1): self.bad(('S01', 'S03'), 'start', 'a new topic does not start at one consistent position (next %s, first in memory %s, head %s)' % (show(nx), show(rs), show(hd)), None, st)
            return
        log = strip(f['log'])
        if log.op != 'arg': self.bad('S03', 'log', 'a restored topic does not hold the recovered messages', None, st)
        if not any(x.op == 'arg' for x in maxargs(hd)): self.bad('S03', 'head', 'a restored topic does not keep the recovered head', None, st)
        b = st.mon.get('back'); fr = st.mon.get('front')
        hok = lambda t: all(x.op == 'arg' or isone(x) for x in maxargs(t)) and any(x.op == 'arg' for x in maxargs(t))
        if b is not None:
            if not (lin(nx)[1] == 1 and isfld(lin(nx)[0], 'seq') and lin(nx)[0].a[0] is b): self.bad('S03', 'next', 'a restored topic does not continue right behind the last recovered message (next %s)' % show(nx)[-60:], None, st)
            if 'none' not in st.mon and not (isfld(rs, 'seq') and fr is not None and rs.a[0] is fr): self.bad('S03', 'window', 'a restored topic does not know the number of its first message in memory (%s)' % show(rs)[-60:], None, st)
        elif 'none' in st.mon:
            if not hok(nx): self.bad('S03', 'next', 'a restored topic without messages does not continue at its head (next %s)' % show(nx)[-60:], None, st)
            if fr is None and not (hok(rs) or strip(rs) is nx): self.bad('S03', 'window', 'a restored topic without messages does not start at its head', None, st)
        else: self.bad('S03', 'next', 'a restored topic does not look at the last recovered message', None, st)

# ---------------------------------------------------------------- StreamManager
LOCK = SHARED + '.inner'
POSITION = ('ack', 'seek_beginning', 'seek_end', 'remove_member', 'check_redelivery')     # operations that may move the acknowledged position
READY = ('append', 'check_redelivery')                                                     # operations that make messages available to waiting consumers
def guardof(t):
    for s in subterms(t):
        if s.op == 'guard' and s.a[1] == LOCK: return s
    return None
class MgrMon(Base):
    """one operation (or background task) of the stream manager; operations of topics and groups are opaque here and checked on their own"""
    def __init__(self, P, api, fn, calls=()):
        Base.__init__(self, P, api); self.fn = fn; self.calls = calls
    def opaque(self, I, path):
        p = path.split('::')
        return len(p) > 1 and p[-2] in (GROUP, TOPIC) and p[-1] != '{closure#0}' or (len(p) > 1 and p[-2] in (GROUP, TOPIC))
    def forkbool(self, I, ev): return ev.dty is not None and I.P.tys(ev.dty) == 'bool' and ev.res.split('::')[-1] in ('check_redelivery', 'clamp_head')
    def topic(self, t):
        g = guardof(t)
        if g is not None:
            r = g.a[0]
            return r.a[0][1] if r.op == 'ref' and r.a[0][0] == 'H' else r
        return None
    def key(self, t):
        """the name under which topic t is registered"""
        for s in subterms(t):
            if s.op == 'entry' and 'topics' in show(mk('x', s.a[0]))[:200]: return strip(s.a[1])
        return None
    def groupkey(self, ref):
        if ref.op == 'ref' and ref.a[0][0] == 'H' and ref.a[0][1].op == 'entry': return strip(ref.a[0][1].a[1])
        return None
    def stfld(self, t, f, topic):
        """is t the field f of the locked state of this topic"""
        t = strip(t)
        return isfld(t, f) and self.topic(t) is topic
    def succeeded(self, I, st, m, v):
        """may the opaque operation have taken effect on this path"""
        if m in ('ack',): return I.variant_of(st, v, RES) != 'Err'
        if m in ('remove_member',): return I.variant_of(st, v, OPT) != 'None'
        if m in ('check_redelivery',): return I.decide(st, v) != 0
        return True
    # -- events
    def on_map(self, I, st, op, loc, key, was, val, ev):
        f = lastfield(loc)
        if op == 'insert' and val is not None and 'saves' in self.calls and loc[0] != 'H' and track(key):
            p = strip(val); self.n('saved positions checked')
            ent = [s for s in subterms(p) if s.op == 'entry']
            if not (isfld(p, 'ack_floor') and ent and any(strip(x.a[1]) is strip(key) for x in ent)): self.bad('S09', 'position', 'what is saved for a group is not its own acknowledged position (%s)' % show(p)[-60:], ev.span, st)
        if f and f[2].endswith('::' + INNER):
            if f[1] == 'client_map':
                if op in ('hit', 'miss', 'remove'):
                    T = self.topic(loc[1])
                    self.rm(st, 'topicsleft', lambda x: x is T)
                    if op == 'remove' and self.api == 'disconnect': self.n('clients unbound'); st.mon['unbound'] = 1
            if f[1] == 'groups' and op == 'hit' and 'unbound' in st.mon and track(key):
                k = strip(key)
                if isfld(k, 'group_id'): self.add(st, 'tokick', k.a[0])
            if f[1] == 'groups' and op == 'insert' and val is not None:
                self.newgroup(I, st, key, val, ev)
        return (st,)
    def newgroup(self, I, st, key, val, ev):
        v = strip(val)
        if v.op == 'call' and v.a[0].split('::')[-1] == 'new' and GROUP in v.a[0]:
            self.n('groups created')
            a = [strip(x) for x in v.a[1]]
            if not any(isfld(x, 'head_seq') and self.topic(x) is not None for x in a[1:2]): self.bad('S05', 'newgroup', 'a new group does not start at the head of the topic (%s)' % show(a[1])[-60:], ev.span, st)
            if not any(x is strip(key) for x in self.get(st, 'short')): self.bad('S09', 'longid', 'a group is created under a name that was not checked to fit into the file of saved positions: saving it would make all positions unreadable', ev.span, st)
            if a[0] is not strip(key): self.bad('S05', 'newid', 'a new group is registered under another name', ev.span, st)
            for i, fl in ((2, 'max_ack_pending'), (3, 'ack_wait_ms'), (4, 'max_deliveries')):
                if not any(isfld(x, fl) for x in subterms(a[i])): self.bad(('S08',), 'limits', 'a new group does not get the configured %s' % fl, ev.span, st)
    def on_elem(self, I, st, loc, key):
        f = lastfield(loc)
        if f and f[1] == 'groups' and f[2].endswith('::' + INNER) and 'check_redelivery' in self.calls and track(key):
            self.add(st, 'groupsleft', strip(key)); self.n('groups visited')
            T = self.topic(loc[1]); self.rm(st, 'topicsleft', lambda x: x is T)
    def on_ret(self, I, st, ev, val):
        m = ev.name.split('::')
        if m[-1] == 'lock' and m[0] == 'Mutex':
            v = val
            if v.op == 'agg' and v.a[3]: v = v.a[3][0]
            if v.op == 'guard' and v.a[1] == LOCK:
                T = self.topic(v)
                st.note('lock topic %s' % where(ev.span))
                self.left(st, T, ev.span, I)
                for k in ('calls', 'dirty', 'sent', 'flag'): st.mon.pop(k, None)
                if 'waiter' in st.mon: st.mon['checked'] = 1
                if 'check_redelivery' in self.calls or self.api == 'disconnect':
                    if track(T): self.add(st, 'topicsleft', T)
                if 'saves' in self.calls and track(T): self.add(st, 'tosee', T)
            return
        if m[0] in (GROUP, TOPIC) and len(m) == 2 and ev.loc: self.opcall(I, st, m[1], ev, val)
        if m[-1] in ('next', 'for_each', 'fold', 'filter_map', 'map') and 'unbound' in st.mon and ev.args and self.bindings(ev):
            it = ev.args[0]; k = 0
            while it.op in ('ref', 'iterad') and k < 12:
                if it.op == 'iterad' and it.a[0] in ('take', 'skip', 'step_by', 'take_while', 'skip_while'):
                    self.bad('S04', 'member', 'only some of the consumers of a disconnected client leave their groups: what was delivered to the others is not redelivered', ev.span, st)
                it = I.val(st, it) if it.op == 'ref' else it.a[2]; k += 1
            if m[-1] == 'next':
                if I.variant_of(st, val, OPT) == 'Some': st.mon['inbind'] = 1
                else: st.mon.pop('inbind', None)
        if m[-1] == 'iter' or m[-1] == 'values_mut' or m[-1] == 'values' or m[-1] == 'iter_mut':
            if ev.args and ev.args[0].op == 'ref' and lastfield(ev.args[0].a[0]) and lastfield(ev.args[0].a[0])[1] == 'groups':
                T = self.topic(ev.args[0]); self.rm(st, 'topicsleft', lambda x: x is T)
        if m[-1] in ('notify_waiters', 'notify_one', 'notify_last'):
            r = ev.args[0]
            T = r.a[0][1] if r.op == 'ref' and r.a[0][0] == 'H' else None
            st.note('notify %s' % where(ev.span)); self.n('notifications')
            self.rm(st, 'owe', lambda x: x is T); self.rm(st, 'pre', lambda x: x is T)
            c = st.mon.get('calls', ())
            if c: st.mon['calls'] = tuple((a, b, d, 1) for a, b, d, n in c)
        if m[-1] == 'notified' and m[0] == 'Notify': st.mon['waiter'] = val; st.mon.pop('checked', None); st.note('notified() %s' % where(ev.span))
        if m[-1] in ('send', 'try_send') and m[0] in ('UnboundedSender', 'Sender') and len(ev.args) == 2:
            c = I.val(st, ev.args[1])
            if c.op == 'agg' and last(c.a[0]) == 'StorageCommand': self.send(I, st, c, ev)
            elif 'StorageCommand' in self.P.tys(ev.dty or 0): self.bad(('S01', 'S09'), 'opaquesend', 'a command whose kind is not known is sent to storage', ev.span, st)
        if m[-1] == 'push' and ev.args and ev.args[0].op == 'ref' and 'client_map' in show(ev.args[0]):
            b = I.val(st, ev.args[1])
            if b.op == 'agg' and last(b.a[0]) == 'ConsumerBinding':
                f = dict(zip(b.a[2], b.a[3]))
                st.mon['bound'] = (strip(f['group_id']), strip(f['consumer_id']), self.groupkey(ev.args[0]))
    def bindings(self, ev):
        return any('ConsumerBinding' in str(self.P.tys(t)) for t in [ev.dty] + list(ev.at or ()) if t is not None)
    def opcall(self, I, st, m, ev, val):
        a = ev.args
        if not a or a[0].op != 'ref': return
        T = self.topic(a[0]); G = self.groupkey(a[0])
        st.note('%s %s' % (ev.name, where(ev.span)))
        self.n('operations of topics and groups')
        if T is None and m not in ('new', 'restore'): return
        c = st.mon.get('calls', ())
        if m in POSITION + READY and track(a[0]): st.mon['calls'] = c + ((m, val, T, 0),) if not any(x[0] == m and x[1] is val for x in c) else c
        idc = [strip(I.val(st, x)) if x.op == 'ref' else strip(x) for x in a]
        arg = lambda i, part: i < len(idc) and idc[i].op == 'arg' and part in idc[i].a[0]
        if m in ('fetch', 'ack', 'register_cold_messages'):
            self.n('identities checked')
            if not arg(1, 'consumer'): self.bad('S06', 'consumer:' + m, '%s is called for a consumer other than the caller (%s)' % (m, show(idc[1])[-50:]), ev.span, st)
            if not arg(2, 'generation'): self.bad('S06', 'generation:' + m, '%s is called with a generation other than the caller\'s (%s)' % (m, show(idc[2])[-50:]), ev.span, st)
            if not (G is not None and G.op == 'arg' and 'group' in G.a[0] or G is not None and strip(G).op == 'arg'): self.bad('S06', 'group:' + m, '%s is called on a group other than the named one' % m, ev.span, st)
            k = self.key(T)
            if k is None or k.op != 'arg': self.bad('S06', 'topic:' + m, '%s is called on a topic other than the named one' % m, ev.span, st)
        if m == 'fetch':
            if not (a[4].op == 'ref' and lastfield(a[4].a[0]) and lastfield(a[4].a[0])[1] == 'log' and self.topic(a[4]) is T): self.bad('S04', 'log', 'a group reads from a log other than its topic\'s', ev.span, st)
            if not self.stfld(a[5], 'ram_start_seq', T): self.bad('S04', 'start', 'a group is given a wrong number of the first message in memory (%s)' % show(a[5])[-60:], ev.span, st)
            if not self.stfld(a[6], 'head_seq', T): self.bad('S04', 'head', 'a group is given a wrong head of the log (%s)' % show(a[6])[-60:], ev.span, st)
            if not arg(3, 'limit'): self.bad('S08', 'limit', 'fetch ignores the requested number of messages', ev.span, st)
        if m in ('register_cold_messages', 'clamp_head', 'seek_beginning'):
            x = a[{'register_cold_messages': 4, 'clamp_head': 1, 'seek_beginning': 1}[m]]
            ok = self.stfld(x, 'head_seq', T) or (m == 'clamp_head' and any(isfld(s, 'head_seq') for s in subterms(x)))
            if not ok: self.bad(('S04', 'S05'), 'head:' + m, '%s is given a wrong head of the log (%s)' % (m, show(x)[-60:]), ev.span, st)
        if m == 'seek_end':
            h = satsub1(strip(a[1]))
            if h is None or not self.stfld(h, 'next_seq', T): self.bad('S05', 'end', 'seek to the end does not use the last message of the topic (%s)' % show(a[1])[-60:], ev.span, st)
        if m in ('seek_beginning', 'seek_end'):
            st.mon['sought'] = m
        if m == 'evict':
            x = strip(a[1])
            ld = [s for s in subterms(x) if s.op == 'call' and s.a[0].split('::')[-1] == 'load']
            src = ld[0].a[1][0] if ld and ld[0].a[1] else None
            ok = x.op == 'call' and src is not None and 'persisted_seq' in show(src) and any(s is T for s in subterms(I.deloc(st, src) if src.op == 'ref' else src) | subterms(src))
            if not ok and src is not None and src.op == 'ref': ok = 'persisted_seq' in show(src) and self.samebase(src, T)
            self.n('evictions started')
            if not ok: self.bad('S07', 'evictarg', 'messages are evicted up to something other than what is on disk for this topic (%s)' % show(x)[-80:], ev.span, st)
        if m == 'check_redelivery': self.rm(st, 'groupsleft', lambda k: k is G)
        if m == 'remove_member':
            who = idc[1]
            if isfld(who, 'consumer_id'):
                b = who.a[0]
                if G is not None and isfld(G, 'group_id') and G.a[0] is b: self.rm(st, 'tokick', lambda x: x is b); self.n('members removed on disconnect')
            elif self.api == 'leave_group':
                ok = False
                for o, x, y in factcmps(st):
                    if o == 'Eq' and any(strip(z).op == 'arg' and 'generation' in strip(z).a[0] for z in (x, y)) and any('generation' in show(z)[:12] or isfld(strip(z), 'generation') for z in (x, y) if strip(z).op != 'arg'): ok = True
                if not ok: self.bad('S06', 'leavegen', 'a member is removed on a path that does not establish that the caller has the current generation of the group', ev.span, st)
                if not (who.op == 'arg' and 'consumer' in who.a[0]): self.bad('S06', 'leavewho', 'a member other than the caller is removed', ev.span, st)
        if m == 'add_member': st.mon['added'] = (val, G, idc[1])
        if m == 'generation': st.mon['gen'] = val
    def samebase(self, ref, T):
        l = ref.a[0]
        b = l[1] if l[0] == 'H' else None
        while b is not None:
            if b is T: return True
            if b.op in ('fld', 'deref', 'vref', 'valbox'): b = b.a[0]
            else: break
        return any(s is T for s in subterms(b)) if b is not None else False
    def send(self, I, st, c, ev):
        f = dict(zip(c.a[2], c.a[3])); k = c.a[1]
        st.note('send %s %s' % (k, where(ev.span))); self.n('storage commands sent')
        held = [g for cl, md, g in I.held(st) if cl == LOCK]
        T = self.topic(held[0]) if held else None
        if k == 'Append':
            if not held: self.bad('S01', 'unlocked', 'the durable append is sent without the topic lock: concurrent publishes can be written to disk in another order than their sequence numbers', ev.span, st)
            app = [x for x in st.mon.get('calls', ()) if x[0] == 'append']
            v = I.val(st, f['messages'])
            self.n('durable appends checked')
            if v.op != 'vec' or len(v.a[1]) != 1 or not app: self.bad('S01', 'batch', 'what is appended durably is not the one message just appended in memory', ev.span, st); return
            g = dict(zip(v.a[1][0].a[2], v.a[1][0].a[3])) if v.a[1][0].op == 'agg' else {}
            r = app[-1][1]
            pay = r.a[1][1] if r.op == 'call' and len(r.a[1]) > 1 else None
            for fl, want in (('seq', project(r, (('f', '0', 'tuple'),))), ('timestamp', project(r, (('f', '1', 'tuple'),))), ('payload', pay)):
                x = g.get(fl)
                if x is None or want is None or show(strip(x)) != show(strip(want)): self.bad('S01', 'append:' + fl, 'the %s written to disk is not the one in memory (%s)' % (fl, show(x)[-60:] if x is not None else '?'), ev.span, st)
            kk = self.key(T) if T is not None else None
            if strip(f['topic_name']) is not kk: self.bad('S01', 'append:topic', 'the message is written to the log of another topic', ev.span, st)
            ps = strip(f['persisted_seq'])
            if not (isfld(ps, 'persisted_seq') and T is not None and any(s is T for s in subterms(ps))): self.bad('S07', 'append:mark', 'the mark of what is on disk belongs to another topic', ev.span, st)
            self.add(st, 'sent', r)
            if 'sent2' in st.mon and st.mon['sent2'] is r: self.bad('S01', 'twice', 'the message is appended to disk twice', ev.span, st)
            st.mon['sent2'] = r
        if k == 'SaveGroups':
            self.n('group saves checked')
            name = strip(f['topic_name'])
            data = I.val(st, f['groups_data'])
            own = None
            for x in self.get(st, 'unsaved'):
                if self.key(x) is name or not track(x): own = x
            if own is None and track(name) and self.get(st, 'unsaved'): self.bad('S09', 'wrongtopic', 'the positions of one topic\'s groups are saved under another topic', ev.span, st)
            if own is not None: self.rm(st, 'unsaved', lambda x: x is own)
            if data.op == 'vec':
                if data.a[0] == '?': self.bad('S09', 'leftout', 'some groups may be left out of what is saved', ev.span, st)
                for e in data.a[1]:
                    if e.op != 'agg' or len(e.a[3]) != 2: self.bad('S09', 'entry', 'what is saved for a group is not known', ev.span, st); continue
                    kk, p = strip(e.a[3][0]), strip(e.a[3][1])
                    ent = [s for s in subterms(p) if s.op == 'entry']
                    self.n('saved positions checked')
                    if not (isfld(p, 'ack_floor') and ent and any(strip(x.a[1]) is kk for x in ent)): self.bad('S09', 'position', 'what is saved for a group is not its own acknowledged position (%s)' % show(p)[-60:], ev.span, st)
            elif not (data.op == 'call' or data.op == 'moved'): self.bad('S09', 'data', 'what is saved for the groups is not known (%s)' % show(data)[-60:], ev.span, st)
    def on_store(self, I, st, loc, val, span):
        f = lastfield(loc)
        if not f or loc[0] != 'H': return
        if f[1] == 'groups_dirty' and f[2].endswith('::' + INNER):
            v = I.decide(st, val)
            T = self.topic(loc[1])
            if v == 1:
                st.mon['dirty'] = 1; st.note('groups_dirty = true %s' % where(span))
                self.rm(st, 'unsaved', lambda x: x is T); st.mon.pop('clean', None)    # marked (again): saved next time
            elif v == 0 and st.mon.get('clean') is T: pass      # it was clear
            elif v == 0:
                self.n('dirty flags cleared'); st.note('groups_dirty = false %s' % where(span))
                self.add(st, 'unsaved', T); st.mon['flag'] = 1; self.rm(st, 'tosee', lambda x: x is T)
                if any(x[0] in POSITION for x in st.mon.get('calls', ())): self.bad('S09', 'cleared', 'the mark that positions are to be saved is cleared after they changed', span, st)
            else:
                # conditional: x |= cond
                if any(isfld(s, 'groups_dirty') for s in subterms(val)) and val.op == 'bin' and val.a[0] == 'BitOr': st.mon['dirtyif'] = val
                else: st.mon['dirtyif'] = val
        if f[2].endswith('::' + TOPIC) and f[1] in ('log', 'next_seq', 'head_seq', 'ram_start_seq'):
            self.bad('S01', 'outside', 'the log state of a topic is changed outside TopicState (%s)' % f[1], span, st)
        if f[2].endswith('::' + GROUP) and f[1] not in ('is_fetching_cold',): self.bad(('S04', 'S05', 'S06'), 'outside', 'the state of a group is changed outside ConsumerGroup (%s)' % f[1], span, st)
        if f[1] == 'is_fetching_cold' and f[2].endswith('::' + GROUP):
            if I.decide(st, val) == 1:
                self.n('disk reads started'); st.mon['cold'] = 1
                if not self.get(st, 'calls') and False: pass
            else: st.mon.pop('cold', None); st.mon['coldoff'] = 1
    def on_branch(self, I, st, term, val, span):
        for o, a, b in decided(term, val):
            if o in ('Lt', 'Le') and strip(a).op == 'len' and strip(b).op == 'k' and strip(b).a[1] <= 65535 + (o == 'Lt'): self.add(st, 'short', named(strip(a).a[0]))
        x, v = term, val
        while x.op == 'un' and x.a[0] == 'Not': x, v = x.a[1], 1 - v if v in (0, 1) else v
        if isfld(strip(x), 'groups_dirty'):
            T = self.topic(x)
            self.rm(st, 'tosee', lambda y: y is T)
            if v == 1 and 'saves' in self.calls: self.add(st, 'unsaved', T); self.n('dirty flags read')
            if v == 0: st.mon['clean'] = T; self.rm(st, 'unsaved', lambda y: y is T)   # it was clear before it was cleared
    def on_drop(self, I, st, v, ti, span):
        gs = [g for c, md, g in I.guards_in(st, v, ti) if c == LOCK]
        if gs: self.section(I, st, gs[0], span)
    def section(self, I, st, g, span):
        T = self.topic(g)
        for m, val, t, notified in st.mon.get('calls', ()):
            if not self.succeeded(I, st, m, val): continue
            if m in POSITION and 'dirty' not in st.mon:
                d = st.mon.get('dirtyif')
                if not (d is not None and (val in subterms(d))): self.bad('S09', 'nodirty:' + m, 'the acknowledged position of a group may have changed (%s) but is not marked to be saved' % m, span, st)
            if (m in READY or m in self.silent) and not notified: self.add(st, 'owe', t)
            if m == 'append' and not any(x is val for x in self.get(st, 'sent')):
                self.bad('S01', 'notdurable', 'a message is appended in memory but not sent to the log on disk in the same critical section', span, st)
        self.n('critical sections checked')
        for k in ('calls', 'dirty', 'sent', 'dirtyif', 'clean'): st.mon.pop(k, None)
    def left(self, st, T, span, I, end=False):
        """the path turns to another topic (or ends): nothing may be left to do for the previous one"""
        for x in self.get(st, 'owe'):
            if track(x) and (end or x is not T): self.bad('W01', 'notify', 'messages became available to waiting consumers but they are not notified: a long poll sleeps until its timeout', span, st); self.rm(st, 'owe', lambda y: y is x)
        for x in self.get(st, 'unsaved'):
            if track(x) and (end or x is not T): self.bad('S09', 'unsaved', 'the mark that positions are to be saved is cleared (or seen) but they are not handed to storage', span, st); self.rm(st, 'unsaved', lambda y: y is x)
        for x in self.get(st, 'groupsleft'):
            self.bad('S04', 'nocheck', 'a group is passed over when looking for overdue deliveries', span, st); self.rm(st, 'groupsleft', lambda y: y is x)
        for x in self.get(st, 'topicsleft'):
            if end or x is not T: self.bad('S04', 'notopic', 'a topic is passed over when looking for %s' % ('overdue deliveries' if 'check_redelivery' in self.calls else 'a disconnected client'), span, st); self.rm(st, 'topicsleft', lambda y: y is x)
        if 'inbind' in st.mon and (end or T is not None):
            st.mon.pop('inbind'); self.bad('S04', 'member', 'the consumers of a disconnected client are not all taken from their groups: what was delivered to the others is not redelivered', span, st)
        for x in self.get(st, 'tokick'):
            self.bad('S04', 'member', 'a disconnected client\'s consumer stays a member of its group: what was delivered to it is not redelivered', span, st); self.rm(st, 'tokick', lambda y: y is x)
    def on_poll(self, I, st, v, ev):
        w = st.mon.get('waiter')
        if v.op == 'call' and v.a[0].split('::')[-1] == 'notified':
            self.n('waits checked')
            if w is None or v is not w or 'checked' not in st.mon:
                self.bad('W01', 'lost', 'a consumer starts to wait with a notification handle that was not taken before it last looked at the messages: a message arriving in between is missed', ev.span, st)
        elif 'tick' in show(v)[:40] or 'sleep' in show(v)[:20]:
            for x in self.get(st, 'owe'):
                if track(x) and 'tick' in show(v)[:40]: self.bad('W01', 'notify', 'messages became available to waiting consumers but they are not notified: a long poll sleeps until its timeout', ev.span, st)
            self.left(st, None, ev.span, I, end='tick' in show(v)[:40])
    def on_end(self, I, st, kind, val):
        if kind == 'panic': return
        self.n('paths checked')
        self.left(st, None, None, I, end=True)
        if val is None: return
        v = I.val(st, val)
        k = I.variant_of(st, v, RES) if v.op == 'agg' else None
        ok = I.val(st, project(v, (('v', 'Ok'), ('f', '0', RES)))) if k == 'Ok' else None
        if self.api == 'publish' and k == 'Ok':
            r = st.mon.get('sent2')
            self.n('results checked')
            if r is None: self.bad('S01', 'falseok', 'publish reports success without a durable append', None, st)
            elif show(strip(ok)) != show(project(r, (('f', '0', 'tuple'),))): self.bad('S01', 'retseq', 'publish returns another sequence number than the message got (%s)' % show(ok)[-60:], None, st)
        if self.api == 'publish' and k == 'Err' and 'sent2' in st.mon: self.bad('S01', 'falseerr', 'publish reports an error after appending the message', None, st)
        if self.api == 'seek' and k == 'Ok':
            self.n('results checked')
            want = None
            for t, x in st.facts.items():
                if isinstance(t, Term) and t.op == 'discr' and strip(t.a[0]).op == 'arg': want = {0: 'seek_beginning', 1: 'seek_end'}.get(x)
            if 'sought' not in st.mon or (want and st.mon['sought'] != want): self.bad('S05', 'seekop', 'seek reports success but repositions the group elsewhere than asked', None, st)
        if self.api == 'join_group' and k == 'Ok':
            self.n('results checked')
            f = dict(zip(ok.a[2], ok.a[3])) if ok.op == 'agg' else {}
            ad = st.mon.get('added')
            if not ad: self.bad('S06', 'nojoin', 'join reports success without adding a member', None, st); return
            cid, G, cl = ad
            if strip(f.get('consumer_id', UNIT)) is not strip(cid): self.bad('S06', 'joinid', 'join returns another consumer id than the member got', None, st)
            g = strip(f.get('generation', UNIT))
            if not (g is strip(st.mon.get('gen', UNIT)) or isfld(g, 'generation')): self.bad('S06', 'joingen', 'join does not return the current generation of the group', None, st)
            b = st.mon.get('bound')
            if not b or b[0] is not G or b[1] is not strip(cid) or b[2] is not cl: self.bad('S04', 'unbound', 'a new member is not bound to its client: when the client disconnects, what was delivered to it is not redelivered', None, st)
        if self.api == 'cold_fetch' and 'coldoff' not in st.mon and 'await' in str(st.tracelist()): pass

def named(t):
    t = strip(t)
    while t.op == 'ref' and t.a[0][0] == 'H' and not t.a[0][2]: t = strip(t.a[0][1])
    return t
def nocaller(P, tyname, module):
    """methods of a type that no other function of its module calls: the operations it offers"""
    M = methods(P, tyname)
    called = set()
    for f in P.libfns:
        if not f.path.startswith(module): continue
        for g in callees(P, f):
            own = f.path.split('::{closure')[0]
            if g.path.split('::{closure')[0] != own: called.add(g.path.split('::{closure')[0])
    return {n: (s, b) for n, (s, b) in M.items() if s.path not in called}

class WakeMon(Base):
    """does an operation that frees messages always cancel the fetches that wait in the group?"""
    def on_call(self, I, st, ev):
        if ev.name.split('::')[-2:] == ['CancellationToken', 'cancel']: st.mon['cancelled'] = 1
    def on_end(self, I, st, kind, val):
        if kind != 'return': return
        if val.op != 'k' and I.variant_of(st, val, OPT) == 'None': return
        self.n('ends'); 
        if 'cancelled' not in st.mon: self.n('silent')
def silent_ops(P, rep):
    out = []
    for n in ('remove_member', 'seek_beginning', 'seek_end'):
        f = P.method(GROUP, n) if hasattr(P, 'method') else dict(methods(P, GROUP)).get(n)
        f = f[1] if isinstance(f, tuple) else f
        if f is None: out.append(n); continue
        m = WakeMon(P, n); I = Interp(P, m, 100000)
        try: I.run(f)
        except Budget: out.append(n); continue
        if not m.cnt.get('ends') or m.cnt.get('silent'): out.append(n)
    return tuple(out)
# ---------------------------------------------------------------- what is not in memory is read from disk (S10)
ASKS = ('fetch', 'register_cold_messages', 'clamp_head', 'next_fetch_seq', 'read', 'is_backpressured')
class DiskMon(Base):
    """read and fetch: messages in front of those in memory are read from disk, from the number asked for and with the limit asked for"""
    def __init__(self, P, api, f, group):
        Base.__init__(self, P, api); self.group = group
        sig = P.fns.get(f.path.split('::{')[0], f); n = [x for x in range(1, sig.argc + 1)]
        names = f.upvars if f is not sig else [sig.locals[i][1] if len(sig.locals[i]) > 1 else None for i in n]
        ty = lambda i: P.tys(sig.locals[i][0])
        self.lim = self.frm = self.top = None
        for i in n:
            x = names[i - 1] if i - 1 < len(names) else None
            if not x: continue
            if ty(i) == 'usize': self.lim = mk('arg', x)
            if ty(i) == 'u64' and not group: self.frm = mk('arg', x)
            if ty(i) == '&str' and 'topic' in x: self.top = mk('arg', x)
    def opaque(self, I, path):
        p = path.split('::')
        return len(p) > 1 and p[-2] in (GROUP, TOPIC) and p[-1] in ASKS
    def forkbool(self, I, ev): return ev.dty is not None and I.P.tys(ev.dty) == 'bool' and ev.res.split('::')[-1] in ('clamp_head', 'is_backpressured')
    def isfrom(self, x):
        ar = maxargs(x); want = False
        for y in ar:
            if self.frm is not None and y is self.frm or self.group and y.op == 'call' and y.a[0].split('::')[-1] == 'next_fetch_seq': want = True
            elif self.group and isfld(y, 'next_deliver_seq'): want = True
            elif not (isfld(y, 'head_seq') or isone(y)): return False
        return want
    def on_ret(self, I, st, ev, val):
        m = ev.name.split('::')
        if m[0] in (GROUP, TOPIC) and len(m) == 2 and ev.loc:
            if m[1] == ('fetch' if self.group else 'read'):
                st.mon.pop('excuse', None); st.mon.pop('sent', None); st.mon['asked'] = val; self.n('reads from memory')
                if not self.group:
                    if not self.isfrom(I.val(st, ev.args[1])): self.bad('S10', 'memfrom', 'the messages in memory are read from another number than the one asked for (%s)' % show(ev.args[1])[-60:], ev.span, st)
                    if strip(ev.args[2]) is not self.lim: self.bad('S10', 'memlimit', 'the messages in memory are read with another limit than the one asked for (%s)' % show(ev.args[2])[-60:], ev.span, st)
            if m[1] == 'is_backpressured' and val.op == 'k' and val.a[1] == 1: st.mon['excuse'] = 1
            return
        if m[-1] in ('send', 'try_send') and m[0] in ('UnboundedSender', 'Sender') and len(ev.args) == 2:
            c = I.val(st, ev.args[1])
            if c.op == 'agg' and c.a[1] == 'ColdRead':
                f = dict(zip(c.a[2], c.a[3])); self.n('reads from disk'); st.mon['sent'] = 1
                if 'from_seq' in f and not self.isfrom(f['from_seq']): self.bad('S10', 'diskfrom', 'the disk is read from another number than the one that is needed (%s)' % show(f['from_seq'])[-60:], ev.span, st)
                if 'limit' in f and strip(f['limit']) is not self.lim: self.bad('S10', 'disklimit', 'the disk is read with another limit than the one asked for (%s)' % show(f['limit'])[-60:], ev.span, st)
                if 'topic_name' in f and strip(f['topic_name']) is not self.top: self.bad('S10', 'disktopic', 'another topic is read from disk than the one asked for (%s)' % show(f['topic_name'])[-60:], ev.span, st)
    def ofasked(self, st, t):
        a = st.mon.get('asked')
        return a is not None and any(s is a for s in subterms(t))
    def on_split(self, I, st, v, variant):
        if variant == 'Err' and self.ofasked(st, v): st.mon['excuse'] = 1
    def on_branch(self, I, st, term, val, span):
        if 'asked' not in st.mon:
            if isfld(strip(term), 'is_fetching_cold') and val == 1: st.mon['excuse'] = 1
        x, v = term, val
        while x.op == 'un' and x.a[0] == 'Not': x, v = x.a[1], 1 - v if v in (0, 1) else None
        if isfld(strip(x), 'is_fetching_cold') and v == 1: st.mon['excuse'] = 1
        if (x.op == 'un' and x.a[0] == 'is_empty' or x.op == 'call' and x.a[0].split('::')[-1] == 'is_empty') and v == 0 and self.ofasked(st, x): st.mon['excuse'] = 1
        if x.op == 'discr' and self.ofasked(st, x.a[0]):
            k = I.variant_of(st, x.a[0], RES)
            if k == 'Err': st.mon['excuse'] = 1
        if (x.op == 'len' or x.op == 'call' and x.a[0].split('::')[-1] == 'len') and val != 0 and self.ofasked(st, x): st.mon['excuse'] = 1
        for o, a, b in decided(term, val):
            a, b = strip(a), strip(b)
            if o in ('Le', 'Lt', 'Eq'):
                for p, q in ((a, b), (b, a)) if o == 'Eq' else ((a, b),):
                    lo = [strip(y) for y in (p.a[1] if p.op == 'call' else p.a)] if p.op == 'min' or p.op == 'call' and p.a[0].split('::')[-1] == 'min' else [p]
                    if all(isfld(y, 'ram_start_seq') or isfld(y, 'next_seq') for y in lo) and self.isfrom(q): st.mon['excuse'] = 1
                if isfld(a, 'max_ack_pending') and any(isfld(s, 'pending') for s in subterms(b)): st.mon['excuse'] = 1
            if (b.op == 'len' or b.op == 'call' and b.a[0].split('::')[-1] == 'len') and self.ofasked(st, b) and a.op == 'k' and (o == 'Lt' or o == 'Le' and a.a[1] != 0 or o == 'Ne'): st.mon['excuse'] = 1
            if (a.op == 'len' or a.op == 'call' and a.a[0].split('::')[-1] == 'len') and self.ofasked(st, a) and b.op == 'k' and o == 'Ne': st.mon['excuse'] = 1
    def on_end(self, I, st, kind, val):
        if kind == 'panic' or val is None: return
        if self.group and I.variant_of(st, val, RES) == 'Err': return
        self.n('paths checked')
        if 'asked' in st.mon and 'sent' not in st.mon and 'excuse' not in st.mon:
            self.bad('S10', 'notread', 'messages that were asked for and are no longer in memory are not read from disk', None, st)
def run_reads(P, rep, props):
    MOD = 'brokers::stream::manager'
    roots = nocaller(P, 'StreamManager', MOD); tot = {}
    for n in ('read', 'fetch'):
        if n not in roots: rep.violation('missing:' + n, 'StreamManager::%s not found' % n); continue
        m = DiskMon(P, n, roots[n][1], n == 'fetch')
        runone(P, rep, props, m, roots[n][1], 'StreamManager::' + n, ('reads from memory', 'reads from disk', 'paths checked'))
def run_manager(P, rep, props):
    MOD = 'brokers::stream::manager'
    silent = silent_ops(P, rep)
    roots = [(n, b) for n, (s, b) in nocaller(P, 'StreamManager', MOD).items() if n not in ('new', 'get_snapshot', 'exists', 'shutdown', 'create_topic', 'delete_topic')]
    for need in ('publish', 'fetch', 'ack', 'seek', 'leave_group', 'join_group', 'disconnect', 'read'):
        if need not in [n for n, b in roots]: rep.violation('missing:' + need, 'StreamManager::%s not found' % need)
    tasks = spawned(P, MOD)
    tot = {}
    for i, f in enumerate(tasks):
        cs = set()
        for p in reach(P, f):
            x = p.split('::')
            if len(x) > 1 and x[-2] in (GROUP, TOPIC): cs.add(x[-1])
        txt = [str(P.fns[p].blocks) for p in reach(P, f) if p in P.fns and p.startswith(MOD)]
        if any('SaveGroups' in t for t in txt): cs.add('saves')
        roots.append(('task%d(%s)' % (i, ','.join(sorted(cs & {'evict', 'saves', 'check_redelivery', 'apply_head'})) or '?'), f, tuple(sorted(cs))))
    for r in roots:
        n, f = r[0], r[1]
        m = MgrMon(P, n.split('(')[0] if not n.startswith('task') else n, f, r[2] if len(r) > 2 else ()); m.silent = silent
        runone(P, rep, props, m, f, 'StreamManager::' + n)
        for k, c in m.cnt.items(): tot[k] = tot.get(k, 0) + c
    for need in ('durable appends checked', 'identities checked', 'critical sections checked', 'notifications', 'waits checked', 'dirty flags cleared', 'group saves checked', 'saved positions checked', 'groups visited', 'members removed on disconnect', 'evictions started', 'groups created', 'clients unbound', 'results checked', 'disk reads started'):
        if not tot.get(need): rep.violation('vacuous:' + need, 'no %s found anywhere in the stream manager: the rule would hold vacuously' % need)

def runone(P, rep, props, m, f, name, floor=(), maxsteps=200000):
    I = Interp(P, m, maxsteps)
    try: I.run(f)
    except Budget as e:
        rep.violation('budget:' + name, 'the paths of %s could not all be analysed: %s' % (name, e)); return None
    if hasattr(m, "settle"): m.settle()
    rep.fns |= I.analysed
    rep.count('functions analysed'); rep.count('abstract steps', I.steps)
    for k, n in m.cnt.items(): rep.count(k, n)
    for need in floor:
        if not m.cnt.get(need): rep.violation('vacuous:%s:%s' % (name, need), 'no %s found on any path of %s: the rule would hold vacuously' % (need, name), where(f.span))
    for (p, k), (msg, wh, tr) in m.v.items():
        if p in props: rep.violation(k, '%s: %s' % (name, msg), wh or where(f.span), tr)
    return I
if __name__ == '__main__':
    import sys, time, os
    P = Prog(os.environ.get('NX_OUT', '/verif/build/out'))
    rep = Report('S'); t = time.time()
    props = set(sys.argv[1].split(','))
    run_topic(P, rep, props); run_manager(P, rep, props)
    print(rep.counts, '%.1fs' % (time.time() - t))
    for v in rep.viol.values():
        print(v['key'], '|', v['msg'][:300], '|', v['where'])
        if len(sys.argv) > 2:
            for x in v['trace']: print('      ', x)
