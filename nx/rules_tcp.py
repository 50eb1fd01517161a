"""The TCP surface: a request is read within its frame (T01), answered once under its own id (T02), executed as what it names (T04); a connection that ends leaves nothing behind (T03)."""
from core import *
from codec import CodecMixin, items_of, oneref, lenof, peel, unbe
from rules_group import isfld, strip, decided, factcmps
from rules_stream import Base, runone
from rules_log import nm, OPT, RES, awaited
from rules_kv import args
from models import track
MODT = 'transport::'

# opcode: (type, method, fields on the wire, arguments, answer)
#   fields: str uuid u8 u32 u64 rest;  arguments: index of a field, (index, key of the JSON object in it, value when absent), 'client'
#   answers: result / bool / unit / opt / (items of the answer): R the result, E one element of the list
LIST = lambda l, *els: ('list', l) + els
SPEC = {
    0x02: ('store', 'set', 'str str rest', [0, 2, (1, 'ttl')], 'unit'),
    0x03: ('store', 'get', 'str', [0], 'opt'),
    0x04: ('store', 'del', 'str', [0], 'unit'),
    0x10: ('queue', 'create_queue', 'str str', [0, (1, None)], 'result'),
    0x11: ('queue', 'push', 'str str rest', [0, 2, (1, 'priority', 0)], 'result'),
    0x12: ('queue', 'consume_batch', 'str str', [0, (1, 'batchSize'), (1, 'waitMs')], [('be4', 'R#'), ('raw', 'E.id'), ('be4', 'E.payload#'), ('raw', 'E.payload')]),
    0x13: ('queue', 'ack', 'uuid str', [1, 0], 'bool'),
    0x14: ('queue', 'exists', 'str', [0], 'bool'),
    0x15: ('queue', 'delete_queue', 'str', [0], 'result'),
    0x16: ('queue', 'peek_dlq', 'str u32 u32', [0, 1, 2], [('be4', 'R.0'), ('be4', 'R.1#'), ('raw', 'E.id'), ('be4', 'E.payload#'), ('raw', 'E.payload'), ('be4', 'E.attempts'), ('be4', 'E.failure_reason#'), ('raw', 'E.failure_reason')]),
    0x17: ('queue', 'move_to_queue', 'str uuid', [0, 1], [('be1', 'R')]),
    0x18: ('queue', 'delete_dlq', 'str uuid', [0, 1], [('be1', 'R')]),
    0x19: ('queue', 'purge_dlq', 'str', [0], [('be4', 'R')]),
    0x1A: ('queue', 'nack', 'uuid str str', [1, 0, 2], 'bool'),
    0x21: ('pubsub', 'publish', 'str str rest', [0, 2, (1, 'retain', 0), (1, 'ttl', 'default')], 'unit'),
    0x22: ('pubsub', 'subscribe', 'str', ['client', 0], 'unit'),
    0x23: ('pubsub', 'unsubscribe', 'str', ['client', 0], 'unit'),
    0x30: ('stream', 'create_topic', 'str str', [0, (1, None)], 'result'),
    0x31: ('stream', 'publish', 'str rest', [0, 1], [('be8', 'R')]),
    0x32: ('stream', 'fetch', 'str str str u64 u32 u32', [1, 2, 3, 4, 0, 5], [('be4', 'R#'), ('be8', 'E.seq'), ('be8', 'E.timestamp'), ('be4', 'E.payload#'), ('raw', 'E.payload')]),
    0x33: ('stream', 'join_group', 'str str', [0, 1, 'client'], [('be8', 'R.ack_floor'), ('be8', 'R.generation'), ('be4', 'R.consumer_id#'), ('raw', 'R.consumer_id')]),
    0x34: ('stream', 'ack', 'str str str u64 u64', [1, 0, 2, 3, 4], 'result'),
    0x35: ('stream', 'exists', 'str', [0], 'bool'),
    0x36: ('stream', 'delete_topic', 'str', [0], 'result'),
    0x38: ('stream', 'seek', 'str str u8', [1, 0, (2, {0: 'Beginning', 1: 'End'})], 'result'),
    0x39: ('stream', 'leave_group', 'str str str u64', [1, 0, 2, 3], 'result'),
}
OWNER = {'queue': 'QueueManager', 'stream': 'StreamManager', 'pubsub': 'PubSubManager', 'store': 'MapStore'}
W = {'u8': 1, 'u32': 4, 'u64': 8, 'uuid': 16}
CONV = {'to_string', 'to_owned', 'clone', 'into', 'from', 'as_str', 'as_bytes', 'as_ref', 'deref', 'to_vec', 'from_bytes', 'into_bytes', 'into_string', 'from_utf8', 'borrow', 'as_slice', 'from_utf8_unchecked', 'try_into', 'try_from', 'copy_from_slice', 'into_boxed_str', 'as_mut', 'into_inner', 'from_bytes_ref'}
def owners(P):
    """the type behind each broker the engine holds"""
    out = {}
    for d, a in P.adts.items():
        for k, n in OWNER.items():
            if d.endswith('::' + n): out[k] = d
    if 'store' not in out:
        from rules_kv import anchors
        A = anchors(P, Report('x'))
        if A: out['store'] = A['store']
    return out
def camel(s): return re.sub(r'_(.)', lambda m: m.group(1).upper(), s)
import re

class Wire(CodecMixin, Base):
    """bytes read from a buffer the peer sent"""
    def keeprem(self, st, term):
        """a comparison with the number of bytes left stays known after the function that made it"""
        if any(y.op == 'rem' for y in subterms(term)): st.mon['rem'] = term
    def on_branch(self, I, st, term, val, span): self.keeprem(st, term)
    def override(self, I, st, ev):
        f = ev.name.split('::')[-1]; a = ev.args
        if ev.name in ('BytesMut::reserve', 'Vec::reserve') and a and oneref(I, st, a[0]) is not None: self.on_ret(I, st, ev, None); return mk('unit')
        if ev.name == 'Buf::copy_to_slice' and len(a) == 2:
            loc = oneref(I, st, a[0]); dst = oneref(I, st, a[1])
            if loc is not None and dst is not None:
                old = I.readloc(st, dst); v = I.readloc(st, loc)
                if v.op != 'cur': v = mk('cur', v, 0, ())
                b, off, ts = v.a
                n = old.a[1] if old.op == 'repeat' else None
                if isinstance(n, Term): n = n.a[1] if n.op == 'k' else None
                if n is None and old.op == 'agg' and old.a[0] == 'array': n = len(old.a[3])
                if isinstance(n, int):
                    r = mk('rdf', b, off, ts, n, 'raw')
                    I.writeloc(st, loc, mk('cur', b, off + n, ts)); I.writeloc(st, dst, r)
                    self.on_get(I, st, b, off + n, ts, r, ev); return mk('unit')
        if f in ('get', 'first_chunk', 'split_first_chunk', 'split_at_checked', 'first', 'split_first') and a:
            r = self.checked(I, st, ev, f, a)
            if r is not None: return r
        if ev.name in ('Buf::has_remaining', 'Bytes::is_empty') and len(a) == 1:
            loc = oneref(I, st, a[0])
            v = I.readloc(st, loc) if loc is not None else a[0]
            if v.op == 'cur':
                t = I.binop(st, 'Ne' if 'has' in f else 'Eq', mk('rem', *v.a), K(0)); return t
        if ev.name in ('Bytes::len', 'Bytes::remaining', 'BytesMut::len', 'Buf::remaining') and len(a) == 1:
            loc = oneref(I, st, a[0])
            v = I.readloc(st, loc) if loc is not None else a[0]
            if v.op == 'cur': return mk('rem', *v.a)
            if self.isin(v): return mk('rem', v, 0, ())
        if ev.name in ('Bytes::split_to', 'BytesMut::split_to') and len(a) == 2:
            loc = oneref(I, st, a[0])
            if loc is not None and f == 'split_to':
                v = I.readloc(st, loc)
                if v.op != 'cur': v = mk('cur', v, 0, ())
                b, off, ts = v.a; n = strip(a[1])
                if n.op == 'rem' and n.a == (b, off, ts): r, nv = mk('rdf', b, off, ts, 'rest', ''), mk('cur', b, off, ts + (n,))
                elif n.op == 'k': r = mk('rdf', b, off, ts, n.a[1], 'raw'); nv = mk('cur', b, off + n.a[1], ts)
                else: r = mk('rdf', b, off, ts, n, 'raw'); nv = mk('cur', b, off, ts + (n,))
                if r.a[3] != 'rest': self.on_get(I, st, b, off, nv.a[2], r, ev)
                I.writeloc(st, loc, nv); return r
        if ev.name in ('Clone::clone', 'mem::take', 'mem::replace', 'Bytes::clone') and a:
            loc = oneref(I, st, a[0])
            v = I.readloc(st, loc) if loc is not None else None
            if v is not None and (v.op == 'cur' or v.op == 'arg' and self.isin(v)):
                r = v if v.op != 'cur' else (v.a[0] if v.a[1:] == (0, ()) else mk('rdf', v.a[0], v.a[1], v.a[2], 'rest', ''))
                if f == 'take': I.writeloc(st, loc, mk('emptybytes'))
                if f != 'replace': return r
        return CodecMixin.override(self, I, st, ev)
    def view(self, I, st, a):
        """which received bytes a reference to some stands for"""
        loc = oneref(I, st, a) if a.op == 'ref' else None
        v = I.readloc(st, loc) if loc is not None else a
        v = strip(v)
        if v.op == 'cur': return v.a
        if v.op == 'rdf' and v.a[3] == 'rest': return v.a[:3]
        return (v, 0, ()) if self.isin(v) else None
    def checked(self, I, st, ev, f, a):
        """a part of the bytes received, if they are that many"""
        v = self.view(I, st, a[0])
        if v is None: return None
        b, off, ts = v; lo = K(0); n = None; rest = False; tail = None
        if f in ('first_chunk', 'split_first_chunk'):
            n = [x for _, x in ev.c.get('cargs', ()) if isinstance(x, int)]
            if len(n) != 1: return None
            n = K(n[0])
        elif f in ('first', 'split_first'): n = K(1)
        elif f == 'split_at_checked': n = strip(a[1])
        else:
            r = I.val(st, a[1]) if a[1].op == 'ref' else a[1]
            if r.op == 'agg' and 'Range' in r.a[0]:
                d = dict(zip(r.a[2], r.a[3])); lo = strip(d.get('start', K(0))); hi = strip(d['end']) if 'end' in d else None
                if hi is not None and 'Inclusive' in r.a[0]: hi = I.binop(st, 'Add', hi, K(1))
                if hi is None: rest = True; need = lo
                elif lo is K(0): n = hi; need = hi
                elif lo.op == 'k' and hi.op == 'k': n = K(hi.a[1] - lo.a[1]); need = hi
                else: return None
            elif r.op == 'k' and isinstance(r.a[1], int): lo = r; n = K(1); need = K(r.a[1] + 1)
            else: return None
        if f != 'get': need = n
        c = I.binop(st, 'Lt', mk('rem', b, off, ts), need)
        out = []
        s2 = st.copy()
        if I.assume(s2, c, 1): self.on_branch(I, s2, c, 1, ev.span); out.append((s2, NONE))
        if not I.assume(st, c, 0): return out
        self.on_branch(I, st, c, 0, ev.span)
        o2, t2 = (off + lo.a[1], ts) if lo.op == 'k' else (off, ts + (lo,))
        one = f in ('first', 'split_first') or f == 'get' and a[1].op == 'k'
        k = 'rest' if rest else n.a[1] if n.op == 'k' else n
        x = mk('rdf', b, o2, t2, k, '' if rest else 'be' if one else 'raw')
        if not rest: self.on_get(I, st, b, o2, t2, x, ev)
        x = mk('vref', x)
        if f.startswith('split'):
            o3, t3 = (o2 + k, t2) if isinstance(k, int) else (o2, t2 + (k,))
            x = tup(x, mk('vref', mk('rdf', b, o3, t3, 'rest', '')))
        out.append((st, Some(x)))
        return out
    def isin(self, v): return False
    def filter_items(self, I, st, items): return () if any(not track(v) for k, v in items) else items
    def on_get(self, I, st, b, off, ts, r, ev):
        """a read of n bytes at (off, ts) needs a comparison that says they are there"""
        self.n('reads of received bytes checked')
        _, o0, t0, n, _ = r.a
        if n == 'rest': return
        need = strip(n) if isinstance(n, Term) else n
        for o, x, y in factcmps(st):
            # k <= rem, k < rem, k == rem
            x, y = strip(x), strip(y)
            if o == 'Eq' and x.op == 'rem': x, y = y, x
            if y.op != 'rem' or o not in ('Le', 'Lt', 'Eq'): continue
            rb, ro, rt = y.a
            if rb is not b or rt != t0 or ro > o0: continue
            if isinstance(need, int):
                if x.op == 'k' and isinstance(x.a[1], int) and x.a[1] + (o == 'Lt') >= need + o0 - ro: return
                if need + o0 - ro == 1 and o == 'Lt': return
            elif ro == o0 and x is need: return
        if isinstance(need, int) and need == 1:
            for t, v in st.nfacts.items():
                if t is mk('rem', b, o0, t0) and 0 in v: return
        self.bad('T01', 'read:%s' % where(ev.span).split('/')[-1].split(':')[0], 'bytes of a request are read without a check that they are there: a short request ends the task', ev.span, st)

class Request(Wire):
    """the handling of one request with a given opcode, from the received frame to the answer"""
    def __init__(self, P, op, spec, frame, co, client, O, ftype=1, anchors=None):
        Base.__init__(self, P, 'request 0x%02X' % op if ftype == 1 else 'frame that is no request'); self.op = op; self.spec = spec; self.F = frame; self.co = co; self.client = client; self.O = O; self.ftype = ftype; self.A = anchors
        h = project(frame, (('f', self.A['header'], self.A['IF']),))
        self.hdr = h
        self.meta = project(h, (('f', 'meta', self.A['FH']),)); self.ty = project(h, (('f', 'frame_type', self.A['FH']),))
        self.idb = project(h, (('f', 'id', self.A['FH']),))
        self.payload = project(frame, (('f', self.A['payload'], self.A['IF']),))
        self.known = {}
        for k, (o, m, *_) in SPEC.items():
            if o in O: self.known.setdefault(O[o] + '::' + m, []).append(k)
        self.span = co.span
    def isin(self, v): return v is self.payload
    def on_start(self, I, st):
        I.assume(st, self.meta, self.op); I.assume(st, self.ty, self.ftype)
    def opaque(self, I, path):
        p = path.split('::{')[0]
        return p in self.known
    def forkbool(self, I, ev): return False
    # --- the operation
    def on_ret(self, I, st, ev, val):
        if ev.loc and ev.res.split('::{')[0] in self.known:
            self.n('operations compared with the request')
            if self.get(st, 'opd'): self.bad('T04', 'twice', 'one request is executed as two operations', ev.span, st)
            st.mon['opd'] = (ev.res.split('::{')[0], val, tuple(self.norm(I, st, a) for a in ev.args[1:]))
            self.checkop(I, st, ev)
    def on_poll(self, I, st, v, ev): 
        self.add(st, 'polled', v)
    def norm(self, I, st, t):
        k = 0
        while k < 10:
            k += 1
            if t.op == 'ref': t = I.val(st, t)
            elif t.op in ('vref', 'valbox', 'deref'): t = t.a[0]
            elif t.op == 'cast': t = t.a[1]
            else: break
        return t
    def wire(self, I, st, t, d=0):
        """what part of the request a value is: ('at', off, terms, n) or ('json', source, type, fields)"""
        if d > 24: return None
        t = self.norm(I, st, t)
        if t is self.payload: return ('at', 0, (), 'rest')
        if t.op == 'rdf': return ('at', t.a[1], t.a[2], t.a[3]) if t.a[0] is self.payload else None
        if t.op == 'cur': return ('at', t.a[1], t.a[2], 'rest') if t.a[0] is self.payload else None
        if t.op == 'idx' and len(t.a) == 2 and isinstance(t.a[1], int):
            b = self.norm(I, st, t.a[0])
            if b.op == 'rdf' and b.a[0] is self.payload and b.a[4] == 'raw' and isinstance(b.a[3], int) and 0 <= t.a[1] < b.a[3]: return ('at', b.a[1] + t.a[1], b.a[2], 1)
        if t.op in ('var', 'payload'):
            return self.wire(I, st, t.a[0], d + 1)
        if t.op == 'fld':
            if t.a[1].isdigit() and t.a[0].op in ('var', 'payload'):
                w = self.wire(I, st, t.a[0].a[0], d + 1)
                if w and w[0] == 'json' and t.a[0].a[1] == 'Some': return w + ('Some',)
                return w
            w = self.wire(I, st, t.a[0], d + 1)
            if w and w[0] == 'json': return w + (t.a[1],)
            return w if w and t.a[1].isdigit() else None
        if t.op == 'call':
            f = nm(t)
            if f in ('from_str', 'from_slice', 'from_reader') and t.a[0].startswith('serde_json') and t.a[1]:
                w = self.wire(I, st, t.a[1][0], d + 1)
                return ('json', w) if w and w[0] == 'at' else None
            if f in CONV and t.a[1]: return self.wire(I, st, t.a[1][-1 if f in ('from',) and len(t.a[1]) > 1 else 0], d + 1)
        return None
    def layout(self):
        """the positions of the fields of this request: [(off, number of strings before, width)]"""
        out = []; off = 0; k = 0
        for f in self.spec[2].split():
            if f == 'str': out.append((off + 4, k, 'str')); off += 4; k += 1
            elif f == 'rest': out.append((off, k, 'rest'))
            else: out.append((off, k, W[f])); off += W[f]
        return out
    def isfield(self, w, i):
        if not w or w[0] != 'at': return False
        lay = self.layout()
        off, k, n = lay[i]
        _, o, ts, m = w
        if o != off or len(ts) != k: return False
        # the strings before it, and its own length, are the length prefixes at their places
        strs = [l for l in lay if l[2] == 'str']
        def pref(t, j): 
            t = strip(t)
            return t.op == 'rdf' and t.a[0] is self.payload and t.a[1] == strs[j][0] - 4 and len(t.a[2]) == strs[j][1] and t.a[3] == 4 and t.a[4] == 'be'
        if not all(pref(t, j) for j, t in enumerate(ts)): return False
        if n == 'str': return isinstance(m, Term) and pref(m, k)
        return m == n
    def json(self, w, i, key):
        return bool(w) and w[0] == 'json' and self.isfield(w[1], i) and (key is None and len(w) == 2 or len(w) > 2 and key is not None and camel(w[2]) == key)
    def arg(self, I, st, a, s):
        if s == 'client':
            x = self.norm(I, st, a)
            for _ in range(6):
                if x is self.client: return True
                if x.op == 'fld' and x.a[1] == '0': x = x.a[0]
                elif x.op == 'call' and nm(x) in CONV and x.a[1]: x = self.norm(I, st, x.a[1][0])
                else: break
            return x is self.client or self.client.op == 'agg' and len(self.client.a[3]) == 1 and peel(self.client.a[3][0]) is peel(x)
        if isinstance(s, int): return self.isfield(self.wire(I, st, a), s)
        if isinstance(s[1], dict):
            x = self.norm(I, st, a)
            if x.op != 'agg': return False
            left = set(s[1]) - {y[0] for y in self.get(st, 'notbyte')}
            b = st.mon.get('byte', next(iter(left)) if len(left) == 1 else None)
            return b in s[1] and s[1][b] == x.a[1]
        x = self.norm(I, st, a)
        w = self.wire(I, st, x)
        if self.json(w, s[0], s[1]): return True
        if x.op == 'agg' and x.a[0].endswith('Option'):
            if x.a[1] == 'Some': x = self.norm(I, st, x.a[3][0]); w = self.wire(I, st, x)
            elif len(s) < 3: return self.absent(I, st, s)
        if self.json(w, s[0], s[1]): return True
        if len(s) > 2 and self.absent(I, st, s):
            if s[2] == 'default': return not any(y is self.payload for y in subterms(x))
            return x.op == 'k' and x.a[1] == s[2]
        return False
    def absent(self, I, st, s):
        """was the member of the options decided to be missing"""
        return any(self.json(('json',) + w, s[0], s[1]) for w in self.get(st, 'absent'))
    def checkop(self, I, st, ev):
        p, val, _ = st.mon['opd']
        if self.ftype != 1 or self.spec is None or p != self.O.get(self.spec[0], '') + '::' + self.spec[1]:
            self.bad('T04', 'operation', '%s is executed as %s' % (self.api, '::'.join(p.split('::')[-2:])), ev.span, st); return
        for i, s in enumerate(self.spec[3]):
            if len(ev.args) <= i + 1 or not self.arg(I, st, ev.args[i + 1], s):
                what = s if s == 'client' else 'field %d' % s if isinstance(s, int) else 'member %s of the options' % (s[1],)
                self.bad('T04', 'arg%d' % i, 'argument %d of %s is not what the request says (%s)' % (i + 1, self.spec[1], what), ev.span, st)
    # --- the answer
    def on_call(self, I, st, ev):
        f = ev.name.split('::')[-1]
        if f in ('send', 'try_send', 'blocking_send', 'send_timeout') and len(ev.args) >= 2:
            x = self.norm(I, st, ev.args[1])
            if x.op == 'agg' and x.a[0].endswith('OutboundFrame'):
                st.mon['sent'] = min(2, st.mon.get('sent', 0) + 1); st.mon['senttm'] = 1
                self.n('answers checked')
                if st.mon['sent'] > 1: self.bad('T02', 'twice', 'a request is answered twice', ev.span, st)
                if f == 'try_send': self.bad('T02', 'dropped', 'an answer is dropped when the connection is busy', ev.span, st)
                if x.a[1] != 'Response': self.bad('T02', 'kind', 'a request is answered with a frame that is not a response', ev.span, st); return
                v = dict(zip(x.a[2], x.a[3]))
                self.checkid(I, st, v.get('id'), ev); self.answer(I, st, self.norm(I, st, v.get('response')), ev)
        if f in ('panic', 'panic_fmt', 'unreachable', 'expect_failed', 'unwrap_failed', 'panic_display'):
            pass
    def checkid(self, I, st, t, ev):
        t = self.norm(I, st, t)
        r, e = (t.a[1][0], t.a[0].split('::')[-1][5:7]) if t.op == 'call' and nm(t) in ('from_be_bytes', 'from_le_bytes', 'from_ne_bytes') else (None, None)
        if r is not None and r.op == 'agg' and r.a[0] == 'array' and len(r.a[3]) == 4 and all(x.op == 'idx' and x.a[1:] == (i,) for i, x in enumerate(r.a[3])): r = r.a[3][0].a[0]
        if r is None or self.norm(I, st, r) is not self.idb or e != 'be': self.bad('T02', 'id', 'the answer does not carry the id of the request', ev.span, st)
    # --- what was found out about the request and the result
    def on_split(self, I, st, v, variant): self.learn(I, st, v, variant in ('Err', 'None'), variant)
    def on_branch(self, I, st, term, val, span):
        self.keeprem(st, term)
        t, v = term, val
        while t.op == 'un' and t.a[0] == 'Not': t, v = t.a[1], None if v is None else 1 - v
        while t.op == 'cast': t = t.a[1]
        if t.op == 'discr' and v in (0, 1):
            x = t.a[0]; o = self.isopt(x)
            self.learn(I, st, x, v == (0 if o else 1), None)
            return
        if self.isres(I, st, t) and v in (0, 1): st.mon['yes'] = v; return
        if v in (0, 1) and t.op in ('bin', 'cmp'):
            c = decided(t, v)
            for o, x, y in c or ():
                x, y = strip(x), strip(y)
                if o in ('Lt', 'Le') and x.op == 'rem' or o == 'Eq' and 'rem' in (x.op, y.op): st.mon['failed'] = 1
                if o == 'Ne' and 'rem' in (x.op, y.op) and not (x.op == 'k' and x.a[1] == 0 or y.op == 'k' and y.a[1] == 0): st.mon['failed'] = 1
        if self.spec:
            for i, s in enumerate(self.spec[3]):
                if isinstance(s, tuple) and isinstance(s[1], dict):
                    y = None
                    if t.op in ('bin', 'cmp') and t.a[0] in ('Eq', 'Ne'):
                        for x, k in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                            if strip(k).op == 'k' and self.isfield(self.wire(I, st, x), s[0]):
                                if (t.a[0] == 'Eq') == (v == 1): y = strip(k).a[1]
                                else: self.not_(st, s, strip(k).a[1])
                    elif self.isfield(self.wire(I, st, t), s[0]):
                        if v is None:
                            for n in s[1]:
                                if n in st.nfacts.get(t, ()): self.not_(st, s, n)
                        else: y = v
                    if y is not None:
                        st.mon['byte'] = y
                        if y not in s[1]: st.mon['failed'] = 1
    def not_(self, st, s, n):
        self.add(st, 'notbyte', (n,))
        if set(s[1]) <= {y[0] for y in self.get(st, 'notbyte')}: st.mon['failed'] = 1
    def isopt(self, x):
        x = strip(x)
        return not (x.op == 'call' and nm(x) in ('from_utf8', 'from_str', 'from_slice', 'await')) or x.op == 'call' and nm(x) == 'await' and self.spec and self.spec[4] == 'opt'
    def isres(self, I, st, x):
        if 'opd' not in st.mon: return False
        val = st.mon['opd'][1]; x = self.norm(I, st, x)
        return x is val or x.op == 'call' and x.a[0] == 'await' and x.a[1] and self.norm(I, st, x.a[1][0]) is val
    def learn(self, I, st, v, neg, variant):
        x = self.norm(I, st, v)
        if not self.isres(I, st, x) and x.op == 'call' and nm(x) in ('from_utf8', 'from_str', 'from_slice', 'try_get', 'get'):
            if neg and any(y is self.payload for y in subterms(x)): st.mon['failed'] = 1
            return
        if self.isres(I, st, x):
            if variant is None: variant = ('None' if neg else 'Some') if self.spec and self.spec[4] == 'opt' else ('Err' if neg else 'Ok')
            st.mon['outcome'] = variant; st.mon['rt'] = x
            return
        w = self.wire(I, st, x)
        if w and w[0] == 'json' and len(w) > 2:
            if neg: self.add(st, 'absent', w[1:])
    def failed(self, I, st): return bool(st.mon.get('failed'))
    def answer(self, I, st, r, ev):
        kind = r.a[1] if r.op == 'agg' else None
        if 'opd' not in st.mon:
            if self.op == 0 and self.ftype == 1:
                if kind != 'Data' or not (lambda w: w and w[:2] == ('at', 0) and w[3] == 'rest')(self.wire(I, st, r.a[3][0])): self.bad('T04', 'echo', 'an echo request is not answered with its payload', ev.span, st)
                return
            if kind != 'Error': self.bad('T04', 'noop', 'a request that was not executed is answered with %s' % kind, ev.span, st)
            if self.spec and self.ftype == 1 and not self.failed(I, st): self.bad('T04', 'refused', 'a request is refused although nothing about it was found to be wrong', ev.span, st)
            self.n('refusals checked')
            return
        if not self.spec: return
        p, val, _ = st.mon['opd']; sp = self.spec[4]
        body = r.a[3][0] if r.op == 'agg' and r.a[3] else None
        if sp == 'unit':
            if kind != 'Ok': self.bad('T04', 'answer', '%s is answered with %s' % (self.spec[1], kind), ev.span, st)
            return
        if sp == 'bool':
            want = {1: 'Ok', 0: 'Error'}.get(st.mon.get('yes'))
            if kind != want: self.bad('T04', 'answer', '%s that answers %s is answered with %s' % (self.spec[1], {'Ok': 'yes', 'Error': 'no'}.get(want, 'either'), kind), ev.span, st)
            return
        v = st.mon.get('outcome')
        want = {'Some': 'Data', 'None': 'Null', 'Err': 'Error', 'Ok': 'Ok' if sp == 'result' else 'Data'}.get(v)
        if want is None or kind != want: self.bad('T04', 'answer', '%s whose result is %s is answered with %s' % (self.spec[1], v, kind), ev.span, st); return
        if kind != 'Data': return
        R = [project(t, (('v', v), ('f', '0', OPT if sp == 'opt' else RES))) for t in ([st.mon['rt']] if 'rt' in st.mon else [])]
        if sp == 'opt':
            if not any(peel(self.norm(I, st, body)) is x for x in R): self.bad('T04', 'data', 'the answer to %s is not the value it found' % self.spec[1], ev.span, st)
            return
        its = self.items(I, st, body)
        self.n('answer layouts compared')
        if its is None: self.bad('T04', 'layout', 'the bytes answered to %s are not understood' % self.spec[1], ev.span, st); return
        fixed = [x for x in sp if not x[1].startswith('E')]
        if len(its) not in {len(fixed), len(sp)}: self.bad('T04', 'layout', 'the answer to %s has %d fields, not %d' % (self.spec[1], len(its), len(sp)), ev.span, st); return
        if len(its) == len(sp) and len(fixed) < len(sp): self.n('elements of answers compared')
        E = None
        for (k, x), (sk, sx) in zip(its, sp):
            ok = k == sk and self.source(I, st, x, sx, R, k)
            if not ok: self.bad('T04', 'layout:%s' % sx, 'in the answer to %s the place of %s holds something else' % (self.spec[1], sx.replace('R.', '').replace('#', ' (length)')), ev.span, st)
    def items(self, I, st, body):
        x = self.norm(I, st, body)
        for _ in range(4):
            if x.op == 'call' and nm(x) in ('from', 'into', 'freeze', 'to_vec', 'copy_from_slice', 'into_boxed_slice', 'from_owner') and x.a[1]: x = self.norm(I, st, x.a[1][-1])
            else: break
        if x.op == 'vec' or x.op == 'agg' and x.a[0] == 'array':
            es = x.a[1] if x.op == 'vec' else x.a[3]
            return [('be1', e) for e in es]
        its = items_of(I, st, x)
        if len(its) == 1 and its[0][0] == 'raw' and its[0][1] is x: return None
        return list(its)
    def source(self, I, st, x, s, R, k):
        ln = s.endswith('#'); path = s.rstrip('#').split('.')
        x = self.norm(I, st, x)
        if ln:
            if x.op == 'len': x = x.a[0]
            elif x.op == 'call' and nm(x) == 'len': x = x.a[1][0]
            else: return False
            x = self.norm(I, st, x)
        for _ in range(6):
            if x.op == 'call' and nm(x) in CONV and x.a[1]: x = self.norm(I, st, x.a[1][0])
            elif x.op == 'ref' or x.op in ('vref', 'deref', 'valbox'): x = self.norm(I, st, x)
            else: break
        fs = []
        while x.op == 'fld' and len(fs) < len(path) - 1: fs.insert(0, x.a[1]); x = self.norm(I, st, x.a[0])
        if fs != path[1:]: return False
        if path[0] == 'R':
            if x in R: return True
            return k == 'be1' and x.op == 'k' and any(st.facts.get(r) == x.a[1] for r in R)
        return track(x) and any(any(y in R for y in subterms(x)) for _ in (0,)) and x not in R
    def on_end(self, I, st, kind, val):
        if kind == 'panic': self.bad('T01', 'panic', 'handling a request can end in a panic: it is never answered', self.span, st); return
        if kind == 'return':
            self.n('paths of a request checked')
            if not st.mon.get('sent'): self.bad('T02', 'unanswered', 'a request is not answered', self.span, st)

QUIET = {'JoinSet', 'Receiver', 'Sender', 'UnboundedReceiver', 'UnboundedSender', 'JoinHandle', 'AbortHandle', 'FuturesUnordered', 'TaskTracker', 'CancellationToken', 'watch', 'TcpStream'}
class Task(Base):
    """a task whose channels and child tasks are only looked at from outside"""
    def quiet(self, ev): return ev.name.split('::')[0] in QUIET
    def norm(self, I, st, t):
        for _ in range(10):
            if t.op == 'ref': t = I.val(st, t)
            elif t.op in ('vref', 'valbox', 'deref'): t = t.a[0]
            elif t.op == 'cast': t = t.a[1]
            elif t.op == 'call' and nm(t) in ('clone', 'as_ref', 'deref', 'borrow') and t.a[1]: t = t.a[1][0]
            else: break
        return t
    LEVELS = {'next': ('Some', 'Ok'), 'try_next': ('Ok', 'Some'), 'recv': ('Some',)}
    def received(self, I, st, c, x): pass
    def on_split(self, I, st, v, variant): self.level(I, st, self.norm(I, st, v), variant)
    def on_branch(self, I, st, term, val, span):
        if term.op == 'discr' and val in (0, 1): self.level(I, st, self.norm(I, st, term.a[0]), val)
    def level(self, I, st, v, variant):
        """something was received: the whole of next() or recv() was found to be there"""
        path = []; x = v
        while x.op == 'fld' and x.a[1] == '0' and x.a[0].op in ('var', 'payload'): path.insert(0, x.a[0].a[1]); x = self.norm(I, st, x.a[0].a[0])
        c = awaited(x)
        if c is None or x.op != 'call' or c.op != 'call': return
        L = self.LEVELS.get(nm(c))
        if L is None or tuple(path) != L[:len(path)] or len(path) != len(L) - 1: return
        last = L[-1]
        if not (variant == last or variant == (1 if last == 'Some' else 0)): return
        self.received(I, st, c, project(v, (('v', last), ('f', '0', OPT if last == 'Some' else RES))))
    def override(self, I, st, ev):
        if self.quiet(ev) and ev.name.split('::')[-1] != 'clone':
            v = mk('call', ev.full, tuple(self.norm(I, st, a) for a in ev.args), ev.site); I.rebind(st, v); return v
        return None
def frame_of(P, A, t):
    """the received frame a value is part of"""
    for s in subterms(t):
        if s.op == 'fld' and len(s.a) > 2 and s.a[2] == A['IF']: return s.a[0]
    return None
class Conn(Task):
    """the life of one connection: every frame is handled, and whatever way it ends the client is signed off"""
    def __init__(self, P, fn, O, A):
        Base.__init__(self, P, 'connection'); self.fn = fn; self.O = O; self.A = A; self.span = fn.span; self.tasks = {}; self.spawned = {}; self.client = None; self.inrx = None; self.pushtx = None
        self.CON = {O.get('pubsub', '') + '::connect': 'on', O.get('pubsub', '') + '::disconnect': 'pubsub', O.get('stream', '') + '::disconnect': 'stream'}
    def opaque(self, I, path):
        p = path.split('::{')[0]
        return p in self.CON
    def isframe(self, I, st, t):
        t = self.norm(I, st, t)
        f = frame_of(self.P, self.A, t)
        if f is not None: return f
        if t.op == 'fld' and nm(awaited(t)) in ('recv', 'next', 'poll_recv', 'try_recv', 'blocking_recv', 'poll_next', 'try_next') and self.inbound(awaited(t)): return t
        return None
    def inbound(self, call): return True
    def on_call(self, I, st, ev):
        f = ev.name.split('::')[-1]
        if f in ('spawn', 'spawn_on', 'spawn_local', 'push'):
            for a in ev.args:
                a = self.norm(I, st, a)
                if a.op == 'co':
                    self.spawned[a.a[0]] = (a, ev)
                    for n, u in zip(a.a[1], a.a[2]):
                        fr = self.isframe(I, st, u)
                        g = self.P.fns.get(a.a[0])
                        if fr is not None and g is not None and any(p in reach(self.P, g) for p in self.ops):
                            for x in subterms(fr):
                                if x.op == 'call' and nm(x) == 'recv' and x.a[1] and chan(self.norm(I, st, x.a[1][0])): self.inrx = self.norm(I, st, x.a[1][0])
                            k = (a.a[0], fr)
                            if k not in self.tasks: self.tasks[k] = (a, fr, ev)
                            for x in self.get(st, 'frames'):
                                if x is fr: self.rm(st, 'frames', lambda y: y is fr)
                            if st.mon.get('frame') is not None and any(y is st.mon['frame'] for y in subterms(fr)): st.mon.pop('frame')
                            st.mon['started'] = ev.name.split('::')[0]; self.n('requests started')
                            if ev.name.startswith('JoinSet'): st.mon['inset'] = 1; st.mon.pop('stopped', None)
                            else: st.mon['loose'] = 1
                            break
    def on_branch(self, I, st, term, val, span):
        Task.on_branch(self, I, st, term, val, span)
        if term.op == 'discr' and val == 0: self.on_split(I, st, self.norm(I, st, term.a[0]), 'None')
    def received(self, I, st, c, x):
        src = self.norm(I, st, c.a[1][0]) if c.a[1] else c
        if nm(c) == 'recv' and chan(src): st.mon['frame'] = x; self.n('frames received by the connection')
    def on_split(self, I, st, v, variant):
        Task.on_split(self, I, st, v, variant)
        c = awaited(v)
        if variant == 'None' and nm(c) == 'join_next' and not v.op == 'fld': st.mon['stopped'] = 1
    def on_ret(self, I, st, ev, val):
        p = ev.res.split('::{')[0] if ev.loc else None
        k = self.CON.get(p)
        f = ev.name.split('::')[-1]
        if k == 'on':
            self.pushtx = self.norm(I, st, ev.args[2]) if len(ev.args) > 2 else None
            self.client = self.norm(I, st, ev.args[1]); st.mon['client'] = self.client; self.n('clients registered')
        elif k:
            self.n('sign-offs checked')
            c = st.mon.get('client')
            x = self.norm(I, st, ev.args[1])
            if c is not None and not (x is c or c.op == 'agg' and len(c.a[3]) == 1 and self.deep(I, st, c.a[3][0]) is self.deep(I, st, x)):
                self.bad('T03', 'who', 'another client than the one of the connection is signed off', ev.span, st)
            if st.mon.get('loose') or st.mon.get('inset') and not st.mon.get('stopped'):
                self.bad('T03', 'running', 'the client is signed off while requests of the connection may still be running: one of them can register it again', ev.span, st)
            if k == 'pubsub': st.mon['off:pubsub'] = 1
            else: st.mon['off:call'] = val
    def deep(self, I, st, t):
        t = self.norm(I, st, t)
        for _ in range(8):
            if t.op == 'call' and nm(t) in CONV and t.a[1]: t = self.norm(I, st, t.a[1][0])
            elif t.op == 'fld' and t.a[1] == '0': t = self.norm(I, st, t.a[0])
            else: break
        return t
    def on_poll(self, I, st, v, ev):
        v = self.norm(I, st, v)
        if nm(v) == 'recv' and 'frame' in st.mon: self.bad('T02', 'ignored', 'a frame that was received is not handled', ev.span, st); st.mon.pop('frame')
        if v is st.mon.get('off:call'): st.mon['off:stream'] = 1
        if v.op == 'call' and nm(v) == 'shutdown' and 'JoinSet' in v.a[0]: st.mon['stopped'] = 1
        if v.op == 'call' and nm(v) == 'join_all' and 'JoinSet' in v.a[0]: st.mon['stopped'] = 1
    def on_end(self, I, st, kind, val):
        if kind != 'return': return
        self.n('ends of a connection checked')
        if 'client' not in st.mon: return
        for k, what in (('pubsub', 'its subscriptions stay registered'), ('stream', 'it stays a member of its groups')):
            if not st.mon.get('off:' + k): self.bad('T03', 'left:' + k, 'a connection ends without its client being signed off: ' + what, self.span, st)
def chan(t):
    """(channel, end) of a sender or receiver"""
    return (t.a[0], t.a[1]) if t.op == 'fld' and t.a[1] in '01' and nm(t.a[0]) in ('channel', 'unbounded_channel', 'unbounded') else None
class Socket(Task):
    """the tasks that move frames between the socket and the connection: what is received is handed on, once and whole"""
    def __init__(self, P, fn, A, inrx, outtx):
        Base.__init__(self, P, 'socket'); self.fn = fn; self.A = A; self.span = fn.span; self.inrx = inrx; self.outtx = outtx
    def opaque(self, I, path): return False
    def quiet(self, ev): return ev.name.split('::')[0] in QUIET | {'StreamExt', 'SinkExt', 'Framed', 'FramedRead', 'FramedWrite', 'TryStreamExt'}
    def pend(self, st, what, span):
        if 'got' in st.mon: self.bad('T02', 'lost', 'a frame that was received is not handed on (%s)' % what, span, st)
        if 'out' in st.mon: self.bad('T02', 'unsent', 'an answer that was taken from the queue is not written (%s)' % what, span, st)
    def received(self, I, st, c, x):
        src = self.norm(I, st, c.a[1][0]) if c.a[1] else c
        if nm(c) in ('next', 'try_next'): st.mon['got'] = x; self.n('frames received')
        elif chan(src) and self.outtx is not None and chan(self.outtx) and chan(src)[0] is chan(self.outtx)[0]: st.mon['out'] = x; self.n('answers taken from the queue')
    def on_poll(self, I, st, v, ev):
        v = self.norm(I, st, v)
        if nm(v) in ('next', 'recv', 'try_next') and st.mon.get('unflushed'): self.bad('T02', 'unflushed', 'an answer is left in the buffer of the connection while the next event is waited for', ev.span, st)
        if nm(v) in ('next', 'recv', 'try_next'): self.pend(st, 'the next one is waited for first', ev.span)
    def on_call(self, I, st, ev):
        f = ev.name.split('::')[-1]; m = ev.name.split('::')[0]
        if f in ('send', 'feed', 'try_send', 'start_send', 'blocking_send', 'start_send_unpin') and len(ev.args) >= 2:
            dst = self.norm(I, st, ev.args[0]); x = self.norm(I, st, ev.args[1])
            if x is st.mon.get('got'):
                st.mon.pop('got'); self.n('frames handed on')
                if not (chan(dst) and chan(self.inrx) and chan(dst)[0] is chan(self.inrx)[0]): self.bad('T02', 'where', 'a received frame is handed to another channel than the one the connection reads', ev.span, st)
                if f == 'try_send': self.bad('T02', 'lost', 'a received frame is dropped when the connection is busy', ev.span, st)
            elif x is st.mon.get('out'):
                st.mon.pop('out'); self.n('answers written')
                if f == 'feed' or f.startswith('start_send'): st.mon['unflushed'] = 1
            elif any(y is st.mon.get('got') or y is st.mon.get('out') for y in subterms(x)) and (st.mon.get('got') or st.mon.get('out')) is not None:
                self.bad('T02', 'changed', 'a frame is changed on its way', ev.span, st); st.mon.pop('got', None); st.mon.pop('out', None)
        if f in ('flush', 'close'): st.mon.pop('unflushed', None)
    def on_end(self, I, st, kind, val):
        if kind == 'return': self.pend(st, 'the task ends', self.span)
class Push(Task, CodecMixin):
    """the task that forwards published messages to the socket"""
    def __init__(self, P, fn, A, rx, outtx):
        Base.__init__(self, P, 'push'); self.fn = fn; self.A = A; self.span = fn.span; self.rx = rx; self.outtx = outtx
    def opaque(self, I, path): return False
    def override(self, I, st, ev):
        r = Task.override(self, I, st, ev)
        return r if r is not None else CodecMixin.override(self, I, st, ev)
    def received(self, I, st, c, x):
        if nm(c) != 'recv': return
        if 'got' in st.mon and st.mon['got'] is not x: self.bad('T02', 'pushlost', 'a published message is not forwarded', self.span, st)
        st.mon['got'] = x; self.n('published messages received')
    def on_poll(self, I, st, v, ev):
        v = self.norm(I, st, v)
        if nm(v) == 'recv' and 'got' in st.mon: self.bad('T02', 'pushlost', 'a published message is not forwarded before the next one is waited for', ev.span, st)
    def on_call(self, I, st, ev):
        f = ev.name.split('::')[-1]
        if f in ('send', 'try_send', 'blocking_send') and len(ev.args) >= 2:
            x = self.norm(I, st, ev.args[1])
            if x.op != 'agg' or not x.a[0].endswith('OutboundFrame'): return
            g = st.mon.pop('got', None); self.n('pushes checked')
            v = dict(zip(x.a[2], x.a[3]))
            if x.a[1] == 'Response': self.bad('T02', 'pushkind', 'a published message is sent as the response to a request', ev.span, st); return
            if f == 'try_send': self.bad('T02', 'pushlost', 'a published message is dropped when the connection is busy', ev.span, st)
            dst = self.norm(I, st, ev.args[0])
            if not (chan(dst) and chan(self.outtx) and chan(dst)[0] is chan(self.outtx)[0]): self.bad('T02', 'pushwhere', 'a published message is sent to another channel than the one the socket writes', ev.span, st)
            its = items_of(I, st, self.norm(I, st, v.get('payload')))
            its = [(k, self.norm(I, st, y)) for k, y in its]
            def part(y, name):
                y = self.norm(I, st, peel(y)); 
                for _ in range(5):
                    if y.op == 'call' and nm(y) in CONV and y.a[1]: y = self.norm(I, st, y.a[1][0])
                return y.op == 'fld' and y.a[1] == name and g is not None and any(z is g for z in subterms(y))
            ok = len(its) == 3 and [k for k, _ in its] == ['be4', 'raw', 'raw'] and part(its[1][1], 'topic') and part(its[2][1], 'payload') and lenof(its[0][1], (its[1][1],)) == 0
            if not ok: self.bad('T02', 'pushlayout', 'a push does not consist of the length of the topic, the topic and the payload of the message', ev.span, st)
    def on_end(self, I, st, kind, val):
        if kind == 'return' and 'got' in st.mon: self.bad('T02', 'pushlost', 'a published message is not forwarded', self.span, st)

class Decode(Wire):
    """cutting frames out of the received bytes"""
    def __init__(self, P, fn, A):
        Base.__init__(self, P, 'decode'); self.fn = fn; self.A = A; self.span = fn.span
        ps = [(l[1], P.tys(l[0])) for l in fn.locals[1:fn.argc + 1]]
        self.buf = [n for n, t in ps if 'BytesMut' in t or 'Bytes' in t][0]
        self.src = mk('deref', mk('arg', self.buf))
        off = 0; self.off = {}
        for f in P.adts[A['FH']]['variants'][0]['fields']:
            t = P.tys(f['ty']).replace(' ', '')
            m = re.match(r'\[u8;(\d+)', t)
            w = int(m.group(1)) if m else {'u8': 1, 'u16': 2, 'u32': 4}.get(t)
            self.off[f['name']] = (off, w); off += w or 0
        self.size = off
    def isin(self, v): return v is self.src
    def view(self, I, st, a):
        v = Wire.view(self, I, st, a)
        return v if v is not None else (self.src, 0, ()) if self.deep(I, st, a) is self.src else None
    def on_start(self, I, st): pass
    def deep(self, I, st, t):
        for _ in range(12):
            if t.op == 'ref':
                w = I.val(st, t)
                if w is t: break
                t = w
            elif t.op in ('vref', 'valbox'): t = t.a[0]
            elif t.op == 'deref' and t is not self.src: t = t.a[0]
            elif t.op == 'cast': t = t.a[1]
            elif t.op == 'arg' and t.a[0] == self.buf: return self.src
            else: break
        return t
    def lin(self, I, st, t):
        """constant + k * (length of the payload), or None"""
        t = self.deep(I, st, t)
        if isinstance(t, int): return (t, 0)
        if t.op == 'k' and isinstance(t.a[1], int): return (t.a[1], 0)
        if t.op == 'bin' and t.a[0] in ('Add', 'Sub'):
            a, b = self.lin(I, st, t.a[1]), self.lin(I, st, t.a[2]); s = 1 if t.a[0] == 'Add' else -1
            return (a[0] + s * b[0], a[1] + s * b[1]) if a and b else None
        if t.op == 'call' and nm(t) in ('saturating_add', 'wrapping_add') and len(t.a[1]) >= 2:
            a, b = self.lin(I, st, t.a[1][0]), self.lin(I, st, t.a[1][1]); return (a[0] + b[0], a[1] + b[1]) if a and b else None
        if self.intat(I, st, t) == self.off['payload_len']: return (0, 1)
        return None
    def intat(self, I, st, t):
        """(offset, width) of a big-endian number in the header"""
        t = self.deep(I, st, t)
        if t.op == 'rdf' and self.deep(I, st, t.a[0]) is self.src and t.a[4] == 'be' and not t.a[2]: return (t.a[1], t.a[3])
        if t.op == 'call' and nm(t) == 'from_be_bytes':
            p = self.pos(I, st, t.a[1][0])
            if p and p[1] and p[0][1] == 0 and p[1][1] == 0: return (p[0][0], p[1][0] - p[0][0])
        if t.op == 'idx' or t.op == 'fld':
            p = self.pos(I, st, t)
            if p and p[1] and p[1][0] - p[0][0] == 1: return (p[0][0], 1)
        return None
    def pos(self, I, st, t, d=0):
        """(start, end) in the buffer of a byte sequence or header structure, each (constant, multiple of the payload length)"""
        if d > 20: return None
        t = self.deep(I, st, t)
        if t is self.src: return ((0, 0), None)
        if t.op == 'rdf' and self.deep(I, st, t.a[0]) is self.src:
            s = (t.a[1], 0)
            for x in t.a[2]:
                l = self.lin(I, st, x)
                if not l: return None
                s = (s[0] + l[0], s[1] + l[1])
            if t.a[3] == 'rest': return (s, None)
            n = self.lin(I, st, t.a[3]) if isinstance(t.a[3], Term) else (t.a[3], 0)
            return (s, (s[0] + n[0], s[1] + n[1])) if n else None
        if t.op == 'fld':
            b = self.pos(I, st, t.a[0], d + 1)
            if b is None: return None
            if len(t.a) > 2 and t.a[2] == self.A['FH'] and t.a[1] in self.off:
                o, w = self.off[t.a[1]]
                if b[1] is None or b[1][1] != b[0][1] or b[1][0] - b[0][0] != self.size: return None
                return ((b[0][0] + o, b[0][1]), (b[0][0] + o + w, b[0][1]))
            return b if t.a[1].isdigit() else None
        if t.op in ('var', 'payload'): return self.pos(I, st, t.a[0], d + 1)
        if t.op == 'call':
            f = nm(t); a = t.a[1]
            if f in ('index', 'slice', 'get', 'slice_ref', 'get_unchecked') and len(a) == 2:
                b = self.pos(I, st, a[0], d + 1); r = self.deep(I, st, a[1])
                if b is None: return None
                lo, hi = (0, 0), None
                if r.op == 'agg':
                    v = dict(zip(r.a[2], r.a[3]))
                    if 'start' in v: lo = self.lin(I, st, v['start'])
                    if 'end' in v:
                        hi = self.lin(I, st, v['end'])
                        if hi is None: return None
                        if 'Inclusive' in r.a[0]: hi = (hi[0] + 1, hi[1])
                elif r.op == 'k': lo = (r.a[1], 0); hi = (r.a[1] + 1, 0)
                else: return None
                if lo is None: return None
                add = lambda x, y: (x[0] + y[0], x[1] + y[1])
                return (add(b[0], lo), add(b[0], hi) if hi is not None else b[1])
            if f in CONV | {'freeze', 'try_from_bytes', 'from_bytes', 'pod_read_unaligned', 'try_pod_read_unaligned', 'unwrap', 'expect', 'branch', 'map_err', 'ok_or', 'ok_or_else', 'ok', 'split_first_chunk', 'first_chunk'} and a: return self.pos(I, st, a[0], d + 1)
        return None
    def lin3(self, I, st, t):
        """constant + multiple of the payload length + multiple of the number of bytes received"""
        t = self.deep(I, st, t)
        b = self.lenb(I, st, t)
        if b is not None: return (-b[0], -b[1], 1)
        if t.op == 'bin' and t.a[0] in ('Add', 'Sub') or t.op == 'call' and nm(t) in ('saturating_add', 'saturating_sub', 'wrapping_add') and len(t.a[1]) >= 2:
            sub = t.a[0] == 'Sub' or t.op == 'call' and nm(t) == 'saturating_sub'
            x, y = (t.a[1], t.a[2]) if t.op == 'bin' else t.a[1][:2]
            x, y = self.lin3(I, st, x), self.lin3(I, st, y); m = -1 if sub else 1
            return tuple(i + m * j for i, j in zip(x, y)) if x and y else None
        l = self.lin(I, st, t)
        return l + (0,) if l else None
    def bounds(self, I, st):
        """what comparisons say: [(at least / at most, constant, multiple of the payload length)] about the bytes received"""
        for o, x, y in factcmps(st):
            if o not in ('Lt', 'Le', 'Eq'): continue
            x, y = self.lin3(I, st, x), self.lin3(I, st, y)
            if x is None or y is None: continue
            for p, q in ((x, y), (y, x)) if o == 'Eq' else ((x, y),):
                d = tuple(j - i for i, j in zip(p, q)); e = 1 if o == 'Lt' else 0
                if d[2] == 1: yield ('ge', e - d[0], -d[1])
                elif d[2] == -1: yield ('le', d[0] - e, d[1])
    def there(self, I, st, need):
        """is it established that so many bytes have been received"""
        return any(k == 'ge' and c >= need[0] and l >= need[1] >= 0 for k, c, l in self.bounds(I, st))
    def short(self, I, st, full):
        """is it established that fewer bytes than that have been received"""
        return any(k == 'le' and c < full[0] and l <= full[1] for k, c, l in self.bounds(I, st))
    def lenb(self, I, st, t):
        """bytes already taken, if t is the number of bytes left in the buffer"""
        t = strip(t)
        if t.op == 'len' and self.deep(I, st, t.a[0]) is self.src or t.op == 'call' and nm(t) == 'len' and self.deep(I, st, t.a[1][0]) is self.src: return (0, 0)
        if t.op == 'rem' and self.deep(I, st, t.a[0]) is self.src:
            s = (t.a[1], 0)
            for x in t.a[2]:
                l = self.lin(I, st, x)
                if not l: return None
                s = (s[0] + l[0], s[1] + l[1])
            return s
        return None
    def taken(self, I, st):
        """how much of the buffer has been removed"""
        v = I.readloc(st, ('H', mk('arg', self.buf), ()))
        v = self.deep(I, st, v)
        if v is self.src or v.op == 'arg': return (0, 0)
        if v.op == 'cur': return self.lenb(I, st, mk('rem', *v.a))
        return None
    def on_get(self, I, st, b, off, ts, r, ev):
        if self.deep(I, st, b) is not self.src: return
        self.n('reads of received bytes checked')
        p = self.pos(I, st, r)
        if p is None or p[1] is None or not self.there(I, st, p[1]): self.bad('T01', 'read', 'bytes are taken from the buffer before it is known that they have arrived', ev.span, st)
    def on_ret(self, I, st, ev, val):
        if ev.name.split('::')[-1] in ('clear', 'truncate', 'split', 'split_off') and ev.args and self.deep(I, st, ev.args[0]) is self.src: self.bad('T01', 'drop', 'received bytes are thrown away', ev.span, st)
        if ev.name.split('::')[-1] in ('reserve', 'with_capacity') and ev.args:
            l = self.lin(I, st, ev.args[-1])
            if (l is None or l[1]) and not self.limited(I, st): self.bad('T01', 'reserve', 'memory is reserved for a length the peer chose before it is compared with the limit', ev.span, st)
    def override(self, I, st, ev):
        """a part of the buffer is written down by its position, which later removals do not change"""
        if ev.name == 'Index::index' and len(ev.args) == 2:
            loc = oneref(I, st, ev.args[0])
            v = self.deep(I, st, I.readloc(st, loc)) if loc is not None else None
            if v is self.src: v = mk('cur', v, 0, ())
            if v is not None and v.op == 'cur':
                r = self.deep(I, st, ev.args[1]); b, off, ts = v.a
                f = dict(zip(r.a[2], r.a[3])) if r.op == 'agg' and 'Range' in r.a[0] else None
                if f is not None:
                    lo = strip(f['start']) if 'start' in f else K(0); hi = strip(f['end']) if 'end' in f else None
                    if hi is not None and 'Inclusive' in r.a[0]: hi = I.binop(st, 'Add', hi, K(1))
                    if hi is not None and lo.op == 'k' and lo.a[1]: hi = I.binop(st, 'Sub', hi, lo)
                    if lo.op == 'k' and isinstance(lo.a[1], int): off += lo.a[1]
                    else: ts = ts + (lo,)
                    n = 'rest' if hi is None else hi.a[1] if hi.op == 'k' and isinstance(hi.a[1], int) else hi
                    x = mk('rdf', b, off, ts, n, 'raw')
                    if n != 'rest': self.on_get(I, st, b, off, ts, x, ev)
                    return I.addr(st, x) if hasattr(I, 'addr') else mk('vref', x)
                r = strip(r)
                if r.op == 'k':
                    x = mk('rdf', b, off + r.a[1], ts, 1, 'be'); self.on_get(I, st, b, off, ts, x, ev)
                    return mk('vref', x)
        return Wire.override(self, I, st, ev)
    def limited(self, I, st):
        for o, x, y in factcmps(st):
            if o in ('Le', 'Lt', 'Eq') and self.lin(I, st, strip(x)) == (0, 1) and 'max_payload_size' in show(y): return True
        return False
    def over(self, I, st):
        for o, x, y in factcmps(st):
            if o == 'Lt' and self.lin(I, st, strip(y)) == (0, 1) and 'max_payload_size' in show(x): return True
        return False
    def on_branch(self, I, st, term, val, span):
        self.keep(I, st)
        if term.op == 'discr' and val == 1: self.on_split(I, st, self.deep(I, st, term.a[0]), 'Err')
    def on_split(self, I, st, v, variant):
        if variant == 'Err' and nm(strip(v)) in ('try_from_bytes', 'try_pod_read_unaligned', 'try_into', 'try_from'): st.mon['badhdr'] = 1
    def keep(self, I, st):
        if self.limited(I, st): st.mon['lim'] = 1
        if self.over(I, st): st.mon['over'] = 1
        if self.short(I, st, (self.size, 0)): st.mon['short'] = 'header'
        elif self.short(I, st, (self.size, 1)): st.mon['short'] = 'payload'
        if self.there(I, st, (self.size, 1)): st.mon['whole'] = 1
    def on_end(self, I, st, kind, val):
        if kind == 'panic': self.bad('T01', 'panic', 'cutting a frame out of the received bytes can end in a panic', self.span, st); return
        if kind != 'return': return
        self.keep(I, st); self.n('results of decoding checked')
        r = self.deep(I, st, val)
        if r.op != 'agg': self.bad('T01', 'result', 'the result of decoding is not understood', self.span, st); return
        if r.a[1] == 'Err':
            if not st.mon.get('over') and not st.mon.get('badhdr'): self.bad('T01', 'refused', 'a frame is refused although its length is within the limit', self.span, st)
            return
        o = self.deep(I, st, r.a[3][0])
        tk = self.taken(I, st)
        if o.op == 'agg' and o.a[1] == 'None':
            if tk != (0, 0): self.bad('T01', 'eaten', 'bytes of an incomplete frame are removed from the buffer', self.span, st)
            if 'short' not in st.mon: self.bad('T01', 'stuck', 'more bytes are waited for although a whole frame has arrived', self.span, st)
            elif st.mon['short'] == 'payload' and not st.mon.get('lim'): self.bad('T01', 'unlimited', 'the payload of a frame is waited for without its length having been compared with the limit', self.span, st)
            return
        fr = self.deep(I, st, o.a[3][0]) if o.op == 'agg' and o.a[1] == 'Some' else None
        if fr is None or fr.op != 'agg': self.bad('T01', 'result', 'the result of decoding is not understood', self.span, st); return
        self.n('frames cut out')
        if not st.mon.get('lim'): self.bad('T01', 'unlimited', 'a frame is accepted without its length having been compared with the limit', self.span, st)
        if not st.mon.get('whole'): self.bad('T01', 'early', 'a frame is cut out before all of it has arrived', self.span, st)
        v = dict(zip(fr.a[2], fr.a[3]))
        if tk != (self.size, 1): self.bad('T01', 'consumed', 'what is removed from the buffer is not exactly the frame: the following frames are misread', self.span, st)
        p = self.pos(I, st, v[self.A['payload']])
        if p is None or p[0] != (self.size, 0) or p[1] not in ((self.size, 1),): self.bad('T01', 'payload', 'the payload of a frame is not the bytes behind its header', self.span, st)
        h = self.deep(I, st, v[self.A['header']])
        if h.op == 'agg':
            for n, x in zip(h.a[2], h.a[3]):
                q = self.pos(I, st, x) or (lambda i: i and ((i[0], 0), (i[0] + i[1], 0)))(self.intat(I, st, x))
                o, w = self.off[n]
                if not q or q != ((o, 0), (o + w, 0)): self.bad('T01', 'header', 'field %s of the header is not read from its place' % n, self.span, st)
        elif self.pos(I, st, h) != ((0, 0), (self.size, 0)): self.bad('T01', 'header', 'the header of a frame is not its first bytes', self.span, st)

class Encode(Wire):
    """writing an outgoing frame"""
    TYPE = {'Response': 2, 'PushPubSub': 3}; STATUS = {'Ok': 0, 'Error': 1, 'Null': 2, 'Data': 3}
    def __init__(self, P, fn, A):
        Base.__init__(self, P, 'encode'); self.fn = fn; self.A = A; self.span = fn.span
        ps = [(l[1], P.tys(l[0])) for l in fn.locals[1:fn.argc + 1]]
        self.buf = [n for n, t in ps if 'Bytes' in t][0]; self.item = [n for n, t in ps if 'OutboundFrame' in t][0]
    def on_end(self, I, st, kind, val):
        if kind == 'panic': self.bad('T02', 'panic', 'writing a frame can end in a panic', self.span, st); return
        if kind != 'return': return
        r = I.val(st, val)
        if r.op == 'agg' and r.a[1] == 'Err': self.bad('T02', 'fails', 'a frame may be refused to be written', self.span, st); return
        self.n('frames written')
        w = I.readloc(st, ('H', mk('arg', self.buf), ()))
        it = mk('arg', self.item)
        if w.op != 'wbuf' or strip(w.a[0]) not in (mk('deref', mk('arg', self.buf)), mk('arg', self.buf)): self.bad('T02', 'notwritten', 'an outgoing frame is not written behind the ones before it', self.span, st); return
        its = list(w.a[1])
        v = I.variant_of(st, it, self.A['OF'])
        if v is None: self.bad('T02', 'kind', 'the kind of an outgoing frame is not distinguished', self.span, st); return
        F = lambda n: project(it, (('v', v), ('f', n, self.A['OF'])))
        def num(x):
            x = strip(x)
            return I.decide(st, x)
        kinds = [k for k, _ in its]
        if kinds[:4] != ['be1', 'be1', 'be4', 'be4']: self.bad('T02', 'layout', 'a header is written as %s' % kinds[:4], self.span, st); return
        if num(its[0][1]) != self.TYPE.get(v): self.bad('T02', 'type', 'a %s is written with frame type %s' % (v, show(its[0][1])), self.span, st)
        if strip(its[2][1]) is not F('id'): self.bad('T02', 'encid', 'a frame is not written with its own id', self.span, st)
        body = its[4:]
        raws = [x for k, x in body if k == 'raw']; c = sum(int(k[2:]) for k, x in body if k != 'raw')
        n = lenof(its[3][1], tuple(raws))
        z = num(its[3][1])
        empty = all(self.empty(x) for x in raws)
        if n != c and not (empty and (z == c or self.onlyempty(its[3][1]) )): self.bad('T02', 'length', 'the length in a header is not the length of the payload written', self.span, st)
        if v == 'Response':
            resp = F('response'); RD = [d for d in self.P.adts if d.startswith(MODT) and d.endswith('::Response')][0]
            rv = I.variant_of(st, resp, RD)
            if rv is None: self.bad('T02', 'status', 'the kind of a response is not distinguished', self.span, st); return
            self.n('responses written: ' + rv)
            if num(its[1][1]) != self.STATUS.get(rv): self.bad('T02', 'status', 'a response %s is written with status %s' % (rv, show(its[1][1])), self.span, st)
            x0 = project(resp, (('v', rv), ('f', '0', RD)))
            if rv in ('Ok', 'Null') and not (empty and c == 0): self.bad('T02', 'body', 'a response %s is written with a payload' % rv, self.span, st)
            if rv == 'Data' and not ([k for k, _ in body] == ['raw'] and self.src(I, st, body[0][1]) is x0): self.bad('T02', 'body', 'the payload of a response is not written as it is', self.span, st)
            if rv == 'Error' and not ([k for k, _ in body] == ['be4', 'raw'] and self.src(I, st, body[1][1]) is x0 and lenof(body[0][1], (body[1][1],)) == 0): self.bad('T02', 'body', 'an error is not written as the length of its text and the text', self.span, st)
        elif not ([k for k, _ in body] == ['raw'] and self.src(I, st, body[0][1]) is F('payload')): self.bad('T02', 'body', 'the payload of a push is not written as it is', self.span, st)
    def src(self, I, st, x):
        x = peel(x)
        for _ in range(6):
            if x.op == 'ref': x = peel(I.val(st, x))
            elif x.op in ('deref', 'vref', 'valbox'): x = peel(x.a[0])
            elif x.op == 'call' and nm(x) in CONV and x.a[1]: x = peel(x.a[1][0])
        return x
    def empty(self, x):
        x = peel(x)
        return x.op == 'call' and nm(x) in ('new', 'default', 'from_static') and not [y for y in x.a[1] if y.op != 'k' or y.a[1]]
    def onlyempty(self, t):
        t = strip(t)
        return t.op == 'len' and self.empty(t.a[0])

def anchors_tcp(P, rep):
    A = {}
    for d, a in P.adts.items():
        if d.startswith(MODT) and d.endswith('::InboundFrame'): A['IF'] = d
        if d.startswith(MODT) and d.endswith('::FrameHeader'): A['FH'] = d
        if d.startswith(MODT) and d.endswith('::OutboundFrame'): A['OF'] = d
    if set(A) != {'IF', 'FH', 'OF'}: rep.violation('missing:frames', 'the frame types were not found'); return None
    for f in P.adts[A['IF']]['variants'][0]['fields']:
        A['header' if A['FH'] in P.tys(f['ty']) else 'payload'] = f['name']
    return A

def run_tcp(P, rep, props, only=None):
    A = anchors_tcp(P, rep)
    if not A: return
    O = owners(P)
    for k in OWNER:
        if k not in O: rep.violation('missing:' + k, 'the type behind the %s broker was not found' % k); return
    con = O['pubsub'] + '::connect'
    ops = {O[o] + '::' + m for o, m, *_ in SPEC.values()}
    for p in sorted(ops | {con, O['pubsub'] + '::disconnect', O['stream'] + '::disconnect'}):
        if p not in P.fns: rep.violation('missing:' + p, 'operation %s was not found' % p)
    if rep.viol: return
    roots = [f for f in P.libfns if f.kind == 'coroutine' and f.path.startswith(MODT) and con in reach(P, f)]
    called = set()
    for f in roots:
        for g in callees(P, f): called.add(g.path.split('::{')[0])
    top = [f for f in roots if f.path.split('::{')[0] not in called or len(roots) == 1]
    top = [f for f in top if f.path.count('{closure') == 1]
    if len(top) != 1: rep.violation('missing:connection', 'the function that handles a connection was not found'); return
    m = Conn(P, top[0], O, A); m.ops = ops
    runone(P, rep, props, m, top[0], 'connection', ('clients registered', 'requests started', 'sign-offs checked', 'ends of a connection checked'))
    if not m.tasks: return
    if m.client is None: return
    outtx = None; inrx = m.inrx
    for (path, fr), (co, _, ev) in m.tasks.items():
        for n, u in zip(co.a[1], co.a[2]):
            if chan(m.norm(None, None, u) if u.op != 'ref' else u): outtx = m.norm(None, None, u)
    if props & {'T02'}:
        if inrx is None or outtx is None: rep.violation('missing:channels', 'the channels between the socket and the connection were not found'); return
        tot = {}
        for path, (co, ev) in m.spawned.items():
            if any(path == k[0] for k in m.tasks): continue
            g = P.fns.get(path)
            if g is None: continue
            R = reach(P, g)
            ups = [m.norm(None, None, u) if u.op != 'ref' else u for u in co.a[2]]
            psh = [u for u in ups if chan(u) and nm(chan(u)[0]) == nm(chan(m.pushtx)[0]) and chan(u)[0] is chan(m.pushtx)[0]] if m.pushtx is not None and chan(m.pushtx) else []
            x = Push(P, g, A, psh[0], outtx) if psh else Socket(P, g, A, inrx, outtx)
            I = Interp(P, x, 100000)
            try: I.run(g, upv=dict(zip(co.a[1], ups)))
            except Budget as e: rep.violation('budget:' + path, 'the paths of %s could not all be analysed: %s' % (path, e)); continue
            rep.fns |= I.analysed
            for k, n in x.cnt.items(): rep.count(k, n); tot[k] = tot.get(k, 0) + n
            for (p, k), (msg, wh, tr) in x.v.items():
                if p in props: rep.violation('%s' % k, '%s: %s' % (path.split('::')[-2], msg), wh or where(g.span), tr)
        for k in ('frames received', 'frames handed on', 'answers taken from the queue', 'answers written', 'published messages received', 'pushes checked'):
            if not tot.get(k): rep.violation('vacuous:' + k, 'no %s on any path of the tasks of a connection' % k, where(top[0].span))
    if props & {'T01', 'T02'}:
        D = [f for f in P.libfns if MODT in f.path and f.kind == 'assocfn' and f.name in ('decode', 'encode') and any(w in P.tys(l[0]) for l in f.locals[1:f.argc + 1] for w in ('BytesMut',))]
        for n, cls in (('decode', Decode), ('encode', Encode)):
            fs = [f for f in D if f.name == n]
            if not fs: rep.violation('missing:' + n, 'the %sr of frames was not found' % n)
            for f in fs: runone(P, rep, props, cls(P, f, A), f, n, ('results of decoding checked', 'frames cut out') if n == 'decode' else ('frames written', 'responses written: Ok', 'responses written: Null', 'responses written: Data', 'responses written: Error'))
    if props & {'T01', 'T02', 'T04'}:
        for (path, fr), (co, _, ev) in m.tasks.items():
            g = P.fns[path]
            # the frame and the client get short names
            FR, CL = mk('arg', 'frame'), mk('arg', 'client')
            ups = tuple(subst(subst(m.norm(None, None, u) if u.op != 'ref' else u, fr, FR), m.client, CL) for u in co.a[2])
            co = mk('co', co.a[0], co.a[1], ups); fr = FR; client = CL
            for op in range(256):
                if only is not None and op not in only: continue
                run1(P, rep, props, Request(P, op, SPEC.get(op), fr, g, client, O, 1, A), g, co)
            run1(P, rep, props, Request(P, 0x10, None, fr, g, client, O, 2, A), g, co)
            break
        rep.floor('operations compared with the request', len(SPEC) if only is None else 1)
def run1(P, rep, props, m, f, co):
    I = Interp(P, m, 100000)
    try: I.run(f, upv=dict(zip(co.a[1], co.a[2])))
    except Budget as e: rep.violation('budget:' + m.api, 'the paths of %s could not all be analysed: %s' % (m.api, e)); return
    rep.fns |= I.analysed; rep.count('abstract steps', I.steps)
    for k, n in m.cnt.items(): rep.count(k, n)
    need = ['answers checked', 'paths of a request checked']
    if m.spec and m.ftype == 1:
        need += ['operations compared with the request', 'refusals checked']
        if not isinstance(m.spec[4], str):
            need.append('answer layouts compared')
            if any(x[1].startswith('E') for x in m.spec[4]): need.append('elements of answers compared')
    for k in need:
        if not m.cnt.get(k): rep.violation('vacuous:%s:%s' % (m.api, k), 'no %s on any path of %s' % (k, m.api), where(f.span))
    for (p, k), (msg, wh, tr) in m.v.items():
        if p in props: rep.violation(k, '%s: %s' % (m.api, msg), wh or where(f.span), tr)
if __name__ == '__main__':
    import sys, time, os
    sys.setrecursionlimit(20000)
    P = Prog(os.environ.get('NX_OUT', '/verif/build/out'))
    rep = Report('T'); t = time.time()
    run_tcp(P, rep, set(sys.argv[1].split(',')), [int(x, 16) for x in os.environ['OPC'].split(',')] if os.environ.get('OPC') else None)
    print(rep.counts, '%.1fs' % (time.time() - t))
    for v in rep.viol.values():
        print(v['key'], '|', v['msg'][:300], '|', v['where'])
        if len(sys.argv) > 2:
            for x in v['trace'][-12:]: print('      ', x[:200])
