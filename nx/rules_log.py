"""The stream log on disk: record formats (S02), recovery (S03), what counts as persisted (S07), saved group positions (S09)."""
from core import *
from models import track
from rules_queue import lin, last
from rules_group import isfld, strip, decided, factcmps
from rules_stream import Base, runone
from codec import CodecMixin, items_of, unbe, width, lenof, peel
MODP = 'brokers::stream::domain::persistence'
def nm(t): return t.a[0].split('::')[-1] if t.op == 'call' else ''
def unent(t):
    t = strip(t)
    return t.a[0] if t.op == 'ent' else t
def awaited(t):
    """the external operation whose result t is"""
    t = strip(t)
    while t.op in ('fld', 'proj', 'var', 'payload'): t = t.a[0]
    if t.op == 'call' and t.a[0] == 'await': return strip(t.a[1][0])
    return t
class LogBase(CodecMixin, Base):
    def __init__(self, P, api, layouts):
        Base.__init__(self, P, api); self.lay = layouts
    # results of I/O operations, as decided on the path
    def decided_result(self, I, st, call, ok, span): pass
    def on_split(self, I, st, v, variant):
        c = awaited(v)
        if c.op == 'call' and variant in ('Ok', 'Err'): self.decided_result(I, st, c, variant == 'Ok', None)
    def on_branch(self, I, st, term, val, span):
        if term.op == 'discr':
            c = awaited(term.a[0])
            k = I.variant_of(st, term.a[0], RES) if val not in (0, 1) else ('Ok', 'Err')[val]
            if c.op == 'call' and k in ('Ok', 'Err'): self.decided_result(I, st, c, k == 'Ok', span)
        for o, x, y in decided(term, val): self.cmpseen(I, st, o, x, y)
    def cmpseen(self, I, st, o, x, y): pass

# ---------------------------------------------------------------- reading
def asint(t):
    """an integer put together from bytes read, as the read of that integer"""
    if t.op == 'call' and t.a[0].split('::')[-1] in ('from_be_bytes', 'from_le_bytes', 'from_ne_bytes'):
        p, e = unbe(t)
        if p is not None and isinstance(p[2], int): return mk('rdf', p[0], p[1], (), p[2], e)
    return None
class ReadMon(LogBase):
    def __init__(self, P, api, layouts, ops=()):
        LogBase.__init__(self, P, api, layouts); self.ops = ops
    def opaque(self, I, path): return path.split('::{')[0] in self.ops
    def on_read(self, I, st, v, ev):
        if 'done' in st.mon:
            for k in ('done', 'reads', 'crcok', 'bounds'): st.mon.pop(k, None)
        st.mon['reads'] = st.mon.get('reads', ()) + (v,)
        if not isinstance(v.a[1], int): st.mon['done'] = 1
        st.note('read %s bytes %s' % (v.a[1] if isinstance(v.a[1], int) else 'n', where(ev.span)))
    def cmpseen(self, I, st, o, x, y):
        for a, b in ((x, y), (y, x)):
            s = strip(a)
            if o == 'Eq' and s.op == 'crc':
                r, e = unbe(b)
                its = s.a[0]
                if r is not None and len(its) == 1 and its[0][0] == 'raw': st.mon['crcok'] = (strip(its[0][1]), r, e)
        if o in ('Le', 'Lt'):
            lo, hi = strip(x), strip(y)
            c, t = (lo.a[1], ()) if lo.op == 'k' else (0, (lo,))
            st.mon['bounds'] = st.mon.get('bounds', ()) + ((hi, c + (1 if o == 'Lt' else 0), t),)
    def on_get(self, I, st, base, off, terms, r, ev):
        self.n('field reads checked')
        b0 = strip(base)
        for hi, c, t in st.mon.get('bounds', ()):
            x = strip(hi.a[0]) if hi.op == 'len' else hi
            if hi.op == 'len' and x is b0: co, to = 0, ()
            elif hi.op == 'len' and (x.op == 'cur' or x.op == 'rdf' and x.a[3] == 'rest') and strip(x.a[0]) is b0: co, to = x.a[1], x.a[2]
            elif b0.op == 'rd' and not isinstance(b0.a[1], int) and strip(b0.a[1]) is hi: co, to = 0, ()
            elif hi.op == 'rem' and strip(hi.a[0]) is b0: co, to = hi.a[1], hi.a[2]
            else: continue
            have = list(to + t)
            if co + c >= off and all(strip(x) in [strip(z) for z in have] for x in terms): return
        self.bad('S02', 'overrun', 'a field is read from a record that was not checked to be long enough: a damaged file makes recovery panic', ev.span, st)
    def frame(self, I, st, span, what):
        """the frame of the record just accepted, in terms of (roles of the header reads, content)"""
        rs = st.mon.get('reads', ())
        content = rs[-1] if rs else None
        if len(rs) < 2 or isinstance(content.a[1], int) or not all(isinstance(r.a[1], int) for r in rs[:-1]): self.bad('S02', 'frame', '%s is accepted without reading length, checksum and content of a record' % what, span, st); return None
        ln, le = unbe(content.a[1]) if isinstance(content.a[1], Term) else (None, '')
        ck = st.mon.get('crcok')
        if ck is None or ck[0] is not content: self.bad('S02', 'crc', '%s is accepted although its checksum was not found to match' % what, span, st); return None
        role = []; off = 0; at = []
        for r in rs[:-1]:
            for p, nmr, e in ((ln, 'len', le), (ck[1], 'crc', ck[2])):
                if p is not None and p[0] is r: at.append((off + p[1], p[2], nmr, e))
            off += r.a[1]
        pos = 0
        for o, w, nmr, e in sorted(at):
            if o != pos: role.append(('?', '', o - pos))
            role.append((nmr, e, w)); pos = o + w
        if pos != off: role.append(('?', '', off - pos))
        self.n('record frames checked')
        return tuple(role), content
    def field(self, t, content):
        # the read the value itself comes from: the outermost one (a length read
        # may be nested inside the read of the bytes it measures)
        todo = [strip(t)]
        while todo:
            nxt = []
            for x in todo:
                if x.op == 'rdf' and strip(x.a[0]) is content: return x
                y = asint(x)
                if y is not None and strip(y.a[0]) is content: return y
                if x.op == 'cur' and strip(x.a[0]) is content: return mk('rdf', x.a[0], x.a[1], x.a[2], 'rest', '')
                for y in x.a: nxt += [strip(z) for z in ([y] if isinstance(y, Term) else iter_terms(y) if isinstance(y, tuple) else ())]
            todo = nxt
        return None
    def accepted(self, I, st, kind, got, content, role, span, what):
        lay = self.lay.get(kind)
        if lay is None: self.bad('S02', 'nowriter', 'the format %s are written in is not known' % what, span, st); return
        hdr, tail = lay
        if role != hdr: self.bad('S02', 'header', 'the header of %s is read as %s but written as %s' % (what, role, hdr), span, st)
        self.n('records compared with what is written')
        for name, w in tail.items():
            if name.endswith('#len'): continue
            r = got.get(name)
            r = self.field(r, content) if r is not None else None
            if r is None: self.bad('S02', 'field:' + name, 'the %s of %s does not come from the record read' % (name, what), span, st); continue
            g = (r.a[1], len(r.a[2]), r.a[3] if isinstance(r.a[3], (int, str)) else 'n', r.a[4])
            if g[2] == 'rest' and w[2] == 'rest': g = g[:3] + ('raw',)
            if g[2] == 'n' and w[2] == 'rest':
                # a variable length: it must be the length field
                lf = strip(r.a[3]); lf = asint(lf) or lf; w2 = tail.get(name + '#len')
                lg = (lf.a[1], len(lf.a[2]), lf.a[3], lf.a[4]) if lf.op == 'rdf' else None
                if lg != w2: self.bad('S02', 'lenfield:' + name, 'the length of the %s of %s is read from %s but written at %s' % (name, what, lg, w2), span, st)
                g = g[:2] + ('rest', 'raw')
            if g != w and not name.endswith('#len'): self.bad('S02', 'layout:' + name, 'the %s of %s is read as (offset, variable parts, bytes, order) %s but written as %s' % (name, what, g, w), span, st)
    def on_agg(self, I, st, term, span):
        if last(term.a[0]) != 'Message': return
        f = dict(zip(term.a[2], term.a[3]))
        r = self.frame(I, st, span, 'a message')
        if r: self.accepted(I, st, 'message', {k: f.get(k) for k in ('seq', 'timestamp', 'payload')}, r[1], r[0], span, 'messages')
        self.n('messages accepted'); st.mon['msg'] = f.get('seq')
    def on_call(self, I, st, ev):
        m = ev.name.split('::')
        if m[-1] == 'insert' and len(ev.args) == 3 and 'Map' in m[0] and any(s.op == 'rdf' for s in subterms(I.val(st, ev.args[2])) | subterms(I.val(st, ev.args[1]))):
            r = self.frame(I, st, ev.span, 'a group position')
            if r: self.accepted(I, st, 'group', {'ack_floor': ev.args[2], 'group_id': I.val(st, ev.args[1])}, r[1], r[0], ev.span, 'group positions')
            self.n('group positions accepted')
        # where segments are looked at
        if m[-1] in ('next', 'next_back') and ev.args and ev.args[0].op == 'ref': pass
    def on_end(self, I, st, kind, val):
        if kind != 'panic': self.n('paths checked')

class RecoverMon(LogBase):
    """recover_topic: newest segment that holds messages, head from the oldest segment"""
    def __init__(self, P, api, layouts, ops):
        LogBase.__init__(self, P, api, layouts); self.ops = ops
    def opaque(self, I, path):
        p = path.split('::{')[0]
        return p in self.ops or p.endswith('::find_segments')
    def backwards(self, I, st, a):
        it = I.val(st, a); k = 0
        while it.op == 'iterad' and k < 9:
            if it.a[0] == 'rev': return True
            it = it.a[2]; k += 1
        return False
    def on_ret(self, I, st, ev, val):
        m = ev.name.split('::')[-1]
        if ev.loc and ev.full.split('::{')[0] in self.ops and ev.res.split('::{')[0] in self.ops:
            p = [s for a in ev.args for s in subterms(I.val(st, a) if a.op == 'ref' else a) | subterms(a) if s.op in ('elem', 'other')]
            seg = any(locfs(a) == 'path' for a in ev.args)
            if not seg: st.mon['groupsrc'] = val; st.mon['groupspath'] = I.val(st, ev.args[0]); return
            self.n('segment loads checked'); st.note('load a segment %s' % where(ev.span))
            if 'fwd' in st.mon: self.bad('S03', 'oldest', 'recovery looks at older segments before newer ones', ev.span, st)
            st.mon['loaded'] = val; st.mon.pop('exh', None); st.mon.pop('lempty', None)
            return
        if m == 'index' and len(ev.args) == 2 and 'find_segments' in show(val):
            self.at(st, strip(ev.args[1])); return
        if m in ('next', 'next_back', 'last', 'first', 'pop', 'max_by_key', 'min_by_key', 'get') and ev.args:
            k = I.variant_of(st, val, OPT)
            back = m in ('last', 'pop', 'max_by_key') or (m == 'next') == self.backwards(I, st, ev.args[0]) and m in ('next', 'next_back')
            if k == 'Some':
                x = I.val(st, project(val, (('v', 'Some'), ('f', '0', OPT))))
                st.mon['from'] = tuple(z for z in st.mon.get('from', ()) if z[0] is not x) + ((x, m, back),)
                if m in ('next', 'next_back', 'first') and not back and 'next' in m: st.mon['fwd'] = 1
            elif k == 'None': st.mon['exh'] = 1
    def at(self, st, i):
        was = st.mon.get('idx'); st.mon['idx'] = i
        if was is not None and i is not was and i.op == 'bin' and i.a[0] == 'Add': st.mon['fwd'] = 1
    def on_index(self, I, st, loc, i):
        if 'find_segments' in show(I.readloc(st, loc)): self.at(st, strip(i))
    def on_call(self, I, st, ev):
        if ev.loc and ev.res.split('::{')[0] in self.ops and any(locfs(a) == 'path' for a in ev.args):
            prev = st.mon.get('loaded')
            if prev is not None and self.empty(I, st, prev) != 1: self.bad('S03', 'overwritten', 'an older segment is loaded although the newer one may hold messages', ev.span, st)
    def on_branch(self, I, st, term, val, span):
        LogBase.on_branch(self, I, st, term, val, span)
        x, v = term, val
        while x.op in ('un', 'cast') and x.a[0] != 'is_empty': x, v = (x.a[1], 1 - v if v in (0, 1) else None) if x.op == 'un' else (x.a[1], v)
        ix = st.mon.get('idx')
        for o, a, b in decided(term, val):   # counting down to the oldest segment
            if (o == 'Le' and strip(b).op == 'k' and strip(b).a[1] == 0 or o == 'Lt' and strip(b).op == 'k' and strip(b).a[1] == 1) and (strip(a) is ix or strip(a).op == 'len' and 'find_segments' in show(a)): st.mon['exh'] = 1
        ld = st.mon.get('loaded')
        if ld is not None and any(s is ld for s in subterms(x)):
            if x.op == 'un' and x.a[0] == 'is_empty': st.mon['lempty'] = I.decide(st, x) if v is None else v
            elif x.op in ('bin', 'cmp'): st.mon['lempty'] = 2
    def empty(self, I, st, v):
        if 'lempty' in st.mon: return st.mon['lempty']
        for t, x in st.facts.items():
            if isinstance(t, Term) and any(s is v for s in subterms(t)):
                if t.op == 'un' and t.a[0] == 'is_empty': return x
                if t.op == 'cmp': return 2
        return None
    def readby(self, t): return any(s.op == 'call' and isinstance(s.a[0], str) and s.a[0].split('::{')[0] in self.ops for s in subterms(t))
    def on_end(self, I, st, kind, val):
        if kind == 'panic' or val is None: return
        v = I.val(st, val)
        if v.op != 'agg': self.bad('S03', 'opaque', 'what recovery returns is not known', None, st); return
        f = dict(zip(v.a[2], v.a[3])); self.n('results checked')
        msgs, segs, head, groups = (f.get(k) for k in ('messages', 'segments', 'head_seq', 'groups_data'))
        ld = st.mon.get('loaded')
        have = any(isinstance(t, Term) and t.op == 'un' and t.a[0] == 'is_empty' and x == 0 and 'find_segments' in show(t.a[1]) and not self.readby(t.a[1]) for t, x in st.facts.items()) or (strip(head).op != 'k' and isfld(strip(head), 'start_seq'))
        if ld is None and have and 'exh' not in st.mon: self.bad('S03', 'noload', 'a topic with segments on disk is recovered without loading any', None, st)
        if ld is not None:
            if not any(s is ld for s in subterms(msgs)) and self.empty(I, st, ld) != 1: self.bad('S03', 'dropped', 'the messages loaded are not what recovery returns (%s)' % show(msgs)[-80:], None, st)
            if self.empty(I, st, ld) in (None, 1) and 'exh' not in st.mon: self.bad('S03', 'stops', 'recovery stops at a segment without messages while older ones may hold some: the topic would start over at its beginning', None, st)
        h = strip(head)
        if isfld(h, 'start_seq'):
            for x, m, back in st.mon.get('from', ()):
                if any(s is x for s in subterms(h)) and back: self.bad('S03', 'head', 'the head of the topic is not taken from the oldest segment', None, st)
        elif h.op == 'k' and have and h.a[1] != 0 or h.op not in ('k', 'call'): self.bad('S03', 'head', 'the head of the topic is not the number of the oldest segment (%s)' % show(h)[-60:], None, st)
        gs = st.mon.get('groupsrc')
        if gs is not None:
            res = I.variant_of(st, mk('call', 'await', (gs,), 0), RES)
            if not any(s is gs for s in subterms(groups)) and not self.failed(st, gs): self.bad(('S03', 'S09'), 'groups', 'saved positions that were read are not part of what is recovered', None, st)
            w = self.lay.get('final', ''); r = show(st.mon['groupspath'])
            import re
            lw, lr = re.findall(r"'([^']*)'", w), re.findall(r"'([^']*)'", r)
            if lw and lr and lw[-1] != lr[-1]: self.bad('S09', 'groupsfile', 'positions are saved to %s but recovered from %s' % (lw[-1], lr[-1]), None, st)
    def failed(self, st, gs):
        return any(isinstance(t, Term) and t.op == 'discr' and x == 1 and any(s is gs for s in subterms(t)) for t, x in st.facts.items()) or 'groupsfailed' in st.mon
    def decided_result(self, I, st, c, ok, span):
        if c is st.mon.get('groupsrc') and not ok: st.mon['groupsfailed'] = 1
def locfs(a):
    if a.op == 'ref':
        f = lastfield(a.a[0])
        return f[1] if f else None
    return None

# ---------------------------------------------------------------- reading what is no longer in memory (S10)
def params(P, f):
    """{type: parameter} of a function by the types of its parameters (those that occur once)"""
    sig = P.fns.get(f.path.split('::{')[0], f); out = {}; dup = set()
    names = f.upvars if f is not sig else [sig.locals[i][1] if len(sig.locals[i]) > 1 else None for i in range(1, sig.argc + 1)]
    for i in range(1, sig.argc + 1):
        t = P.tys(sig.locals[i][0])
        if t in out: dup.add(t)
        if i - 1 < len(names) and names[i - 1]: out[t] = mk('arg', names[i - 1])
    return {t: a for t, a in out.items() if t not in dup}
S10 = ('S01', 'S04', 'S10')
class ScanMon(ReadMon):
    """reading one segment for a consumer: nothing valid from the requested number on is left out, and it ends only at the end or at the limit"""
    def __init__(self, P, api, layouts, f):
        ReadMon.__init__(self, P, api, layouts); a = params(P, f)
        self.frm = a.get('u64'); self.lim = a.get('usize')
    def isfrom(self, t): return strip(t) is self.frm
    def on_read(self, I, st, v, ev):
        if 'done' in st.mon: self.passed(I, st, ev.span)
        ReadMon.on_read(self, I, st, v, ev)
    def content(self, st):
        rs = st.mon.get('reads', ())
        return rs[-1] if rs and not isinstance(rs[-1].a[1], int) else None
    def passed(self, I, st, span):
        c = self.content(st); ck = st.mon.get('crcok')
        if c is not None and ck is not None and ck[0] is c and 'kept' not in st.mon and 'before' not in st.mon and 'short' not in st.mon and 'unread' not in st.mon:
            self.bad(S10, 'leftout', 'an intact message from the requested number on is read from disk but not returned', span, st)
        for k in ('kept', 'before', 'short', 'unread'): st.mon.pop(k, None)
    def cmpseen(self, I, st, o, x, y):
        ReadMon.cmpseen(self, I, st, o, x, y)
        a, b = strip(x), strip(y); c = self.content(st)
        if o == 'Lt' and self.isfrom(b) and c is not None:
            r = self.field(a, c)
            if r is not None and self.lay.get('message') and r.a[1] == self.lay['message'][1].get('seq', (None,))[0] and not r.a[2]: st.mon['before'] = 1
        n = b.a[1] if b.op == 'k' and isinstance(b.a[1], int) else None
        if n is not None and c is not None and (o == 'Lt' and n <= 16 or o == 'Le' and n <= 15) and whole(a, c): st.mon['short'] = 1
        for p, q, left in ((a, b, 1), (b, a, 0)):
            if strip(q) is not self.lim: continue
            # messages >= limit
            if p.op in ('len',) or nm(p) == 'len':
                if o == 'Eq' or o == 'Le' and not left or o == 'Lt' and not left: st.mon['full'] = 1
            elif p.op != 'k' and not any(s.op == 'len' or nm(s) == 'len' for s in subterms(p)) and (o == 'Eq' or o in ('Le', 'Lt') and not left): st.mon['full'] = 1
        # counted down: what was asked for, less one for every message kept
        for p, q, left in ((a, b, 1), (b, a, 0)):
            if q.op != 'k' or q.a[1] not in (0, 1) or self.lim is None: continue
            zero = o == 'Eq' and q.a[1] == 0 or left and (o == 'Le' and q.a[1] == 0 or o == 'Lt' and q.a[1] == 1)
            more = not left and (o == 'Lt' and q.a[1] == 0 or o == 'Le' and q.a[1] == 1) or o == 'Ne'
            if not (zero or more): continue
            down = p.op == 'bin' and p.a[0].startswith('Sub') and strip(p.a[1]) is LEFT and strip(p.a[2]).op == 'k' and strip(p.a[2]).a[1] == 1 and st.mon.get('down')
            ok = p is LEFT or down or any(s is self.lim for s in subterms(p)) and not any(s.op == 'bin' or s is LEFT for s in subterms(p))
            if ok and zero: st.mon['full'] = 1
            if ok and more and p is not LEFT:
                st.mon.pop('down', None)
                I.retire(st, p, LEFT)
    def decided_result(self, I, st, c, ok, span):
        n = nm(c)
        if not ok and (n.startswith('read_') or n in ('read', 'fill_buf')): st.mon['eof'] = 1; st.mon['unread'] = 1
        if not ok and n in ('open',): st.mon['eof'] = 1
        # a field of fixed length turned into an array of that length: never fails
        if not ok and n in ('try_into', 'try_from') and any(s.op == 'rdf' and isinstance(s.a[3], int) for s in subterms(c)): st.mon['short'] = 1
    def on_call(self, I, st, ev):
        ReadMon.on_call(self, I, st, ev)
        m = ev.name.split('::')
        if m[-1] in ('push', 'push_back') and len(ev.args) == 2 and 'msg' in st.mon and (m[0] in ('Vec', 'VecDeque')):
            x = I.val(st, ev.args[1]); c = self.content(st)
            if c is not None and any(s is c for s in subterms(x)): st.mon['kept'] = 1; st.mon['down'] = 1; st.mon.pop('full', None); self.n('messages returned')
    def on_end(self, I, st, kind, val):
        if kind == 'panic': return
        self.n('paths checked')
        if 'done' in st.mon: self.passed(I, st, None)
        if 'eof' not in st.mon and 'full' not in st.mon: self.bad(S10, 'early', 'reading a segment stops before its end although fewer messages than asked for were found', None, st)

def whole(a, c):
    """is a the length of the whole of c?"""
    if a.op == 'len' or nm(a) == 'len': return strip(a.a[0] if a.op == 'len' else a.a[1][0]) is c
    return a.op == 'rem' and a.a[0] is c and a.a[1] == 0 and not a.a[2]
def lenvec(x): return (x.op == 'len' or nm(x) == 'len') and strip(x.a[0] if x.op == 'len' else x.a[1][0]).op == 'vec'
CUR = mk('arg', '(segment)')
NEXT = mk('arg', '(next)'); LEFT = mk('arg', '(left)')
class ColdMon(LogBase):
    """reading old messages: the segment that holds the number, and all behind it, in order"""
    def __init__(self, P, api, layouts, f, ops):
        LogBase.__init__(self, P, api, layouts); a = params(P, f); self.ops = ops
        self.frm = a.get('u64'); self.lim = a.get('usize')
    def opaque(self, I, path):
        p = path.split('::{')[0]
        return p in self.ops or p.endswith('::find_segments')
    def opaqueval(self, I, st, ev):
        full = (ev.res or ev.full or '').split('::{')[0]
        if full not in self.ops: return None
        v = mk('call', full, (), ev.site); self.readseg(I, st, ev, v); return v
    def seglist(self, t): return any(s.op == 'call' and isinstance(s.a[0], str) and 'find_segments' in s.a[0] for s in subterms(t)) and not self.readof(t)
    def readof(self, t):
        for s in subterms(t):
            if s.op == 'call' and isinstance(s.a[0], str) and s.a[0].split('::{')[0] in self.ops: return s
        return None
    def segof(self, t):
        """the segment a term is a part of"""
        t = strip(t)
        while t.op in ('fld', 'proj', 'var', 'payload', 'deref', 'cast', 'valbox', 'vref'): t = strip(t.a[1] if t.op == 'cast' else t.a[0])
        return t
    def firstel(self, st, t):
        t = strip(t)
        if nm(t) == 'index' and len(t.a[1]) == 2 and strip(t.a[1][1]).op == 'k' and strip(t.a[1][1]).a[1] == 0 and self.seglist(t): return True
        return t in st.mon.get('first', ())
    def fromok(self, I, st, F):
        """is F the requested number, or the first one there is when that is later?"""
        F = strip(F)
        if F is self.frm or F is NEXT: return True
        if nm(F) == 'max' or F.op == 'max':
            ar = [strip(x) for x in (F.a[1] if F.op == 'call' else F.a)]
            if self.frm in ar and all(x is self.frm or self.start(st, x) for x in ar): return True
        if self.start(st, F): return ('behind', F) in st.mon.get('cmp', ())
        return False
    def start(self, st, x): return isfld(strip(x), 'start_seq') and self.firstel(st, self.segof(x))
    def covered(self, I, st, x):
        """number up to which segments may be passed over: not beyond what was asked for"""
        return self.fromok(I, st, x)
    def cmpseen(self, I, st, o, x, y):
        a, b = strip(x), strip(y)
        if a is self.frm and isfld(b, 'start_seq') and o in ('Lt', 'Le', 'Eq'): self.add(st, 'cmp', ('behind', b))
        if b is self.frm and isfld(a, 'start_seq') and o == 'Eq': self.add(st, 'cmp', ('behind', a))
        if o in ('Le', 'Lt', 'Eq'):
            for p, q in ((a, b), (b, a)) if o == 'Eq' else ((a, b),):
                if isfld(p, 'start_seq') and self.covered(I, st, q): self.add(st, 'reached', self.segof(p))
            if o != 'Eq' and isfld(b, 'start_seq') and self.covered(I, st, a) and (a is not self.frm or 'front' in st.mon): self.add(st, 'beyond', self.segof(b))
            if b is self.frm and self.start(st, a): st.mon['front'] = 1
        n = b.a[1] if b.op == 'k' else None
        if n is not None and (o == 'Eq' and n == 0 or o == 'Le' and n == 0 or o == 'Lt' and n == 1):
            if any(s is self.lim or s is LEFT for s in subterms(a)): st.mon['full'] = 1
            if (a.op == 'len' or nm(a) == 'len') and self.seglist(a): st.mon['exh'] = 1
        if o in ('Le', 'Eq') and (a.op == 'len' or nm(a) == 'len') and self.seglist(a) and b.op != 'k': st.mon['exh'] = 1
        for p, q, left in ((a, b, 1), (b, a, 0)):
            if strip(q) is self.lim and lenvec(p) and (o == 'Eq' or o in ('Le', 'Lt') and not left): st.mon['full'] = 1
    def on_branch(self, I, st, term, val, span):
        LogBase.on_branch(self, I, st, term, val, span)
        if term.op == 'discr' and nm(term.a[0]) == 'get' and len(term.a[0].a[1]) == 2 and self.seglist(term.a[0]):
            k = ('None', 'Some')[val] if val in (0, 1) else I.variant_of(st, term.a[0], OPT)
            if k == 'None': st.mon['exh'] = 1
            elif k == 'Some': st.mon['idx'] = (strip(term.a[0].a[1][1]), term.a[0])
        x, v = term, val
        while x.op == 'un' and x.a[0] == 'Not': x, v = x.a[1], 1 - v if v in (0, 1) else None
        if x.op == 'un' and x.a[0] == 'is_empty' or nm(x) == 'is_empty':
            g = x.a[1] if x.op == 'un' else x.a[1][0]; r = self.readof(g)
            if r is not None and st.mon.get('read') and r is st.mon['read'][0]: st.mon['rempty'] = v
            elif r is None and v == 1 and self.seglist(g): st.mon['exh'] = 1
        if term.op in ('bin', 'cmp') and st.mon.get('read'):
            for o, a, b in decided(term, val):
                a, b = strip(a), strip(b)
                if (a.op == 'len' or nm(a) == 'len') and self.readof(a) is st.mon['read'][0] and b.op == 'k' and b.a[1] == 0: st.mon['rempty'] = 1 if o in ('Eq', 'Le') else 0
    def empty(self, I, st, r):
        if 'rempty' in st.mon: return st.mon['rempty']
        for t, x in st.facts.items():
            if isinstance(t, Term) and t.op == 'un' and t.a[0] == 'is_empty' and any(s is r for s in subterms(t)): return x
        return None
    def startidx(self, I, st, x, span):
        """reading begins at index x of the segments"""
        x = strip(x); self.n('starting segments checked')
        if x.op == 'k' and isinstance(x.a[1], int) and x.a[1] <= 0: return
        if x.op == 'elemidx' or x.op == 'proj':
            if x.op == 'elemidx' and any(y in st.mon.get('reached', ()) for y in subterms(x.a[0])): return
        if nm(x) in ('saturating_sub', 'wrapping_sub') or x.op == 'bin' and x.a[0].startswith('Sub'):
            y, k = (strip(x.a[1][0]), strip(x.a[1][1])) if x.op == 'call' else (strip(x.a[1]), strip(x.a[2]))
            if k.op == 'k' and k.a[1] == 1 and y.op == 'k' and y.a[1] == 0: return
            if k.op == 'k' and k.a[1] == 1 and y.op == 'pastidx' and any(z in st.mon.get('reached', ()) for z in subterms(y.a[0])): return
        self.bad(S10, 'start', 'reading from disk begins at a segment that was not found to start at or before the requested number: messages in front of it are skipped', span, st)
    def stages(self, I, st, a, span):
        it = I.val(st, a); k = 0
        while it.op == 'iterad' and k < 9:
            if it.a[0] == 'rev': self.bad(S10, 'order', 'segments are read from the newest to the oldest: messages come out of order', span, st)
            if it.a[0] in ('step_by', 'take'): self.bad(S10, 'step', 'segments are left out', span, st)
            it = it.a[2]; k += 1
    def on_ret(self, I, st, ev, val):
        m = ev.name.split('::')[-1]
        if m in ('unwrap_or_default', 'unwrap_or', 'unwrap_or_else') and val.op == 'vec' and val.a[0] == 'E' and ev.args and self.seglist(ev.args[0]): st.mon['exh'] = 1
        if m == 'is_empty' and ev.args and st.mon.get('read') and val.op == 'k' and self.readof(I.val(st, ev.args[0]) if ev.args[0].op == 'ref' else ev.args[0]) is st.mon['read'][0]: st.mon['rempty'] = val.a[1]
        if m in ('first', 'next', 'get', 'last', 'next_back', 'index') and ev.args:
            if m == 'index': return self.rangeof(I, st, ev, val)
            k = I.variant_of(st, val, OPT)
            r = st.mon.get('read')
            if r and m != 'get':
                g = ev.args[0]; x = None
                while g.op == 'ref': g = I.val(st, g)
                while g.op == 'iterad': g = g.a[2]
                x = g.a[1] if g.op == 'iter' and len(g.a) > 1 and isinstance(g.a[1], Term) else g
                if self.readof(x) is r[0]:
                    if m in ('first', 'last'):
                        st.mon['rempty'] = 1 if k == 'None' else 0
                        if k == 'Some':
                            x = self.segof(I.val(st, project(val, (('v', 'Some'), ('f', '0', OPT)))))
                            if m == 'first': self.add(st, 'front1', x)
                            else: self.rm(st, 'front1', lambda y: y is x)
                    elif m == 'next':
                        if 'item' in st.mon: self.bad(S10, 'dropped', 'messages read from a segment are not part of what is returned', ev.span, st)
                        st.mon.pop('item', None)
                        if k == 'Some': st.mon['item'] = 1; st.mon['rempty'] = 0
                        else: st.mon['kept'] = 1; self.n('results joined')
            if k == 'Some':
                x = self.segof(I.val(st, project(val, (('v', 'Some'), ('f', '0', OPT)))))
                if x.op in ('elem', 'other') and self.seglist(x):
                    i = strip(ev.args[1]) if m == 'get' and len(ev.args) == 2 else None
                    if i is not None: st.mon['idx'] = (i, x)
                    if m == 'first' or i is not None and i.op == 'k' and i.a[1] == 0: self.add(st, 'first', x)
                    elif m in ('last', 'next_back'): self.rm(st, 'first', lambda y: y is x)
                    if m in ('next', 'next_back'): self.stages(I, st, ev.args[0], ev.span)
            elif k == 'None':
                if not r or self.seglist(I.val(st, ev.args[0])) : st.mon['exh'] = 1
        if m == 'skip' and len(ev.args) == 2 and self.seglist(I.val(st, ev.args[0])): self.startidx(I, st, ev.args[1], ev.span)
        if m in ('extend', 'append', 'extend_from_slice') and len(ev.args) == 2 and st.mon.get('read'):
            x = ev.args[1]
            xs = [x] + ([I.val(st, x)] if x.op == 'ref' else [])
            if any(self.readof(y) is st.mon['read'][0] for y in xs) or 'apx' in st.mon: st.mon['kept'] = 1; self.n('results joined')
    def on_call(self, I, st, ev):
        m = ev.name.split('::')
        if m[-1] == 'append' and len(ev.args) == 2 and st.mon.get('read'):
            x = ev.args[1]
            if any(self.readof(y) is st.mon['read'][0] for y in [x] + ([I.val(st, x)] if x.op == 'ref' else [])): st.mon['kept'] = 1; self.n('results joined')
        if m[-1] in ('push', 'push_back') and len(ev.args) == 2 and st.mon.get('read') and self.readof(I.val(st, ev.args[1])) is st.mon['read'][0]:
            if 'item' in st.mon: st.mon.pop('item')
            else: st.mon['kept'] = 1
    def rangeof(self, I, st, ev, val=None):
        if len(ev.args) != 2 or not self.seglist(I.val(st, ev.args[0])): return
        g = I.val(st, ev.args[1])
        if g.op != 'agg' and val is not None: st.mon['idx'] = (strip(g), self.segof(val if val.op != 'ref' else mk('x', val).a[0]))
        if g.op == 'agg' and g.a[0].split('::')[-1] in ('RangeFrom', 'Range'): self.startidx(I, st, dict(zip(g.a[2], g.a[3])).get('start', mk('unit')), ev.span)
    def settled(self, I, st, span):
        r = st.mon.get('read')
        if r and 'kept' not in st.mon and self.empty(I, st, r[0]) != 1: self.bad(S10, 'dropped', 'messages read from a segment are not part of what is returned', span, st)
    def readseg(self, I, st, ev, val):
        self.settled(I, st, ev.span)
        self.n('segment reads checked'); st.note('read a segment %s' % where(ev.span))
        a = [I.val(st, x) if x.op == 'ref' else x for x in ev.args]
        seg = [x for x in a if isfld(strip(x), 'path') or self.seglist(x) and not isinstance(x, int)]
        F = R = None
        sig = self.P.fns[(ev.res or ev.full).split('::{')[0]]
        for i, x in enumerate(ev.args):
            t = self.P.tys(sig.locals[i + 1][0])
            if t == 'u64': F = strip(x)
            if t == 'usize': R = strip(x)
        if not any(isfld(strip(x), 'path') or locfs(y) == 'path' for x, y in zip(a, ev.args)): self.bad(S10, 'file', 'what is read is not the file of a segment of the topic', ev.span, st)
        prev = st.mon.get('read'); idx = st.mon.pop('idx', None)
        if prev and any(self.firstel(st, z) for x, y in zip(a, ev.args) if isfld(strip(x), 'path') or locfs(y) == 'path' for z in subterms(y)): self.bad(S10, 'file', 'the file read is not that of the next segment', ev.span, st)
        if idx is not None and any(z is w for y in ev.args for z in subterms(y) for w in subterms(idx[1]) if w.op in ('elem', 'other', 'call') and self.seglist(w) and w.op != 'k' and nm(w) in ('index', 'get', '')): self.index(I, st, idx[0], prev, ev.span)
        if F is not None:
            ok = self.fromok(I, st, F)
            if prev and not ok: ok = F is prev[1] or self.behind(st, F, prev[0])
            if prev and ok and self.fromok(I, st, F): pass
            if not ok: self.bad(S10, 'from', 'a segment is read from a number that is neither the one asked for nor the one behind the last message read (%s)' % show(F)[-80:], ev.span, st)
        if R is not None:
            if prev is None: ok = R is self.lim
            else:
                e = self.empty(I, st, prev[0])
                ok = R is prev[2] and e == 1 or R is LEFT or self.rest(R, prev[2], prev[0])
            ok = ok or self.restall(R)
            if not ok: self.bad(S10, 'limit', 'a segment is read with a limit that is not what is left of the number of messages asked for (%s)' % show(R)[-80:], ev.span, st)
        for k in ('kept', 'rempty', 'full'): st.mon.pop(k, None)
        # what follows is the same for every round: from where it continues, and how many are left
        for x, canon in ((F, NEXT), (R, LEFT)):
            if x is not None and x.op != 'arg' and x.op != 'k': I.retire(st, x, canon)
        I.retire(st, val, mk('call', val.a[0], ('old',), val.a[2]))
        if F is not None or R is not None: st.mon['read'] = (val, F if F is not None and F.op == 'arg' else NEXT, R if R is not None and R.op == 'arg' else LEFT)
    def index(self, I, st, i, prev, span):
        rng = [x for x in subterms(i) if x.op == 'agg' and x.a[0].split('::')[-1] in ('Range', 'RangeFrom')]
        if rng:
            if not prev: self.startidx(I, st, dict(zip(rng[0].a[2], rng[0].a[3])).get('start', mk('unit')), span)
            return
        if not prev: self.startidx(I, st, i, span)
        elif i is CUR or 'const' in st.mon: return
        else:
            ok = i.op == 'bin' and i.a[0].startswith('Add') and strip(i.a[1]) is CUR and strip(i.a[2]).op == 'k' and strip(i.a[2]).a[1] == 1
            if not ok: self.bad(S10, 'step', 'the segment read next is not the one behind the last (%s)' % show(i)[-80:], span, st)
        if i.op == 'k': st.mon['const'] = 1
        else: I.retire(st, i, CUR)
    def behind(self, st, F, r):
        """last(r).seq + 1, or the same without the one"""
        F = strip(F)
        while F.op == 'cast': F = strip(F.a[1])
        if F.op == 'bin' and F.a[0] in ('Add', 'AddWithOverflow', 'AddUnchecked'): 
            x, y = strip(F.a[1]), strip(F.a[2])
            if y.op == 'k' and y.a[1] == 1: F = x
        if nm(F) in ('saturating_add', 'wrapping_add') and strip(F.a[1][1]).op == 'k' and strip(F.a[1][1]).a[1] == 1: F = strip(F.a[1][0])
        return isfld(F, 'seq') and self.readof(F) is r and self.segof(F) not in st.mon.get('front1', ())
    def rest(self, R, R0, r):
        c = lin(R)
        if nm(R) == 'saturating_sub' and strip(R.a[1][0]) is R0: x = strip(R.a[1][1])
        elif R.op == 'bin' and R.a[0].startswith('Sub') and strip(R.a[1]) is R0: x = strip(R.a[2])
        else: return False
        return (x.op == 'len' or nm(x) == 'len') and self.readof(x) is r
    def restall(self, R):
        if nm(R) == 'saturating_sub' and strip(R.a[1][0]) is self.lim: x = strip(R.a[1][1])
        elif R.op == 'bin' and R.a[0].startswith('Sub') and strip(R.a[1]) is self.lim: x = strip(R.a[2])
        else: return False
        return (x.op == 'len' or nm(x) == 'len') and lenvec(x)
    def decided_result(self, I, st, c, ok, span):
        if not ok and nm(c) == 'find_segments': st.mon['exh'] = 1       # no list of segments: nothing to go through
    def on_exhausted(self, I, st, *a): st.mon['exh'] = 1
    def on_end(self, I, st, kind, val):
        if kind == 'panic' or val is None: return
        self.n('paths checked'); self.settled(I, st, None)
        if 'exh' in st.mon or 'full' in st.mon: return
        if 'read' not in st.mon and self.none(I, st): return
        self.bad(S10, 'early', 'reading from disk ends although there may be more segments and fewer messages than asked for were found', None, st)
    def none(self, I, st):
        """no segment starts at or before the number asked for: there is none at all"""
        return bool(st.mon.get('beyond'))
class FindMon(LogBase):
    """the list of segments: every segment file, under its own number, in the order of the numbers"""
    def on_agg(self, I, st, term, span):
        if last(term.a[0]) != 'Segment': return
        f = dict(zip(term.a[2], term.a[3])); self.n('segments listed'); st.note('a segment %s' % where(span))
        q = f.get('start_seq')
        if q is None or not any(nm(s) in ('parse', 'from_str', 'from_str_radix') for s in subterms(q)): self.bad(S10S, 'number', 'the number of a segment is not read from the name of its file', span, st)
        elif strip(q).op == 'bin': self.bad(S10S, 'number', 'the number of a segment is not the one in the name of its file', span, st)
        else:
            e = self.entry(q); p = self.entry(f.get('path'))
            if e is not None and p is not None and e is not p: self.bad(S10S, 'path', 'a segment is listed with the file of another', span, st)
        st.mon['made'] = 1; st.mon.pop('sorted', None)
    def entry(self, t):
        for s in subterms(t):
            if nm(s) == 'next_entry': return s
        return None
    def on_split(self, I, st, v, variant):
        LogBase.on_split(self, I, st, v, variant); self.parsed(st, v, variant)
    def parsed(self, st, v, variant):
        s = strip(v)
        if variant == 'Ok' and nm(s) in ('parse', 'from_str'): st.mon['num'] = 1; st.mon.pop('made', None)
    def on_branch(self, I, st, term, val, span):
        LogBase.on_branch(self, I, st, term, val, span)
        if term.op == 'discr':
            k = I.variant_of(st, term.a[0], RES) if val not in (0, 1) else ('Ok', 'Err')[val]
            self.parsed(st, term.a[0], k)
        x, v = strip(term), val
        while x.op == 'un' and x.a[0] == 'Not': x, v = strip(x.a[1]), 1 - v if v in (0, 1) else None
        if nm(x) in ('is_file', 'is_dir') and v == (nm(x) == 'is_dir'): st.mon['nofile'] = 1      # not a file at all
    def nextone(self, I, st, span):
        if 'nofile' in st.mon: st.mon.pop('nofile'); st.mon.pop('num', None)
        if 'num' in st.mon and 'made' not in st.mon: self.bad(S10S, 'unlisted', 'a file named like a segment is not listed as one', span, st)
        for k in ('num', 'made'): st.mon.pop(k, None)
    def on_call(self, I, st, ev):
        m = ev.name.split('::')[-1]
        if m == 'next_entry' or m == 'next' and 'fs::' in ev.full: self.nextone(I, st, ev.span); st.mon['any'] = 1
        if m.startswith('sort') and len(ev.args) >= 1:
            self.n('sorts checked')
            if m in ('sort', 'sort_unstable'): return        # decided by the derived order: the fields in the order of the type
            g = ev.args[1]; k = 0
            while g.op == 'ref' and k < 4: g = I.val(st, g); k += 1
            if g.op == 'cl' and g.a[0] in self.P.fns:
                why = sortkey(self.P, self.P.fns[g.a[0]], 'key' not in m)
                if why: self.bad(S10S, 'sort', 'the segments are %s' % why, ev.span, st)
            st.mon['sorted'] = 1
        if m == 'reverse' and 'sorted' in st.mon: self.bad(S10S, 'sort', 'the segments are put in descending order', ev.span, st)
    def on_end(self, I, st, kind, val):
        if kind == 'panic' or val is None: return
        self.n('paths checked'); self.nextone(I, st, None)
        v = I.val(st, val)
        if I.variant_of(st, v, RES) == 'Ok' and 'any' in st.mon and 'sorted' not in st.mon and not any(s.op == 'call' and ('BTree' in s.a[0] or 'sorted' in s.a[0]) for s in subterms(v) if isinstance(s.a[0], str)):
            self.bad(S10S, 'unsorted', 'the segments are listed in the order of the directory, not of their numbers', None, st)
S10S = ('S01', 'S03', 'S10')
def sortkey(P, f, two):
    """None when the closure of a sort orders by ascending start_seq, or what is wrong"""
    flds = set(); calls = []; src = {}
    for b in f.blocks:
        for s in b['s']:
            if s[0] != '=': continue
            r = s[2]
            pl = r[2] if r[0] == 'ref' else r[1][1] if r[0] == 'use' and r[1][0] in ('cp', 'mv') else r[2][1] if r[0] == 'cast' and r[2][0] in ('cp', 'mv') else None
            if pl is not None:
                flds |= {e[2] for e in pl[1] if e[0] == 'f' and isinstance(e[2], str)}
                if not s[1][1]: src[s[1][0]] = pl[0]
            if r[0] == 'agg' and 'Reverse' in str(r[1].get('def')): calls.append(('Reverse', []))
            if r[0] == 'un': calls.append(('Neg', []))
        t = b['t']
        if t['k'] == 'call' and t['f'][0] == 'c': calls.append((str(t['f'][1].get('fn', '')).split('::')[-1], [o[1][0] for o in t['a'] if o[0] in ('mv', 'cp')]))
    names = [c for c, a in calls]
    flds.discard('0')
    if flds and flds != {'start_seq'}: return 'sorted by %s, not by their numbers' % '/'.join(sorted(flds))
    if any(n in ('Reverse', 'reverse', 'Neg', 'neg', 'to_string', 'not') for n in names): return 'not sorted by ascending numbers'
    if two:
        for n, a in calls:
            if n in ('cmp', 'partial_cmp', 'total_cmp') and len(a) == 2:
                def root(l):
                    k = 0
                    while l in src and src[l] != l and l not in (2, 3) and k < 20: l = src[l]; k += 1
                    return l
                if root(a[0]) == 3 and root(a[1]) == 2: return 'sorted by descending numbers'
    return None

# ---------------------------------------------------------------- writing
def layout(I, st, items, names, mon, span, what):
    """((header roles), {field: (offset, variable parts, bytes, order)}) of the items of one record"""
    hdr = []; i = 0
    tail = None
    for k in range(1, 3):
        pass
    if len(items) < 3: mon.bad('S02', 'w:short', 'what is written for %s is not a length, a checksum and the content' % what, span, st); return None
    body = items[2:]
    for it in items[:2]:
        v = strip(it[1])
        if it[0] == 'raw': mon.bad('S02', 'w:hdr', 'the header of %s is not two numbers' % what, span, st); return None
        w = int(it[0][2:])
        if v.op == 'crc':
            hdr.append(('crc', it[0][:2], w))
            if not sameitems(v.a[0], body): mon.bad('S02', 'w:crc', 'the checksum of %s does not cover exactly the bytes written after it' % what, span, st)
        else:
            hdr.append(('len', it[0][:2], w))
            c, raw = width(body)
            got = lenof(v, raw, mon.shortnames)      # names are bounded where they enter (S09)
            if got != c: mon.bad('S02', 'w:len', 'the length written for %s is not the number of bytes that follow (%s, should be %d + the variable parts)' % (what, show(v)[-60:], c), span, st)
    fields = {}; off = 0; nv = 0
    for k, v in body:
        nmv = names(v, k)
        if nmv is None: mon.bad('S02', 'w:field', 'an unknown value is written into %s (%s)' % (what, show(v)[-60:]), span, st); nmv = '?'
        if k == 'raw': fields[nmv] = (off, nv, 'rest', 'raw'); nv += 1
        else: fields[nmv] = (off, nv, int(k[2:]), k[:2]); off += int(k[2:])
    return tuple(hdr), fields
def sameitems(a, b):
    return len(a) == len(b) and all(x[0] == y[0] and peel(x[1]) is peel(y[1]) for x, y in zip(a, b))

LogBase.shortnames = False
class WriterMon(LogBase):
    """storage of appended messages: handle_append and everything it uses"""
    def opaque(self, I, path): return path.split('::{')[0].endswith('::find_segments')
    def filter_items(self, I, st, items): return () if any(not track(v) or nothing(v) for k, v in items) else items
    def fieldname(self, v, k):
        v = peel(v)
        while v.op == 'ref' and v.a[0][0] == 'H': 
            p = v.a[0][2]
            if p and p[-1][0] == 'f': return p[-1][1]
            v = peel(v.a[0][1])
        return v.a[1] if v.op == 'fld' else (v.a[0] if v.op == 'arg' else None)
    def on_ret(self, I, st, ev, val):
        m = ev.name.split('::')
        if m[-1] in ('write_all', 'write', 'write_all_buf') and m[0] in ('AsyncWriteExt', 'Write'):
            its = items_of(I, st, ev.args[1]); st.note('%s %s' % (ev.name, where(ev.span)))
            if m[-1] == 'write': self.bad(('S01', 'S02'), 'partial', 'a record is written with a call that may write only part of it', ev.span, st)
            self.n('writes checked'); st.mon['written'] = val; st.mon.pop('wrote', None)
            if len(its) == 1 and its[0][0] == 'raw':
                if st.mon.get('seen'): self.bad('S01', 'notwritten', 'a message handed to storage is not part of what is written', ev.span, st)
                return
            st.mon['inbuf'] = 1
            l = layout(I, st, its, self.fieldname, self, ev.span, 'messages')
            if l:
                if 'message' in self.lay and self.lay['message'] != l: self.bad('S02', 'w:two', 'messages are written in two different formats', ev.span, st)
                self.lay['message'] = l
                owners = {peel(v).a[0] for k, v in its[2:] if peel(v).op == 'fld'}
        if m[-1] in ('last', 'next_back') and ev.args and I.variant_of(st, val, OPT) == 'Some':
            x = strip(I.val(st, project(val, (('v', 'Some'), ('f', '0', OPT)))))
            while x.op in ('valbox', 'vref', 'deref') and isinstance(x.a[0], Term): x = strip(x.a[0])
            self.add(st, 'lasts', x)
        if m[-1] in ('pop', 'pop_lru', 'pop_entry', 'remove', 'clear', 'take') and m[0] in ('LruCache',):
            st.note('%s %s' % (ev.name, where(ev.span))); self.n('writers taken out of the cache')
            if 'wfail' not in st.mon and I.variant_of(st, val, OPT) != 'None': st.mon['popped'] = (val, tuple(ev.span), I.val(st, project(val, (('v', 'Some'), ('f', '0', OPT)))))
        if m[-1] in ('flush', 'shutdown') and m[0] == 'AsyncWriteExt':
            p = st.mon.get('popped')
            if p and any(s is p[0] or s is p[2] for s in subterms(val)): st.mon.pop('popped'); self.n('writers flushed before closing')
    def segname(self, I, st, val, span):
        """a new segment is named after the first message in it"""
        for s in subterms(val):
            if s.op != 'fmt': continue
            self.n('segment names checked')
            num = [x for x in s.a[1] if strip(x).op not in ('str',)] if len(s.a) > 1 and isinstance(s.a[1], tuple) else []
            ok = [x for x in num if isfld(strip(x), 'seq')]
            if not ok: self.bad(S10S, 'segname', 'a new segment is not named after the number of the first message in it (%s)' % show(s)[-80:], span, st); continue
            for x in ok:
                b = unent(strip(x).a[0])
                while b.op in ('deref', 'valbox', 'vref', 'ref') and isinstance(b.a[0], Term): b = unent(b.a[0])
                if b in st.mon.get('lasts', ()) and b.op == 'other': self.bad(S10S, 'segname', 'a new segment is named after the last message written with it: the ones in front of it are not found again', span, st)
    def decided_result(self, I, st, c, ok, span):
        if nm(c) in ('write_all', 'write_all_buf'):
            if ok: st.mon['wrote'] = 1
            else: st.mon['wfail'] = 1
    def on_store(self, I, st, loc, val, span):
        f = lastfield(loc)
        if f and f[1] == 'active_path': self.segname(I, st, val, span)
        if f and f[1] == 'highest_pending_seq' and loc[0] == 'H':
            self.n('pending marks checked')
            v = strip(val)
            if v.op == 'k' and v.a[1] == 0: return
            if 'wrote' not in st.mon: self.bad('S07', 'mark', 'messages are marked as about to be on disk on a path where they were not written', span, st)
            if not isfld(v, 'seq'): self.bad('S07', 'markseq', 'the mark of what is about to be on disk is not the number of the last message written (%s)' % show(v)[-60:], span, st)
            st.mon['marked'] = 1
    def on_end(self, I, st, kind, val):
        if kind == 'panic': return
        self.n('paths checked')
        if 'wrote' in st.mon and 'wfail' not in st.mon and 'popped' in st.mon: self.lost(I, st)
        elif 'popped' in st.mon and 'wfail' not in st.mon: self.lost(I, st)
    def lost(self, I, st):
        v, sp, x = st.mon['popped']
        if I.variant_of(st, v, OPT) != 'None':
            self.bad(('S01', 'S07'), 'unflushed', 'a log file is closed without flushing what was buffered for it: messages already accepted are lost', sp, st)

    def on_branch(self, I, st, term, val, span):
        LogBase.on_branch(self, I, st, term, val, span)
        p = st.mon.get('popped')
        if p and term.op == 'discr' and term.a[0] is p[0] and I.variant_of(st, p[0], OPT) == 'None': st.mon.pop('popped')
class FlushMon(LogBase):
    """flush_all: what is marked persisted was flushed"""
    def on_ret(self, I, st, ev, val):
        m = ev.name.split('::')
        if m[-1] == 'flush' and m[0] == 'AsyncWriteExt':
            if st.mon.pop('failing', None): st.mon['lost'] = 1
            st.mon['flushed'] = 1; self.n('flushes checked'); st.note('flush %s' % where(ev.span))
        if m[-1] in ('iter_mut', 'iter') and ev.args and lastfield_of(ev.args[0]) == 'open_files': st.mon['all'] = 1
        if m[-1] == 'store' and m[0].startswith('Atomic') and len(ev.args) >= 2:
            self.n('persisted marks checked'); st.note('persisted mark %s' % where(ev.span))
            v = strip(ev.args[1])
            if 'all' not in st.mon: self.bad('S07', 'noflush', 'messages are marked as on disk without flushing the open files before', ev.span, st)
            if not isfld(v, 'highest_pending_seq'): self.bad('S07', 'value', 'what is marked as on disk is not what was written (%s)' % show(v)[-60:], ev.span, st)
            else:
                ctx = v.a[0]
                if not ('persisted_seq' in show(ev.args[0])[-200:] and any(unent(s) is unent(ctx) for s in subterms(ev.args[0]))): self.bad('S07', 'owner', 'what was written for one topic is marked as on disk for another', ev.span, st)
            if 'bad' in st.mon and not (isfld(v, 'highest_pending_seq') and st.mon.get('okpath') is unent(v.a[0])): self.bad('S07', 'failed', 'messages are marked as on disk although flushing may have failed', ev.span, st)
        if m[-1] in ('contains', 'contains_key', 'get') and len(ev.args) == 2:
            x = self.pathof(I, st, ev.args[1])
            if x is not None:
                st.mon.pop('okpath', None)
                if 'failing' in st.mon: st.mon['lost'] = 1
                if 'lost' not in st.mon and (I.decide(st, val) == 0 or val.op == 'agg' and val.a[1] == 'None'): st.mon['okpath'] = x
    def pathof(self, I, st, x):
        """the topic whose file is looked up among those that failed"""
        x = mk('fld', x.a[0][1], *x.a[0][2][-1][1:]) if x.op == 'ref' and x.a[0][0] == 'H' and len(x.a[0][2]) == 1 else strip(I.val(st, x))
        return unent(x.a[0]) if isfld(x, 'active_path') else None
    def decided_result(self, I, st, c, ok, span):
        if nm(c) == 'flush' and not ok: st.mon['bad'] = 1
        if nm(c) == 'flush' and not ok: st.mon['failing'] = 1
    def on_call(self, I, st, ev):
        if ev.name.split('::')[-1] in ('clear', 'drain', 'truncate', 'pop', 'pop_front', 'split_off', 'remove', 'swap_remove', 'take') and ev.name.split('::')[0] in ('Vec', 'VecDeque', 'HashSet', 'BTreeSet', 'HashMap', 'BTreeMap', 'mem') and 'bad' in st.mon and ev.args and ev.at and 'PathBuf' in str(self.P.tys(ev.at[0])): st.mon['lost'] = 1
        if ev.name.split('::')[-1] in ('insert', 'push') and 'failing' in st.mon: st.mon.pop('failing', None); self.n('failed flushes remembered')
    def on_branch(self, I, st, term, val, span):
        LogBase.on_branch(self, I, st, term, val, span)
        x, v = strip(term), val
        while x.op == 'un' and x.a[0] == 'Not': x, v = strip(x.a[1]), 1 - v if v in (0, 1) else None
        if x.op == 'call' and nm(x) in ('contains', 'contains_key') and len(x.a[1]) == 2 and v in (0, 1):
            p = self.pathof(I, st, x.a[1][1])
            if p is not None:
                st.mon.pop('okpath', None)
                if v == 0 and 'lost' not in st.mon and 'failing' not in st.mon: st.mon['okpath'] = p
    def on_end(self, I, st, kind, val):
        if kind != 'panic': self.n('paths checked')
def lastfield_of(a):
    if a.op == 'ref':
        f = lastfield(a.a[0])
        return f[1] if f else None
    return None

def nothing(v):
    """an empty buffer, its length or checksum: what is left of a record of an element that is not followed"""
    v = strip(v)
    while v.op in ('cast', 'trunc'): v = strip(v.a[1])
    if v.op == 'crc': return all(k == 'raw' and nothing(x) for k, x in v.a[0])
    if v.op == 'len': v = strip(v.a[0])
    return v.op == 'vec' and v.a[0] == 'E' or v.op == 'wbuf' and not v.a[1]
class SaveMon(LogBase):
    """save_groups_file"""
    shortnames = True
    def filter_items(self, I, st, items): return () if any(not track(v) or nothing(v) for k, v in items) else items
    def fieldname(self, v, k):
        p = peel(v)
        for s in subterms(p):
            if s.op == 'len': return 'group_id#len'
        if k == 'raw': return 'group_id'
        return 'ack_floor' if k.endswith('8') else None
    def path(self, I, st, a): return I.val(st, a)
    def on_ret(self, I, st, ev, val):
        m = ev.name.split('::')
        if m[-1] in ('create', 'open', 'create_new') and m[0] in ('File', 'OpenOptions'):
            st.mon['file'] = self.path(I, st, ev.args[-1]); st.note('create %s' % where(ev.span))
        if m[-1] in ('write_all', 'write') and m[0] in ('AsyncWriteExt', 'Write'):
            its = items_of(I, st, ev.args[1]); st.mon.pop('flushed', None); st.note('write %s' % where(ev.span))
            if any(track(v) for k, v in its) and len(its) > 1:
                self.n('group records checked')
                l = layout(I, st, its, self.fieldname, self, ev.span, 'group positions')
                if l:
                    self.lay['group'] = l
                    raw = [peel(v) for k, v in its if k == 'raw']; pos = [peel(v) for k, v in its[2:] if k == 'be8' or k == 'le8']
                    ent = [s for s in subterms(pos[0]) if s.op == 'entry'] if pos else []
                    two = raw and pos and raw[0].op == pos[0].op == 'elem' and raw[0].a[0] is pos[0].a[0] and (raw[0].a[1], pos[0].a[1]) == ('part0', 'part1')
                    if not two and not (ent and raw and any(strip(x.a[1]) is raw[0] for x in ent)): self.bad('S09', 'pair', 'a group is saved with a position that is not its own (%s, %s)' % (show(raw[0])[-40:] if raw else '?', show(pos[0])[-40:] if pos else '?'), ev.span, st)
        if m[-1] in ('flush', 'shutdown', 'sync_all') and m[0] in ('AsyncWriteExt', 'File', 'Write'): st.mon['flushing'] = 1; st.note('flush %s' % where(ev.span))
        if m[-1] == 'rename' and len(ev.args) == 2:
            a, b = self.path(I, st, ev.args[0]), self.path(I, st, ev.args[1]); st.note('rename %s' % where(ev.span))
            self.n('renames checked')
            if st.mon.get('file') is None or show(a) != show(st.mon['file']): self.bad('S09', 'renamefrom', 'the file put in place of the saved positions is not the one written', ev.span, st)
            if 'flushok' not in st.mon: self.bad('S09', 'renameearly', 'the file with the saved positions is replaced before the new one is completely written', ev.span, st)
            st.mon['renamed'] = 1; self.lay.setdefault('final', show(b))
            self.final = b
            st.mon['final'] = b
    def decided_result(self, I, st, c, ok, span):
        if nm(c) in ('flush', 'shutdown', 'sync_all') and ok: st.mon['flushok'] = 1
        if nm(c) in ('write_all', 'write') and not ok: st.mon['wfail'] = 1
        if nm(c) == 'rename' and not ok: st.mon['rfail'] = 1
    def on_end(self, I, st, kind, val):
        if kind == 'panic' or val is None: return
        self.n('paths checked')
        k = I.variant_of(st, I.val(st, val), RES)
        if k == 'Ok':
            f = st.mon.get('file'); fin = st.mon.get('final')
            if fin is None: self.bad('S09', 'notsaved', 'saving reports success without putting the new file in place', None, st)
            elif f is not None and show(f) == show(fin): self.bad('S09', 'inplace', 'the saved positions are overwritten in place: a crash in between loses them', None, st)
            if 'wfail' in st.mon: self.bad('S09', 'wfail', 'saving goes on after writing failed', None, st)

class RunMon(LogBase):
    """the storage task itself"""
    def opaque(self, I, path): return path.split('::{')[0].split('::')[-1] in ('handle_command', 'flush_all') 
    def on_ret(self, I, st, ev, val):
        f = ev.name.split('::')[-1]
        if ev.loc and f == 'handle_command': st.mon['pending'] = 1; st.mon.pop('got', None); st.note('handle_command %s' % where(ev.span)); self.n('commands handled')
        if ev.loc and f == 'flush_all': st.mon.pop('pending', None); st.note('flush_all %s' % where(ev.span)); self.n('flushes')
    def on_end(self, I, st, kind, val):
        if kind == 'panic': return
        self.n('paths checked')
        if 'pending' in st.mon: self.bad(('S01', 'S07', 'S09'), 'exit', 'the storage task can end without flushing what it was given', None, st)

def run_log(P, rep, props):
    lay = {}
    def fn(name): 
        r = [f for p, f in P.fns.items() if p.startswith(MODP) and p.endswith(name)]
        if not r: rep.violation('missing:' + name, '%s not found in the stream storage' % name)
        return r[0] if r else None
    f = fn('StorageManager::handle_append::{closure#0}')
    if f: runone(P, rep, props, WriterMon(P, 'handle_append', lay), f, 'StorageManager::handle_append', ('writes checked', 'pending marks checked', 'writers taken out of the cache', 'writers flushed before closing'))
    f = fn('save_groups_file::{closure#0}')
    if f: runone(P, rep, props, SaveMon(P, 'save_groups_file', lay), f, 'save_groups_file', ('group records checked', 'renames checked'))
    f = fn('StorageManager::flush_all::{closure#0}')
    if f: runone(P, rep, props, FlushMon(P, 'flush_all', lay), f, 'StorageManager::flush_all', ('flushes checked', 'persisted marks checked'))
    f = fn('StorageManager::run::{closure#0}')
    if f: runone(P, rep, props, RunMon(P, 'run', lay), f, 'StorageManager::run', ('commands handled', 'flushes'))
    # readers: whatever reads records for recovery and for reads of old messages
    f = fn('recover_topic::{closure#0}')
    readers = []
    if f:
        # the smallest functions that open a file, read it and build what is recovered
        def reads(q):
            t = ' '.join(str(P.fns[z].blocks) for z in reach(P, P.fns[q]))
            return 'read_exact' in t and 'File::open' in t and ("::Message'" in t or "::insert'" in t)
        base = lambda q: q.split('::{')[0]
        cand = sorted({base(q) for q in reach(P, f) if q.startswith(MODP) and base(q) != base(f.path) and base(q) in P.fns})
        cand = [q for q in cand if reads(q)]
        names = [q for q in cand if not any(c != q and c in reach(P, P.fns[q]) for c in cand)]
        readers = [P.fns.get(q + '::{closure#0}', P.fns[q]) for q in names]
        names = tuple(x.path.split('::{')[0] for x in readers)
        runone(P, rep, props, RecoverMon(P, 'recover_topic', lay, names), f, 'recover_topic', ('segment loads checked', 'results checked'))
    g = fn('read_log_segment::{closure#0}')
    tot = {}
    if g:
        m = ScanMon(P, 'read_log_segment', lay, g)
        runone(P, rep, props, m, g, m.api, ('field reads checked', 'records compared with what is written', 'messages returned'))
        for k, c in m.cnt.items(): tot[k] = tot.get(k, 0) + c
    if props & {'S01', 'S03', 'S04', 'S10'}:
        f2 = fn('StorageManager::cold_read::{closure#0}')
        if f2: runone(P, rep, props, ColdMon(P, 'cold_read', lay, f2, (g.path.split('::{')[0],) if g else ()), f2, 'cold_read', ('segment reads checked', 'results joined'))
        f2 = fn('::find_segments::{closure#0}')
        if f2: runone(P, rep, props, FindMon(P, 'find_segments', lay), f2, 'find_segments', ('segments listed',))
    for f in readers:
        m = ReadMon(P, f.path.split('::{')[0].split('::')[-1], lay)
        runone(P, rep, props, m, f, m.api, ('field reads checked', 'records compared with what is written'))
        for k, c in m.cnt.items(): tot[k] = tot.get(k, 0) + c
    for need in ('messages accepted', 'group positions accepted'):
        if f and not tot.get(need): rep.violation('vacuous:' + need, 'no %s found in the code that reads the log' % need)
    return lay
if __name__ == '__main__':
    import sys, time, os
    P = Prog(os.environ.get('NX_OUT', '/verif/build/out'))
    rep = Report('S'); t = time.time()
    lay = run_log(P, rep, set(sys.argv[1].split(',')))
    print(lay); print(rep.counts, '%.1fs' % (time.time() - t))
    for v in rep.viol.values():
        print(v['key'], '|', v['msg'][:300], '|', v['where'])
        if len(sys.argv) > 2:
            for x in v['trace']: print('      ', x)
