"""Byte formats: what code writes into buffers and reads out of them, as terms.
 wbuf(base, ((kind, value), ...))   a buffer with items appended: kind be8/le4/raw
 hash / crc                         a checksum and the bytes it covers
 rd(site)                           bytes read from a file
 rdf(base, off, terms, n, end)      n bytes (or 'rest') taken from base at off + sum(terms)
 cur(base, off, terms)              a cursor"""
from interp import mk, K, Term, subterms, show
import re
PUT = re.compile(r'put_(u|i|f)(8|16|32|64|128)(_le|_ne)?$')
GET = re.compile(r'(?:try_)?get_(u|i|f)(8|16|32|64|128)(_le|_ne)?$')
RDN = re.compile(r'read_(u|i|f)(8|16|32|64|128)(_le)?$')
def strip(t):
    while t.op in ('cast', 'deref', 'valbox', 'vref'): t = t.a[1] if t.op == 'cast' else t.a[0]
    return t
def items_of(I, st, v):
    """the items a byte sequence value consists of"""
    v = I.val(st, v) if v.op in ('ref', 'vref') else v
    v = strip(v)
    if v.op == 'wbuf': return v.a[1]
    if v.op == 'agg' and v.a[0] == 'array' and len(v.a[3]) <= 16 and not any(x.op == 'ref' for x in v.a[3]): return tuple(('be1', x) for x in v.a[3])
    if v.op == 'call':
        m = re.match(r'to_(be|le)_bytes', v.a[0].split('::')[-1])
        if m:
            ty = [x.a[1] for x in v.a[1] if x.op == 'k' and isinstance(x.a[1], str)] + [x for x in v.a if isinstance(x, str)]
            w = 0
            for x in ty:
                k = re.search(r"[ui](8|16|32|64|128)\b", x)
                if k: w = int(k.group(1)) // 8
            return ((m.group(1) + str(w), v.a[1][0] if isinstance(v.a[1], tuple) else v.a[1]),)
        if v.a[0].split('::')[-1] in ('freeze', 'to_vec', 'clone', 'into', 'from', 'as_bytes', 'into_bytes', 'as_ref', 'deref', 'copy_from_slice', 'split') and v.a[1]: return items_of(I, st, v.a[1][0])
    return (('raw', v),)
def oneref(I, st, a):
    k = 0
    while a.op == 'ref' and k < 6:
        x = I.readloc(st, a.a[0])
        if x.op != 'ref': return a.a[0]
        a = x; k += 1
    return None
class CodecMixin:
    """monitor part that models buffers, checksums and cursors"""
    def override(self, I, st, ev):
        m = ev.name.split('::'); f = m[-1]; a = ev.args
        if m[0] == 'Hasher' and len(m) == 2 and ('crc32' in ev.full or 'crc' in ev.full):
            if f == 'new': return mk('hash', ())
            if f in ('update', 'finalize') and a:
                v = I.val(st, a[0])
                if v.op == 'hash':
                    if f == 'finalize': return mk('crc', v.a[0])
                    loc = oneref(I, st, a[0])
                    if loc is not None:
                        I.writeloc(st, loc, mk('hash', v.a[0] + items_of(I, st, a[1]))); return mk('unit')
        if ev.full.startswith('crc32fast::') and f == 'hash' and len(a) == 1: return mk('crc', items_of(I, st, a[0]))
        if f in ('from_be_bytes', 'from_le_bytes') and len(a) == 1:
            r = self.hofcall(I, st, f, a)
            if r is not None: return r
        p = PUT.match(f)
        put = None
        if m[0] == 'BufMut' and p and len(a) == 2: put = ((('le' if p.group(3) else 'be') + str(int(p.group(2)) // 8), a[1]),)
        elif m[0] == 'BufMut' and f in ('put_slice', 'put') and len(a) == 2: put = items_of(I, st, a[1])
        elif f in ('extend_from_slice', 'extend') and len(a) == 2 and self.bytebuf(I, ev, a[0], ev.at[0]): put = items_of(I, st, a[1])
        elif f == 'push' and m[0] == 'Vec' and self.bytebuf(I, ev, a[0], ev.at[0]): put = (('be1', a[1]),)
        if put is not None:
            loc = oneref(I, st, a[0])
            if loc is not None:
                v = I.readloc(st, loc)
                put = self.filter_items(I, st, put)
                base, its = (v.a[0], v.a[1]) if v.op == 'wbuf' else (v, ())
                if put: I.writeloc(st, loc, mk('wbuf', base, its + tuple(put)))
                self.on_put(I, st, put, ev)
                return mk('unit')
        if m[0] in ('AsyncReadExt', 'Read') and f == 'read_exact' and len(a) == 2:
            loc = oneref(I, st, a[1])
            if loc is not None:
                old = I.readloc(st, loc)
                n = None
                if old.op == 'repeat': n = old.a[1] if isinstance(old.a[1], int) else (old.a[1].a[1] if old.a[1].op == 'k' else None)
                if old.op == 'rd': n = old.a[1] if isinstance(old.a[1], int) else None
                if n is None and old.op == 'agg' and old.a[0] == 'array': n = len(old.a[3])
                if n is None:
                    ln = old.a[1][1] if old.op == 'call' and old.a[0].split('::')[-1] in ('from_elem',) and len(old.a[1]) == 2 else None
                    n = ln if ln is not None else mk('len', old)
                v = mk('rd', ev.site, n)
                I.rebind(st, v)
                I.writeloc(st, loc, v); self.on_read(I, st, v, ev)
                return mk('call', ev.full, (v,), ev.site)
        r = RDINT.match(f)
        if m[0] in ('AsyncReadExt', 'Read', 'ReadBytesExt') and r and len(a) == 1:
            v = mk('rd', ev.site, int(r.group(1)) // 8)
            I.rebind(st, v); self.on_read(I, st, v, ev)
            return mk('call', ev.full, (v,), ev.site)
        if f in ('index', 'index_mut') and len(a) == 2:
            # a part of the bytes read
            x = I.val(st, a[0]) if a[0].op == 'ref' else a[0]
            x = strip(x); g = I.val(st, a[1]) if a[1].op == 'ref' else a[1]
            if x.op == 'ref': x = strip(I.val(st, x))
            if x.op in ('rd', 'cur') or x.op == 'rdf' and x.a[4] in ('raw', ''):
                b, off, ts = (x, 0, ()) if x.op == 'rd' else x.a[:3]
                rest = x.op != 'rdf' or x.a[3] == 'rest'
                if 'RangeFull' in show(g): return x
                if g.op == 'agg' and 'Range' in g.a[0] and 'Inclusive' not in g.a[0]:
                    d = dict(zip(g.a[2], g.a[3])); lo, hi = d.get('start', K(0)), d.get('end')
                    lo = strip(lo); hi = strip(hi) if hi is not None else None
                    o2, t2 = (off + lo.a[1], ts) if lo.op == 'k' else (off, ts + (lo,))
                    if hi is None:
                        if rest:
                            self.on_get(I, st, b, o2, t2, None, ev)
                            return mk('rdf', b, o2, t2, 'rest', '')
                    elif lo.op == 'k' and hi.op == 'k':
                        r = mk('rdf', b, o2, t2, hi.a[1] - lo.a[1], 'raw'); self.on_get(I, st, b, off + hi.a[1], ts, r, ev); return r
                    else:
                        n = hi if lo is K(0) else None
                        if n is None and hi.op == 'bin' and hi.a[0] == 'Add':      # [c .. c + n]
                            for p, q in ((hi.a[1], hi.a[2]), (hi.a[2], hi.a[1])):
                                if strip(p) is lo: n = strip(q)
                        if n is not None:
                            r = mk('rdf', b, o2, t2, n, 'raw'); self.on_get(I, st, b, o2, t2 + (n,), r, ev); return r
        if m[0] == 'Cursor' and f == 'new' and len(a) == 1:
            x = I.val(st, a[0]) if a[0].op == 'ref' else a[0]
            return mk('cur', x, 0, ())
        if m[0] == 'Buf' and a:
            loc = oneref(I, st, a[0])
            if loc is not None:
                v = I.readloc(st, loc)
                if v.op == 'rdf' and v.a[3] == 'rest': v = mk('cur', *v.a[:3])
                if v.op != 'cur': v = mk('cur', v, 0, ())
                b, off, ts = v.a
                g = GET.match(f)
                if g:
                    w = int(g.group(2)) // 8
                    r = mk('rdf', b, off, ts, w, 'le' if g.group(3) else 'be')
                    I.writeloc(st, loc, mk('cur', b, off + w, ts)); self.on_get(I, st, b, off + w, ts, r, ev)
                    if f.startswith('try_'): return mk('agg', 'core::result::Result', 'Ok', ('0',), (r,)) if False else None
                    return r
                if f == 'remaining': return mk('rem', b, off, ts)
                if f in ('copy_to_bytes', 'advance') and len(a) == 2:
                    n = strip(a[1])
                    if n.op == 'rem' and n.a == (b, off, ts):
                        r = mk('rdf', b, off, ts, 'rest', ''); nv = mk('cur', b, off, ts + (n,))
                    elif n.op == 'k': r = mk('rdf', b, off, ts, n.a[1], 'raw'); nv = mk('cur', b, off + n.a[1], ts); self.on_get(I, st, b, off + n.a[1], ts, r, ev)
                    else: r = mk('rdf', b, off, ts, n, 'raw'); nv = mk('cur', b, off, ts + (n,)); self.on_get(I, st, b, off, ts + (n,), r, ev)
                    I.writeloc(st, loc, nv)
                    return r if f == 'copy_to_bytes' else mk('unit')
        return None
    def hofcall(self, I, st, name, a):
        f = name.split('::')[-1]
        if f in ('from_be_bytes', 'from_le_bytes') and len(a) == 1:
            x = strip(I.val(st, a[0]))
            if x.op == 'rdf' and isinstance(x.a[3], int) and x.a[4] == 'raw': return mk('rdf', *x.a[:4], f[5:7])
    def bytebuf(self, I, ev, a, ti):
        t = I.P.tys(ti)
        return 'u8' in t and ('Vec<u8' in t or 'BytesMut' in t) or 'BytesMut' in t
    def filter_items(self, I, st, items): return items
    def on_put(self, I, st, items, ev): pass
    def on_read(self, I, st, v, ev): pass
    def on_get(self, I, st, base, off, terms, r, ev): pass
def piece(x):
    """(rd term, first byte, bytes) of a constant piece of something read"""
    x = strip(x); k = 0
    while x.op == 'call' and x.a[1] and x.a[0].split('::')[-1] in ('try_into', 'into', 'try_from', 'from', 'unwrap', 'clone', 'as_slice', 'as_ref', 'deref', 'to_owned') or x.op in ('fld', 'var', 'payload') or x.op == 'ref' and x.a[0][0] == 'H' and not x.a[0][2]:
        x = strip(x.a[1][0] if x.op == 'call' else x.a[0][1] if x.op == 'ref' else x.a[0]); k += 1
        if k > 12: return None
    if x.op == 'rd': return (x, 0, x.a[1])
    if x.op == 'rdf' and not x.a[2] and isinstance(x.a[3], int): return (strip(x.a[0]), x.a[1], x.a[3])
    if x.op == 'agg' and x.a[0] == 'array':
        bs = [strip(y) for y in x.a[3]]
        if bs and all(y.op == 'idx' and len(y.a) == 2 and isinstance(y.a[1], int) for y in bs) and len({y.a[0] for y in bs}) == 1 and [y.a[1] - bs[0].a[1] for y in bs] == list(range(len(bs))):
            b = strip(bs[0].a[0])
            if b.op == 'rd': return (b, bs[0].a[1], len(bs))
    return None
RDINT = re.compile(r'read_[ui](16|32|64)(_le)?$')
def unbe(t):
    """((rd term, first byte, bytes), endianness) of an integer decoded from bytes read"""
    t = strip(t)
    if t.op == 'call' and t.a[0].split('::')[-1] in ('from_be_bytes', 'from_le_bytes', 'from_ne_bytes'):
        return (piece(t.a[1][0]), t.a[0].split('::')[-1][5:7])
    if t.op == 'rdf' and isinstance(t.a[3], int) and t.a[4] in ('be', 'le'): return (piece(t), t.a[4])
    for s in subterms(t):
        r = RDINT.match(s.a[0].split('::')[-1]) if s.op == 'call' and s.a[1] and isinstance(s.a[0], str) else None
        if r and t.op not in ('bin', 'un') and strip(s.a[1][0]).op == 'rd': return (piece(s.a[1][0]), 'le' if r.group(2) else 'be')
    return (None, '')
def width(items):
    """(constant bytes, tuple of raw values) the items occupy"""
    c = 0; raw = []
    for k, v in items:
        if k == 'raw': raw.append(strip(v))
        else: c += int(k[2:])
    return c, tuple(raw)
def lenof(t, raws, short=False):
    """does integer term t equal const + sum of lengths of raws: returns const or None"""
    t = strip(t)
    c = 0; need = [x for x in raws]
    work = [t]
    while work:
        x = strip(work.pop())
        if short and x.op == 'trunc' and x.a[0] == 16: x = strip(x.a[1])
        if x.op == 'bin' and x.a[0] == 'Add': work += [x.a[1], x.a[2]]
        elif x.op == 'k' and isinstance(x.a[1], int): c += x.a[1]
        elif x.op == 'len' or x.op == 'call' and x.a[0].split('::')[-1] == 'len' and x.a[1]:
            b = strip(x.a[0] if x.op == 'len' else x.a[1][0]); b = strip(b.a[0][1]) if b.op == 'ref' and b.a[0][0] == 'H' and not b.a[0][2] else b
            hit = [y for y in need if y is b or sameraw(y, b)]
            if b.op == 'wbuf' and not hit:
                cc, rr = width(b.a[1]); c += cc
                for y in rr:
                    if y in need: need.remove(y)
                    else: return None
            elif hit: need.remove(hit[0])
            else: return None
        else: return None
    return c if not need else None
def sameraw(y, b): return peel(y) is peel(b)
def peel(x):
    x = strip(x); k = 0
    while k < 8:
        k += 1
        if x.op == 'ref' and x.a[0][0] == 'H' and not x.a[0][2]: x = strip(x.a[0][1])
        elif x.op == 'call' and x.a[0].split('::')[-1] in ('as_bytes', 'deref', 'as_ref', 'as_slice', 'as_str', 'clone', 'copy_from_slice') and x.a[1]: x = strip(x.a[1][0])
        else: break
    return x
