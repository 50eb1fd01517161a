"""The key/value store: what is set is what is read (K01), and only until its deadline (K02)."""
from core import *
from interp import others
from rules_group import isfld, strip, decided, factcmps
from rules_stream import Base, runone
from rules_log import nm, OPT, RES
MODK = 'brokers::store::'

def isnow(t): t = strip(t); return nm(t) == 'now'
def zero(t):
    t = strip(t)
    return t.op == 'k' and t.a[1] == 0 or (t.op == 'const' or t.op == 'static') and 'ZERO' in show(t)
def args(t): return [strip(x) for x in t.a[1]] if t.op == 'call' else []
def deadline_verdict(facts, isdl):
    """what a set of established comparisons says about a deadline: alive, dead, both or neither, as (deadline term, verdict)"""
    for o, a, b in facts:
        a, b = strip(a), strip(b)
        if isnow(a) and isdl(b): yield b, ('alive',) if o in ('Lt', 'Le') else ('alive', 'dead') if o == 'Eq' else ()
        elif isnow(b) and isdl(a): yield a, ('dead',) if o in ('Lt', 'Le') else ('alive', 'dead') if o == 'Eq' else ()
        else:
            for x, y, left in ((a, b, 1), (b, a, 0)):
                if not zero(y): continue
                ar = args(x)
                d = None
                if nm(x) in ('saturating_duration_since', 'duration_since') and len(ar) == 2:
                    if isdl(ar[0]) and isnow(ar[1]): d = (ar[0], 'alive', 'dead')       # time left
                    elif isnow(ar[0]) and isdl(ar[1]): d = (ar[1], 'dead', 'alive')     # time past the deadline
                elif nm(x) == 'elapsed' and len(ar) == 1 and isdl(ar[0]): d = (ar[0], 'dead', 'alive')
                if d is None: continue
                if o == 'Eq': yield d[0], (d[2],)
                elif o == 'Ne' or (o == 'Lt' and not left): yield d[0], (d[1],)
                elif o == 'Le' and left: yield d[0], (d[2],)
def zerotest(term, val):
    """is_zero(x) decided"""
    x, v = term, val
    while x.op == 'un' and x.a[0] == 'Not': x, v = x.a[1], None if v is None else 1 - v
    if (x.op == 'call' and nm(x) == 'is_zero') and v in (0, 1): return args(x)[0], v
    if x.op == 'un' and x.a[0] == 'is_zero' and v in (0, 1): return strip(x.a[1]), v
    return None

class KV(Base):
    def __init__(self, P, api, A, spec=None, parse=()):
        Base.__init__(self, P, api); self.A = A; self.spec = spec; self.parse = parse
    def opaque(self, I, path): return path.split('::{')[0] in self.parse
    def on_ret(self, I, st, ev, val):
        if ev.loc and self.parse and ev.res in self.parse: st.mon['cmd'] = val; self.n('commands parsed')
    # --- the map
    def ismap(self, loc): 
        f = lastfield(loc)
        return f is None or f[1] == self.A['mapf']
    def entry(self, t):
        """(map, key, fields below the entry) of a term that is part of an entry"""
        p = []; t = strip(t)
        while t.op in ('fld', 'var', 'payload', 'proj', 'deref', 'cast', 'valbox', 'vref'):
            if t.op == 'fld': p.append(t.a[1])
            t = t.a[1] if t.op == 'cast' else t.a[0]
        if t.op != 'ent': return None
        e = t.a[0]
        if e.op != 'entry': return None
        return e.a[0], strip(e.a[1]), tuple(reversed(p))
    def isdl(self, t):
        e = self.entry(t)
        return bool(e) and e[2][:1] == (self.A['dl'],)
    def verdict(self, st, t, vs):
        k = self.entry(t)[1]
        for v in vs: self.add(st, 'ev', (v, k))
    def on_split(self, I, st, v, variant):
        e = self.entry(v)
        if e and e[2] == (self.A['dl'],) and variant == 'None': self.verdict(st, v, ('alive',))
        s = strip(v)
        if nm(s) == 'checked_duration_since' and len(args(s)) == 2:
            a, b = args(s)
            if self.isdl(a) and isnow(b): self.verdict(st, a, ('alive',) if variant == 'Some' else ('dead',))
            if self.isdl(b) and isnow(a): self.verdict(st, b, ('dead',) if variant == 'Some' else ('alive',))
        if nm(s) == 'checked_add' and variant == 'None': self.add(st, 'never', s)
        if s is self.ttl(I, st) and variant == 'None': st.mon['ttl0'] = 1
    def on_branch(self, I, st, term, val, span):
        if term.op == 'discr':
            v = I.variant_of(st, term.a[0], OPT)
            if v: self.on_split(I, st, term.a[0], v)
            return
        if isinstance(val, int) or val is None:
            for d, vs in deadline_verdict(decided(term, val), self.isdl): self.verdict(st, d, vs)
            z = zerotest(term, val)
            if z:
                for d, vs in deadline_verdict([('Eq' if z[1] else 'Ne', z[0], mk('k', 'u64', 0))], self.isdl): self.verdict(st, d, vs)
            t = self.ttl(I, st)
            if t is not None:
                x = strip(term)
                if self.payload(x, t):
                    st.mon['ttl0' if val == 0 else 'ttln'] = 1
                for o, a, b in decided(term, val):
                    a, b = strip(a), strip(b)
                    if self.payload(a, t) and zero(b): st.mon['ttl0' if o in ('Eq', 'Le') else 'ttln'] = 1
                    elif self.payload(b, t) and zero(a): st.mon['ttl0' if o in ('Eq',) else 'ttln'] = 1 if o in ('Eq', 'Ne', 'Lt') else st.mon.get('ttln')
                    elif self.payload(b, t) and a.op == 'k' and a.a[1] == 1 and o == 'Le': st.mon['ttln'] = 1
                    elif self.payload(a, t) and b.op == 'k' and b.a[1] == 1 and o == 'Lt': st.mon['ttl0'] = 1
    def payload(self, x, t):
        x = strip(x)
        return x.op in ('fld', 'payload', 'proj', 'var') and x is not t and t in [strip(s) for s in subterms(x)] and self.somepath(x, t)
    def somepath(self, x, t):
        while x is not t and x.op in ('fld', 'payload', 'proj', 'var', 'deref', 'cast', 'valbox', 'vref'): x = strip(x.a[1] if x.op == 'cast' else x.a[0])
        return x is t
    def op(self, I, st):
        """(operation, key, value, ttl) asked for on this path"""
        return self.spec(self, I, st)
    def ttl(self, I, st):
        o = self.op(I, st)
        return strip(o[3]) if o and o[3] is not None else None
    def on_map(self, I, st, op, loc, key, was, val, ev):
        if not self.ismap(loc): return (st,)
        k = strip(key) if key is not None else None
        o = self.op(I, st)
        n = ev.name.split('::')[-1]
        if op in ('hit', 'miss', 'insert', 'remove'): st.note('%s of %s: %s %s' % (n, show(k)[:60], op, where(ev.span)))
        if op == 'clear': self.bad('K01', 'clear', 'the whole store is cleared', ev.span, st)
        mine = o is not None and o[1] is not None and k is strip(o[1])
        if op == 'miss': self.add(st, 'miss', k)
        if op in ('insert', 'remove') and o is not None and o[0] in ('set', 'del', 'get') and not mine:
            self.bad('K01', 'otherkey', '%s changes the entry of another key (%s)' % (self.api, show(k)[:80]), ev.span, st)
        if op == 'remove':
            self.n('removals checked')
            if (o is None or o[0] != 'del') and ('dead', k) not in self.get(st, 'ev'):
                self.bad('K01', 'removed', 'an entry is removed although its deadline was not found to have passed, by an operation that is not a delete', ev.span, st)
            elif (o is None or o[0] != 'del') and n not in ('retain', 'remove_if', 'remove_if_mut', 'extract_if', 'and_modify', 'alter') and n != 'remove_entry':
                self.bad('K01', 'race', 'an entry found expired is removed by key in a later step: a value set in between is lost', ev.span, st)
            self.add(st, 'gone', k)
        if op == 'insert':
            if o is None or o[0] != 'set': self.bad('K01', 'inserted', 'an entry is written by an operation that does not set', ev.span, st)
            self.rm(st, 'gone', lambda x: x is k); self.add(st, 'put', (k, loc))
        return (st,)
    def checkset(self, I, st, o, span):
        key = strip(o[1])
        self.n('sets checked')
        puts = [l for (k, l) in self.get(st, 'put') if k is key]
        if key in self.get(st, 'gone') or not puts and not self.wrote(I, st, key):
            self.bad('K01', 'notset', 'set returns without having written the entry of its key', span, st); return
        v = self.current(I, st, key, puts)
        if v is None or v.op != 'agg' or not v.a[0].endswith(self.A['entry'].split('::')[-1]):
            self.bad('K01', 'kept', 'after set the entry of the key is not the one built from the arguments (an existing entry is kept)', span, st); return
        f = dict(zip(self.A['fields'], v.a[3]))
        x = strip(I.val(st, f[self.A['val']]) if f[self.A['val']].op == 'ref' else f[self.A['val']])
        while x.op == 'agg' and len(x.a[3]) == 1: x = strip(x.a[3][0])
        if x is not strip(o[2]): self.bad('K01', 'value', 'the value stored is %s, not the one given' % show(x)[:80], span, st)
        self.checkdl(I, st, strip(f[self.A['dl']]), o, span)
    def current(self, I, st, key, puts):
        for l in puts: return I.readloc(st, ('H', mk('entry', l, self.rawkey(st, l, key)), ()))
        for (b, p), v in st.heap.items():
            if b.op == 'entry' and strip(b.a[1]) is key: return I.readloc(st, ('H', b, ()))
    def rawkey(self, st, l, key):
        for (b, p) in st.heap:
            if b.op == 'entry' and b.a[0] == l and strip(b.a[1]) is key: return b.a[1]
        return key
    def wrote(self, I, st, key): return any(b.op == 'entry' and strip(b.a[1]) is key for (b, p) in st.heap)
    def checkdl(self, I, st, d, o, span):
        self.n('deadlines checked')
        if d.op == 'agg' and d.a[1] == 'None':
            if not self.get(st, 'never'): self.bad('K02', 'nodeadline', 'the entry gets no deadline although one was given or configured', span, st); return
            t = self.get(st, 'never')[0]
        elif d.op == 'agg' and d.a[1] == 'Some': t = strip(d.a[3][0])
        else: t = d
        while t.op in ('payload', 'var', 'fld', 'proj'): t = strip(t.a[0])
        if nm(t) not in ('add', 'checked_add') or len(args(t)) != 2 or not any(isnow(x) for x in args(t)):
            self.bad('K02', 'deadline', 'the deadline is not the time of the call plus a lifetime: %s' % show(t)[:100], span, st); return
        if nm(t) == 'add': self.bad('K02', 'overflow', 'the deadline is computed with an addition that panics when the given lifetime does not fit: the set is lost and the connection with it', span, st)
        s = [x for x in args(t) if not isnow(x)][:1]
        s = s[0] if s else args(t)[0]
        if nm(s) != 'from_secs' or len(args(s)) != 1: self.bad('K02', 'unit', 'the lifetime is not the given number of seconds: %s' % show(s)[:80], span, st); return
        x = args(s)[0]; ttl = self.ttl(I, st)
        if ttl is not None and self.payload(x, ttl):
            if not st.mon.get('ttln'): self.bad('K02', 'zero', 'a lifetime of zero is not replaced by the default', span, st)
        elif isfld(x, self.A['default']):
            if not st.mon.get('ttl0'): self.bad('K02', 'ignored', 'the lifetime given is ignored', span, st)
        else: self.bad('K02', 'lifetime', 'the lifetime is %s, neither the one given nor the default' % show(x)[:80], span, st)
    def values(self, I, st, v, depth=0):
        """entry values inside a result, each with the object it sits in"""
        if depth > 6: return
        v = strip(v)
        if v.op == 'ref':
            w = I.val(st, v)
            if w is not v: yield from self.values(I, st, w, depth + 1)
            return
        if v.op == 'vec':
            for x in v.a[1]: 
                if isinstance(x, Term): yield from self.values(I, st, x, depth + 1)
            return
        if v.op == 'agg':
            es = []
            for x in v.a[3]:
                e = self.entry(x)
                if e and e[2][:1] == (self.A['val'],): es.append(e)
                elif x.op in ('agg', 'vec', 'ref'): yield from self.values(I, st, x, depth + 1)
                elif e and e[2] == (): es.append(e)
            for e in es: yield e, v
            return
        e = self.entry(v)
        if e and e[2][:1] in ((self.A['val'],), ()): yield e, None
    def on_end(self, I, st, kind, val):
        if kind == 'panic' : return
        o = self.op(I, st)
        name = o[0] if o else None
        got = list(self.values(I, st, val)) if val is not None else []
        for e, box in got:
            self.n('values given out checked')
            k = e[1]
            if ('alive', k) not in self.get(st, 'ev'):
                self.bad('K02', 'expired', 'the value of an entry is given out without its deadline having been found not to have passed', self.span, st)
            if name == 'get' and k is not strip(o[1]): self.bad('K01', 'wrongkey', 'the value given out belongs to another key', self.span, st)
            if name in ('set', 'del'): self.bad('K01', 'answer', '%s answers with a value' % name, self.span, st)
            if box is not None and name is None:
                for x in box.a[3]:
                    x = strip(x)
                    if x.op in ('elem', 'other') and len(x.a) > 1 and x.a[1] == 'key' and x is not k:
                        self.bad('K01', 'paired', 'a value is listed under the key of another entry', self.span, st)
        if name == 'get' and not got:
            self.n('empty answers checked')
            key = strip(o[1])
            if key not in self.get(st, 'miss') and ('dead', key) not in self.get(st, 'ev'):
                self.bad('K01', 'hidden', 'get answers that there is no value although the entry is there and was not found to be expired', self.span, st)
        if name == 'set': self.checkset(I, st, o, self.span)
        if name == 'del':
            self.n('deletes checked')
            key = strip(o[1])
            if key not in self.get(st, 'gone') and key not in self.get(st, 'miss'):
                self.bad('K01', 'notdeleted', 'del returns although the entry of its key was not removed', self.span, st)
            v = strip(val) if val is not None else None
            if v is not None and v.op == 'k' and v.a[1] in (0, 1) and (v.a[1] == 1) != (key in self.get(st, 'gone')):
                self.bad('K01', 'answer', 'del answers the opposite of what it did', self.span, st)

def anchors(P, rep):
    """the store type: the struct holding a concurrent map from String to a struct with an Option<Instant>"""
    for d, a in P.adts.items():
        if not d.startswith(MODK): continue
        for v in a['variants']:
            for f in v['fields']:
                if 'ty' not in f: continue
                s = P.tys(f['ty'])
                if 'DashMap<std::string::String' in s.replace(' ', '') or 'Map<' in s and 'String' in s:
                    for e, b in P.adts.items():
                        if e.startswith(MODK) and e in s:
                            fl = [(x['name'], P.tys(x['ty'])) for x in b['variants'][0]['fields'] if 'ty' in x]
                            dl = [n for n, t in fl if 'Instant' in t]
                            if len(dl) == 1 and len(fl) >= 2: return {'store': d, 'mapf': f['name'], 'entry': e, 'dl': dl[0], 'val': [n for n, t in fl if n != dl[0]][0], 'fields': [n for n, t in fl], 'default': 'default_ttl_secs'}
    rep.violation('missing:store', 'the map type of the store was not found')
def argspec(name, f):
    P = f.prog if hasattr(f, 'prog') else None
    def spec(m, I, st):
        ps = m.params
        key = [n for n, t in ps if t in ('std::string::String', '&str') or t.endswith('str')]
        val = [n for n, t in ps if 'Bytes' in t or 'MapValue' in t]
        ttl = [n for n, t in ps if t.endswith('Option<u64>')]
        return name, mk('arg', key[0]) if key else None, mk('arg', val[0]) if val else None, mk('arg', ttl[0]) if ttl else None
    return spec
CMD = {'set': 'set', 'get': 'get', 'del': 'del', 'delete': 'del', 'remove': 'del'}
def cmdspec(P, enum):
    """the operation a parsed command asks for, by the name of its variant"""
    VAR = {}
    for v in P.adts[enum]['variants']:
        for w, o in CMD.items():
            if v['name'].lower().endswith(w): VAR[v['name']] = (o, [(f['name'], P.tys(f['ty']) if 'ty' in f else '') for f in v['fields']])
    def spec(m, I, st):
        c = st.mon.get('cmd')
        if c is None: return None
        if I.variant_of(st, c, RES) != 'Ok': return None
        x = project(c, (('v', 'Ok'), ('f', '0', RES)))
        v = I.variant_of(st, x, enum)
        if v is None or v not in VAR: return None
        o, fl = VAR[v]
        def f(pred, base, fields, d, var=None):
            for n, t in fields:
                y = project(base, ((('v', var),) if var else ()) + (('f', n, d),))
                if pred(t): return y
                if t in P.adts and len(P.adts[t]['variants']) == 1:
                    z = f(pred, y, [(g['name'], P.tys(g['ty']) if 'ty' in g else '') for g in P.adts[t]['variants'][0]['fields']], t)
                    if z is not None: return z
        return (o, f(lambda t: t == 'std::string::String', x, fl, enum, v), f(lambda t: t.endswith('Bytes'), x, fl, enum, v), f(lambda t: t.endswith('Option<u64>'), x, fl, enum, v))
    return spec
def run_kv(P, rep, props):
    A = anchors(P, rep)
    if not A: return
    sn = A['store'].split('::')[-1]
    ms = pub_methods(P, sn)
    for n in ('set', 'get', 'del'):
        if n not in ms: rep.violation('missing:' + n, 'operation %s of the store not found' % n)
    def one(api, f, spec, floor):
        m = KV(P, api, A, spec)
        m.span = f.span
        m.params = [(l[1], P.tys(l[0])) for l in f.locals[1:f.argc + 1] if l[1]]
        runone(P, rep, props, m, f, api, floor); return m
    FL = {'set': ('sets checked', 'deadlines checked'), 'get': ('values given out checked', 'empty answers checked'), 'del': ('deletes checked', 'removals checked')}
    for n, (sig, f) in ms.items():
        if n in FL: one(n, f, argspec(n, f), FL[n])
        elif n == 'new' or helper(P, sig): pass
        else:
            s = lambda m, I, st: None
            one(n, f, s, ())
    for g in spawned(P, MODK): one('cleanup', g, lambda m, I, st: None, ('removals checked',))
    for n, (sig, f) in pub_methods(P, 'StoreManager').items():
        if n != 'new' and not helper(P, sig): one(n, f, lambda m, I, st: None, ('values given out checked',) if n == 'scan' else ())
    # the TCP surface: a parsed command does what it asks for
    enum = [d for d in P.adts if d.startswith(MODK) and d.endswith('Command')]
    hs = [f for f in P.libfns if f.path.startswith(MODK) and f.name == 'handle' and f.kind == 'fn']
    if not enum or not hs: rep.violation('missing:handle', 'the TCP entry point of the store was not found'); return
    parse = {f.path for f in P.libfns if f.kind == 'assocfn' and f.selfty is not None and P.ty(f.selfty).get('def') == enum[0] and f.trait is None and enum[0] in P.tys(f.locals[0][0])}
    for f in hs:
        m = KV(P, 'handle', A, cmdspec(P, enum[0]), parse); m.span = f.span; m.params = []
        runone(P, rep, props, m, f, 'handle', ('commands parsed', 'sets checked', 'deletes checked', 'values given out checked', 'empty answers checked'))
    for f in P.libfns:
        if f.kind == 'coroutine' and f.path.startswith(MODK + 'http::'): one('http', f, lambda m, I, st: None, ())
if __name__ == '__main__':
    import sys, time, os
    sys.setrecursionlimit(20000)
    P = Prog(os.environ.get('NX_OUT', '/verif/build/out'))
    rep = Report('K'); t = time.time()
    run_kv(P, rep, set(sys.argv[1].split(',')))
    print(rep.counts, '%.1fs' % (time.time() - t))
    for v in rep.viol.values():
        print(v['key'], '|', v['msg'][:300], '|', v['where'])
        if len(sys.argv) > 2:
            for x in v['trace'][-12:]: print('      ', x[:200])
