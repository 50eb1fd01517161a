"""Publish/subscribe: matching (P01), registry and tree in agreement (P02), retained messages in memory (P03) and on disk (P04)."""
from core import *
import re
from interp import others
from rules_group import isfld, strip, decided, factcmps
from rules_stream import Base, runone
from rules_log import nm, OPT, RES
from rules_kv import isnow, zero, deadline_verdict, zerotest, args
MODS = 'brokers::pub_sub::'

def anchors(P, rep):
    """the tree node: a struct with a map from String to itself and two optional boxed children"""
    for d, a in P.adts.items():
        if not d.startswith(MODS) or len(a['variants']) != 1: continue
        fl = [(f['name'], P.tys(f['ty']).replace(' ', '')) for f in a['variants'][0]['fields'] if 'ty' in f]
        kids = [n for n, t in fl if 'Map<' in t and d in t and 'String' in t]
        opt = [n for n, t in fl if t.startswith(('std::option::Option', 'core::option::Option', 'Option')) and d in t]
        if len(kids) != 1 or len(opt) != 2: continue
        plus = [n for n in opt if 'plus' in n or 'single' in n]; hsh = [n for n in opt if n not in plus]
        subs = [n for n, t in fl if 'Set<' in t and 'ClientId' in t]
        ret = [(n, t) for n, t in fl if 'Option' in t and d not in t]
        if len(plus) == 1 and len(subs) == 1 and len(ret) == 1:
            return {'node': d, 'c': kids[0], '+': plus[0], '#': hsh[0], 's': subs[0], 'r': ret[0][0], 'rty': ret[0][1]}
    rep.violation('missing:node', 'the node type of the subscription tree was not found')

class Tree(Base):
    """one walker over the tree"""
    def __init__(self, P, api, A, fn):
        Base.__init__(self, P, api); self.A = A; self.fn = fn; self.span = fn.span
        self.role = {A[k]: k for k in ('c', '+', '#', 's', 'r')}
        self.node0 = None; self.parts = None
    def chain(self, st, t, depth=0):
        """where in the tree a place is: (base, steps)"""
        if depth > 40: return None
        if isinstance(t, tuple) and t and t[0] == 'H':
            b = self.chain(st, t[1], depth + 1)
            if b is None: return None
            out = b[1]
            for p in t[2]:
                if p[0] == 'f' and p[2] == self.A['node']: out = out + (self.role.get(p[1], p[1]),)
            return b[0], out
        if isinstance(t, tuple): return None
        if t.op in ('deref', 'valbox', 'vref', 'var', 'payload', 'proj', 'idx'): return self.chain(st, t.a[0], depth + 1)
        if t.op == 'cast': return self.chain(st, t.a[1], depth + 1)
        if t.op == 'ref': return self.chain(st, t.a[0], depth + 1)
        if t.op == 'fld':
            b = self.chain(st, t.a[0], depth + 1)
            if b is None: return None
            if len(t.a) > 2 and t.a[2] == self.A['node'] or t.a[1] in self.role: return b[0], b[1] + (self.role.get(t.a[1], t.a[1]),)
            return b
        if t.op == 'ent': return self.chain(st, t.a[0], depth + 1)
        if t.op == 'entref': return self.chain(st, t.a[0], depth + 1)
        if t.op == 'entry':
            b = self.chain(st, t.a[0], depth + 1)
            if b is None or not b[1] or b[1][-1] != 'c': return None
            return b[0], b[1][:-1] + (('c', strip(t.a[1])),)
        if t.op == 'arg': return t, ()
        if t.op == 'agg':
            for k, ch in self.get(st, 'made'):
                if k is t: return ch
        return None
    # --- parts of a topic or pattern
    def on_start(self, I, st):
        ps = [(l[1], self.P.tys(l[0]).replace(' ', '')) for l in self.fn.locals[1:self.fn.argc + 1] if l[1]]
        self.p = {}
        for n, t in ps:
            if '[' in t or 'Iter<' in t: self.p.setdefault('parts', n)
            elif 'ClientId' in t and 'Vec' not in t: self.p.setdefault('client', n)
            elif 'Retained' in t: self.p.setdefault('retained', n)
            elif 'Vec<' in t: self.p.setdefault('results', n)
            elif n != 'self' and 'str' in t: self.p.setdefault('path', n)
        st.mon['base'] = mk('arg', 'self')
    def partsroot(self, t):
        """how many parts were taken off before this list of parts: None if it is not one"""
        t = strip(t)
        for _ in range(12):
            if t.op == 'arg': return 0 if t.a[0] == self.p.get('parts') else None
            if t.op == 'ref' and t.a[0][0] == 'H' and not t.a[0][2]: t = strip(t.a[0][1]); continue
            break
        if t.op == 'call' and nm(t) in ('index', 'get') and len(t.a[1]) == 2:
            r = self.partsroot(t.a[1][0]); g = strip(t.a[1][1])
            if r is None: return None
            if g.op == 'agg' and g.a[0].endswith('RangeFrom') and g.a[3][0].op == 'k': return r + g.a[3][0].a[1]
            return None
        if t.op in ('fld', 'payload', 'proj', 'var'):
            f = t.a[1] if t.op == 'fld' else None
            x = t
            while x.op in ('fld', 'payload', 'proj', 'var', 'deref'):
                if x.op == 'fld' and x.a[1] == '1': f = '1'
                x = strip(x.a[0])
            if x.op == 'call' and nm(x) == 'split_first':
                r = self.partsroot(x.a[1][0])
                return r + 1 if r is not None and f == '1' else None
            if x.op == 'call' and nm(x) in ('get', 'index'): return self.partsroot(x)
        return None
    def ispart(self, st, t):
        """is this the part to be consumed next"""
        t = strip(t)
        if st.mon.get('part') is not None: return t is st.mon['part']
        if t.op == 'idx': return self.partsroot(t.a[0]) == 0 and (len(t.a) < 2 or t.a[1] == 0 or isinstance(t.a[1], Term) and t.a[1].op == 'k' and t.a[1].a[1] == 0)
        x, f = t, None
        while x.op in ('fld', 'payload', 'proj', 'var', 'deref'):
            if x.op == 'fld' and x.a[1] in ('0', '1') and (f is None or True): f = x.a[1] if strip(x.a[0]).op != 'call' else f or x.a[1]
            x = strip(x.a[0])
        if x.op == 'call' and nm(x) in ('split_first', 'first') and self.partsroot(x.a[1][0]) == 0: return f != '1'
        if x.op == 'call' and nm(x) == 'get' and len(x.a[1]) == 2 and strip(x.a[1][1]).op == 'k' and strip(x.a[1][1]).a[1] == 0: return self.partsroot(x.a[1][0]) == 0
        if x.op in ('elem', 'other') and st.mon.get('first') is x: return True
        return False
    def cls(self, st):
        """what is known about the part to be consumed: '#', '+', 'lit' or None"""
        if self.get(st, 'is') and 1:
            pos = [c for c, b in self.get(st, 'is') if b]
            neg = {c for c, b in self.get(st, 'is') if not b}
            if pos: return pos[0]
            if {'#', '+'} <= neg: return 'lit'
            return ('not', tuple(sorted(neg)))
        return None
    def lit(self, t):
        t = strip(t)
        if t.op == 'k' and t.a[1] in ('#', '+'): return t.a[1]
        s = show(t).strip('*\'"b')
        return s if s in ('#', '+') else None
    # --- events
    def on_draw(self, I, st, e, ev):
        src = e.a[0] if e.op in ('elem', 'other') else None
        if src is not None and self.partsroot(src) is not None:
            self.step(I, st, ev.span)
            st.mon['part'] = e; st.mon.pop('is', None); st.note('next part %s' % where(ev.span))
            self.n('parts followed'); return
        c = self.chain(st, src) if src is not None else None
        if c is not None:
            k = c[1][-1] if c[1] else None
            if e.op == 'elem': self.add(st, 'drawn', (c[1], e))
            self.add(st, 'iter', c[1])
            st.note('an element of %s %s' % (self.name(c[1]), where(ev.span)))
    def name(self, ch): return '/'.join(['children[%s]' % show(x[1])[:40] if isinstance(x, tuple) else {'c': 'children', '+': 'plus', '#': 'hash', 's': 'subscribers', 'r': 'retained'}.get(x, str(x)) for x in ch]) or 'the node'
    def step(self, I, st, span):
        """between two parts the walk moves to exactly the child the part selects"""
        cur = self.curs(I, st)
        part = st.mon.get('part')
        if part is not None:
            want = self.child(st)
            got = {c for k, c in cur}
            self.n('steps checked')
            if want is None: self.bad(self.PROP, 'undecided', 'the walk goes on to the next part without having looked at this one', span, st)
            elif got != {want}: self.bad(self.PROP, 'step', 'for a part that is %s the walk goes to %s instead of %s' % (self.cls(st) or 'any', ', '.join(self.name(g) for g in got) or 'no child', self.name(want)), span, st)
        elif cur: self.bad(self.PROP, 'early', 'the walk leaves the node before looking at a part', span, st)
        if cur:
            new = mk('arg', 'cur')
            for k, c in cur: st.env[k] = mk('ref', ('H', new, ()))
            for d in (st.facts, st.nfacts):
                for t in [t for t in d if isinstance(t, Term) and new in subterms(t) or isinstance(t, tuple) and any(isinstance(y, Term) and new in subterms(y) for y in flat(t))]: del d[t]
            for k in [k for k in st.heap if new in subterms(k[0]) or k[0].op == 'entry' and any(isinstance(y, Term) and new in subterms(y) for y in flat(k[0].a))]: del st.heap[k]
            st.mon['base'] = new
            for k in ('opt', 'hitmiss', 'made', 'drawn', 'iter', 'exh'): st.mon.pop(k, None)
    def curs(self, I, st):
        out = []
        for k, v in st.env.items():
            x = v
            if isinstance(x, Term) and x.op == 'ref' and x.a[0][0] == 'H':
                c = self.chain(st, x)
                if c and c[0] is st.mon['base'] and c[1] and (c[1][-1] in ('+', '#') or isinstance(c[1][-1], tuple)): out.append((k, c[1]))
        return out
    def child(self, st):
        c = self.cls(st); p = st.mon.get('part')
        if self.LITERAL or c == 'lit': return (('c', p),)
        if c in ('+', '#'): return (c,)
        return None
    LITERAL = False
    PROP = 'P01'
    def on_branch(self, I, st, term, val, span):
        if term.op == 'discr':
            v = I.variant_of(st, term.a[0], OPT)
            if v: self.on_split(I, st, term.a[0], v)
            return
        for o, a, b in decided(term, val):
            for x, y in ((a, b), (b, a)):
                l = self.lit(y)
                if l and self.ispart(st, x) and o in ('Eq', 'Ne'): self.add(st, 'is', (l, o == 'Eq'))
            if o in ('Eq', 'Ne', 'Lt', 'Le'): self.lens(st, o, a, b)
        t, v = term, val
        while t.op == 'un' and t.a[0] == 'Not': t, v = t.a[1], None if v is None else 1 - v
        for x, c in self.get(st, 'tests'):
            if x is t and v in (0, 1): self.add(st, 'empty', (c, v))
        if v in (0, 1) and t.op == 'un' and t.a[0] == 'is_empty':
            if self.partsroot(t.a[1]) == 0: st.mon['E'] = v
            c = self.chain(st, t.a[1])
            if c: self.add(st, 'empty', (c[1], v))
        for x, c in self.get(st, 'recval'):
            if x is t and v in (0, 1): self.add(st, 'rectrue', (c, v))
        if v in (0, 1):
            for d, vs in deadline_verdict(decided(term, val), self.isdl): self.verdict(st, d, vs)
            z = zerotest(term, val)
            if z:
                for d, vs in deadline_verdict([('Eq' if z[1] else 'Ne', z[0], mk('k', 'u64', 0))], self.isdl): self.verdict(st, d, vs)
    def setE(self, st, v):
        if st.mon.get('E', v) != v: st.mon['impossible'] = 1   # contradicts what was found before
        else: st.mon['E'] = v
    def bad(self, prop, key, msg, span, st):
        if not st.mon.get('impossible'): Base.bad(self, prop, key, msg, span, st)
    def lens(self, st, o, a, b):
        a, b = strip(a), strip(b)
        for x, y, left in ((a, b, 1), (b, a, 0)):
            if x.op == 'len' and self.partsroot(x.a[0]) == 0 and y.op == 'k':
                if y.a[1] == 0 and o in ('Eq', 'Ne'): st.mon['E'] = int(o == 'Eq')
                if y.a[1] == 0 and o == 'Lt' and not left or y.a[1] == 1 and o == 'Le' and not left: st.mon['E'] = 0
                if y.a[1] == 1 and o == 'Lt' and left or y.a[1] == 0 and o == 'Le' and left: st.mon['E'] = 1
    def isdl(self, t):
        c = self.chain(st=self._st, t=t) if False else None
        x = strip(t)
        while x.op in ('payload', 'var', 'proj') or x.op == 'fld' and x.a[1] == '0': x = strip(x.a[0])
        return x.op == 'fld' and 'expire' in x.a[1] and self.chain(None, x) is not None if self.nomade(x) else False
    def nomade(self, x): return not any(s.op == 'agg' for s in subterms(x))
    def verdict(self, st, t, vs):
        c = self.chain(st, t)
        for v in vs: self.add(st, 'ev', (v, self.upto_r(c[1])))
    def upto_r(self, ch):
        return ch[:ch.index('r') + 1] if 'r' in ch else ch
    def on_split(self, I, st, v, variant):
        x = strip(v)
        while x.op in ('call',) and nm(x) in ('as_ref', 'as_mut', 'as_deref', 'as_deref_mut') and x.a[1]: x = strip(x.a[1][0])
        c = self.chain(st, x)
        if c is not None and c[0] is st.mon.get('base'):
            self.add(st, 'opt', (c[1], variant))
            if c[1] and c[1][-1] == 'r' and self.isexp(x) and variant == 'None': self.add(st, 'ev', ('alive', self.upto_r(c[1])))
        if x.op == 'call' and nm(x) in ('first', 'split_first', 'get') and self.partsroot(x.a[1][0]) == 0: self.setE(st, int(variant == 'None'))
        if x.op == 'arg' and x.a[0] == self.p.get('path'): self.add(st, 'pathopt', variant)
    def isexp(self, x):
        """is x the deadline field itself (not the retained message)"""
        while x.op in ('payload', 'var', 'proj', 'deref') : x = strip(x.a[0])
        return x.op == 'fld' and 'expire' in x.a[1]
    def optof(self, st, ch):
        for c, v in self.get(st, 'opt'):
            if c == ch: return v
        return None
    def on_map(self, I, st, op, loc, key, was, val, ev):
        c = self.chain(st, ('H',) + tuple(loc[1:])) if loc[0] == 'H' else None
        if c is None: return (st,)
        k = strip(key) if key is not None else None
        if c[1][-1:] == ('c',):
            if op in ('hit', 'miss'): self.add(st, 'hitmiss', (k, op))
            if op == 'insert': self.add(st, 'hitmiss', (k, 'hit'))
            if op in ('remove', 'clear'): self.pruned(I, st, c[1][:-1] + (('c', k),), ev.span)
        return (st,)
    def pruned(self, I, st, ch, span): pass
    def on_store(self, I, st, loc, val, span):
        if loc[0] != 'H': return
        c = self.chain(st, loc)
        if c is None or not c[1]: return
        k = c[1][-1]
        if k in ('+', '#') and val.op == 'agg':
            if val.a[1] == 'Some':
                p = val.a[3][0]
                self.add(st, 'made', (p, c)); self.add(st, 'opt', (c[1], 'Some'))
                if self.optof(st, c[1]) is None or ('None' not in [v for x, v in self.get(st, 'opt') if x == c[1]]): self.bad(self.PROP, 'replaced', 'a child that may exist is replaced by a new one: the subscriptions below it are lost', span, st)
            elif val.a[1] == 'None': self.pruned(I, st, c[1], span)
        if k == 'r' and not self.isexp_loc(loc): self.retstore(I, st, c[1], val, span)
    def isexp_loc(self, loc): return any(p[0] == 'f' and 'expire' in p[1] for p in loc[2])
    def retstore(self, I, st, ch, val, span): self.bad('P03', 'retained', '%s changes a retained message' % self.api, span, st)
    def on_ret(self, I, st, ev, val):
        m = ev.name.split('::')[-1]
        a = ev.args
        if m == 'is_empty' and len(a) == 1:
            c = self.chain(st, a[0])
            if c is not None and c[1]: self.add(st, 'tests', (strip(val), c[1]))
            if c is not None and c[1] and val.op == 'k' : self.add(st, 'empty', (c[1], val.a[1]))
        if m in ('is_none', 'is_some') and val.op == 'k' and len(a) == 1:
            c = self.chain(st, a[0])
            if c is not None: self.add(st, 'opt', (c[1], 'None' if (m == 'is_none') == bool(val.a[1]) else 'Some'))
        if m == 'take' and len(a) == 1:
            c = self.chain(st, a[0])
            if c is not None and c[1]:
                if c[1][-1] in ('+', '#'): self.pruned(I, st, c[1], ev.span)
                elif c[1][-1] == 'r': self.retstore(I, st, c[1], mk('agg', OPT, 'None', (), ()), ev.span)
        if m == 'next' and val.op == 'agg' and val.a[1] == 'None' and a: self.on_exhausted(I, st, I.val(st, a[0]), ev)
        if m in ('for_each', 'fold', 'try_for_each', 'any', 'all', 'count') and a:
            it = I.val(st, a[0])
            for s in [it] + list(subterms(it)):
                if s.op == 'iter' and m in ('for_each', 'fold'):
                    c = self.chain(st, [y for y in s.a if isinstance(y, Term)][0])
                    if c is not None: self.add(st, 'exh', c[1])
        if m == 'insert' and ev.name.split('::')[0] in ('HashSet', 'BTreeSet') or m == 'remove' and ev.name.split('::')[0] in ('HashSet', 'BTreeSet') or m == 'take' and 'Set' in ev.name:
            c = self.chain(st, a[0])
            if c is not None: self.subs(I, st, 'remove' if m == 'take' else m, c, a[1] if len(a) > 1 else None, ev.span)
        if m in ('push', 'push_back') and len(a) == 2: self.pushed(I, st, a[1], ev.span)
        if m in ('extend', 'append', 'extend_from_slice') and len(a) == 2: self.extended(I, st, a[1], ev.span)
        if ev.loc and val.op == 'call' or ev.loc and I.P.fns.get(ev.res) is not None and self.isrec(ev.res) :
            c = self.chain(st, a[0]) if a else None
            if c is not None and c[0] is not None and self.isrec(ev.res): self.recursed(I, st, ev, c[1], a, val)
    def on_exhausted(self, I, st, it, ev):
        for s in [it] + list(subterms(it)):
            if s.op == 'iter':
                src = [y for y in s.a if isinstance(y, Term)]
                if src and self.partsroot(src[0]) is not None:
                    if self.WALK:
                        for z in [it] + list(subterms(it)):
                            if z.op == 'iterad' and z.a[0] in ('rev', 'step_by', 'skip', 'take', 'filter', 'skip_while', 'take_while'): self.bad(self.PROP, 'levels', '%s does not go through the levels of the topic from the first to the last' % self.api, ev.span, st)
                    st.mon['E'] = 1
                    if st.mon.get('part') is not None: self.step(I, st, ev.span)
                    st.mon['part'] = None; st.mon.pop('is', None)
                elif src:
                    c = self.chain(st, src[0])
                    if c is not None: self.add(st, 'exh', c[1])
    def isrec(self, path): return path in self.RECS
    RECS = frozenset()
    WALK = False
    def opaque(self, I, path): return path in self.RECS and path != self.fn.path
    def subs(self, I, st, op, c, who, span):
        self.bad(self.PROP, 'subs:' + op, '%s changes the subscribers of a node' % self.api, span, st)
    def pushed(self, I, st, x, span): pass
    def extended(self, I, st, x, span): pass
    def recursed(self, I, st, ev, ch, a, val): pass
    def tailof(self, I, st, a):
        """(how many parts the callee gets fewer than this call, or 'none' when it gets an empty list)"""
        for x in a[1:]:
            w = x
            r = self.partsroot(w)
            if r is not None: return r
            w = I.val(st, x) if x.op == 'ref' else x
            r = self.partsroot(w)
            if r is not None: return r
            if w.op == 'agg' and w.a[0] == 'array' and not w.a[3]: return 'none'
        return None
    def required(self, st):
        """the child the first part selects, for a recursive walker: ('c', head) is written with the part itself"""
        return self.cls(st)
def flat(t):
    if isinstance(t, tuple):
        for x in t: yield from flat(x)
    else: yield t

class Pruning:
    """a node may only be taken out of the tree when it is known to hold nothing"""
    def emptyfacts(self, I, st, ch):
        """which of the five reasons to keep the node at ch are known not to apply"""
        s = set()
        for c, v in self.get(st, 'empty'):
            if v == 1 and c == ch + ('s',): s.add('s')
            if v == 1 and c == ch + ('c',): s.add('c')
        for r in ('+', '#', 'r'):
            if self.optof(st, ch + (r,)) == 'None': s.add(r)
        return s
    def gone(self, I, st, ch): 
        if any(c == ch and v == 1 for c, v in self.get(st, 'rectrue')): return set()
        return {'s', 'c', '+', '#', 'r'} - self.emptyfacts(I, st, ch)
    def pruned(self, I, st, ch, span):
        self.n('prunes checked'); st.note('prune %s %s' % (self.name(ch), where(span)))
        left = self.gone(I, st, ch)
        if left: self.bad(('P01', 'P03') if left == {'r'} else ('P01', 'P02') if left != {'s'} else ('P01', 'P02'), 'prune', 'a node is removed from the tree although it may still hold %s' % ', '.join({'s': 'subscribers', 'c': 'children', '+': 'a + child', '#': 'a # child', 'r': 'a retained message'}[x] for x in sorted(left)), span, st)
        self.add(st, 'opt', (ch, 'None')); self.rm(st, 'opt', lambda x: x == (ch, 'Some'))
        if len(ch) == 1 and ch[0] in ('+', '#'): pass

class InsertMon(Tree):
    WALK = True
    def subs(self, I, st, op, c, who, span):
        if op != 'insert': return Tree.subs(self, I, st, op, c, who, span)
        self.n('insertions checked'); st.note('insert into %s %s' % (self.name(c[1]), where(span)))
        if c[0] is not st.mon['base'] or c[1][-1:] != ('s',): self.bad('P01', 'where', 'a client is put into a set that is not the subscribers of the node reached', span, st); return
        w = strip(I.val(st, who)) if who.op == 'ref' else strip(who)
        if w is not mk('arg', self.p.get('client', '?')): self.bad('P01', 'who', 'somebody else than the subscribing client is put among the subscribers', span, st)
        self.add(st, 'ins', c[1])
        if st.mon.get('E') == 1 and st.mon.get('part') is None: want = ('s',)
        elif self.cls(st) == '#': want = ('#', 's')
        elif st.mon.get('E') is None and st.mon.get('part') is None and self.cls(st) is None: want = None
        else: want = None
        if want is None: self.bad('P01', 'early', 'the client is subscribed although the pattern is not used up and the part is not #', span, st)
        elif c[1] != want: self.bad('P01', 'place', 'the client is put into the subscribers of %s instead of %s' % (self.name(c[1][:-1]), self.name(want[:-1])), span, st)
    def recursed(self, I, st, ev, ch, a, val):
        n = self.tailof(I, st, a)
        want = self.selected(I, st)
        self.n('steps checked'); self.n('insertions checked')
        if want is None or ch != want or n != 1 and not (n == 'none' and ch == ('#',)): self.bad('P01', 'step', 'the subscription goes on at %s with %s parts fewer; the part selects %s' % (self.name(ch), n, self.name(want) if want else 'nothing known'), ev.span, st)
        self.add(st, 'ins', 'rec')
    def selected(self, I, st):
        c = self.cls(st)
        if c in ('+', '#'): return (c,)
        if c == 'lit':
            for k, hm in self.get(st, 'hitmiss'):
                if self.ispart(st, k): return (('c', k),)
        return None
    def on_end(self, I, st, kind, val):
        if kind == 'panic': return
        self.n('paths checked')
        if len(self.get(st, 'ins')) != 1: self.bad('P01', 'missing', 'a path of %s ends without having put the client anywhere' % self.api if not self.get(st, 'ins') else 'the client is put into several places', self.span, st)

class RemoveMon(Pruning, Tree):
    PROP = 'P02'
    def subs(self, I, st, op, c, who, span):
        if op != 'remove': return Tree.subs(self, I, st, op, c, who, span)
        self.n('removals checked'); st.note('remove from %s %s' % (self.name(c[1]), where(span)))
        w = strip(I.val(st, who)) if who.op == 'ref' else strip(who)
        if w is not mk('arg', self.p.get('client', '?')): self.bad('P02', 'who', 'somebody else than the given client is taken off the subscribers', span, st)
        self.add(st, 'rem', c[1])
        E = st.mon.get('E')
        want = ('s',) if E == 1 else ('#', 's') if self.cls(st) == '#' else None
        if c[1] != want: self.bad(('P01', 'P02'), 'place', 'the client is taken off the subscribers of %s, which the pattern does not name' % self.name(c[1][:-1]), span, st)
    def recursed(self, I, st, ev, ch, a, val):
        n = self.tailof(I, st, a); c = self.cls(st)
        self.n('steps checked')
        ok = (c == '+' and ch == ('+',) or c == 'lit' and len(ch) == 1 and isinstance(ch[0], tuple) and self.ispart(st, ch[0][1])) and n == 1 or c == '#' and ch == ('#',) and n == 'none'
        if not ok or st.mon.get('E') == 1: self.bad(('P01', 'P02'), 'step', 'the removal goes on at %s with %s parts fewer for a part that is %s' % (self.name(ch), n, c or 'unknown'), ev.span, st)
        self.add(st, 'rem', 'rec'); self.add(st, 'recval', (strip(val), ch))
        for k in ('empty', 'tests'): self.rm(st, k, lambda x: x[-1] if False else False)
    def on_end(self, I, st, kind, val):
        if kind == 'panic': return
        self.n('paths checked')
        E = st.mon.get('E'); c = self.cls(st); rem = self.get(st, 'rem')
        if not rem:
            ok = E == 0 and (c in ('#', '+') and 'None' in [v for x, v in self.get(st, 'opt') if x == (c,)] or c == 'lit' and any(hm == 'miss' and self.ispart(st, k) for k, hm in self.get(st, 'hitmiss')))
            if not ok: self.bad('P02', 'kept', 'a path of %s ends without having taken the client off, although the node named by the pattern may exist' % self.api, self.span, st)
        if val is None: return
        v = I.decide(st, val)
        s2 = st
        if v is None: s2 = st.copy(); self.on_branch(I, s2, val, 1, None); v = 1
        if v == 1:
            self.n('answers checked')
            left = self.gone(I, s2, ())
            if val.op in ('call',) and val in [x for x, _ in self.get(st, 'recval')]: left = left
            for x, y in (('un', 'is_none'),): pass
            if val.op == 'un' and val.a[0] == 'is_none':
                ch = self.chain(st, val.a[1])
                if ch and len(ch[1]) == 1: left = left - {ch[1][0]}
            if left: self.bad(('P01', 'P02', 'P03'), 'answer', '%s reports the node as empty although it may still hold %s' % (self.api, ', '.join(sorted(left))), self.span, s2)

class MatchMon(Tree):
    def allowed(self, st):
        a = {('#', 's')}
        if st.mon.get('E') == 1: a.add(('s',))
        return a
    def pushed(self, I, st, x, span):
        w = strip(I.val(st, x)) if x.op == 'ref' else strip(x)
        self.n('results checked')
        if w.op not in ('elem', 'other'): self.bad('P01', 'odd', 'something that is not a subscriber of a node is among the recipients: %s' % show(w)[:80], span, st); return
        c = self.chain(st, w.a[0])
        if c is None or c[1] not in self.allowed(st): self.bad('P01', 'extra', 'the subscribers of %s receive a topic that %s' % (self.name(c[1][:-1]) if c else '?', 'goes on below the node' if c and c[1] == ('s',) else 'their pattern does not match'), span, st); return
        if w.op == 'elem': self.add(st, 'out', (c[1], w))
    def extended(self, I, st, x, span):
        it = I.val(st, x) if x.op == 'ref' else x
        t = strip(it)
        while t.op == 'iterad' and t.a[0] in ('cloned', 'copied', 'rev', 'map', 'by_ref', 'inspect'): t = strip([y for y in t.a if isinstance(y, Term)][0])
        c = self.chain(st, [y for y in t.a if isinstance(y, Term)][0]) if t.op == 'iter' else self.chain(st, t)
        self.n('results checked')
        if c is None: self.bad('P01', 'partial', 'only some of the subscribers of a node are among the recipients', span, st); return
        if c[1] not in self.allowed(st): self.bad('P01', 'extra', 'the subscribers of %s receive a topic that their pattern does not match' % self.name(c[1][:-1]), span, st); return
        self.add(st, 'exh', c[1])
    def recursed(self, I, st, ev, ch, a, val):
        n = self.tailof(I, st, a)
        self.n('steps checked'); st.note('match below %s %s' % (self.name(ch), where(ev.span)))
        ok = (ch == ('+',) or len(ch) == 1 and isinstance(ch[0], tuple) and self.ispart(st, ch[0][1])) and n == 1 and st.mon.get('E') == 0
        if not ok: self.bad('P01', 'step', 'matching goes on at %s with %s parts fewer%s' % (self.name(ch), n, '' if st.mon.get('E') == 0 else ' although the topic is used up'), ev.span, st)
        self.add(st, 'rec', ch)
    def on_end(self, I, st, kind, val):
        if kind == 'panic': return
        self.n('paths checked')
        E = st.mon.get('E')
        need = []
        if self.optof(st, ('#',)) != 'None': need.append(('#', 's'))
        if E != 0: need.append(('s',))
        for s in need:
            if s not in self.get(st, 'exh'): self.bad('P01', 'missed:' + s[0], 'a path of matching ends without having gone through all subscribers of %s' % self.name(s[:-1]), self.span, st)
        for c, e in self.get(st, 'drawn'):
            if c[-1:] == ('s',) and c in self.allowed(st) and (c, e) not in self.get(st, 'out') : self.bad('P01', 'skipped', 'a subscriber of a matching pattern is passed over', self.span, st)
        if E != 1:
            rec = self.get(st, 'rec')
            if ('+',) not in rec and self.optof(st, ('+',)) != 'None': self.bad('P01', 'missed:+', 'a path of matching ends without having followed the + child', self.span, st)
            if not any(isinstance(r[0], tuple) for r in rec if r) and not any(hm == 'miss' and self.ispart(st, k) for k, hm in self.get(st, 'hitmiss')): self.bad('P01', 'missed:literal', 'a path of matching ends without having followed the child named by the part', self.span, st)

class SetRetMon(Tree):
    WALK = True
    LITERAL = True; PROP = 'P03'
    def retstore(self, I, st, ch, val, span):
        self.n('writes checked'); st.note('retained of %s written %s' % (self.name(ch[:-1]), where(span)))
        if st.mon.get('E') != 1 or ch != ('r',): self.bad('P03', 'place', 'the retained message is put at %s before the topic is used up' % self.name(ch[:-1]), span, st)
        if strip(val) is not mk('arg', self.p.get('retained', '?')): self.bad('P03', 'value', 'what is retained is not what was given', span, st)
        st.mon['set'] = 1
    def recursed(self, I, st, ev, ch, a, val):
        n = self.tailof(I, st, a)
        self.n('writes checked'); self.n('steps checked')
        if not (n == 1 and len(ch) == 1 and isinstance(ch[0], tuple) and self.ispart(st, ch[0][1])): self.bad('P03', 'step', 'the walk to the retained message takes a wrong step', ev.span, st)
        if not any(strip(x) is mk('arg', self.p.get('retained', '?')) for x in a): self.bad('P03', 'value', 'what is retained is not what was given', ev.span, st)
        st.mon['set'] = 1
    def on_end(self, I, st, kind, val):
        if kind == 'panic': return
        self.n('paths checked')
        if not st.mon.get('set'): self.bad('P03', 'unset', 'a path of %s ends without having written the retained message' % self.api, self.span, st)
    def step(self, I, st, span):
        Tree.step(self, I, st, span)

class CollectMon(Tree):
    """the retained messages below a node, or those a pattern matches"""
    PROP = 'P03'
    def __init__(self, P, api, A, fn, allfn, haspat):
        Tree.__init__(self, P, api, A, fn); self.ALL = allfn; self.haspat = haspat
    def isdata(self, t):
        x = strip(t); p = []
        while x.op in ('fld', 'var', 'payload', 'proj', 'deref'):
            if x.op == 'fld': p.append(x.a[1])
            x = strip(x.a[0])
        c = self.chain(None, strip(t))
        return c is not None and 'r' in c[1] and p and p[0] == 'data'
    def pushed(self, I, st, x, span):
        w = strip(I.val(st, x)) if x.op == 'ref' else strip(x)
        self.n('messages checked')
        if w.op != 'agg' : self.bad('P03', 'odd', 'something that is not a retained message is collected', span, st); return
        for y in w.a[3]:
            z = strip(I.val(st, y)) if y.op == 'ref' else strip(y)
            c = self.chain(st, z)
            if c is not None and 'r' in c[1]:
                k = self.upto_r(c[1])
                if k != ('r',): self.bad('P03', 'wrong', 'the retained message of another node is collected', span, st)
                if ('alive', k) not in self.get(st, 'ev'): self.bad(('P03', 'P04'), 'expired', 'a retained message is given out without its deadline having been found not to have passed', span, st)
                self.add(st, 'out', k)
            elif self.ispath(z, st): st.mon['path'] = 1
        if not st.mon.pop('path', None) : self.bad('P03', 'path', 'a retained message is given out under another topic than its own', span, st)
        if self.haspat and st.mon.get('E') != 1 and self.cls(st) != '#': self.bad('P03', 'extra', 'the retained message of a node is given out although the pattern goes on', span, st)
    def ispath(self, z, st=None):
        """the path of the node itself"""
        a = mk('arg', self.p.get('path', '?'))
        if z is a: return True
        if z.op == 'call' and nm(z) in ('unwrap_or', 'unwrap_or_default', 'to_string') and z.a[1] and strip(z.a[1][0]) is a: return True
        x = z
        while x.op in ('payload', 'var', 'proj', 'deref') or x.op == 'fld' and x.a[1] == '0': x = strip(x.a[0])
        if x is a: return True
        if st is not None and 'None' in self.get(st, 'pathopt'):
            return x.op == 'default' or x.op == 'call' and nm(x) in ('default', 'new') and not [y for y in x.a[1] if y is not None] or show(x).strip('*"b\'') == ''
        return False
    def joined(self, I, st, t, key):
        """t is the path of the child `key` of this node"""
        t = I.val(st, t) if t.op == 'ref' else t
        t = strip(t)
        if t.op == 'agg' and t.a[1] == 'Some': t = strip(I.val(st, t.a[3][0]) if t.a[3][0].op == 'ref' else t.a[3][0])
        if t is strip(key): return 'None' in self.get(st, 'pathopt')
        if t.op == 'call' and nm(t) in ('format', 'from_utf8'): t = strip(t.a[1][0])
        if t.op == 'fmt':
            tmpl = show(t.a[0]) if isinstance(t.a[0], Term) else str(t.a[0])
            lit = re.sub(r'\\x[0-9a-f]{2}', '', tmpl).strip("*b'\"")
            ar = [strip(I.val(st, y) if y.op == 'ref' else y) for y in flat(t.a[1]) if isinstance(y, Term)]
            return lit == '/' and len(ar) == 2 and self.ispath(ar[0]) and ar[1] is strip(key)
        return False
    def recursed(self, I, st, ev, ch, a, val):
        all_ = ev.res in self.ALL
        n = None if all_ else self.tailof(I, st, a)
        c = self.cls(st) if self.haspat else None
        self.n('steps checked'); st.note('collect below %s %s' % (self.name(ch), where(ev.span)))
        ps = [x for x, l in zip(a, self.P.fns[ev.res].locals[1:]) if l[1] != 'self' and 'str' in self.P.tys(l[0]) and '[' not in self.P.tys(l[0]) and 'Vec' not in self.P.tys(l[0])]
        if ch == ():
            if not (self.haspat and all_ and c == '#'): self.bad('P03', 'loop', 'the walk goes on at the same node', ev.span, st)
            if ps and not self.ispath(strip(I.val(st, ps[0]) if ps[0].op == 'ref' else ps[0])): self.bad(('P03', 'P04'), 'join', 'a retained message is reported under another topic than its own', ev.span, st)
            st.mon['allself'] = 1; return
        if len(ch) != 1 or not isinstance(ch[0], tuple):
            if ch[0] in ('+', '#'): return   # a wildcard child holds no retained message
            self.bad('P03', 'step', 'the walk goes on at %s' % self.name(ch), ev.span, st); return
        key = ch[0][1]
        if ps and not self.joined(I, st, ps[0], key): self.bad(('P03', 'P04'), 'join', 'the topic handed on for a child is not the topic of this node, a slash and the name of the child (a missing separator makes different topics the same)', ev.span, st)
        if self.haspat:
            if c == '#':
                if not all_: self.bad('P03', 'step', 'below # only part of the tree is collected', ev.span, st)
            elif c == '+':
                if all_ or n != 1 or not self.ofchildren(st, key): self.bad('P03', 'step', 'for + the walk does not go to every child with one part fewer', ev.span, st)
            elif c == 'lit':
                if all_ or n != 1 or not self.ispart(st, key): self.bad('P03', 'step', 'the walk does not go to the child named by the part with one part fewer', ev.span, st)
            else: self.bad('P03', 'undecided', 'the walk goes on without having looked at the part', ev.span, st)
            if st.mon.get('E') == 1: self.bad('P03', 'extra', 'the walk goes on although the pattern is used up', ev.span, st)
        self.add(st, 'rec', ch[0])
    def ofchildren(self, st, key):
        for s in [key] + list(subterms(key)):
            if s.op in ('elem', 'other'):
                c = self.chain(st, s.a[0])
                if c is not None and c[1] == ('c',): return True
        return False
    def on_end(self, I, st, kind, val):
        if kind == 'panic': return
        self.n('paths checked')
        E = st.mon.get('E'); c = self.cls(st) if self.haspat else None
        own = E == 1 if self.haspat else True
        kids = (c == '#' or c == '+') and E != 1 if self.haspat else True
        if st.mon.get('allself'): return
        if self.haspat and c == '#': own = True
        if own and ('r',) not in self.get(st, 'out'):
            if self.optof(st, ('r',)) != 'None' and ('dead', ('r',)) not in self.get(st, 'ev'): self.bad(('P03', 'P04'), 'passed', 'a path of %s ends without having collected the retained message of a node that is there and was not found expired' % self.api, self.span, st)
        if kids:
            if ('c',) not in self.get(st, 'exh'): self.bad(('P03', 'P04'), 'children', 'a path of %s ends without having gone through all children' % self.api, self.span, st)
            for ch, e in self.get(st, 'drawn'):
                if ch == ('c',) and not any(e in subterms(r[1]) for r in self.get(st, 'rec')): self.bad(('P03', 'P04'), 'child', 'a child is passed over', self.span, st)
        if self.haspat and E != 1 and c == 'lit' and not self.get(st, 'rec') and not any(hm == 'miss' and self.ispart(st, k) for k, hm in self.get(st, 'hitmiss')): self.bad('P03', 'literal', 'the child named by the part is not followed', self.span, st)
        if self.haspat and E != 1 and c not in ('#', '+', 'lit'): self.bad('P03', 'undecided', 'a path ends without having looked at the part', self.span, st)
    def retstore(self, I, st, ch, val, span): self.bad('P03', 'retained', '%s changes a retained message' % self.api, span, st)

class CleanMon(Pruning, Tree):
    """expired retained messages are dropped, and only those"""
    PROP = 'P03'
    def retstore(self, I, st, ch, val, span):
        self.n('drops checked'); st.note('retained of %s dropped %s' % (self.name(ch[:-1]), where(span)))
        if not (val.op == 'agg' and val.a[1] == 'None'): self.bad('P03', 'changed', 'the clean-up changes a retained message', span, st)
        elif ('dead', ch) not in self.get(st, 'ev'): self.bad('P03', 'dropped', 'a retained message is dropped although its deadline was not found to have passed', span, st)
        st.mon['did'] = 1
    def recursed(self, I, st, ev, ch, a, val):
        self.n('steps checked'); self.add(st, 'recval', (strip(val), ch)); self.add(st, 'rec', ch)
    def on_end(self, I, st, kind, val):
        if kind == 'panic': return
        self.n('paths checked')
        did = st.mon.get('did') or any(v == 1 for c, v in self.get(st, 'rectrue'))
        v = I.decide(st, val) if val is not None else None
        if did and v == 0: self.bad('P04', 'answer', 'the clean-up reports that nothing changed although a retained message was dropped: the database keeps it', self.span, st)

def run_tree(P, rep, props):
    A = anchors(P, rep)
    if not A: return None
    ms = {}
    for f in P.libfns:
        if f.kind == 'assocfn' and f.selfty is not None and not f.trait and P.ty(f.selfty).get('def') == A['node']: ms[f.name] = f
    selfrec = lambda f: f in callees(P, f)
    recs = frozenset()
    def node(f):
        t = P.ty(f.locals[1][0]) if f.argc else {}
        if t.get('k') == 'ref': t = P.ty(t['args'][0])
        return t.get('def') == A['node']
    def ptypes(f): return ' '.join(P.tys(l[0]) for l in f.locals[1:f.argc + 1]).replace(' ', '')
    def go(cls, f, floor, *x):
        m = cls(P, f.name, A, f, *x); m.RECS = recs | {f.path}
        runone(P, rep, props, m, f, f.name, floor); return m
    seen = set()
    def want(pred, n, what):
        r = [f for f in ms.values() if node(f) and pred(f, ptypes(f))]
        entry = [f for f in r if any(f in callees(P, g) for g in P.libfns if g not in r)]
        if entry: r = [f for f in r if f in entry or selfrec(f)]        # the others are parts of these
        if not r: rep.violation('missing:' + what, 'no function found that %s' % what)
        return r
    touch = lambda f, op: any(op in p for p in [str(g.blocks) for g in [f] + [h for h in callees(P, f) if h.path.startswith(MODS)]])
    inline = lambda f: [f] + [h for h in callees(P, f) if h.path.startswith(MODS)]
    R = {'recs': recs, 'ms': ms}
    R['insert'] = want(lambda f, t: '[' in t and 'ClientId' in t and 'Vec<' + '' not in t and f.name.startswith(('insert', 'add', 'sub')), 1, 'adds a subscriber')
    R['remove'] = want(lambda f, t: '[' in t and 'ClientId' in t and f.name.startswith(('remove', 'del', 'unsub')), 1, 'removes a subscriber')
    R['match'] = want(lambda f, t: '[' in t and 'Vec<' in t and 'ClientId' in t, 1, 'matches a topic')
    R['setret'] = want(lambda f, t: '[' in t and 'Option<' in t and 'RetainedMessage' in t, 1, 'sets a retained message')
    R['collectpat'] = want(lambda f, t: '[' in t and 'Bytes' in t and 'Vec<' in t, 1, 'collects the retained messages of a pattern')
    R['collectall'] = want(lambda f, t: '[' not in t and 'Bytes' in t and 'Vec<' in t, 1, 'collects all retained messages')
    R['clean'] = want(lambda f, t: f.name.startswith(('cleanup', 'clean', 'expire', 'remove_expired', 'purge')) and '[' not in t, 1, 'drops expired retained messages')
    recs = frozenset(f.path for f in ms.values() if selfrec(f)) | {f.path for k in R if k not in ('recs', 'ms') for f in R[k]}
    recs = frozenset(p for p in recs if any(f.path == p and (selfrec(f) or any(f in callees(P, g) and g in callees(P, f) for g in P.libfns if g.path.startswith(MODS)) or f.path in {x.path for k in ('collectall',) for x in R[k]}) for f in ms.values()))
    R['recs'] = recs
    alls = {f.path for f in R['collectall']}
    for f in R['insert']: go(InsertMon, f, ('insertions checked', 'paths checked'))
    for f in R['remove']: go(RemoveMon, f, ('removals checked', 'steps checked', 'prunes checked'))
    for f in R['match']: go(MatchMon, f, ('results checked', 'steps checked'))
    for f in R['setret']: go(SetRetMon, f, ('writes checked',))
    for f in R['collectpat']: go(CollectMon, f, ('steps checked',), alls, True)
    for f in R['collectall']: go(CollectMon, f, ('steps checked', 'messages checked'), alls, False)
    for f in R['clean']: go(CleanMon, f, ('drops checked', 'steps checked'))
    R['A'] = A
    return R
# ---------------------------------------------------------------- the manager
from rules_qstore import StoreBase, whole, casts, sql
ROLES = ('insert', 'remove', 'match', 'setret', 'collectpat', 'collectall', 'clean')
class PM(StoreBase):
    """one operation of the publish/subscribe manager; walks over the tree are abstracted by what their own rules establish"""
    def __init__(self, P, api, A, fn, R, ops=()):
        Base.__init__(self, P, api); self.A = A; self.fn = fn; self.span = fn.span; self.R = R; self.ops = ops
        self.role = {f.path: r for r in ROLES for f in R[r]}
        self.p = {}
        for l in fn.locals[1:fn.argc + 1]:
            t = self.P.tys(l[0]).replace(' ', '')
            if not l[1] or l[1] == 'self': continue
            if 'ClientId' in t: self.p.setdefault('client', l[1])
            elif 'str' in t.lower() and 'sender' not in t.lower(): self.p.setdefault('text', l[1])
            elif t == 'bool': self.p.setdefault('retain', l[1])
            elif t.endswith('Bytes'): self.p.setdefault('data', l[1])
            elif 'Option<u64>' in t: self.p.setdefault('ttl', l[1])
            elif 'Sender' in t: self.p.setdefault('sender', l[1])
    def a(self, k): return mk('arg', self.p.get(k, '?' + k))
    def opaque(self, I, path):
        b = path.split('::{')[0]
        return b in self.role or b in self.R['persist'] or b in self.ops and b != self.fn.path
    # --- parts
    def splitof(self, t):
        for s in [t] + list(subterms(t)):
            if s.op == 'call' and nm(s) in ('split', 'split_terminator', 'splitn', 'rsplit', 'split_inclusive') and len(s.a[1]) >= 2: return s
    def slash(self, t):
        t = strip(t)
        return t.op == 'k' and t.a[1] in (47, '/') or show(t).strip('*"\'&[]') == '/'
    def partsof(self, I, st, x):
        """the text whose levels this list holds: a term, 'any' for the empty list, None when it is not such a list"""
        v = whole(I, st, x)
        if v.op == 'ref': v = whole(I, st, v)
        v = strip(v)
        if v.op == 'iterad' or v.op == 'call': v = v
        sp = None
        if v.op == 'vec':
            els = [z for z in v.a[1] if isinstance(z, Term)]
            for e in els:
                s = self.splitof(e)
                if s is None or strip(e).op not in ('elem', 'other'): return None
                sp = s
            if sp is None:
                for site, s in self.get(st, 'lists'):
                    if site == repr(v.a[2]): sp = s
            if sp is None: return 'any' if v.a[0] != 'N' else None
            if not els:
                for e in self.get(st, 'levels'):
                    if self.splitof(e) is sp: return None   # a level was seen and is missing
        else: sp = self.splitof(v)
        if sp is None or nm(sp) != 'split' or not self.slash(sp.a[1][1]): return None
        x = strip(sp.a[1][0])
        return strip(x.a[0][1]) if x.op == 'ref' and x.a[0][0] == 'H' and not x.a[0][2] else x
    # --- clients
    def isclients(self, loc):
        if loc[0] != 'H': return False
        f = lastfield(loc)
        if f is not None: return f[1] == self.R['clients']
        return any(s.op == 'fld' and s.a[1] == self.R['clients'] for s in [loc[1]] + list(subterms(loc[1])))
    def entkey(self, t):
        """the client whose registry entry this is part of"""
        for s in [t] + list(subterms(t)):
            if s.op == 'entry' and isinstance(s.a[0], tuple) and self.isclients(s.a[0]): return strip(s.a[1])
        return None
    def lock(self, st, what):
        used = {n for w, n in st.mon.get('locks', ())} | {n for w, l in self.get(st, 'did') for n in l}
        if isinstance(st.mon.get('marked'), frozenset): used |= st.mon['marked']
        k = 1
        while k in used: k += 1
        st.mon['locks'] = st.mon.get('locks', ()) + ((what, k),)
    def unlock(self, st, what):
        l = st.mon.get('locks', ())
        for x in reversed(l):
            if x[0] == what: l = tuple(y for y in l if y is not x); break
        st.mon['locks'] = l
    def live(self, st): return frozenset(k for w, k in st.mon.get('locks', ()))
    def treelocked(self, st, kind=None): return any(w.startswith('tree') and (kind is None or kind in w) for w, k in st.mon.get('locks', ()))
    def on_map(self, I, st, op, loc, key, was, val, ev):
        m = ev.name.split('::')[-1]
        k = strip(key) if key is not None else None
        if self.isclients(loc):
            st.note('registry %s %s %s' % (op, show(k)[:50], where(ev.span)))
            if op == 'hit':
                k is None or not track(k) or self.add(st, 'known', k); self.n('registry look-ups')
                if m in ('get', 'get_mut', 'entry'): self.lock(st, 'client')
            if op == 'miss' and track(k): self.add(st, 'unknown', k)
            if op == 'insert': self.inserted(I, st, k, val, ev)
            if op in ('remove', 'clear'): self.removed(I, st, k, ev)
        else:
            f = lastfield(loc) if loc[0] == 'H' else None
            if f and f[1] == self.R['subsf'] and op in ('insert', 'remove', 'clear', 'hit', 'miss'):
                c = self.entkey(loc[1])
                if op in ('insert', 'remove') : self.regop(I, st, op, c, k, ev)
                if op == 'clear': self.bad('P02', 'cleared', 'all subscriptions of a client are forgotten at once', ev.span, st)
                if op in ('hit', 'miss') and m in ('remove', 'take', 'insert', 'replace', 'contains') and k is self.a('text'): self.add(st, 'subwas', op)
                if op == 'miss' and m in ('remove', 'take'): self.regop(I, st, 'remove', c, k, ev)
        return (st,)
    def on_drop(self, I, st, t, ty, span):
        if t.op == 'entref' and self.entkey(t) is not None: self.unlock(st, 'client')
        if t.op == 'guard' and 'Lock' not in str(t.a[0]) or t.op == 'guard':
            if self.isguard(t): self.unlock(st, 'tree:' + str(t.a[2]))
    def isguard(self, t): return t.op == 'guard' and ('tree' in show(t) or self.A['node'].split('::')[-1] in str(t.a[1]) or self.R['tree'] in show(t))
    def inserted(self, I, st, k, val, ev):
        self.n('clients registered')
        if self.api != 'connect': self.bad('P02', 'registered', '%s registers a client' % self.api, ev.span, st); return
        if k is not self.a('client'): self.bad('P02', 'registered', 'another client than the one connecting is registered', ev.span, st)
        v = whole(I, st, val) if val is not None else None
        if v is None or v.op != 'agg': return
        f = dict(zip(v.a[2], v.a[3]))
        if strip(whole(I, st, f.get('sender', v))) is not self.a('sender'): self.bad('P01', 'sender', 'messages of a client are sent elsewhere than to the sender it connected with', ev.span, st)
        st.mon['registered'] = 1
    def removed(self, I, st, k, ev):
        self.n('clients removed')
        if k is None: self.bad('P02', 'clear', 'all clients are forgotten', ev.span, st); return
        if track(k): self.add(st, 'gone', k)
        if self.api == 'publish' and track(k) and k is st.mon.get('trk'): self.dropclient(I, st, k, ev.span)
        elif self.api == 'disconnect' and k is not self.a('client'): self.bad('P02', 'other', 'another client than the one disconnecting is removed', ev.span, st)
        elif self.api not in ('disconnect', 'publish'): self.bad('P02', 'dropped', '%s removes a client' % self.api, ev.span, st)
    def regop(self, I, st, op, c, k, ev):
        self.n('registry updates checked'); st.note('subscription %s in the registry %s' % (op, where(ev.span)))
        if {'subscribe': 'insert', 'unsubscribe': 'remove'}.get(self.api) != op:
            self.bad('P02', 'reg:' + op, '%s changes the subscriptions of a client in the registry' % self.api, ev.span, st); return
        if k is not self.a('text') or c is not None and c is not self.a('client'):
            self.bad('P02', 'regwhat', 'what is recorded in the registry is not the pattern of this client', ev.span, st); return
        self.add(st, 'did', ('reg', self.live(st)))
    def ismine(self, st, x): return x is self.a('client')
    def treeop(self, I, st, role, ev):
        a = ev.args
        x = self.partsof(I, st, a[1]); c = strip(whole(I, st, a[2])) if len(a) > 2 else None
        if c is not None and c.op == 'ref': c = strip(c.a[0][1]) if c.a[0][0] == 'H' else c
        self.n('tree updates checked'); st.note('tree %s %s' % (role, where(ev.span)))
        if not self.treelocked(st, 'write') : self.n('unguarded')
        if x is None: self.bad('P02', 'levels', 'the tree is updated at something else than the levels of the pattern split at every slash', ev.span, st); return
        if {'subscribe': 'insert', 'unsubscribe': 'remove'}.get(self.api) == role:
            if x != 'any' and x is not self.a('text'): self.bad('P02', 'where', 'the tree is updated for another pattern', ev.span, st)
            elif c is not self.a('client'): self.bad('P02', 'who', 'the tree is updated for another client', ev.span, st)
            else: self.add(st, 'did', ('tree', self.live(st)))
        elif role == 'remove' and self.get(st, 'gone'):
            if c not in self.get(st, 'gone') : self.bad('P02', 'who', 'the tree is updated for another client', ev.span, st)
            else:
                self.add(st, 'freed', x)
        elif x == 'any' or not track(x): pass
        else: self.bad('P02', 'tree:' + role, '%s changes the tree (%s)' % (self.api, role), ev.span, st)
    def track(self, t): return track(t)
    def on_draw(self, I, st, e, ev):
        s = self.splitof(e)
        if s is not None and e.op == 'elem' and track(e): self.add(st, 'levels', e)
        src = e.a[0] if e.op in ('elem', 'other') else None
        if src is None: return
        if self.splitof(src) is None and any(x.op == 'fld' and x.a[1] == self.R['subsf'] for x in [src] + list(subterms(src))) and self.entkey(src) is not None:
            if e.op == 'elem': self.add(st, 'subs', e); self.n('subscriptions of a leaving client')
            st.mon['walk'] = 1
        mv = st.mon.get('matchval')
        if mv is not None and e.op == 'elem' and any(x is mv for x in subterms(e)): st.mon['trk'] = e
    # --- calls
    def on_call(self, I, st, ev): pass
    def on_ret(self, I, st, ev, val):
        m = ev.name.split('::')[-1]; o = ev.name.split('::')[0]; a = ev.args
        b = ev.res.split('::{')[0] if ev.loc and isinstance(ev.res, str) else None
        if b in self.role: return self.rolecall(I, st, self.role[b], ev, val)
        if b in self.ops and b != self.fn.path: return self.opcall(I, st, b.split('::')[-1], ev, val)
        if m in ('write', 'read', 'upgradable_read', 'try_write', 'try_read') and val.op == 'guard' and self.isguard(val): self.lock(st, 'tree:' + str(val.a[2]))
        if o == 'mem' and m == 'drop' and a and a[0].op == 'guard' and self.isguard(a[0]): pass
        if val.op == 'vec':
            for x in a:
                w = whole(I, st, x)
                s = self.splitof(w)
                if s is not None:
                    bad = [y.a[0] for y in [w] + list(subterms(w)) if y.op == 'iterad' and y.a[0] not in ('map', 'cloned', 'copied', 'inspect')]
                    if bad: self.bad('P02' if self.api != 'publish' else 'P01', 'levels', 'levels are left out or changed when the text is split (%s)' % bad[0], ev.span, st)
                    self.rm(st, 'lists', lambda z: z[0] == repr(val.a[2])); self.add(st, 'lists', (repr(val.a[2]), s))
        if m in ('push', 'push_back') and len(a) == 2:
            s = self.splitof(a[1])
            w = whole(I, st, a[0])
            if s is not None and w.op == 'vec': self.add(st, 'lists', (repr(w.a[2]), s))
        if m in ('reverse', 'sort', 'sort_unstable', 'dedup', 'retain', 'pop', 'truncate', 'insert', 'swap', 'remove', 'rotate_left', 'drain') and o in ('Vec', 'slice') and a:
            x = self.partsof(I, st, a[0])
            if x not in (None, 'any'): self.bad('P01' if self.api == 'publish' else 'P02', 'levels', 'the levels of the text are changed before they are used (%s)' % m, ev.span, st)
        if m in ('sort', 'sort_unstable', 'sort_by', 'sort_by_key') and a: st.mon['sorted'] = 1
        if m in ('dedup',) and a and st.mon.get('sorted'): st.mon['uniq'] = 1
        if val.op == 'vec' and st.mon.get('trk') is not None and ev.dty is not None and 'Set<' in self.P.tys(ev.dty) and any(st.mon['trk'] in list(subterms(y)) or y is st.mon['trk'] for y in val.a[1] if isinstance(y, Term)): st.mon['uniq'] = 1
        if m in ('send', 'try_send', 'blocking_send') and len(a) == 2:
            k = self.entkey(a[0]) or self.entkey(whole(I, st, a[0]))
            if k is not None or 'sender' in show(a[0]): self.sent(I, st, k, a[1], val, ev)
        if m == 'is_empty' and a and val.op == 'k' and val.a[1] == 1 and whole(I, st, a[0]).op == 'vec' and 'match' not in st.mon: st.mon['nolevels'] = 1   # a text always has at least one level
        if m in ('is_ok', 'is_err') and a and val.op == 'k':
            t = strip(whole(I, st, a[0]))
            self.outcome(st, t, (m == 'is_ok') == bool(val.a[1]))
        if o.startswith('Atomic'): self.atomic(I, st, m, ev, val)
        if m in ('next', 'for_each', 'extend', 'fold', 'collect', 'count') and a:
            w = whole(I, st, a[0])
            if m != 'next' or val.op == 'agg' and val.a[1] == 'None':
                if any(x.op == 'fld' and x.a[1] == self.R['subsf'] for x in [w] + list(subterms(w))) and self.splitof(w) is None: st.mon['walked'] = 1
                for tag in ('retsite', 'matchsite'):
                    if st.mon.get(tag) is not None and repr(st.mon[tag]) in [repr(x.a[2]) for x in [w] + list(subterms(w)) if x.op == 'vec']: st.mon[tag + 'done'] = 1
        self.more(I, st, ev, val)
    def more(self, I, st, ev, val): pass
    def atomic(self, I, st, m, ev, val):
        if m == 'store' and len(ev.args) >= 2 and ev.args[1].op == 'k':
            if ev.args[1].a[1] == 1: self.marked(I, st, ev)
            else: self.cleared(I, st, ev)
        elif m == 'fetch_or' and ev.args[1].op == 'k' and ev.args[1].a[1] == 1 or m == 'swap' and ev.args[1].op == 'k' and ev.args[1].a[1] == 1: self.marked(I, st, ev)
    def marked(self, I, st, ev):
        st.note('marked to be saved %s' % where(ev.span)); self.n('marks')
        st.mon['marked'] = self.live(st) or 1
        st.mon.pop('unmarked', None)
    def cleared(self, I, st, ev): self.bad('P04', 'cleared', '%s clears the mark that retained messages have to be saved' % self.api, ev.span, st)
    def outcome(self, st, t, ok):
        for s in [t] + list(subterms(t)):
            for v, k in self.get(st, 'sends'):
                if v is s:
                    if not ok: self.add(st, 'dead', k)
                    return
    def on_split(self, I, st, v, variant):
        if variant in ('Ok', 'Err'): self.outcome(st, strip(v), variant == 'Ok')
        if strip(v) is self.a('ttl') and 'ttl' in self.p: st.mon['ttl'] = variant
        if nm(strip(v)) == 'checked_add' and variant == 'None': st.mon['never'] = 1
        self.split2(I, st, v, variant)
    def split2(self, I, st, v, variant): pass
    def on_branch(self, I, st, term, val, span):
        if term.op == 'discr':
            for ad in ((I.dadt[term],) if I.dadt.get(term) in (OPT, RES) else (OPT, RES)):
                v = I.variant_of(st, term.a[0], ad)
                if v: self.on_split(I, st, term.a[0], v); break
            return
        t, v = term, val
        if t.op == 'un' and t.a[0] == 'Not' and v in (0, 1): t, v = t.a[1], 1 - v
        if t.op == 'un' and t.a[0] == 'is_empty' and v == 1 and any(x.op == 'fld' and x.a[1] == self.R['subsf'] for x in subterms(t)): st.mon['nosubs'] = 1
        t, v = term, val
        while t.op == 'un' and t.a[0] == 'Not': t, v = t.a[1], None if v is None else 1 - v
        t = strip(t)
        if v in (0, 1):
            if 'retain' in self.p and t is self.a('retain'): st.mon['retain'] = v
            if t.op == 'un' and t.a[0] == 'is_empty' and 'data' in self.p:
                x = strip(t.a[1])
                if x.op == 'ref' and x.a[0][0] == 'H' and not x.a[0][2]: x = strip(x.a[0][1])
                if x is self.a('data') or any(s is self.a('data') for s in subterms(t)): st.mon['empty'] = v
            if t.op == 'call' and nm(t) == 'is_empty' and any(s is self.a('data') for s in subterms(t)): st.mon['empty'] = v
            k = st.mon.get('trk')
            if t.op == 'call' and nm(t) == 'insert' and k is not None and any(s is k for s in subterms(t)):
                if v == 0: st.mon['dup'] = 1
                else: st.mon['uniq'] = 1
            if t.op == 'call' and nm(t) == 'contains' and k is not None and any(s is k for s in subterms(t)):
                if v == 1: st.mon['dup'] = 1
                else: st.mon['uniq'] = 1
            if t.op == 'call' and nm(t) in ('insert', 'remove') and any(s is self.a('text') for s in subterms(t)): self.add(st, 'subwas', 'hit' if (v == 0) == (nm(t) == 'insert') else 'miss')
            if t.op == 'call' and nm(t) in ('is_ok', 'is_err'): self.outcome(st, t, (nm(t) == 'is_ok') == bool(v))
        if 'data' in self.p:
            for o, x, y in decided(term, val):
                x, y = strip(x), strip(y)
                for p, q, l in ((x, y, 1), (y, x, 0)):
                    if p.op == 'len' and any(s is self.a('data') for s in subterms(p)) and q.op == 'k' and q.a[1] == 0:
                        if o in ('Eq', 'Ne'): st.mon['empty'] = int(o == 'Eq')
                        elif o == 'Lt' and not l: st.mon['empty'] = 0
                        elif o == 'Le' and l: st.mon['empty'] = 1
        self.branch2(I, st, term, val, span)
    def branch2(self, I, st, term, val, span): pass
    def out(self, I, st, ev, what, elem):
        """the list an operation fills gets one followed element"""
        for x in ev.args[1:]:
            if x.op == 'ref' and 'Vec<' in self.P.tys(self.P.fns[ev.res].locals[1 + ev.args.index(x)][0]):
                w = whole(I, st, x)
                loc = x.a[0]; n = 0
                while I.readloc(st, loc).op == 'ref' and n < 4: loc = I.readloc(st, loc).a[0]; n += 1
                I.writeloc(st, loc, mk('vec', 'N', (elem,), w.a[2] if w.op == 'vec' else ev.site))
                st.mon[what + 'site'] = w.a[2] if w.op == 'vec' else ev.site
                return True
        return False
    def rolecall(self, I, st, role, ev, val):
        a = ev.args
        if role in ('insert', 'remove'): return self.treeop(I, st, role, ev)
        if role == 'match': return self.matched(I, st, ev, val)
        if role == 'setret': return self.setret(I, st, ev)
        if role == 'collectpat': return self.collectpat(I, st, ev, val)
        if role == 'collectall': return self.collectall(I, st, ev, val)
        if role == 'clean': return self.cleaned(I, st, ev, val)
    def matched(self, I, st, ev, val):
        self.n('matches checked'); st.note('match %s' % where(ev.span))
        x = self.partsof(I, st, ev.args[1])
        if self.api != 'publish': return
        if x is None or x != 'any' and x is not self.a('text'): self.bad('P01', 'topic', 'matching is done for something else than the levels of the topic split at every slash', ev.span, st)
        if st.mon.get('match'): self.bad('P01', 'twice', 'a message is matched twice', ev.span, st)
        st.mon['match'] = 1
        if st.mon.get('retain') == 1 and not st.mon.get('setret'): self.bad('P03', 'order', 'subscribers are matched before the message is retained: one that subscribes in between gets neither', ev.span, st)
        e = mk('elem', mk('arg', 'matched'), '*', 0)
        if self.out(I, st, ev, 'match', e): st.mon['trk'] = e
        else: st.mon['matchval'] = val
    def dropclient(self, I, st, k, span):
        self.n('disconnects of dead clients')
        if k is st.mon.get('trk') and k not in self.get(st, 'dead') and k not in self.get(st, 'unknown'): self.bad(('P01', 'P02'), 'kicked', 'a client is disconnected although sending to it did not fail', span, st)
    def opcall(self, I, st, name, ev, val):
        if name == 'disconnect' and len(ev.args) == 2:
            k = strip(whole(I, st, ev.args[1]))
            if k.op == 'ref' and k.a[0][0] == 'H': k = strip(k.a[0][1])
            self.dropclient(I, st, k, ev.span)
        elif name not in ('new',): self.n('nested operations')
    def sent(self, I, st, k, msg, val, ev):
        self.n('sends checked'); st.note('send to %s %s' % (show(k)[:40] if k is not None else '?', where(ev.span)))
        v = whole(I, st, msg)
        if v.op == 'ref': v = whole(I, st, v)
        v = strip(v)
        f = [strip(whole(I, st, y)) for y in v.a[3][:2]] if v.op == 'agg' else None
        if self.api == 'publish':
            if f is None or f[0] is not self.a('text') or f[1] is not self.a('data'): self.bad('P01', 'message', 'what is sent is not the published topic and data', ev.span, st)
            if k is not None and k is st.mon.get('trk'):
                if st.mon.get('sentto'): self.bad('P01', 'double', 'a subscriber is sent the same message twice', ev.span, st)
                if not st.mon.get('uniq'): self.bad('P01', 'duplicates', 'a client that matches by several patterns is sent the message once for each of them', ev.span, st)
                st.mon['sentto'] = 1
            elif k is None or track(k): self.bad('P01', 'whom', 'the message is sent to somebody who was not matched', ev.span, st)
        elif self.api == 'subscribe':
            t = st.mon.get('ret')
            if k is not self.a('client'): self.bad('P03', 'whom', 'a retained message is sent to somebody else than the subscribing client', ev.span, st)
            elif t is not None and f is not None and all(track(y) for y in f):
                if f[0] is not strip(t.a[3][0]) or f[1] is not strip(t.a[3][1]): self.bad('P03', 'message', 'what is sent is not the retained message under its own topic', ev.span, st)
                if not self.treelocked(st): self.bad('P03', 'late', 'a retained message is sent after the tree was unlocked: a newer message may have been delivered before it', ev.span, st)
                st.mon['sentto'] = 1
            elif f is None or not any(s.op == 'other' for y in f for s in [y] + list(subterms(y))): self.bad('P03', 'message', 'what is sent to a new subscriber is not a retained message', ev.span, st)
        else: self.bad('P01', 'sends', '%s sends messages' % self.api, ev.span, st)
        if k is not None and track(k): self.add(st, 'sends', (val, k))
    def setret(self, I, st, ev):
        a = ev.args; self.n('retained writes checked')
        x = self.partsof(I, st, a[1]); v = whole(I, st, a[2])
        st.note('retained message set %s' % where(ev.span))
        if self.api != 'publish': self.bad('P03', 'setret', '%s changes retained messages' % self.api, ev.span, st); return
        if st.mon.get('retain') != 1: self.bad('P03', 'unasked', 'a message is retained although that was not asked for', ev.span, st)
        if x is None or x != 'any' and x is not self.a('text'): self.bad('P03', 'topic', 'the message is retained under something else than the levels of its topic split at every slash', ev.span, st)
        if not self.treelocked(st, 'write'): self.n('unguarded')
        if st.mon.get('match'): self.bad('P03', 'order', 'subscribers are matched before the message is retained: one that subscribes in between gets neither', ev.span, st)
        st.mon['setret'] = st.mon.get('setret', 0) + 1
        mk_ = st.mon.get('marked')
        if not (isinstance(mk_, frozenset) and mk_ & self.live(st)): st.mon['unmarked'] = 1
        k = I.variant_of(st, v, OPT) if v.op != 'agg' else v.a[1]
        e = st.mon.get('empty')
        if k == 'None':
            if e != 1: self.bad('P03', 'erased', 'the retained message of a topic is removed although the data is not empty', ev.span, st)
        elif k == 'Some':
            if e != 0: self.bad('P03', 'kept', 'empty data is retained instead of removing the retained message', ev.span, st)
            self.msg(I, st, whole(I, st, v.a[3][0]) if v.op == 'agg' else v, ev.span)
        else: self.bad('P03', 'odd', 'what is retained is not known: %s' % show(v)[:80], ev.span, st)
    def deadline(self, I, st, d):
        """('none',) | (lifetime in seconds, is it exact, panics)"""
        d = strip(d)
        if d.op == 'agg' and d.a[1] == 'None': return None
        if d.op == 'agg' and d.a[1] == 'Some': d = strip(d.a[3][0])
        while d.op in ('payload', 'var', 'fld', 'proj') and nm(d) not in ('add', 'checked_add'): d = strip(d.a[0])
        if nm(d) not in ('add', 'checked_add') or len(args(d)) != 2 or not isnow(args(d)[0]): return 'odd'
        s = args(d)[1]
        if nm(s) != 'from_secs': return 'odd'
        return args(s)[0], nm(d) == 'add'
    def secsnow(self, t):
        t = strip(t)
        if t.op == 'cast': t = strip(t.a[1])
        return nm(t) == 'as_secs' and ('SystemTime' in show2(t) or 'duration_since' in show2(t) or 'elapsed' in show2(t))
    def msg(self, I, st, v, span):
        v = strip(v)
        if v.op != 'agg' or len(v.a[3]) < 3: self.bad('P03', 'value', 'what is retained is not a message built from the published data', span, st); return
        f = {n: whole(I, st, x) for n, x in zip(v.a[2], v.a[3])}
        dn = [n for n in f if 'expire' in n and 'unix' not in n]; un = [n for n in f if 'unix' in n]; da = [n for n in f if n not in dn + un]
        if strip(f[da[0]]) is not self.a('data'): self.bad('P03', 'value', 'what is retained is not the published data', span, st)
        self.n('deadlines checked')
        def isttl(t):
            t = strip(t)
            x = t
            while x.op in ('payload', 'var', 'fld', 'proj', 'deref') and x is not self.a('ttl'): x = strip(x.a[0])
            if x is self.a('ttl') and t is not x: return st.mon.get('ttl') in ('Some', None)
            return t.op == 'fld' and t.a[1] == 'default_retained_ttl_seconds' and st.mon.get('ttl') in ('None', None)
        d = self.deadline(I, st, f[dn[0]])
        if d is None:
            if not st.mon.get('never'): self.bad('P03', 'deadline', 'a retained message gets no deadline', span, st)
        elif d == 'odd' or not isttl(d[0]): self.bad('P03', 'deadline', 'the deadline of a retained message is not the time of the publish plus the given (or the default) number of seconds: %s' % show(f[dn[0]])[:120], span, st)
        elif d[1]: self.bad('P03', 'overflow', 'the deadline is computed with an addition that panics when the given lifetime does not fit', span, st)
        u = strip(f[un[0]])
        if u.op == 'agg' and u.a[1] == 'Some': u = strip(u.a[3][0])
        ok = False
        if nm(u) in ('saturating_add', 'checked_add') and len(args(u)) == 2: xs = args(u); ok = True
        elif u.op == 'bin' and u.a[0].startswith('Add'): xs = [strip(u.a[1]), strip(u.a[2])]; ok = None
        else: xs = []
        if ok is None: self.bad('P04', 'overflow', 'the stored deadline is computed with an addition that may overflow', span, st)
        if not xs or not any(self.secsnow(x) for x in xs) or not any(isttl(x) for x in xs): self.bad('P04', 'unix', 'the deadline stored on disk is not the wall-clock time of the publish plus the lifetime: %s' % show(u)[:120], span, st)
    def collectpat(self, I, st, ev, val):
        self.n('collections checked'); st.note('collect retained messages %s' % where(ev.span))
        x = self.partsof(I, st, ev.args[1])
        if self.api == 'subscribe':
            if x is None or x != 'any' and x is not self.a('text'): self.bad('P03', 'pattern', 'retained messages are collected for something else than the pattern subscribed to', ev.span, st)
            if not any(d[0] == 'tree' for d in self.get(st, 'did')) and 'hit' not in self.get(st, 'subwas'): self.bad('P03', 'order', 'retained messages are collected before the subscription is in the tree: a message published in between is missed', ev.span, st)
        st.mon['collected'] = 1
        e = mk('agg', 'tuple', '', ('0', '1'), (mk('elem', mk('arg', 'collected'), 'part0', 0), mk('elem', mk('arg', 'collected'), 'part1', 0)))
        if self.root(I, st, ev): self.bad('P03', 'root', 'collecting starts with a topic that is not the root', ev.span, st)
        if self.out(I, st, ev, 'ret', e): st.mon['ret'] = e
        else: self.bad('P03', 'odd', 'the collected messages are not understood', ev.span, st)
    def root(self, I, st, ev):
        for x, l in zip(ev.args[1:], self.P.fns[ev.res].locals[2:]):
            if 'Option<&' in self.P.tys(l[0]) and 'str' in self.P.tys(l[0]):
                w = whole(I, st, x)
                return not (w.op == 'agg' and w.a[1] == 'None')
        return False
    def collectall(self, I, st, ev, val): pass
    def cleaned(self, I, st, ev, val): pass
    def on_end(self, I, st, kind, val):
        if kind == 'panic': return
        self.n('paths checked')
        c = self.a('client')
        if self.api in ('subscribe', 'unsubscribe'):
            did = self.get(st, 'did'); known = c in self.get(st, 'known')
            reg = [l for w, l in did if w == 'reg']; tree = [l for w, l in did if w == 'tree']
            was = self.get(st, 'subwas')
            excused = ('hit' if self.api == 'subscribe' else 'miss') in was
            if not known:
                if tree or reg: self.bad('P02', 'stranger', '%s changes the tree for a client that is not registered: nothing removes that again' % self.api, self.span, st)
                elif c not in self.get(st, 'unknown'): self.bad('P02', 'ignored', '%s returns without having looked the client up' % self.api, self.span, st)
            else:
                if not reg and not excused: self.bad('P02', 'noreg', '%s returns without having updated the subscriptions in the registry' % self.api, self.span, st)
                if not tree and not excused: self.bad('P02', 'notree', '%s returns without having updated the tree' % self.api, self.span, st)
                if reg and tree and not any(x & y for x in reg for y in tree): self.bad('P02', 'apart', 'the registry and the tree are updated in separate steps: a concurrent operation for the same client leaves them disagreeing', self.span, st)
            if self.api == 'subscribe' and known:
                if not st.mon.get('collected'): self.bad('P03', 'nocollect', 'a new subscriber does not get the retained messages', self.span, st)
                elif st.mon.get('ret') is not None and not st.mon.get('sentto') and c not in self.get(st, 'dead'): self.bad('P03', 'unsent', 'a retained message that was collected is not sent to the new subscriber', self.span, st)
        if self.api == 'disconnect':
            if c in self.get(st, 'gone'):
                if not st.mon.get('walked') and not st.mon.get('nosubs'): self.bad('P02', 'left', 'a client is removed without going through all its subscriptions: they stay in the tree', self.span, st)
                for e in self.get(st, 'subs'):
                    if e not in self.get(st, 'freed'): self.bad('P02', 'kept', 'a subscription of a leaving client stays in the tree', self.span, st)
            elif c not in self.get(st, 'unknown'): self.bad('P02', 'stays', 'a disconnecting client stays registered', self.span, st)
        if self.api == 'connect' and not st.mon.get('registered') : self.bad('P02', 'noconnect', 'a connecting client is not registered', self.span, st)
        if self.api == 'publish' and not st.mon.get('nolevels'):
            if not st.mon.get('match'): self.bad('P01', 'unmatched', 'publish returns without looking for subscribers', self.span, st)
            if st.mon.get('retain') == 1 and st.mon.get('setret') != 1: self.bad('P03', 'unretained', 'publish returns without having retained the message (or removed the retained one)', self.span, st)
            if st.mon.get('retain') is None: self.bad('P03', 'ignored', 'publish does not look at whether the message is to be retained', self.span, st)
            if st.mon.get('setret') and st.mon.get('unmarked'): self.bad('P04', 'unmarked', 'a retained message changed and is not marked to be saved afterwards', self.span, st)
            t = st.mon.get('trk')
            if t is not None and not st.mon.get('sentto') and not st.mon.get('dup') and t not in self.get(st, 'unknown'): self.bad('P01', 'unsent', 'a matching subscriber is not sent the message', self.span, st)
def show2(t):
    r = []
    for s in [t] + list(subterms(t)):
        if s.op == 'call': r.append(str(s.a[0]))
    return ' '.join(r)
def track(x):
    return not any(s.op == 'other' for s in [x] + list(subterms(x)))

class TaskMon(PM):
    """a background task: a cleared mark is followed by a save, a clean-up that dropped something by a mark"""
    def cleared(self, I, st, ev): self.close(I, st, ev.span); st.mon['claimed'] = 1; st.mon.pop('snap', None); self.n('marks cleared')
    def atomic(self, I, st, m, ev, val):
        if m in ('swap', 'fetch_and', 'compare_exchange', 'compare_exchange_weak', 'take') and any(x.op == 'k' and x.a[1] == 0 for x in ev.args[1:]) and not (m.startswith('compare') and ev.args[1].a[1] == 0):
            self.close(I, st, ev.span); st.mon['swap'] = val; st.mon['claimed'] = 1; st.mon.pop('snap', None); self.n('marks cleared')
            if val.op == 'k' and val.a[1] == 0: st.mon.pop('claimed', None)
        else: PM.atomic(self, I, st, m, ev, val)
    def marked(self, I, st, ev):
        PM.marked(self, I, st, ev)
        if st.mon.get('failed') or not st.mon.get('saved'): st.mon.pop('claimed', None)
        st.mon.pop('need', None)
    def override(self, I, st, ev):
        # the snapshot may be empty: then the removal of the last message still has to be saved
        if ev.name.split('::')[-1] in ('is_empty', 'len') and len(ev.args) == 1 and st.mon.get('snap') is not None:
            w = whole(I, st, ev.args[0])
            if w.op == 'vec' and any(x is st.mon['snap'] for x in w.a[1]): return mk('top', 'snap' + ev.name, ev.site)
    def collectall(self, I, st, ev, val):
        st.note('snapshot %s' % where(ev.span))
        if self.root(I, st, ev): self.bad('P04', 'root', 'collecting starts with a topic that is not the root', ev.span, st)
        e = mk('elem', mk('arg', 'collected'), '*', 0)
        if self.out(I, st, ev, 'ret', e): st.mon['snap'] = e
        else: st.mon['snapval'] = val
    def more(self, I, st, ev, val):
        b = ev.res.split('::{')[0] if ev.loc and isinstance(ev.res, str) else None
        if b in self.R['flush']:
            self.n('saves checked'); st.note('save %s' % where(ev.span))
            e = st.mon.get('snap'); got = [whole(I, st, x) for x in ev.args]
            if e is None: self.bad('P04', 'stale', 'what is saved was not collected after the mark was cleared: a change in between is not saved', ev.span, st)
            elif not any(e is z for w in got for z in [w] + list(subterms(w))): self.bad('P04', 'lost', 'a retained message that was collected is not among what is saved', ev.span, st)
            st.mon['saved'] = val; st.mon.pop('failed', None)
        m = ev.name.split('::')[-1]
        if m in ('is_ok', 'is_err') and ev.args and val.op == 'k' and strip(whole(I, st, ev.args[0])) is st.mon.get('saved'): self.result(st, (m == 'is_ok') == bool(val.a[1]))
    def result(self, st, ok):
        if ok: st.mon.pop('claimed', None); st.mon.pop('saved', None)
        else: st.mon['failed'] = 1
    def split2(self, I, st, v, variant):
        if strip(v) is st.mon.get('saved') and variant in ('Ok', 'Err'): self.result(st, variant == 'Ok')
        x = st.mon.get('swap')
        if x is not None and strip(v) is x and variant == 'Err': st.mon.pop('claimed', None)
    def branch2(self, I, st, term, val, span):
        t, v = term, val
        while t.op == 'un' and t.a[0] == 'Not': t, v = t.a[1], None if v is None else 1 - v
        if t is st.mon.get('swap') and v == 0: st.mon.pop('claimed', None)
        if t is st.mon.get('clval') and v == 0: st.mon.pop('need', None)
        if t.op == 'call' and nm(t) in ('is_ok', 'is_err') and st.mon.get('saved') in list(subterms(t)) and v in (0, 1): self.result(st, (nm(t) == 'is_ok') == bool(v))
    def cleaned(self, I, st, ev, val):
        self.n('clean-ups checked'); st.mon['need'] = 1; st.mon['clval'] = val; st.note('clean-up %s' % where(ev.span))
    def close(self, I, st, span):
        if st.mon.get('claimed'): self.bad('P04', 'unsaved', 'the mark that retained messages have to be saved was cleared and the save did not succeed: the change is not saved until the next one', span, st)
        if st.mon.get('need'): self.bad('P04', 'unmarked', 'retained messages were dropped and not marked to be saved', span, st)
        for k in ('claimed', 'need', 'swap', 'snap', 'saved', 'failed', 'clval', 'marked', 'retsite', 'retsitedone'): st.mon.pop(k, None)
    def on_yield(self, I, st, *a): self.close(I, st, None)
    def on_end(self, I, st, kind, val):
        if kind != 'panic': self.close(I, st, None)

class BootMon(PM):
    """the constructor puts every stored message back"""
    def more(self, I, st, ev, val):
        b = ev.res.split('::{')[0] if ev.loc and isinstance(ev.res, str) else None
        if b in self.R['load']: st.mon['loaded'] = val; self.n('loads checked')
        m = ev.name.split('::')[-1]
        if ev.args and st.mon.get('loaded') is not None and (m == 'next' and val.op == 'agg' and val.a[1] == 'None' or m in ('for_each', 'fold', 'try_for_each')):
            w = whole(I, st, ev.args[0])
            if any(z is st.mon['loaded'] for z in [w] + list(subterms(w))) and self.splitof(w) is None: st.mon['walked'] = 1
    def split2(self, I, st, v, variant):
        if strip(v) is st.mon.get('loaded'): st.mon['loadok'] = variant
    def on_draw(self, I, st, e, ev):
        PM.on_draw(self, I, st, e, ev)
        l = st.mon.get('loaded')
        if l is not None and e.op == 'elem' and track(e) and any(z is l for z in subterms(e)) and self.splitof(e) is None:
            self.add(st, 'drawn', e); self.n('stored messages followed')
    def setret(self, I, st, ev):
        x = self.partsof(I, st, ev.args[1]); v = whole(I, st, ev.args[2])
        self.n('retained writes checked')
        if x is None: self.bad('P04', 'levels', 'a stored message is put back under something else than the levels of its topic split at every slash', ev.span, st); return
        k = v.a[1] if v.op == 'agg' else I.variant_of(st, v, OPT)
        if k != 'Some': self.bad('P04', 'erased', 'a stored message is not put back', ev.span, st); return
        m = strip(whole(I, st, v.a[3][0]) if v.op == 'agg' else v)
        if m.op not in ('elem', 'other', 'fld', 'payload', 'proj'): self.bad('P04', 'changed', 'a stored message is changed when it is put back', ev.span, st)
        self.add(st, 'put', (x, m))
    def on_end(self, I, st, kind, val):
        if kind == 'panic': return
        self.n('paths checked')
        if st.mon.get('loaded') is not None and st.mon.get('loadok') != 'Err':
            if not st.mon.get('walked'): self.bad('P04', 'part', 'not all stored messages are put back', self.span, st)
            def base(t):
                while t.op in ('fld', 'payload', 'proj', 'var', 'deref') or t.op == 'elem' and str(t.a[1]).startswith('part') : t = t.a[0]
                return strip(t)
            for e in self.get(st, 'drawn'):
                if not any((x == 'any' or base(x) is base(e)) and base(m) is base(e) for x, m in self.get(st, 'put')): self.bad('P04', 'skipped', 'a stored message is not put back', self.span, st)
        if st.mon.get('loaded') is None: st.mon['none'] = 1; self.n('starts without stored messages')

class SaveMon(StoreBase):
    """persistence::flush: everything given is in the table afterwards, nothing else, in one transaction"""
    def __init__(self, P, api, fn, out):
        Base.__init__(self, P, api); self.span = fn.span; self.OUT = out
        self.arg = [l[1] for l in fn.locals[1:fn.argc + 1] if l[1] and ('[' in P.tys(l[0]) or 'Vec<' in P.tys(l[0]) or 'Iter' in P.tys(l[0]))]
    def override(self, I, st, ev):
        n = ev.name.split('::')
        if n[-1] in ('execute', 'insert', 'raw_execute') and n[0] in ('Statement', 'CachedStatement'): return mk('call', ev.full, tuple(I.deloc(st, a) for a in ev.args), ev.site)
    def mine(self, t):
        return any(s.op == 'arg' and s.a[0] in self.arg for s in [t] + list(subterms(t)))
    def comp(self, t):
        """(element, component) of a value"""
        t = strip(t); c = None
        while True:
            if t.op in ('fld', 'payload', 'proj', 'var', 'deref', 'cast', 'valbox', 'vref'):
                if t.op == 'fld': c = t.a[1]
                t = t.a[1] if t.op == 'cast' else t.a[0]
            elif t.op == 'ref' and t.a[0][0] == 'H':
                f = [p for p in t.a[0][2] if p[0] == 'f']
                if f: c = f[0][1]
                t = t.a[0][1]
            elif t.op in ('elem', 'other') and str(t.a[1]).startswith('part'): c = t.a[1][4:]; t = t.a[0]
            else: break
            t = strip(t)
        return t, c
    def on_draw(self, I, st, e, ev):
        if e.op == 'elem' and track(e) and self.mine(e): self.add(st, 'drawn', e); self.n('messages followed')
    def on_ret(self, I, st, ev, val):
        m = ev.name.split('::')[-1]; a = ev.args
        if m in ('transaction', 'unchecked_transaction', 'transaction_with_behavior', 'savepoint'): st.mon['tx'] = 1
        if m == 'next' and val.op == 'agg' and val.a[1] == 'None' and a or m in ('for_each', 'try_for_each') and a:
            w = whole(I, st, a[0])
            if self.mine(w): st.mon['exh'] = 1
        if m == 'commit':
            st.mon['commit'] = val
            if not st.mon.get('exh') or not st.mon.get('deleted'): self.bad('P04', 'early', 'the save is committed before everything is written', ev.span, st)
        s = self.statement(I, st, ev, val)
        if s is None: return
        q, t, ps = s
        if q and q[0] == 'other': return
        self.n('statements checked'); st.note('%s %s' % (t[:90], where(ev.span)))
        if q is None or ps is None: self.bad('P04', 'sql', 'a statement whose effect is not understood: %s' % t[:120], ev.span, st); return
        if not st.mon.get('tx'): self.bad('P04', 'notx', 'the stored messages are replaced outside a transaction: a crash in between loses them', ev.span, st)
        if st.mon.get('commit') is not None: self.bad('P04', 'late', 'a statement runs after the commit', ev.span, st)
        if q[0] == 'del' and q[2] is None:
            st.mon['deleted'] = val
            if self.get(st, 'ins'): self.bad('P04', 'order', 'the table is emptied after messages were written', ev.span, st)
        elif q[0] == 'ins':
            if st.mon.get('deleted') is None and q[3] != 'REPLACE': self.bad('P04', 'order', 'messages are written to a table that was not emptied', ev.span, st)
            if q[3] == 'IGNORE': self.bad('P04', 'ignored', 'a message that conflicts is silently not written', ev.span, st)
            cols = {}; es = set()
            for c, sl in q[2].items():
                if sl[0] != '?' or sl[1] >= len(ps): self.bad('P04', 'param', 'column %s is not written with a value of the message' % c, ev.span, st); continue
                e, k = self.comp(ps[sl[1]])
                x = strip(ps[sl[1]])
                if k is None or e.op not in ('elem', 'other') or x.op in ('bin', 'call'): self.bad('P04', 'param', 'column %s is not written with a value of the message (%s)' % (c, show(x)[:60]), ev.span, st)
                cols[c] = k; es.add(e)
            if len(es) > 1: self.bad('P04', 'mixed', 'one row mixes values of two messages', ev.span, st)
            for e in es:
                if track(e): self.add(st, 'ins', e); st.mon['insval'] = val
            old = self.OUT.setdefault('ins', (q[1], cols))
            if old != (q[1], cols): self.bad('P04', 'two', 'messages are written in two different ways', ev.span, st)
        else: self.bad('P04', 'other', 'an unexpected statement: %s' % t[:80], ev.span, st)
    def on_split(self, I, st, v, variant):
        for s in [strip(v)]:
            if variant == 'Err':
                for k in ('deleted', 'insval', 'commit'):
                    if s is st.mon.get(k): st.mon['fail'] = 1
            elif variant == 'Ok':
                for k in ('deleted', 'insval', 'commit'):
                    if s is st.mon.get(k): self.add(st, 'fine', k)
    def on_branch(self, I, st, term, val, span):
        if term.op == 'discr':
            v = I.variant_of(st, term.a[0], RES)
            if v: self.on_split(I, st, term.a[0], v)
    def on_end(self, I, st, kind, val):
        if kind == 'panic': return
        self.n('paths checked')
        r = I.variant_of(st, val, RES) if val is not None and val.op != 'agg' else val.a[1] if val is not None else None
        if r == 'Err': return
        direct = val is not None and strip(val) is st.mon.get('commit')
        if st.mon.get('fail'): self.bad('P04', 'hidden', 'the save reports success although a statement failed', self.span, st)
        if st.mon.get('commit') is None: self.bad('P04', 'uncommitted', 'the save reports success without a commit', self.span, st)
        elif 'commit' not in self.get(st, 'fine') and not direct and strip(val).op == 'agg': self.bad('P04', 'unchecked', 'the save reports success whatever the commit answers', self.span, st)
        if st.mon.get('deleted') is None: self.bad('P04', 'undeleted', 'the save leaves earlier messages in the table: a removed one comes back after a restart', self.span, st)
        if not st.mon.get('exh'): self.bad('P04', 'part', 'the save reports success without having gone through all messages', self.span, st)
        for e in self.get(st, 'drawn'):
            if e not in self.get(st, 'ins'): self.bad('P04', 'skipped', 'a message is not written', self.span, st)
            elif 'insval' not in self.get(st, 'fine'): self.bad('P04', 'unchecked', 'the save reports success although writing a message may have failed', self.span, st)

class RowsMon(StoreBase):
    """load_all, and the function that turns a row into values"""
    def __init__(self, P, api, fn, A):
        Base.__init__(self, P, api); self.span = fn.span; self.A = A; self.cols = None; self.got = []
    def override(self, I, st, ev):
        n = ev.name.split('::')
        if n[-1] in ('query_map', 'query', 'query_and_then', 'query_row'):
            q = mk('call', ev.full, tuple(I.deloc(st, a) for a in ev.args), ev.site)
            self.asked(I, st, ev, q)
            if n[-1] not in ('query_map', 'query_and_then'): return q
            rows = mk('iter', '?', mk('valbox', q), ('*',), ev.site)      # the rows, each as the closure reads it
            return [(st.copy(), Err(mk('proj', q, 'Err'))), (st, Ok(mk('iterad', 'map', '?', rows, (ev.args[-1],), ev.site)))]
        if n[-1] == 'next' and n[0] in ('Rows', 'FallibleIterator', 'FallibleStreamingIterator') and st.mon.get('q') is not None:
            q = mk('valbox', st.mon['q']); out = [(st.copy(), Err(mk('top', 'row', ev.site))), (st.copy(), Ok(NONE))]
            out[1][0].mon['exh'] = 1
            e = mk('elem', q, '*', ev.site)
            if not I.inuse(st, e): s2 = st.copy(); I.rebind(s2, e); self.on_draw(I, s2, e, ev); out.append((s2, Ok(Some(mk('ref', ('H', mk('valbox', e), ()))))))
            o = mk('other', q, '', ev.site); I.rebind(st, o)
            return out + [(st, Ok(Some(mk('ref', ('H', mk('valbox', o), ())))))]
    def asked(self, I, st, ev, val):
        s = self.statement(I, st, ev, val)
        if not s: return
        q, t, ps = s; st.note('%s %s' % (t[:80], where(ev.span))); self.n('queries checked')
        if q is None or q[0] != 'sel': self.bad('P04', 'query', 'a query that is not understood: %s' % t[:120], ev.span, st); return
        if q[3] and not re.fullmatch(r'ORDER BY [\w ,]+', q[3], re.I): self.bad('P04', 'part', 'only part of the stored messages is loaded (%s)' % q[3], ev.span, st)
        st.mon['q'] = val; self.cols = tuple(q[2]); self.table = q[1]
    table = None
    def col(self, t):
        """the column a value comes from, or 'now', or None"""
        for s in [t] + list(subterms(t)):
            if s.op == 'call' and s.a[0].split('::')[-1] in ('get', 'get_unwrap') and len(s.a[1]) == 2 and self.cols:
                i = strip(s.a[1][1])
                if i.op == 'k' and isinstance(i.a[1], int): return self.cols[i.a[1]] if i.a[1] < len(self.cols) else None
                x = show(i).strip('*"b\'&[]').lower()
                return x if x in self.cols else None
    def isrow(self, x): return x.op in ('elem', 'other') and any(s.op == 'call' and s.a[0].split('::')[-1] in ('query_map', 'query_and_then', 'query') for s in subterms(x)) or x.op == 'upd'
    def stages(self, I, st, a, span):
        it = I.val(st, a) if a.op == 'ref' else a; k = 0; bad = None
        while it.op == 'iterad' and k < 12:
            if it.a[0] in ('take_while', 'map_while', 'take', 'skip', 'skip_while', 'step_by'): bad = it.a[0]
            it = it.a[2]; k += 1
        if bad and any(z is st.mon['q'] for z in subterms(it)): self.bad('P04', 'part', 'only part of the stored messages is loaded: the rows go through %s' % bad, span, st)
    def on_call(self, I, st, ev):
        if st.mon.get('q') is not None and ev.args and ev.name.split('::')[-1] in ('next', 'collect', 'extend', 'for_each', 'try_for_each', 'fold', 'try_fold'):
            for a in ev.args: self.stages(I, st, a, ev.span)
        return super().on_call(I, st, ev)
    def on_ret(self, I, st, ev, val):
        m = ev.name.split('::')[-1]; o = ev.name.split('::')[0]
        if o == 'Row' and m in ('get', 'get_unwrap'):
            ty = [self.P.tys(x) for x in ev.c.get('targs', ()) if isinstance(x, int)]
            ty = ty[-1] if ty else '?'
            if self.col(val) and re.search(r'\b[iu](8|16|32)\b', ty) and not re.search('Vec|Bytes|\\[', ty): self.bad('P04', 'width', 'column %s is read with only %s' % (self.col(val), ty), ev.span, st)
        if m == 'next' and val.op == 'agg' and val.a[1] == 'None' and ev.args and st.mon.get('q') is not None:
            w = whole(I, st, ev.args[0])
            if any(z is st.mon['q'] for z in [w] + list(subterms(w))): st.mon['exh'] = 1
        if m in ('push', 'push_back') and len(ev.args) == 2: self.kept(I, st, ev.args[1], ev.span)
        if val.op == 'vec' and m == 'collect':
            for x in val.a[1]:
                if isinstance(x, Term): self.kept(I, st, x, ev.span)
            if st.mon.get('q') is not None: st.mon['exh'] = 1
    def on_draw(self, I, st, e, ev):
        if e.op == 'elem' and track(e) and self.isrow(e): self.add(st, 'drawn', e); self.n('rows followed')
    def kept(self, I, st, x, span):
        w = whole(I, st, x)
        if w.op != 'agg' or len(w.a[3]) != 2: return
        p, m = [strip(whole(I, st, y)) for y in w.a[3]]
        if not track(p): return
        self.n('rows checked'); st.mon['kept'] = 1
        c = self.col(p)
        if c is None: self.bad('P04', 'path', 'a stored message comes back under another topic than it was stored with', span, st)
        else: self.got.append(('path', c))
        if m.op == 'agg': self.message(I, st, m, span)
        if st.mon.get('dead'): self.bad('P04', 'revived', 'a stored message found expired is loaded', span, st)
    def message(self, I, st, v, span):
        f = {n: whole(I, st, x) for n, x in zip(v.a[2], v.a[3])}
        dn = [n for n in f if 'expire' in n and 'unix' not in n]; un = [n for n in f if 'unix' in n]; da = [n for n in f if n not in dn + un]
        self.n('restored messages checked')
        if strip(f[un[0]]) is NONE and not st.mon.get('null') and not st.mon.get('rowerr') and not st.mon.get('never'): self.bad('P04', 'undead', 'a stored message that has a deadline comes back without one', span, st)
        c = self.col(f[da[0]])
        if c is None: self.bad('P04', 'data', 'the data of a stored message comes back changed (%s)' % show(f[da[0]])[-80:], span, st)
        else: self.got.append(('data', c))
        u = strip(f[un[0]])
        none = u.op == 'agg' and u.a[1] == 'None' or I.variant_of(st, u, OPT) == 'None'
        if u.op == 'agg' and u.a[1] == 'Some': u = strip(u.a[3][0])
        cu = self.col(u)
        if not none:
            x, w = casts(u)
            if cu is None or strip(x).op in ('bin', 'call') and nm(strip(x)) != 'get': self.bad('P04', 'unix', 'the deadline of a stored message comes back changed (%s)' % show(u)[-80:], span, st)
            elif w < 64: self.bad('P04', 'width', 'the deadline of a stored message is read with only %d bits' % w, span, st)
            else: self.got.append(('unix', cu))
        d = strip(f[dn[0]])
        if d.op == 'agg' and d.a[1] == 'None':
            if not none and not st.mon.get('never'): self.bad('P04', 'undead', 'a stored message that has a deadline comes back without one (one that expired while the broker was down never goes away)', span, st)
            return
        if d.op == 'agg' and d.a[1] == 'Some': d = strip(d.a[3][0])
        while d.op in ('payload', 'var', 'fld', 'proj') and nm(d) not in ('checked_add', 'add'): d = strip(d.a[0])
        ok = False
        if nm(d) in ('checked_add', 'add') and len(args(d)) == 2 and isnow(args(d)[0]) and nm(args(d)[1]) == 'from_secs':
            r = args(args(d)[1])[0]
            while r.op == 'cast': r = strip(r.a[1])
            if nm(r) == 'saturating_sub': xs = args(r); ok = len(xs) == 2 and self.col(xs[0]) is not None and 'as_secs' in show2(xs[1])
            elif r.op == 'bin' and r.a[0].startswith('Sub'): ok = self.col(r.a[1]) is not None and 'as_secs' in show2(r.a[2])
        if not ok: self.bad('P04', 'deadline', 'the deadline of a stored message is not the time left until its stored deadline, counted from now (%s)' % show(d)[:100], span, st)
    def on_split(self, I, st, v, variant):
        if nm(strip(v)) == 'checked_add' and variant == 'None': st.mon['never'] = 1
        x = strip(v)
        if variant == 'None' and self.col(v) is not None or variant == 'Err' and nm(x) in ('try_from', 'try_into'): st.mon['null'] = 1
        if variant == 'Err' and (any(e is x for e in self.get(st, 'drawn')) or self.col(v) is not None): st.mon['rowerr'] = 1
    def isdl(self, t):
        t = strip(t)
        while t.op in ('payload', 'var', 'fld', 'proj') and nm(t) not in ('checked_add', 'add'): t = strip(t.a[0])
        return nm(t) in ('checked_add', 'add') and track(t)
    def on_branch(self, I, st, term, val, span):
        if term.op == 'discr':
            for ad in ((I.dadt[term],) if I.dadt.get(term) in (OPT, RES) else (OPT, RES)):
                v = I.variant_of(st, term.a[0], ad)
                if v: self.on_split(I, st, term.a[0], v); break
            return
        if not (isinstance(val, int) or val is None): return
        for d, vs in deadline_verdict(decided(term, val), self.isdl):
            if 'dead' in vs: st.mon['dead'] = 1
        for o, a, b in decided(term, val):
            a, b = strip(a), strip(b)
            for x, y, l in ((a, b, 1), (b, a, 0)):
                if self.col(x) is not None and y.op == 'k' and isinstance(y.a[1], int) and ((o in ('Lt', 'Le') and l and y.a[1] <= 0) or o == 'Eq' and y.a[1] <= 0): st.mon['null'] = 1     # no deadline lies before 1970
                if self.col(x) is not None and 'as_secs' in show2(y) and track(x):
                    # stored deadline against the clock: expired when deadline <= now
                    if (l and o in ('Lt', 'Le')) or o == 'Eq': st.mon['dead'] = 1
    def on_end(self, I, st, kind, val):
        if kind == 'panic' or val is None: return
        self.n('paths checked')
        r = val.a[1] if val.op == 'agg' else None
        if r == 'Err': return
        if not st.mon.get('exh'): self.bad('P04', 'part', 'loading ends before all rows were read', self.span, st)
        if self.get(st, 'drawn') and not st.mon.get('kept') and not st.mon.get('dead') and not st.mon.get('rowerr'): self.bad('P04', 'dropped', 'a stored message that is not expired is left out', self.span, st)

def run_persist(P, rep, props, R):
    if 'P04' not in props: return
    out = {}
    for f in R['flushfns']:
        m = SaveMon(P, f.name, f, out); runone(P, rep, props, m, f, f.name, ('statements checked', 'messages followed'))
    for f in R['loadfns']:
        m = RowsMon(P, f.name, f, R['A'])
        runone(P, rep, props, m, f, f.name, ('queries checked', 'rows followed', 'rows checked', 'restored messages checked')); got = m.got
        if m.table and 'ins' in out and out['ins'][0] != m.table: rep.violation('table', 'messages are saved in table %s and loaded from %s' % (out['ins'][0], m.table), where(f.span))
        ins = out.get('ins', (None, {}))[1]
        want = {'path': '0', 'data': '1', 'unix': '2'}
        for what, c in sorted(set(got)):
            rep.count('columns compared')
            if ins.get(c) != want[what]: rep.violation('column:' + what, 'the %s of a retained message is loaded from column %s, where component %s of what was collected was saved' % (what, c, ins.get(c)), where(f.span))
        for what in want:
            if what not in {w for w, c in got}: rep.violation('vacuous:' + what, 'the %s of a retained message is never loaded' % what, where(f.span))
    cr = []
    for f in P.libfns:
        if f.path.startswith(MODS):
            class C(StoreBase):
                def on_ret(self, I, st, ev, val):
                    s = self.statement(I, st, ev, val)
                    if s and s[0] and s[0][0] == 'create': cr.append(s[0])
            if not any('execute' in str(x) for x in [g.path for g in callees(P, f)] + [str(f.blocks)]): continue
            try: Interp(P, C(P, f.name), 20000).run(f)
            except Budget: pass
    tb = {q[1]: q[2] for q in cr}
    if 'ins' in out:
        t, cols = out['ins']
        if t not in tb: rep.violation('create', 'table %s is not created' % t)
        else:
            rep.count('tables checked')
            for c in cols:
                if c not in tb[t]: rep.violation('create:' + c, 'table %s has no column %s' % (t, c))
                elif cols[c] == '1' and 'TEXT' in tb[t][c]: rep.violation('type:' + c, 'the data is stored as text')
            for c, d in tb[t].items():
                if ('UNIQUE' in d or 'PRIMARY' in d) and cols.get(c) != '0': rep.violation('unique:' + c, 'the table keeps only one row for each value of column %s' % c)

def run_manager(P, rep, props, R):
    A = R['A']
    mt = [d for d, a in P.adts.items() if d.startswith(MODS) and len(a['variants']) == 1 and any('ty' in f and 'RwLock<' in P.tys(f['ty']) and A['node'] in P.tys(f['ty']) for f in a['variants'][0]['fields'])]
    if not mt: rep.violation('missing:manager', 'the publish/subscribe manager was not found'); return
    fl = [(f['name'], P.tys(f['ty'])) for f in P.adts[mt[0]]['variants'][0]['fields'] if 'ty' in f]
    R['tree'] = [n for n, t in fl if A['node'] in t][0]
    cl = [n for n, t in fl if 'DashMap<' in t and 'ClientId' in t or 'ClientRegistry' in t or 'Map<' in t and 'ClientId' in t]
    if not cl: rep.violation('missing:registry', 'the client registry was not found'); return
    R['clients'] = cl[0]
    R['subsf'] = 'subscriptions'
    for d, a in P.adts.items():
        if d.startswith(MODS) and len(a['variants']) == 1 and d != A['node']:
            fs = [(f['name'], P.tys(f['ty'])) for f in a['variants'][0]['fields'] if 'ty' in f]
            if any('Sender<' in t for n, t in fs):
                ss = [n for n, t in fs if 'Set<' in t]
                if ss: R['subsf'] = ss[0]
    R['persist'] = {f.path for f in P.libfns if f.path.startswith(MODS + 'domain::persistence::')}
    R['mt'] = mt[0]
    ms = {n: sf for n, sf in pub_methods(P, mt[0].split('::')[-1]).items() if sf[0].path.startswith(MODS)}
    ops = {s.path for n, (s, b) in ms.items() if s.j.get('vis') == 'Public'}
    FL = {'publish': ('matches checked', 'sends checked', 'retained writes checked', 'deadlines checked', 'marks'), 'subscribe': ('registry updates checked', 'tree updates checked', 'collections checked', 'sends checked'), 'unsubscribe': ('registry updates checked', 'tree updates checked'), 'disconnect': ('clients removed', 'tree updates checked', 'subscriptions of a leaving client'), 'connect': ('clients registered',)}
    for n in FL:
        if n not in ms: rep.violation('missing:' + n, 'operation %s not found' % n); continue
    def sigt(f): return ' '.join(P.tys(l[0]) for l in f.locals[1:f.argc + 1]).replace(' ', '')
    pf = [f for f in P.libfns if f.path in R['persist'] and f.kind in ('fn', 'assocfn')]
    R['flushfns'] = [f for f in pf if 'Connection' in sigt(f) and ('[' in sigt(f) or 'Vec<' in sigt(f)) and 'Bytes' in sigt(f)]
    R['loadfns'] = [f for f in pf if 'RetainedMessage' in P.tys(f.locals[0][0]) and 'Vec<' in P.tys(f.locals[0][0])]
    R['flush'] = {f.path for f in R['flushfns']}; R['load'] = {f.path for f in R['loadfns']}
    if not R['flush'] or not R['load']: rep.violation('missing:persistence', 'the functions that save and load retained messages were not found')
    if 'P04' in props:
        tot = {}
        for g in spawned(P, MODS):
            m = TaskMon(P, 'task', A, g, R, ops); runone(P, rep, props, m, g, 'background task', ())
            for k, v in m.cnt.items(): tot[k] = tot.get(k, 0) + v
        for k in ('saves checked', 'clean-ups checked', 'marks cleared'):
            if not tot.get(k): rep.violation('vacuous:task:' + k, 'no background task found with: ' + k)
        m = BootMon(P, 'new', A, ms['new'][1], R, ops); runone(P, rep, props, m, ms['new'][1], 'new', ('loads checked', 'stored messages followed', 'retained writes checked'))
        run_persist(P, rep, props, R)
    for n, (s, f) in ms.items():
        if n == 'new' or helper(P, s): continue
        m = PM(P, n, A, f, R, ops)
        runone(P, rep, props, m, f, n, FL.get(n, ()))
def run_pubsub(P, rep, props):
    import rules_qstore; rules_qstore.learntables(P)
    R = run_tree(P, rep, props)
    if not R: return
    run_manager(P, rep, props, R)
if __name__ == '__main__':
    import sys, time, os
    sys.setrecursionlimit(20000)
    P = Prog(os.environ.get('NX_OUT', '/verif/build/out'))
    rep = Report('P'); t = time.time()
    run_pubsub(P, rep, set(sys.argv[1].split(',')))
    print(rep.counts, '%.1fs' % (time.time() - t))
    for v in rep.viol.values():
        print(v['key'], '|', v['msg'][:300], '|', v['where'])
        if len(sys.argv) > 2:
            for x in v['trace'][-14:]: print('      ', x[:200])
