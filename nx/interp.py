"""Path-sensitive abstract interpretation of MIR over value-numbered terms.

The domain: every local / heap location holds a *term* (a def-use tree of bounded
size), branches record the discriminant / boolean / constant facts they establish,
collections carry only an emptiness bit and key-presence facts.  Local functions,
closures and async bodies are inlined at their call (coroutines at their `poll`),
so a rule sees the same event sequence whether or not a helper was extracted.
Nothing is executed and no path is handed to a solver: states are joined by
identity at CFG joins and every domain is finite.
"""
import sys
from mir import last2, strip_generics, is_guard_def
sys.setrecursionlimit(20000)

class Term:
    __slots__ = ('op', 'a', 'id', 'depth', 'sites', '_sub')
    def __repr__(s): return show(s)

_intern = {}
def positive(t):
    """a number known to be greater than zero: counters that only grow"""
    if t.op == 'k': return isinstance(t.a[1], int) and not isinstance(t.a[1], bool) and t.a[1] > 0
    if t.op == 'top': return isinstance(t.a[0], str) and t.a[0].startswith('w+')
    if t.op == 'bin' and t.a[0] == 'Add':
        a, b = t.a[1], t.a[2]
        return positive(a) and (positive(b) or b.op == 'k' and b.a[1] == 0) or positive(b) and a.op == 'k' and a.a[1] == 0
    return False
ARITH = {'bin', 'un', 'cast', 'trunc'}
WIDTH = {'bool': 1, 'char': 32, 'u8': 8, 'i8': 8, 'u16': 16, 'i16': 16, 'u32': 32, 'i32': 32, 'u64': 64, 'i64': 64, 'usize': 64, 'isize': 64}
CMPS = ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge')
def mk(op, *a):
    k = (op, a)
    t = _intern.get(k)
    if t is not None: return t
    d = 0; sites = frozenset()
    for x in a:
        if isinstance(x, Term):
            if x.depth > d: d = x.depth
            if x.sites: sites = sites | x.sites
        elif isinstance(x, tuple):
            for y in iter_terms(x):
                if y.depth > d: d = y.depth
                if y.sites: sites = sites | y.sites
    if d > 34 and op not in ('k',):
        # bounded term size
        return mk('top', op)
    t = Term.__new__(Term)
    t.op = op; t.a = a; t.id = len(_intern); t.depth = d + 1
    if op in ('call', 'guard', 'elem', 'other', 'mut', 'havoc', 'co', 'cl', 'vec', 'iter', 'chan', 'fresh'):
        s = a[-1]
        if isinstance(s, int): sites = sites | {s}
    t.sites = sites
    t._sub = None
    _intern[k] = t
    return t
def iter_terms(x):
    for y in x:
        if isinstance(y, Term): yield y
        elif isinstance(y, tuple):
            yield from iter_terms(y)
def subterms(t):
    if t._sub is None:
        r = {t: None}   # ordered, so that every run looks at the terms in the same order
        for x in t.a:
            if isinstance(x, Term): r.update(subterms(x))
            elif isinstance(x, tuple):
                for y in iter_terms(x): r.update(subterms(y))
        t._sub = r
    return t._sub

def subst(t, a, b):
    if t is a: return b
    if a not in subterms(t): return t
    def tu(x): return tuple(subst(y, a, b) if isinstance(y, Term) else tu(y) if isinstance(y, tuple) else y for y in x)
    return mk(t.op, *tu(t.a))
def others(t):
    if t.op == 'other': return (t,)
    return [x for x in subterms(t) if x.op == 'other']

def K(v): return mk('k', type(v).__name__, v)
def isk(t): return t.op == 'k'
def kval(t): return t.a[1]
UNIT = mk('unit'); MOVED = mk('moved'); TRUE = K(1); FALSE = K(0)
OPT = 'core::option::Option'; RES = 'core::result::Result'; CF = 'core::ops::control_flow::ControlFlow'; POLL = 'core::task::poll::Poll'
def agg(d, variant, names, vals): return mk('agg', d, variant, tuple(names), tuple(vals))
def Some(x): return agg(OPT, 'Some', ('0',), (x,))
NONE = agg(OPT, 'None', (), ())
def Ok(x): return agg(RES, 'Ok', ('0',), (x,))
def Err(x): return agg(RES, 'Err', ('0',), (x,))
def tup(*v): return agg('tuple', '', tuple(str(i) for i in range(len(v))), v)
VIDX = {'core::cmp::Ordering': {'Less': 255, 'Equal': 0, 'Greater': 1}, OPT: {'None': 0, 'Some': 1}, RES: {'Ok': 0, 'Err': 1}, CF: {'Continue': 0, 'Break': 1}, POLL: {'Ready': 0, 'Pending': 1}}

def show(t, d=0):
    if not isinstance(t, Term):
        if isinstance(t, tuple): return '(' + ','.join(show(x, d) for x in t) + ')'
        return str(t)
    if d > 9: return '…'
    o, a = t.op, t.a
    s = lambda x: show(x, d + 1)
    if o == 'k': return repr(a[1])
    if o == 'arg': return a[0]
    if o == 'fld': return s(a[0]) + '.' + a[1]
    if o == 'var': return s(a[0]) + '@' + a[1]
    if o == 'deref': return '*' + s(a[0])
    if o == 'call': return a[0].split('::')[-1] + '(' + ','.join(s(x) for x in a[1]) + ')'
    if o == 'agg':
        n = a[0].split('::')[-1] + ('::' + a[1] if a[1] and a[1] != a[0].split('::')[-1] else '')
        if a[0] == 'tuple': n = ''
        return n + '{' + ','.join(s(x) for x in a[3]) + '}'
    if o == 'ref': return '&' + showloc(a[0], d + 1)
    if o == 'bin': return '(%s %s %s)' % (s(a[1]), a[0], s(a[2]))
    if o in ('un',): return '%s(%s)' % (a[0], s(a[1]))
    if o == 'cast': return s(a[1])
    if o == 'co' or o == 'cl': return '{' + a[0].split('::')[-2] + '}'
    return o + '(' + ','.join(s(x) for x in a) + ')'
def showloc(l, d=0):
    if l[0] == 'L': b = '_%d:%d' % (l[1], l[2])
    else: b = '[' + show(l[1], d + 1) + ']'
    for p in l[2] if l[0] == 'H' else l[3]:
        b += '.' + (p[1] if p[0] in ('f', 'v') else p[0])
    return b

IDMAPS = {}     # (owner, field) of a map keyed by the identifier its values carry -> name of the identifier field
def idnorm(t, name):
    if t.op == 'ent' and t.a[0].op == 'entry':
        loc = t.a[0].a[0]
        pr = [p for p in loc[-1] if p[0] == 'f']
        if pr and len(pr[-1]) > 2 and IDMAPS.get((pr[-1][2], pr[-1][1])) == name: return t.a[0].a[1]
    return None
def fld(t, name, owner=''):
    return project(t, (('f', name, owner),))
def project(t, projs):
    i = 0
    while i < len(projs):
        p = projs[i]
        if t.op == 'moved': return MOVED
        if t.op == 'upd':
            base, up, val = t.a
            rest = projs[i:]
            n = min(len(up), len(rest))
            if tuple(x[:2] for x in up[:n]) == tuple(x[:2] for x in rest[:n]):
                if len(up) <= len(rest):
                    return project(val, rest[len(up):])
                # reading an ancestor of the updated part
                inner = project(base, rest)
                return mk('upd', inner, up[len(rest):], val)
            t = base
            continue
        if p[0] == 'f':
            if t.op == 'agg':
                if p[1] in t.a[2]:
                    t = t.a[3][t.a[2].index(p[1])]; i += 1; continue
                if t.a[0] in ('array',):
                    t = mk('fld', t, p[1], p[2]); i += 1; continue
                t = mk('fld', t, p[1], p[2] if len(p) > 2 else '')
            elif t.op in ('co', 'cl') and p[1] in t.a[1]:
                t = t.a[2][t.a[1].index(p[1])]
            elif t.op == 'box1':
                t = t.a[0]; i += 1; continue
            else:
                x = idnorm(t, p[1]) if IDMAPS else None
                t = x if x is not None else mk('fld', t, p[1], p[2] if len(p) > 2 else '')
        elif p[0] == 'v':
            if t.op == 'agg' and t.a[0] != 'tuple': pass
            else: t = mk('var', t, p[1])
        elif p[0] == '[]':
            if t.op == 'agg' and t.a[0] == 'array' and len(p) > 1 and isinstance(p[1], int) and p[1] < len(t.a[3]):
                t = t.a[3][p[1]]
            elif len(p) > 1: t = mk('idx', t, p[1])
            else: t = mk('idx', t)
        else:
            t = mk('fld', t, p[0], '')
        i += 1
    return t
def setproj(t, projs, val):
    if not projs: return val
    p = projs[0]
    if t is not None and t.op == 'agg':
        if p[0] == 'v':
            if t.a[1] == p[1] or t.a[0] == 'tuple': return setproj(t, projs[1:], val)
        elif p[0] == 'f' and p[1] in t.a[2]:
            i = t.a[2].index(p[1])
            v = list(t.a[3]); v[i] = setproj(v[i], projs[1:], val)
            return mk('agg', t.a[0], t.a[1], t.a[2], tuple(v))
    if t is not None and t.op in ('co', 'cl') and p[0] == 'f' and p[1] in t.a[1]:
        i = t.a[1].index(p[1])
        v = list(t.a[2]); v[i] = setproj(v[i], projs[1:], val)
        return mk(t.op, t.a[0], t.a[1], tuple(v), *t.a[3:])
    if t is None: t = mk('undef')
    # a chain of updates is kept without duplicates and in a fixed order
    ups = []
    x = t
    pk = tuple(p[:2] for p in projs)
    while x.op == 'upd':
        q = tuple(p[:2] for p in x.a[1])
        if q[:len(pk)] == pk: x = x.a[0]; continue           # overwritten
        if pk[:len(q)] == q:                                  # inside an earlier update
            ups.append((x.a[1], setproj(x.a[2], tuple(projs)[len(q):], val))); x = x.a[0]; break
        ups.append((x.a[1], x.a[2])); x = x.a[0]
    else:
        ups.append((tuple(projs), val))
    rest = x
    ups.sort(key=lambda u: str(pathkey(u[0])))
    for p, v in ups: rest = mk('upd', rest, p, v)
    return rest

def pathkey(projs): return tuple(p[:2] if p[0] in ('f', 'v') else p[:1] for p in projs)

class Frame:
    __slots__ = ('fn', 'block', 'stack', 'cont', 'dest', 'ret', 'uw', 'callblk')
    def __init__(s, fn, block, stack, cont, dest, ret, callblk=None):
        s.fn = fn; s.block = block; s.stack = stack; s.cont = cont; s.dest = dest; s.ret = ret; s.callblk = callblk
    def copy(s): return Frame(s.fn, s.block, s.stack, s.cont, s.dest, s.ret, s.callblk)

class St:
    __slots__ = ('frames', 'env', 'heap', 'facts', 'nfacts', 'mon', 'trace', 'steps', 'nyield')
    def copy(s):
        n = St.__new__(St)
        n.frames = [f.copy() for f in s.frames]
        n.env = dict(s.env); n.heap = dict(s.heap); n.facts = dict(s.facts); n.nfacts = dict(s.nfacts)
        n.mon = dict(s.mon); n.trace = s.trace; n.steps = s.steps
        return n
    def note(s, txt):
        s.trace = (s.trace, txt)
    def tracelist(s, limit=60):
        r = []; t = s.trace
        while t is not None and len(r) < limit:
            r.append(t[1]); t = t[0]
        return r[::-1]

class Ev:
    """A call event."""
    __slots__ = ('name', 'full', 'args', 'at', 'site', 'span', 'fn', 'res', 'loc', 'dty', 'term', 'c', 'block')
    def __repr__(s): return '%s(%s)@%s:%s' % (s.name, ', '.join(show(x) for x in s.args), s.span[0], s.span[1])

class Monitor:
    def on_start(self, I, st): pass
    def on_call(self, I, st, ev): pass
    def on_ret(self, I, st, ev, val): pass
    def prune(self, I, st): pass
    def on_drop(self, I, st, term, ty, span): pass
    def on_store(self, I, st, loc, val, span): pass
    def on_yield(self, I, st, span): pass
    def on_end(self, I, st, kind, val): pass
    def on_assert(self, I, st, msg, span): pass
    def on_branch(self, I, st, term, val, span): pass
    def on_agg(self, I, st, term, span): pass
    def on_split(self, I, st, v, variant): pass
    def opaqueval(self, I, st, ev): return None
    def forkbool(self, I, ev): return False   # analyse both answers of an abstracted yes/no operation separately
    def hofcall(self, I, st, name, args): return None     # value of a library function called through a reference to it
    def on_exhausted(self, I, st, it, ev): pass     # a `fold` went through all elements
    def override(self, I, st, ev): return None    # value of a library call, if the monitor models it itself
    def on_poll(self, I, st, v, ev): pass         # an external future v is polled
    def on_draw(self, I, st, e, ev): pass         # an iterator yields e (before its adaptors)
    def on_inner(self, I, st, e, it, stages, ev): pass    # flat_map yields e of the inner iterator it
    def on_reject(self, I, st, ev): pass          # the element drawn last did not pass a filter or search
    rejects = False
    def on_elem(self, I, st, loc, key): pass      # the followed element of a map is visited by an iteration
    def on_map(self, I, st, op, loc, key, was, val, ev): return (st,)   # op: hit miss insert remove clear; returns the states to go on with
    def opaque(self, I, path): return False

def contkey(c):
    if c is None or c[0] not in ('stage', 'mapins', 'retain', 'goi', 'val', 'found', 'boolopt', 'fold', 'parted'): return c
    if c[0] == 'parted': return c[:2]
    if c[0] == 'fold': return c[:2]
    if c[0] == 'found': return c[:1]
    if c[0] == 'boolopt': return c[:2]
    if c[0] == 'val': return c[:2]
    if c[0] in ('retain', 'goi'): return c[:3]
    if c[0] == 'mapins': return ('mapins', c[2])
    return ('stage', c[2], c[4], c[5], c[7][:2])

class Budget(Exception): pass

NOINLINE_TRAITS = ('core::clone::Clone', 'core::fmt::Debug', 'serde_core::ser::Serialize', 'serde_core::de::Deserialize',
                   'core::cmp::PartialEq', 'core::cmp::Eq', 'core::fmt::Display', 'core::cmp::PartialOrd')
IDENT = {  # identity on the value of the first argument (by value)
    'From::from', 'Into::into', 'IntoFuture::into_future', 'Pin::new', 'Pin::new_unchecked', 'hint::must_use', 'Pin::get_mut', 'Pin::as_mut',
    'Pin::get_unchecked_mut', 'Arc::new', 'Box::new', 'Box::pin', 'TryFrom::try_from',
    'Pin::into_inner', 'ManuallyDrop::new', 'Bytes::from', 'Cow::into_owned', 'PathBuf::from', 'String::from', 'black_box', 'Path::new', 'OsStr::new', 'Arguments::as_statically_known_str',
    'convert::identity', 'String::into_bytes', 'Vec::into_boxed_slice', 'BytesMut::freeze', 'Utf8Error::from',
}
IDENT_REF = {  # &x -> value of x (cloning / owned conversions)
    'Clone::clone', 'ToString::to_string', 'ToOwned::to_owned', 'Arc::clone', 'slice::to_vec', 'Path::to_path_buf', 'Bytes::copy_from_slice', 'str::to_string', 'String::clone', 'str::to_owned',
    'Cow::to_string', 'Path::to_owned',
}
REF_ID = {  # &x -> &x  (views)
    'AsRef::as_ref', 'AsMut::as_mut', 'Borrow::borrow', 'BorrowMut::borrow_mut', 'String::as_str', 'Vec::as_slice', 'Vec::as_mut_slice',
    'String::as_bytes', 'str::as_bytes', 'PathBuf::as_path', 'Arc::as_ref', 'Box::as_ref', 'Bytes::as_ref', 'slice::as_ref', 'str::as_ref', 'Uuid::as_bytes',
    'DerefMut::deref_mut', 'Deref::deref', 'Path::as_os_str', 'Iterator::by_ref',
}
LAZY = {'map', 'filter', 'filter_map', 'flat_map', 'take_while', 'skip_while', 'inspect', 'map_while', 'scan', 'flatten', 'enumerate', 'rev', 'skip', 'take', 'cloned',
        'copied', 'zip', 'chain', 'peekable', 'step_by', 'cycle', 'fuse', 'by_ref'}
KEEP_MODE = {'map', 'enumerate', 'rev', 'cloned', 'copied', 'inspect', 'peekable', 'cycle', 'fuse', 'by_ref'}
MAPS = {'HashMap', 'BTreeMap', 'LinkedHashMap', 'DashMap', 'LruCache', 'LinkedHashSet', 'HashSet', 'BTreeSet', 'IndexMap'}

class Interp:
    def __init__(self, prog, mon, maxsteps=300000, inline_spawn=False):
        self.P = prog; self.mon = mon; self.maxsteps = maxsteps; self.inline_spawn = inline_spawn
        self.sites = {}; self.sitespan = {}
        self.analysed = set(); self.events = 0; self.steps = 0; self.paths = 0; self.unmodelled = {}
        self.nvar = {}; self.dadt = {}
        self.cond_cache = {}
        self.inlined_edges = set()
    # ---- sites -------------------------------------------------------------
    def site(self, st, extra=''):
        f = st.frames[-1]
        k = (f.stack, f.fn.path, f.block, extra)
        i = self.sites.get(k)
        if i is None:
            i = len(self.sites) + 1; self.sites[k] = i
        return i
    # ---- memory ------------------------------------------------------------
    def readloc(self, st, loc):
        if loc[0] == 'L':
            v = st.env.get((loc[1], loc[2]))
            if v is None: return mk('undef')
            return project(v, loc[3]) if loc[3] else v
        base, projs = loc[1], loc[2]
        pk = projs
        for n in range(len(projs), -1, -1):
            v = st.heap.get((base, pathkey(projs[:n])))
            if v is not None:
                r = project(v, projs[n:]); break
        else:
            n = -1
            if base.op == 'valbox': r = project(base.a[0], projs)
            elif base.op == 'entry': r = project(mk('ent', base), projs)
            else: r = project(mk('deref', base), projs)
        # descendants written separately
        if n < len(projs):
            pref = pathkey(projs)
            for (b, q), v in st.heap.items():
                if b is base and len(q) > len(pref) and q[:len(pref)] == pref:
                    r = setproj(r, tuple(self.fullproj.get((b, q), q))[len(pref):], v)
        return r
    fullproj = {}
    def writeloc(self, st, loc, val, span=None):
        if loc[0] == 'L':
            k = (loc[1], loc[2])
            if loc[3]: st.env[k] = setproj(st.env.get(k), loc[3], val)
            else: st.env[k] = val
            return
        base, projs = loc[1], loc[2]
        pk = pathkey(projs)
        self.fullproj[(base, pk)] = projs
        for q in [q for (b, q) in st.heap if b is base and len(q) > len(pk) and q[:len(pk)] == pk]:
            del st.heap[(base, q)]
        # an ancestor held as a whole value: update inside it
        for n in range(len(pk) - 1, -1, -1):
            v = st.heap.get((base, pk[:n]))
            if v is not None:
                st.heap[(base, pk[:n])] = setproj(v, projs[n:], val)
                break
        else:
            st.heap[(base, pk)] = val
        # invalidate facts read from this location
        self.kill_facts_about(st, mk('deref', base), pk)
        if span is not None:
            self.mon.on_store(self, st, loc, val, span)
    def kill_facts_about(self, st, base, pk):
        tgt = base
        if not st.facts and not st.nfacts: return
        # terms of the form project(base, pk...)
        def hits(t):
            for s in subterms(t):
                if s.op == 'fld':
                    path = []; x = s
                    while x.op in ('fld', 'var'):
                        path.append(('f' if x.op == 'fld' else 'v', x.a[1])); x = x.a[0]
                    if x is base:
                        path = tuple(path[::-1])
                        n = min(len(path), len(pk))
                        if path[:n] == pk[:n]: return True
            return False
        for d in (st.facts, st.nfacts):
            for t in [t for t in d if isinstance(t, Term) and base in subterms(t) and hits(t)]:
                del d[t]
    def place(self, st, p):
        """place -> loc"""
        d = len(st.frames) - 1
        loc = ('L', d, p[0], ())
        for e in p[1]:
            k = e[0]
            if k == '*':
                loc = self.deref_loc(st, self.readloc(st, loc))
            else:
                if k == 'f': q = ('f', e[2], e[3])
                elif k == 'v': q = ('v', e[1])
                elif k == 'ci' and not e[2]: q = ('[]', e[1])
                elif k == 'sub' and e[3]:      # [_, rest @ ..]
                    if not (e[1] == 0 and e[2] == 0):
                        r = agg('core::ops::range::RangeFrom', 'RangeFrom', ('start',), (K(e[1]),)) if not e[2] else mk('top', 'sub', e[1], e[2])
                        loc = ('H', mk('call', 'Index::index', (self.deloc(st, mk('ref', loc)), r), 'sub'), ())
                    continue
                elif k == 'i':
                    q = ('[]',); i = self.readloc(st, ('L', d, e[1], ()))
                    if hasattr(self.mon, 'on_index'): self.mon.on_index(self, st, loc, i)
                    if i.op == 'k' and isinstance(i.a[1], int): q = ('[]', i.a[1])
                else: q = ('[]',)
                loc = loc[:-1] + (loc[-1] + (q,),)
        return loc
    def deref_loc(self, st, v):
        if v.op == 'ref': return v.a[0]
        if v.op in ('guard',): return ('H', v, ())
        if v.op == 'entref': return ('H', v.a[0], ())
        return ('H', v, ())
    # ---- facts ---------------------------------------------------------------
    def decide(self, st, t):
        """-> python int or None"""
        if t.op == 'k':
            v = kval(t)
            return v if isinstance(v, int) else None
        f = st.facts.get(t)
        if f is not None: return f
        if t.op == 'discr':
            x = t.a[0]
            if x.op == 'upd':
                y = x
                while y.op == 'upd': y = y.a[0]
                return self.decide(st, mk('discr', y))
            if x.op == 'agg':
                vi = self.vidx(x.a[0], x.a[1])
                return vi
            if x.op == 'var': return None
        elif t.op == 'un' and t.a[0] == 'Not':
            r = self.decide(st, t.a[1])
            if r is not None and r in (0, 1): return 1 - r
        elif t.op == 'un' and t.a[0] == 'is_empty' and t.a[1].op == 'call' and t.a[1].a[0].endswith('Default::default'): return 1
        elif t.op == 'un' and t.a[0] == 'is_empty':
            v = t.a[1]
            if v.op == 'vec':
                return {'E': 1, 'N': 0}.get(v.a[0])
        elif t.op == 'cast':
            return self.decide(st, t.a[1])
        elif t.op == 'bin':
            o, a, b = t.a
            if a is b and o in ('Eq', 'Le', 'Ge'): return 1
            if a is b and o in ('Ne', 'Lt', 'Gt'): return 0
            x, y = self.decide(st, a), self.decide(st, b)
            if x is not None and y is not None:
                try:
                    return {'Eq': int(x == y), 'Ne': int(x != y), 'Lt': int(x < y), 'Le': int(x <= y), 'Gt': int(x > y), 'Ge': int(x >= y),
                            'BitAnd': x & y, 'BitOr': x | y, 'BitXor': x ^ y, 'Add': x + y, 'Sub': x - y, 'Mul': x * y,
                            'Shl': x << y if 0 <= y < 128 else None, 'Shr': x >> y if 0 <= y < 128 else None,
                            'Rem': x % y if y else None, 'Div': x // y if y else None}.get(o)
                except Exception: return None
            if o in ('Eq', 'Ne') and a is b: return int(o == 'Eq')
            if o in ('Eq', 'Ne') and a.op == 'agg' and b.op == 'agg' and a.a[0] == b.a[0] and a.a[1] != b.a[1]: return int(o == 'Ne')
            if o in ('Eq', 'Ne'):
                for x, z in ((a, b), (b, a)):
                    if z.op == 'agg' and z.a[1] and z.a[0] not in ('tuple', 'array') and x.op != 'agg':
                        dx = self.decide(st, mk('discr', x)); vz = self.vidx(z.a[0], z.a[1])
                        if dx is not None and vz is not None:
                            if dx != vz: return int(o == 'Ne')
                            if not z.a[3]: return int(o == 'Eq')
            if o in ('Eq', 'Ne'):
                if y is None and x is not None: a, b, x, y = b, a, y, x
                if y is not None:
                    nf = st.nfacts.get(a)
                    if nf and y in nf: return int(o == 'Ne')
                    if a.op == 'len' and y == 0 and a.a[0].op == 'vec':
                        e = a.a[0].a[0]
                        if e in 'EN': return int((e == 'E') == (o == 'Eq'))
            if o in ('Gt', 'Ge', 'Lt', 'Le') and a.op == 'len' and a.a[0].op == 'vec' and y is not None:
                e = a.a[0].a[0]
                if o == 'Gt' and y == 0 and e in 'EN': return int(e == 'N')
                if o == 'Ge' and y == 1 and e in 'EN': return int(e == 'N')
            if y in (0, 1) and positive(a): 
                r = {('Gt', 0): 1, ('Ne', 0): 1, ('Eq', 0): 0, ('Le', 0): 0, ('Ge', 1): 1, ('Lt', 1): 0}.get((o, y))
                if r is not None: return r
            if x in (0, 1) and positive(b):
                r = {('Lt', 0): 1, ('Ne', 0): 1, ('Eq', 0): 0, ('Ge', 0): 0, ('Le', 1): 1, ('Gt', 1): 0}.get((o, x))
                if r is not None: return r
            # canonical comparison facts
            c = self.canon_cmp(t)
            if c is not None:
                f = st.facts.get(c[0])
                if f is not None: return f if c[1] else 1 - f
            if o == 'BitAnd':
                if x == 0 or y == 0: return 0
        return None
    def canon_cmp(self, t):
        """(canonical term, polarity) for an ordering comparison: only Lt / Le with arbitrary order kept as Lt"""
        o, a, b = t.a
        # comparing a length with zero is asking whether it is empty
        for x, y, oo in ((a, b, o), (b, a, {'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le'}.get(o, o))):
            if x.op == 'len' and y.op == 'k' and isinstance(x.a[0], Term):
                e = {('Gt', 0): False, ('Ge', 1): False, ('Lt', 1): True, ('Le', 0): True, ('Eq', 0): True, ('Ne', 0): False}.get((oo, y.a[1]))
                if e is not None: return (mk('un', 'is_empty', x.a[0]), e)
        if o == 'Lt': return (mk('cmp', 'Lt', a, b), True)
        if o == 'Ge': return (mk('cmp', 'Lt', a, b), False)
        if o == 'Gt': return (mk('cmp', 'Lt', b, a), True)
        if o == 'Le': return (mk('cmp', 'Lt', b, a), False)
        if o == 'Ne': return (mk('cmp', 'Eq', a, b), False)
        if o == 'Eq': return (mk('cmp', 'Eq', a, b), True)
        return None
    _bt = {}
    def blocktext(self, fn):
        k = (id(self.P), fn.path)
        if k not in self._bt: self._bt[k] = str(fn.blocks)
        return self._bt[k]
    def vidx(self, d, v):
        if d in VIDX: return VIDX[d].get(v)
        a = self.P.adts.get(d)
        if a:
            for i, x in enumerate(a['variants']):
                if x['name'] == v: return x.get('discr', i)
        return None
    def assume(self, st, t, val):
        """record t == val; False if contradictory"""
        r = self.decide(st, t)
        if r is not None: return r == val
        if t.op == 'un' and t.a[0] == 'Not' and val in (0, 1):
            return self.assume(st, t.a[1], 1 - val)
        if t.op == 'cast' and val in (0, 1):
            return self.assume(st, t.a[1], val)
        if t.op == 'bin' and t.a[0] in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge') and val in (0, 1):
            o, a, b = t.a
            if o in ('Eq', 'Ne'):
                pos = (o == 'Eq') == (val == 1)
                for x, y in ((a, b), (b, a)):
                    if y.op == 'agg' and y.a[1] and y.a[0] not in ('tuple', 'array') and x.op != 'k':
                        vi = self.vidx(y.a[0], y.a[1])
                        if vi is not None and pos and not self.assume(st, mk('discr', x), vi): return False
                        if vi is not None and not pos and not y.a[3] and not self.assume_ne(st, mk('discr', x), vi): return False
                ka, kb = self.decide(st, a), self.decide(st, b)
                if ka is not None: a, b, kb = b, a, ka
                if kb is not None:
                    if pos: return self.assume(st, a, kb)
                    return self.assume_ne(st, a, kb)
            c = self.canon_cmp(t)
            if c:
                st.facts[c[0]] = val if c[1] else 1 - val
                return True
        if t.op == 'bin' and t.a[0] == 'BitAnd' and val == 1:
            self.assume(st, t.a[1], 1); self.assume(st, t.a[2], 1)
        if t.op == 'bin' and t.a[0] == 'BitOr' and val == 0:
            self.assume(st, t.a[1], 0); self.assume(st, t.a[2], 0)
        nf = st.nfacts.get(t)
        if nf and val in nf: return False
        st.facts[t] = val
        return True
    def assume_ne(self, st, t, val):
        r = self.decide(st, t)
        if r is not None: return r != val
        nf = st.nfacts.get(t, frozenset()) | {val}
        n = self.nvar.get(t)
        if n is not None and len(nf) == n - 1:
            rest = [i for i in range(n) if i not in nf]
            if len(rest) == 1:
                st.facts[t] = rest[0]; return True
        st.nfacts[t] = nf
        return True
    def variant_of(self, st, v, d):
        """name of the known variant of enum value v (adt path d) or None"""
        x = v
        while x.op == 'upd': x = x.a[0]
        if x.op == 'agg': return x.a[1]
        r = self.decide(st, mk('discr', v))
        if r is None: return None
        tab = VIDX.get(d)
        if tab:
            for k, i in tab.items():
                if i == r: return k
        a = self.P.adts.get(d)
        if a:
            for i, x in enumerate(a['variants']):
                if x.get('discr', i) == r: return x['name']
        return None
    def split(self, st, v, d):
        """fork on the variants of v (Option / Result / Poll): [(st, variant, payload)]"""
        k = self.variant_of(st, v, d)
        tab = VIDX[d]
        if k is not None:
            return [(st, k, project(v, (('v', k), ('f', '0', d))) if k not in ('None', 'Pending') else UNIT)]
        out = []
        self.nvar[mk('discr', v)] = 2
        items = list(tab.items())
        if v.op == 'call' and isinstance(v.a[0], str) and v.a[0].split('::')[-1] == 'duration_since' and 'UNIX_EPOCH' in show(v): items = [x for x in items if x[0] == 'Ok']     # the clock is past 1970
        for i, (k, n) in enumerate(items):
            s2 = st if i == len(items) - 1 else st.copy()
            if self.assume(s2, mk('discr', v), n):
                self.mon.on_split(self, s2, v, k)
                out.append((s2, k, project(v, (('v', k), ('f', '0', d))) if k not in ('None', 'Pending') else UNIT))
        return out
    # ---- operands ------------------------------------------------------------
    def konst(self, st, c):
        if 'fn' in c:
            return mk('fn', c['fn'], c.get('res', c['fn']), bool(c.get('loc')), bool(c.get('ctor')))
        if 'int' in c: return K(c['int'])
        if 'str' in c: return K(c['str'])
        if 'bytes' in c: return K(bytes(c['bytes']))
        if 'prom' in c:
            f = st.frames[-1].fn
            return self.promoted(f, c['prom'], c.get('promof'))
        if c.get('zst'):
            return UNIT
        if 'named' in c: return mk('named', c['named'])
        return mk('opaque', self.P.tys(c['ty']))
    _prom = {}
    def promoted(self, fn, i, of):
        k = (id(self.P), fn.path, i)
        if k in self._prom: return self._prom[k]
        if i >= len(fn.promoted): return mk('opaque', 'promoted')
        b = fn.promoted[i]
        env = {}
        def rd(p):
            v = env.get(p[0], mk('undef'))
            for e in p[1]:
                if e[0] == '*':
                    v = env.get(v.a[0][2], mk('undef')) if v.op == 'ref' and v.a[0][0] == 'L' else mk('deref', v)
                elif e[0] == 'f': v = project(v, (('f', e[2], e[3]),))
                elif e[0] == 'v': v = project(v, (('v', e[1]),))
                else: v = mk('idx', v)
            return v
        def op(o):
            if o[0] == 'c':
                c = o[1]
                if 'int' in c: return K(c['int'])
                if 'str' in c: return K(c['str'])
                if 'bytes' in c: return K(bytes(c['bytes']))
                return mk('named', c['named']) if 'named' in c else mk('opaque', self.P.tys(c['ty']))
            return rd(o[1])
        for bb in b['blocks']:
            for s in bb['s']:
                if s[0] != '=': continue
                r = s[2]
                if r[0] == 'use': v = op(r[1])
                elif r[0] == 'ref': v = mk('ref', ('H', mk('valbox', rd(r[2])), ()))
                elif r[0] == 'agg': v = self.mkagg(r[1], [op(o) for o in r[1]['ops']], 0)
                elif r[0] == 'cast': v = op(r[2])
                else: v = mk('opaque', 'prom')
                env[s[1][0]] = v
            t = bb['t']
            if t['k'] == 'call' and t['f'][0] == 'c' and 'fn' in t['f'][1]:
                env[t['d'][0]] = mk('call', strip_generics(t['f'][1]['fn']), tuple(op(o) for o in t['a']), 'prom')
        v = env.get(0, mk('opaque', 'promoted'))
        self._prom[k] = v
        return v
    def mkagg(self, a, vals, site):
        k = a['k']
        if k == 'adt':
            if a['def'] in ('log::Level', 'log::LevelFilter'): return mk('agg', a['def'], 'Error', (), ())   # logging is not part of any property
            return mk('agg', a['def'], a['variant'], tuple(a['names']), tuple(vals))
        if k == 'tuple':
            if not vals: return UNIT
            return tup(*vals)
        if k == 'array': return mk('agg', 'array', '', tuple(str(i) for i in range(len(vals))), tuple(vals))
        if k in ('closure', 'coroutine'):
            f = self.P.fns.get(a['def'])
            names = tuple(f.upvars) if f else tuple(str(i) for i in range(len(vals)))
            if len(names) < len(vals): names = names + tuple(str(i) for i in range(len(names), len(vals)))
            return mk('co' if k == 'coroutine' else 'cl', a['def'], names, tuple(vals))
        return mk('agg', 'other', '', tuple(str(i) for i in range(len(vals))), tuple(vals))
    def operand(self, st, o):
        if o[0] == 'c': return self.konst(st, o[1])
        if o[0] == '?': return mk('opaque', '?')
        loc = self.place(st, o[1])
        v = self.readloc(st, loc)
        if o[0] == 'mv':
            self.move_out(st, loc, v)
        return v
    def move_out(self, st, loc, v):
        if loc[0] != 'L': return
        k = (loc[1], loc[2])
        if not loc[3]:
            st.env[k] = MOVED
        else:
            pr = loc[3]
            # moving the payload of an enum variant: the whole is considered moved
            if pr[0][0] == 'v' and len(pr) <= 2:
                cur = st.env.get(k)
                many = cur is not None and cur.op == 'agg' and len(cur.a[3]) > 1
                if cur is not None and not many and len(pr) == 2 and pr[1][0] == 'f' and len(pr[1]) > 2 and pr[1][2] in self.P.adts:
                    many = any(x['name'] == pr[0][1] and len(x['fields']) > 1 for x in self.P.adts[pr[1][2]]['variants'])
                if many:
                    st.env[k] = setproj(cur, pr, MOVED)
                else:
                    st.env[k] = MOVED
            else:
                st.env[k] = setproj(st.env.get(k), pr, MOVED)
    def rvalue(self, st, r, dest_ty=None):
        k = r[0]
        if k == 'use': return self.operand(st, r[1])
        if k == 'ref': return mk('ref', self.place(st, r[2]))
        if k == 'discr':
            v = self.readloc(st, self.place(st, r[1]))
            t = mk('discr', v)
            if t not in self.dadt:
                n = self.place_nvar(st, r[1])
                if n and t not in self.nvar: self.nvar[t] = n
            d = self.decide(st, t)
            return K(d) if d is not None else t
        if k == 'bin':
            a, b = self.operand(st, r[2]), self.operand(st, r[3])
            o = r[1]
            if o.endswith('WithOverflow'):
                return tup(self.binop(st, o[:-len('WithOverflow')], a, b), FALSE)
            return self.binop(st, o.replace('Unchecked', ''), a, b)
        if k == 'un':
            a = self.operand(st, r[2])
            if r[1] == 'PtrMetadata':
                return models.lenof(self.readloc(st, self.deref_loc(st, a)))
            if r[1] == 'Not' and a.op == 'un' and a.a[0] == 'Not': return a.a[1]
            if r[1] == 'Not' and a.op == 'k' and kval(a) in (0, 1): return K(1 - kval(a))
            return mk('un', r[1], a)
        if k == 'cast':
            a = self.operand(st, r[2])
            if r[1].startswith(('IntToInt', 'FloatToInt', 'IntToFloat', 'FloatToFloat')):
                if a.op == 'k' and isinstance(kval(a), int): return a
                if r[1].startswith('IntToInt') and a.op not in ('k', 'cmp'):
                    # a number that may not fit is another number; lengths are taken to fit in 32 bits unless they are widened again
                    to = WIDTH.get(self.P.tys(r[3])); fr = None
                    if r[2][0] in ('cp', 'mv') and not r[2][1][1]: fr = WIDTH.get(self.P.tys(st.frames[-1].fn.locals[r[2][1][0]][0]))
                    if to is not None and to <= 16 and (fr is None or fr > to) and not (a.op == 'bin' and a.a[0] in CMPS or a.op == 'discr'): return mk('trunc', to, a)
                    if to == 32 and fr == 64: return mk('cast', 'narrow:' + self.P.tys(r[3]), a)
                    if to == 64 and a.op == 'cast' and a.a[0].startswith('narrow:'): return mk('trunc', 32, a.a[1])
                return mk('cast', r[1].split('(')[0] + ':' + self.P.tys(r[3]), a)
            return a
        if k == 'agg':
            vals = [self.operand(st, o) for o in r[1]['ops']]
            return self.mkagg(r[1], vals, 0)
        if k == 'repeat':
            return mk('repeat', self.operand(st, r[1]), r[2])
        if k == 'tls': return mk('named', r[1])
        return mk('opaque', k)
    def binop(self, st, o, a, b):
        if o in ('BitOr', 'Add', 'BitXor'):
            w = models.wholeint(a, b)
            if w is not None: return w
        t = mk('bin', o, a, b)
        d = self.decide(st, t)
        if d is not None and -(1 << 63) <= d < (1 << 64): return K(d)
        # bounded arithmetic nesting
        if models.nestint(t) > 5:
            t = mk('top', 'arith', self.site(st)); self.rebind(st, t)
        return t
    def place_nvar(self, st, p):
        # number of variants of the enum at a place
        fn = st.frames[-1].fn
        if p[1] and p[1][-1][0] == 'f': ti = p[1][-1][4]
        elif not p[1]: ti = fn.locals[p[0]][0]
        elif p[1][-1][0] == '*':
            q = [p[0], p[1][:-1]]
            if q[1] and q[1][-1][0] == 'f': ti = q[1][-1][4]
            elif not q[1]: ti = fn.locals[p[0]][0]
            else: return None
            t = self.P.ty(ti)
            if t.get('args'): ti = t['args'][0]
        else: return None
        t = self.P.ty(ti)
        if t['k'] == 'adt':
            a = self.P.adts.get(t['def'])
            if a and a['kind'] == 'enum':
                self.dadt[mk('discr', self.readloc(st, self.place(st, p)))] = t['def']
                return len(a['variants'])
        return None
    # ---- locks held -----------------------------------------------------------
    def held(self, st):
        out = []
        for d, f in enumerate(st.frames):
            fn = f.fn
            if fn.tyguard is None:
                fn.tyguard = [i for i, (t, n) in enumerate(fn.locals) if self.P.contains_guard(t)]
            for l in fn.tyguard:
                v = st.env.get((d, l))
                if v is None or v.op in ('moved', 'undef'): continue
                out += self.guards_in(st, v, fn.locals[l][0])
        for f in st.frames:
            if f.cont:
                for t in f.cont:
                    if isinstance(t, Term):
                        for s in subterms(t):
                            if s.op == 'guard': out.append((s.a[1], s.a[2], s))
        return out
    def guards_in(self, st, v, ti):
        """[(class, mode, term)] of guards owned by value v of type ti"""
        if v.op in ('moved', 'undef', 'k', 'unit'): return []
        if v.op == 'guard': return [(v.a[1], v.a[2], v)]
        if v.op == 'upd':
            r = []
            # moved parts
            if v.a[2].op == 'moved' and self.P.ty(ti)['k'] != 'adt': 
                return self.guards_in(st, v.a[0], ti) if False else []
        t = self.P.ty(ti)
        if t['k'] == 'ref': return []
        if v.op == 'agg':
            r = []
            for x in v.a[3]: 
                if isinstance(x, Term): r += self.own_guards(st, x)
            return r
        if v.op == 'co' or v.op == 'cl':
            r = []
            for x in v.a[2]: r += self.own_guards(st, x)
            return r
        if t['k'] == 'adt' and t['def'] in (OPT,):
            k = self.variant_of(st, v, OPT)
            if k == 'None': return []
        own = self.own_guards(st, v)
        if own: return own
        g = self.guard_class_of_type(ti)
        return [(g[0], g[1], v)] if g else []
    def own_guards(self, st, v):
        if v.op == 'guard': return [(v.a[1], v.a[2], v)]
        if v.op == 'agg':
            r = []
            for x in v.a[3]: r += self.own_guards(st, x)
            return r
        if v.op in ('co', 'cl'):
            r = []
            for x in v.a[2]: r += self.own_guards(st, x)
            return r
        if v.op == 'entref' : return [(v.a[1], 'shard', v)]
        if v.op == 'call':
            return []
        return []
    def guard_class_of_type(self, ti, seen=()):
        t = self.P.ty(ti)
        if ti in seen: return None
        if t['k'] == 'ref': return None
        if t['k'] == 'adt' and is_guard_def(t['def']):
            l = t['def'].split('::')[-1]
            a = t.get('args', [])
            if t['def'].startswith('dashmap'):
                return ('DashMap<' + ','.join(self.P.tys(x) for x in a[:2]) + '>', 'shard')
            # lock_api guards: <RawMutex, T>
            x = a[-1] if a else None
            if len(a) == 2 and 'RawMutex' in self.P.tys(a[0]) or (len(a) == 2 and 'RawRwLock' in self.P.tys(a[0])): x = a[1]
            elif a: x = a[0]
            mode = 'read' if 'Read' in l else 'write'
            return (('RwLock<' if 'Rw' in l else 'Mutex<') + (self.P.tys(x) if x is not None else '?') + '>', mode)
        for a in t.get('args', []):
            r = self.guard_class_of_type(a, tuple(seen) + (ti,))
            if r: return r
        if t['k'] == 'adt':
            ad = self.P.adts.get(t['def'])
            if ad and ad['local']:
                for v in ad['variants']:
                    for f in v['fields']:
                        if 'ty' in f:
                            r = self.guard_class_of_type(f['ty'], tuple(seen) + (ti,))
                            if r: return r
        return None
    # ---- running ---------------------------------------------------------------
    def run(self, root, args=None, mon0=None, upv=None, facts=None):
        fn = self.P.fns[root] if isinstance(root, str) else root
        st = St.__new__(St)
        st.frames = [Frame(fn, 0, (), None, None, None)]
        st.env = {}; st.heap = {}; st.facts = {}; st.nfacts = {}; st.mon = dict(mon0 or {}); st.trace = None; st.steps = 0
        if fn.kind in ('coroutine', 'closure'):
            names = tuple(fn.upvars)
            ups = tuple((upv or {}).get(n) or mk('arg', n) for n in names)
            v = mk('co' if fn.kind == 'coroutine' else 'cl', fn.path, names, ups)
            t1 = self.P.ty(fn.locals[1][0])
            if t1['k'] == 'ref':
                v = mk('ref', ('H', mk('valbox', v), ()))
            st.env[(0, 1)] = v
            for i in range(2, fn.argc + 1): st.env[(0, i)] = mk('arg', fn.locals[i][1] or 'arg%d' % i)
        else:
            for i in range(1, fn.argc + 1):
                nm = fn.locals[i][1] or 'arg%d' % i
                st.env[(0, i)] = (args or {}).get(nm) or mk('arg', nm)
        self.seen = set(); self.merged = {}
        self.visits = {}; self.wid = {}
        self.root = fn
        self.mon.on_start(self, st)
        work = [st]
        while work:
            s = work.pop()
            self.exec_block(s, work)
        return self
    def key(self, st):
        fk = tuple((id(f.fn), f.block, f.stack, contkey(f.cont)) for f in st.frames)
        return (fk, frozenset(st.env.items()), frozenset(st.heap.items()), frozenset(st.facts.items()), frozenset(st.nfacts.items()), frozenset(st.mon.items()))
    def gc(self, st):
        f = st.frames[-1]; d = len(st.frames) - 1
        live = f.fn.live_in(f.block); addr = f.fn.addr_taken
        for k in [k for k in st.env if k[0] == d and k[1] not in live and k[1] not in addr]:
            v = st.env[k]
            del st.env[k]
        if st.facts or st.nfacts or st.heap:
            roots = set()
            for v in st.env.values(): roots.update(subterms(v))
            for fr in st.frames:
                if fr.cont:
                    for t in fr.cont:
                        if isinstance(t, Term): roots.update(subterms(t))
            for v in st.mon.values():
                if isinstance(v, Term): roots.update(subterms(v))
                elif isinstance(v, (tuple, frozenset)):
                    for y in iter_terms(tuple(v)): roots.update(subterms(y))
            # heap cells stay if their base is reachable or is a valbox/self
            ch = True
            hk = {}
            pend = list(st.heap.items())
            while ch:
                ch = False; rest = []
                for (b, q), v in pend:
                    ot = others(b)
                    if ot and not any(o in roots for o in ot): continue
                    if b in roots or b.op == 'arg' or (b.op == 'entry' and self.entry_root_live(b, roots)) or (b.op == 'endof' and v in roots):
                        hk[(b, q)] = v; roots.update(subterms(v)); ch = True
                    else: rest.append(((b, q), v))
                pend = rest
            st.heap = hk
            def alive(t):
                ot = others(t) if isinstance(t, Term) else others(t[2])
                if ot and not any(o in roots for o in ot): return False
                if isinstance(t, tuple):  # ('has', loc, key)
                    return t[2] in roots and (t[1][0] == 'L' or t[1][1] in roots or t[1][1].op == 'arg')
                x = t
                if x.op == 'cmp': return all(self.anchor_live(y, roots) for y in x.a[1:] if not isk(y))
                if x.op in ('discr', 'len'): return self.anchor_live(x.a[0], roots)
                if x.op == 'un': return self.anchor_live(x.a[1], roots)
                if x.op in ('bin',): return all(self.anchor_live(y, roots) for y in x.a[1:] if not isk(y))
                return self.anchor_live(x, roots)
            st.facts = {t: v for t, v in st.facts.items() if alive(t)}
            st.nfacts = {t: v for t, v in st.nfacts.items() if alive(t)}
    def entry_root_live(self, b, roots):
        loc = b.a[0]
        return loc[0] == 'L' or loc[1] in roots or loc[1].op == 'arg'
    def anchor_live(self, x, roots):
        while True:
            if x in roots: return True
            if x.op in ('fld', 'var', 'deref', 'idx', 'discr', 'len'): x = x.a[0]; continue
            if x.op in ('un',): x = x.a[1]; continue
            if x.op in ('cast', 'trunc'): x = x.a[1]; continue
            if x.op == 'ent': x = x.a[0]; continue
            if x.op == 'entry': return self.entry_root_live(x, roots)
            if x.op == 'bin': return all(self.anchor_live(y, roots) for y in x.a[1:])
            if x.op in ('k', 'named', 'arg', 'unit'): return x.op != 'named'
            return False
    def goto(self, st, b, work, join=False):
        f = st.frames[-1]
        f.block = b
        if f.fn.blocks[b]['c']: return
        f.fn.compute()
        if join or f.fn.join[b]:
            self.gc(st)
            self.mon.prune(self, st)
            k = self.key(st)
            if k in self.seen: return
            self.seen.add(k)
            vk = tuple((id(x.fn), x.block) for x in st.frames)
            self.visits[vk] = self.visits.get(vk, 0) + 1
            if self.visits[vk] > 40 and self.widen(st, vk):
                k = self.key(st)
                if k in self.seen: return
                self.seen.add(k)
            if self.visits[vk] > 40:
                # facts about the anonymous elements of collections are given up first
                ch = False
                for d in (st.facts, st.nfacts):
                    for t in [t for t in d if (others(t) if isinstance(t, Term) else (others(t[2]) or (t[1][0] == 'H' and others(t[1][1]))))]:
                        del d[t]; ch = True
                for q in [q for q in st.heap if others(q[0])]: del st.heap[q]; ch = True
                if ch:
                    k = self.key(st)
                    if k in self.seen: return
                    self.seen.add(k)
            if self.visits[vk] > 400 and (st.facts or st.nfacts):
                # too many distinct states here: forget branch facts that no monitor asked for
                st.facts = {}; st.nfacts = {}
                self.widened = getattr(self, 'widened', 0) + 1
                k = self.key(st)
                if k in self.seen: return
                self.seen.add(k)
            if self.visits[vk] > 4000 and st.heap:
                st.heap = {}
                k = self.key(st)
                if k in self.seen: return
                self.seen.add(k)
        work.append(st)
    def widen(self, st, vk):
        """numbers that keep taking new values at this point (loop counters, totals) become unknown"""
        W = self.wid.setdefault(vk, {})
        ch = False; new = set()
        def leaf(path, v):
            nonlocal ch
            if v.op == 'agg' and v.a[3] and len(path) < 6:
                nv = tuple(leaf(path + (i,), x) if isinstance(x, Term) else x for i, x in enumerate(v.a[3]))
                return v if nv == v.a[3] else mk('agg', v.a[0], v.a[1], v.a[2], nv)
            if (v.op == 'k' and isinstance(v.a[1], int)) or v.op == 'bin' or (v.op == 'call' and v.a[0].split('::')[-1] in ('saturating_add', 'wrapping_add', 'checked_add', 'saturating_sub', 'max', 'min')):
                w = W.setdefault(path, set())
                if w is None or len(w) > 24:
                    if positive(v): n = mk('top', 'w+%d' % vk[-1][1], str(path))
                    elif v.op == 'k' and v.a[1] == 0: return v
                    else: n = mk('top', 'w%d' % vk[-1][1], str(path))
                    if n is not v: ch = True; new.add(n)
                    return n
                w.add(v)
            return v
        for k, v in list(st.env.items()):
            n = leaf((k,), v)
            if n is not v: st.env[k] = n
        for k, v in list(st.heap.items()):
            n = leaf((k,), v)
            if n is not v: st.heap[k] = n
        for n in new: self.rebind(st, n)
        return ch
    def exec_block(self, st, work):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Budget('%s: more than %d abstract steps' % (self.root.path, self.maxsteps))
        f = st.frames[-1]; fn = f.fn; d = len(st.frames) - 1
        self.analysed.add(fn.path)
        bb = fn.blocks[f.block]
        for s in bb['s']:
            k = s[0]
            if k == '=':
                v = self.rvalue(st, s[2])
                loc = self.place(st, s[1])
                if loc[0] == 'L' and not loc[3]: st.env[(loc[1], loc[2])] = v
                else: self.writeloc(st, loc, v, s[3])
                if v.op == 'agg' and s[2][0] == 'agg': self.mon.on_agg(self, st, v, s[3])
            elif k == 'dead':
                st.env.pop((d, s[1]), None)
            elif k == 'sd':
                pass
        t = bb['t']; k = t['k']
        if k == 'goto': return self.goto(st, t['t'], work)
        if k == 'switch':
            v = self.operand(st, t['d'])
            c = self.decide(st, v)
            if c is not None:
                for val, b in t['ts']:
                    if val == c: return self.goto(st, b, work)
                return self.goto(st, t['else'], work)
            forks = []
            for val, b in t['ts']:
                s2 = st.copy()
                if self.assume(s2, v, val): forks.append((s2, b, val))
            s2 = st.copy(); ok = True
            isbool = self.P.tys(t['dty']) == 'bool'
            if isbool and len(t['ts']) == 1:
                ok = self.assume(s2, v, 1 - t['ts'][0][0])
                val = 1 - t['ts'][0][0]
            else:
                for val, b in t['ts']:
                    ok = ok and self.assume_ne(s2, v, val)
                val = None
            if ok and fn.blocks[t['else']]['t']['k'] != 'unreachable': forks.append((s2, t['else'], val))
            for s2, b, val in forks:
                if isbool and v.op == 'bin' and val in (0, 1):      # kept in a variable: known from here on
                    for q in [q for q, x in s2.env.items() if x is v]: s2.env[q] = K(val)
                r = self.mon.on_branch(self, s2, v, val, t['sp'])
                for s3 in r if isinstance(r, list) else (s2,): self.goto(s3, b, work)   # a monitor may go on with several states
            return
        if k == 'assert':
            self.operand(st, t['c'])
            self.mon.on_assert(self, st, t, t['sp'])
            return self.goto(st, t['t'], work)
        if k == 'drop':
            loc = self.place(st, t['p'])
            v = self.readloc(st, loc)
            if v.op not in ('moved', 'undef'):
                self.do_drop(st, v, t['pty'], t['sp'])
            if loc[0] == 'L':
                if not loc[3]: st.env[(loc[1], loc[2])] = MOVED
                else: st.env[(loc[1], loc[2])] = setproj(st.env.get((loc[1], loc[2])), loc[3], MOVED)
            dr = self.local_drop(v, t['pty'])
            if dr is not None and v.op not in ('moved', 'undef'):
                # inline `impl Drop`
                self.push(st, dr, [mk('ref', ('H', mk('valbox', v), ()))], ('dropglue',), None, t['t'])
                return self.goto(st, 0, work)
            return self.goto(st, t['t'], work)
        if k == 'yield':
            self.mon.on_yield(self, st, t['sp'])
            loc = self.place(st, t['d'])
            self.writeloc(st, loc, mk('arg', '_resume'))
            # facts about lock-protected memory do not survive a suspension unless a guard is held
            return self.goto(st, t['t'], work)
        if k == 'return':
            return self.do_return(st, work)
        if k == 'call':
            return self.call(st, t, work)
        if k in ('resume', 'abort', 'unreachable', 'cdrop', 'other'):
            return
    def local_drop(self, v, ti):
        t = self.P.ty(ti)
        if t['k'] != 'adt': return None
        a = self.P.adts.get(t['def'])
        if not a or not a['local']: return None
        for f in self.P.libfns:
            if f.trait == 'core::ops::drop::Drop' and f.name == 'drop' and f.selfty is not None and self.P.ty(f.selfty).get('def') == t['def']:
                return f
        return None
    def do_drop(self, st, v, ti, span):
        self.mon.on_drop(self, st, v, ti, span)
        for g in self.guards_in(st, v, ti):
            self.release(st, g[2], span)
    def release(self, st, g, span):
        if g.op == 'guard' or g.op == 'entref':
            for k in [k for k in st.heap if k[0] is g]: del st.heap[k]
            for d in (st.facts, st.nfacts):
                for t in [t for t in d if isinstance(t, tuple) and t[1][0] == 'H' and t[1][1] is g]: del d[t]
    def do_return(self, st, work):
        f = st.frames[-1]; d = len(st.frames) - 1
        v = st.env.get((d, 0), UNIT)
        for k in [k for k in st.env if k[0] == d]: del st.env[k]
        if d == 0:
            self.paths += 1
            self.mon.on_end(self, st, 'return', v)
            return
        st.frames.pop()
        outs = self.apply_cont(st, f.cont, v, f)
        for s2, val in outs:
            if f.dest is not None and val is not None:
                self.writeloc(s2, f.dest, val)
            if f.ret is None: continue
            self.goto(s2, f.ret, work, True)
    def apply_cont(self, st, cont, v, f):
        if cont is None: return [(st, v)]
        c = cont[0]
        if c == 'ret':
            return [(st, v)]
        if c == 'Some': return [(st, Some(v))]
        if c == 'Ok': return [(st, Ok(v))]
        if c == 'Err': return [(st, Err(v))]
        if c == 'Ready': return [(st, agg(POLL, 'Ready', ('0',), (v,)))]
        if c == 'ReadyOk': return [(st, agg(POLL, 'Ready', ('0',), (Ok(v),)))]
        if c == 'val':
            if len(cont) > 2: self.mon.on_ret(self, st, cont[2], cont[1])
            return [(st, cont[1])]
        if c == 'ret_join': return [(st, mk('joined', v))]
        if c == 'dropglue': return [(st, None)]
        if c == 'mapins':
            _, I, ent, dash, ev, fin = cont
            self.writeloc(st, ('H', ent, ()), v)
            models.map_grew(self, st, ent.a[0])
            for s3 in self.mon.on_map(self, st, 'insert', ent.a[0], ent.a[1], 0, v, ev):
                if dash:
                    g = self.guard_class_of_type(ev.dty) if ev.dty is not None else None
                    fin(s3, mk('entref', ent, g[0] if g else 'DashMap'))
                else: fin(s3, mk('ref', ('H', ent, ())))
            return []
        if c == 'parted':
            out = []; e, ev = cont[1], cont[2]
            for b in (0, 1):
                s2 = st.copy() if b == 0 else st
                if self.assume(s2, v, b):
                    self.mon.on_branch(self, s2, v, b, None)
                    a = mk('vec', 'N', (e,) if e is not None else (), (ev.site, 1 - b)); o = mk('vec', '?', (), (ev.site, b))
                    out.append((s2, tup(a, o) if b else tup(o, a)))
            return out
        if c == 'fold':
            models.fold_done(self, st, cont, v); return []
        if c == 'stage':
            models.stage_done(st, cont, v); return []
        if c == 'retain':
            _, loc, e, ev = cont
            out = []
            for b in (0, 1):
                s2 = st.copy() if b == 0 else st
                if not self.assume(s2, v, b): continue
                self.mon.on_branch(self, s2, v, b, ev.span)
                if b: out.append((s2, UNIT)); continue
                s2.facts.pop(('has', loc, e), None)
                w = self.readloc(s2, loc)
                if w.op != 'vec':       # fewer than before
                    n, o = mk('len', w), mk('top', 'oldlen', ev.site)
                    for t, b2 in (('Lt', 1), ('Eq', 0), ('Ne', 1), ('Le', 1)): self.assume(s2, mk('bin', t, n, o), b2)
                    for t, b2 in (('Lt', 0), ('Le', 0), ('Gt', 1)): self.assume(s2, mk('bin', t, o, n), b2)
                if w.op == 'vec': self.writeloc(s2, loc, mk('vec', '?', tuple(x for x in w.a[1] if x is not e), w.a[2]))
                for s3 in self.mon.on_map(self, s2, 'remove', loc, e, 1, self.readloc(s2, ('H', mk('entry', loc, e), ())), ev): out.append((s3, UNIT))
            return out
        if c == 'boolopt':   # filter
            out = []
            for b in (0, 1):
                s2 = st.copy() if b == 0 else st
                if self.assume(s2, v, b):
                    self.mon.on_branch(self, s2, v, b, None)
                    if not b and len(cont) > 2: self.mon.on_reject(self, s2, cont[2])
                    out.append((s2, cont[1] if b else K(0) if cont[1].op == 'pastidx' else NONE))
            return out
        if c == 'found':
            out = []
            for s2, k, p in self.split(st, v, OPT):
                if k == 'None': self.mon.on_reject(self, s2, cont[1])
                out.append((s2, Some(p) if k == 'Some' else NONE))
            return out
        if c == 'goi': self.writeloc(st, cont[1], Some(v), cont[3]); return [(st, cont[2])]
        if c == 'once': return [(st, mk('ref', ('H', mk('valbox', v), ())))]
        if c == 'somebool': return [(st, v)]
        if c == 'nextmap': return [(st, Some(v))]
        return [(st, v)]
    def push(self, st, fn, args, cont, dest, ret):
        f = st.frames[-1]
        stack = f.stack + (f.block,)
        nf = Frame(fn, 0, stack, cont, dest, ret, f.block)
        d = len(st.frames)
        st.frames.append(nf)
        for i, a in enumerate(args): st.env[(d, i + 1)] = a
        self.inlined_edges.add((f.fn.path, fn.path))
    def call_closure(self, st, cl, args, cont, dest, ret, work):
        """inline closure `cl` (term) with argument terms; returns True if inlined"""
        c = cl
        while c.op == 'ref':
            c2 = self.readloc(st, c.a[0])
            if c2 is c: break
            c = c2
        if c.op == 'cl' and c.a[0] in self.P.fns and len(st.frames) < 40:
            fn = self.P.fns[c.a[0]]
            t1 = self.P.ty(fn.locals[1][0])
            if t1['k'] == 'ref':
                selfv = cl if cl.op == 'ref' else mk('ref', ('H', mk('valbox', c), ()))
                # nested refs: reduce to the innermost reference to the closure
                while selfv.op == 'ref' and self.readloc(st, selfv.a[0]).op == 'ref':
                    selfv = self.readloc(st, selfv.a[0])
            else: selfv = c
            # rust-call closures take their parameters spread as locals 2..
            self.push(st, fn, [selfv] + list(args), cont, dest, ret)
            self.goto(st, 0, work)
            return True
        if c.op == 'fn':
            if c.a[3]:  # constructor
                outs = self.apply_cont(st, cont, self.ctor(c.a[0], args), None)
                for s2, v in outs:
                    if v is not None and dest is not None: self.writeloc(s2, dest, v)
                    self.goto(s2, ret, work)
                return True
            if c.a[2] and c.a[1] in self.P.fns and not self.mon.opaque(self, c.a[1]) and self.P.fns[c.a[1]].trait not in NOINLINE_TRAITS:
                self.push(st, self.P.fns[c.a[1]], list(args), cont, dest, ret)
                self.goto(st, 0, work)
                return True
            nm = last2(c.a[0])
            v = None
            if nm in IDENT: v = args[0]
            elif nm in IDENT_REF: v = self.readloc(st, self.deref_loc(st, args[0])) if args else UNIT
            else: v = self.mon.hofcall(self, st, nm, args) or mk('call', strip_generics(c.a[0]), tuple(args), self.site(st, 'hof'))
            for s2, v2 in self.apply_cont(st, cont, v, None):
                if v2 is not None and dest is not None: self.writeloc(s2, dest, v2)
                self.goto(s2, ret, work)
            return True
        v = mk('call', 'closure', (c,) + tuple(args), self.site(st, 'hof'))
        for s2, v2 in self.apply_cont(st, cont, v, None):
            if v2 is not None and dest is not None: self.writeloc(s2, dest, v2)
            self.goto(s2, ret, work)
        return True
    def pure_pred(self, st, cl, m):
        """X when the straight-line predicate closure is `element == X` (for all: `element != X`), else None"""
        fn = self.P.fns[cl.a[0]]
        if fn.argc != 2 or any(bb['t']['k'] in ('call', 'switch', 'drop', 'yield') for bb in fn.blocks if not bb['c'] and not (bb['t']['k'] == 'call' and len(fn.blocks) <= 3)): return None
        s2 = st.copy()
        stand = mk('fresh', 'standin', 0)
        t2 = self.P.ty(fn.locals[2][0])
        a = mk('ref', ('H', mk('valbox', stand), ()))
        k = 0; t = t2
        while t['k'] == 'ref' and self.P.ty(t['args'][0])['k'] == 'ref' and k < 3:
            a = mk('ref', ('H', mk('valbox', a), ())); t = self.P.ty(t['args'][0]); k += 1
        self.push(s2, fn, [cl if self.P.ty(fn.locals[1][0])['k'] != 'ref' else mk('ref', ('H', mk('valbox', cl), ())), a if t2['k'] == 'ref' else stand], ('ret',), None, None)
        d = len(s2.frames) - 1
        b = 0; n = 0
        while n < 8:
            n += 1
            bb = fn.blocks[b]
            for s in bb['s']:
                if s[0] != '=': continue
                v = self.rvalue(s2, s[2]); loc = self.place(s2, s[1])
                if loc[0] != 'L' : return None
                if not loc[3]: s2.env[(loc[1], loc[2])] = v
                else: s2.env[(loc[1], loc[2])] = setproj(s2.env.get((loc[1], loc[2])), loc[3], v)
            t = bb['t']
            if t['k'] == 'goto': b = t['t']; continue
            if t['k'] == 'assert': b = t['t']; continue
            if t['k'] == 'call' and t['f'][0] == 'c' and 'fn' in t['f'][1]:
                nm = last2(t['f'][1]['fn'])
                if nm not in ('PartialEq::eq', 'PartialEq::ne'): return None
                x, y = [self.val(s2, self.operand(s2, o)) for o in t['a']]
                v = mk('bin', 'Eq' if nm.endswith('eq') else 'Ne', x, y)
                loc = self.place(s2, t['d'])
                if loc[0] != 'L' or loc[3]: return None
                s2.env[(loc[1], loc[2])] = v; b = t['t']; continue
            if t['k'] == 'return': break
            return None
        else: return None
        r = s2.env.get((d, 0))
        if r is None or r.op != 'bin' or r.a[0] != ('Ne' if m == 'all' else 'Eq'): return None
        def strip(x):
            while x.op in ('deref', 'valbox') or (x.op == 'ref' and x.a[0][0] == 'H' and not x.a[0][2]): x = x.a[0] if x.op != 'ref' else x.a[0][1]
            return x
        x, y = strip(r.a[1]), strip(r.a[2])
        if x is stand and stand not in subterms(r.a[2]): return r.a[2]
        if y is stand and stand not in subterms(r.a[1]): return r.a[1]
        return None
    def ctor(self, path, args):
        p = strip_generics(path).split('::')
        owner = '::'.join(p[:-1])
        if owner == 'core::option::Option' or path.endswith('Option::<T>::Some'): return Some(args[0])
        if p[-1] == 'Ok': return Ok(args[0])
        if p[-1] == 'Err': return Err(args[0])
        if owner in self.P.adts: return agg(owner, p[-1], tuple(str(i) for i in range(len(args))), tuple(args))
        full = '::'.join(p)
        return agg(full, p[-1], tuple(str(i) for i in range(len(args))), tuple(args))
    # ---- calls -------------------------------------------------------------------
    def call(self, st, t, work):
        f = st.frames[-1]; fn = f.fn
        site = self.site(st)
        fv = t['f']
        if fv[0] == 'c': ft = self.konst(st, fv[1]); c = fv[1]
        else: ft = self.operand(st, fv); c = {}
        args = [self.operand(st, a) for a in t['a']]
        dest = self.place(st, t['d'])
        ret = t['t']
        full = ft.a[0] if ft.op == 'fn' else '?'
        ev = Ev()
        ev.full = strip_generics(full); ev.name = last2(full); ev.args = args; ev.at = t['at']; ev.site = site
        ev.span = t['sp']; ev.fn = fn; ev.res = ft.a[1] if ft.op == 'fn' else '?'; ev.c = c; ev.block = f.block
        ev.loc = bool(ft.op == 'fn' and ft.a[2]); ev.dty = self.place_ty(fn, t['d'])
        if 'trait' in c and ('res' not in c or c.get('virt')) and args:      # a method of a type parameter: the value says which
            v = self.val(st, args[0])
            if v.op == 'agg':
                g = self.P.implof(c['trait'], full, v.a[0])
                if g is not None: ev.res = g; ev.loc = True
        self.events += 1
        self.mon.on_call(self, st, ev)
        if ret is None:
            self.mon.on_end(self, st, 'panic', None)
            return
        def fin(s2, v, emit=True):
            self.writeloc(s2, dest, v)
            if emit: self.mon.on_ret(self, s2, ev, v)
            self.goto(s2, ret, work)
        def inline(s2, cl, a, cont):
            self.call_closure(s2, cl, a, cont, dest, ret, work)
        # fn pointers / closure trait calls
        n = ev.name
        if n in ('FnOnce::call_once', 'FnMut::call_mut', 'Fn::call'):
            tupv = args[1] if len(args) > 1 else UNIT
            a = list(tupv.a[3]) if tupv.op == 'agg' else ([] if tupv.op == 'unit' else [tupv])
            return inline(st, args[0], a, ('ret',))
        if ft.op in ('cl',):
            return inline(st, ft, args, ('ret',))
        if ev.loc and ev.res in self.P.fns and n not in IDENT_REF:
            g = self.P.fns[ev.res]
            if g.trait in NOINLINE_TRAITS and n.startswith(('PartialEq', 'PartialOrd')):
                if self.model(st, ev, args, t, fin, inline, work, dest, ret) is not None: return
            if g.trait in NOINLINE_TRAITS or self.mon.opaque(self, ev.res) or len(st.frames) > 30 or sum(1 for x in st.frames if x.fn is g) >= 2 \
               or (any(x.fn is g for x in st.frames) and g.kind not in ('closure',)):
                for loc in self.mutrefs(args, t['at']): self.havoc(st, loc, site)
                val = self.mon.opaqueval(self, st, ev)
                if val is None: val = mk('call', ev.full, tuple(self.deloc(st, a) for a in args), site)
                self.rebind(st, val)
                if self.mon.forkbool(self, ev):
                    s0 = st.copy()
                    if self.assume(s0, val, 0): fin(s0, val)
                    if not self.assume(st, val, 1): return
                return fin(st, val)
            self.push(st, g, args, ('ret',), dest, ret)
            return self.goto(st, 0, work)
        r = self.mon.override(self, st, ev)
        if isinstance(r, list):         # [(state, value)]
            for s2, v in r: fin(s2, v)
            return
        if r is not None: return fin(st, r)
        r = self.model(st, ev, args, t, fin, inline, work, dest, ret)
        if r is not None: return
        # unknown external
        self.unmodelled[n] = self.unmodelled.get(n, 0) + 1
        self.generic(st, ev, args, t, fin, work, dest, ret)
    def inuse(self, st, e):
        for v in st.mon.values():
            if isinstance(v, Term):
                if e in subterms(v): return True
            elif isinstance(v, (tuple, frozenset)):
                if any(e in subterms(y) for y in iter_terms(tuple(v))): return True
        return any(e in v._sub if v._sub is not None else e in subterms(v) for v in st.env.values())
    def place_ty(self, fn, p):
        if not p[1]: return fn.locals[p[0]][0]
        if p[1][-1][0] == 'f': return p[1][-1][4]
        return None
    def rebind(self, st, term):
        """`term` is about to denote a new value: nothing known about an earlier one survives"""
        for d in (st.facts, st.nfacts):
            for t in [t for t in d if (term in subterms(t) if isinstance(t, Term) else (term in subterms(t[2]) or (t[1][0] == 'H' and term in subterms(t[1][1]))))]:
                del d[t]
        for k in [k for k in st.heap if term in subterms(k[0])]: del st.heap[k]
    def retire(self, st, term, new):
        """`term` describes a value that is about to change: what was computed from the old value keeps it under the name `new`"""
        self.rebind(st, new)
        def go(x):
            if isinstance(x, Term): return subst(x, term, new)
            if isinstance(x, tuple): return tuple(go(y) for y in x)
            return x
        for k, v in list(st.env.items()):
            if term in subterms(v): st.env[k] = go(v)
        for k, v in list(st.heap.items()):
            if term in subterms(v): st.heap[k] = go(v)
        for d in (st.facts, st.nfacts):
            for k in [k for k in d if (isinstance(k, Term) and term in subterms(k))]: d[go(k)] = d.pop(k)
        for k, v in list(st.mon.items()):
            if isinstance(v, (Term, tuple)): st.mon[k] = go(v)
    def mutrefs(self, args, at):
        out = []
        for a, ti in zip(args, at):
            t = self.P.ty(ti)
            if t['k'] == 'ref' and t.get('mut') and a.op == 'ref': out.append(a.a[0])
            elif t['k'] == 'adt' and t['def'].endswith('pin::Pin') and a.op == 'ref': pass
        return out
    def havoc(self, st, loc, site):
        v = self.readloc(st, loc)
        if v.op in ('moved', 'undef'): return
        if v.op == 'vec': nv = mk('vec', '?', (), v.a[2])
        elif v.op in ('iter', 'iterad'): nv = v
        else: nv = mk('mut', site)
        if loc[0] == 'L': self.writeloc(st, loc, nv)
        else: self.writeloc(st, loc, nv)
    def generic(self, st, ev, args, t, fin, work, dest, ret):
        # an external function that received closures may run them (0 or 1 time)
        cls = []
        for a in args:
            self.closures_of(st, a, cls)
        recursive = tuple(mk('top', 'rec', ev.site) if ev.site in a.sites else a for a in args)
        # normalise references to locals in opaque calls to their value (value numbering)
        val = mk('call', ev.full, tuple(self.deloc(st, a) for a in recursive), ev.site)
        self.rebind(st, val)
        for loc in self.mutrefs(args, t['at']): self.havoc(st, loc, ev.site)
        if cls and not ev.name.startswith(('fmt::', 'Arguments::', 'Argument::')):
            for i, c in enumerate(cls):
                s2 = st.copy()
                g = self.P.fns[c.a[0]]
                aa = [mk('elem', c, ev.site) for _ in range(max(0, g.argc - 1))]
                self.call_closure(s2, c, aa, ('val', val, ev), dest, ret, work)
        fin(st, val)
    def closures_of(self, st, x, out, n=0):
        """closures carried by a value (not those that merely produced it)"""
        if n > 6 or not isinstance(x, Term): return
        if x.op == 'cl':
            if x.a[0] in self.P.fns and x not in out: out.append(x)
        elif x.op == 'ref': self.closures_of(st, self.readloc(st, x.a[0]), out, n + 1)
        elif x.op in ('agg',):
            for y in x.a[3]: self.closures_of(st, y, out, n + 1)
        elif x.op == 'iterad':
            self.closures_of(st, x.a[2], out, n + 1)
            for y in x.a[3]: self.closures_of(st, y, out, n + 1)
        elif x.op in ('pollfn', 'upd'): self.closures_of(st, x.a[0], out, n + 1)
    def deloc(self, st, a):
        """a reference to a local becomes a `vref` of the local's value, so terms do not depend on frame numbers"""
        if a.op == 'ref' and a.a[0][0] == 'L':
            v = self.readloc(st, a.a[0])
            return mk('vref', v) if v.op not in ('moved', 'undef') else a
        return a
    def val(self, st, a):
        """value behind (possibly nested) references"""
        n = 0
        while n < 6:
            if a.op == 'ref': a = self.readloc(st, a.a[0])
            elif a.op == 'vref': a = a.a[0]
            else: break
            n += 1
        return a

import models
Interp.model = models.model
