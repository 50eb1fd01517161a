"""The queue database: every logged operation reaches it once and in order (Q06), and a restart gives back what was stored (Q07)."""
from core import *
import re
from models import track
from interp import others
from rules_queue import QAnchors, last, args_of
from rules_group import isfld, strip, decided, factcmps
from rules_stream import Base, runone
from rules_log import awaited, RES, OPT, nm
MODP = 'brokers::queue::'
TYW = {'u8': 8, 'i8': 8, 'u16': 16, 'i16': 16, 'u32': 32, 'i32': 32, 'u64': 64, 'i64': 64, 'usize': 64, 'isize': 64, 'u128': 128, 'i128': 128}

# ---------------------------------------------------------------- SQL
def norm(s): return re.sub(r'\s+', ' ', s).strip().rstrip(';').strip()
def sql(s):
    """('ins', table, {col: slot}) | ('del', table, None or (col, slot)) | ('upd', table, {col: slot}, (col, slot)) | ('sel', table, [cols], rest) | ('create', table, {col: decl}) | ('other',) | None
    a slot is ('?', index) or ('lit', text)"""
    s = norm(s); n = [0]
    def slot(x):
        x = x.strip()
        m = re.fullmatch(r'\?(\d*)', x)
        if m:
            n[0] = int(m.group(1)) if m.group(1) else n[0] + 1
            return ('?', n[0] - 1)
        m = re.fullmatch(r'[:@$](\w+)', x)
        if m: return (':', m.group(1))
        return ('lit', x)
    I = re.I
    m = re.fullmatch(r'INSERT(?: OR (\w+))? INTO (\w+) ?\(([^()]*)\) ?VALUES ?\(([^()]*)\)', s, I)
    if m:
        cols = [c.strip() for c in m.group(3).split(',')]; vals = [slot(x) for x in m.group(4).split(',')]
        if len(cols) != len(vals): return None
        return ('ins', m.group(2).lower(), dict(zip([c.lower() for c in cols], vals)), (m.group(1) or '').upper())
    m = re.fullmatch(r'INSERT(?: OR (\w+))? INTO (\w+) ?VALUES ?\(([^()]*)\)', s, I)
    if m and m.group(2).lower() in TABLES:      # no columns named: those of the table
        cols = TABLES[m.group(2).lower()]; vals = [slot(x) for x in m.group(3).split(',')]
        return ('ins', m.group(2).lower(), dict(zip(cols, vals)), (m.group(1) or '').upper()) if len(cols) == len(vals) else None
    m = re.fullmatch(r'DELETE FROM (\w+)(?: WHERE (\w+) ?= ?(\S+))?', s, I)
    if m: return ('del', m.group(1).lower(), (m.group(2).lower(), slot(m.group(3))) if m.group(2) else None)
    m = re.fullmatch(r'UPDATE (\w+) SET (.*?) WHERE (\w+) ?= ?(\S+)', s, I)
    if m:
        sets = {}
        for a in m.group(2).split(','):
            q = re.fullmatch(r'\s*(\w+) ?= ?(\S+)\s*', a)
            if not q: return None
            sets[q.group(1).lower()] = slot(q.group(2))
        return ('upd', m.group(1).lower(), sets, (m.group(3).lower(), slot(m.group(4))))
    m = re.fullmatch(r'SELECT (.*?) FROM (\w+)(.*)', s, I)
    if m:
        cols = [c.strip().lower() for c in m.group(1).split(',')]
        return ('sel', m.group(2).lower(), list(TABLES.get(m.group(2).lower(), cols)) if cols == ['*'] else cols, m.group(3).strip())
    m = re.fullmatch(r'CREATE TABLE (?:IF NOT EXISTS )?(\w+) ?\((.*)\)', s, I)
    if m:
        cols = {}
        for c in m.group(2).split(','):
            q = re.match(r'\s*(\w+) ?(.*)', c)
            cols[q.group(1).lower()] = q.group(2).upper()
        return ('create', m.group(1).lower(), cols)
    if re.match(r'(PRAGMA|BEGIN|COMMIT|CREATE INDEX|CREATE UNIQUE INDEX)\b', s, I): return ('other',)
    return None
TABLES = {}     # table -> its columns, from the statements that create them
def learntables(P):
    TABLES.clear()
    for f in P.libfns:
        b = str(f.blocks) + str([p['blocks'] for p in f.promoted])
        if 'CREATE TABLE' not in b: continue
        for m in re.finditer(r'CREATE TABLE [^;]*?\)(?=\s|\\n|[;\'"])', b.replace('\\n', ' ')):
            q = sql(m.group(0))
            if q and q[0] == 'create': TABLES.setdefault(q[1], list(q[2]))
def text(t):
    """the constant string a term is"""
    for s in [t] + list(subterms(t)):
        if s.op == 'k' and isinstance(s.a[1] if len(s.a) > 1 else None, str): return s.a[1]
        for x in s.a:
            if isinstance(x, str) and re.match(r'\s*(INSERT|DELETE|UPDATE|SELECT|CREATE|PRAGMA|DROP|REPLACE|ALTER)\b', x, re.I): return x
    return None
def whole(I, st, t):
    for _ in range(4):
        if t.op != 'ref': break
        t = I.val(st, t)
    return t
def params(I, st, a):
    a = whole(I, st, a)
    if a.op == 'deref': a = a.a[0]
    if a.op == 'ref': a = whole(I, st, a)
    if a.op == 'agg': return [whole(I, st, x) for x in a.a[3]]
    return None
def casts(t):
    """(value under integer casts, narrowest width it passes through)"""
    w = 999
    while t.op in ('cast', 'trunc'):
        w = min(w, t.a[0] if t.op == 'trunc' else TYW.get(t.a[0].split(':')[-1], 999)); t = t.a[1]
    return t, w
def fieldpath(t):
    """names of the fields from the operation down to the value"""
    p = []
    while t.op in ('fld', 'var', 'payload', 'proj', 'deref', 'cast'):
        if t.op == 'fld': p.append(t.a[1])
        t = t.a[1] if t.op == 'cast' else t.a[0]
    return tuple(reversed(p)), t

class StoreBase(Base):
    def statement(self, I, st, ev, val):
        """(parsed SQL, text, parameter values) of a call that runs a statement"""
        m = ev.name.split('::')
        if m[-1] not in ('execute', 'query_map', 'query', 'query_and_then', 'query_row', 'query_one'): return None
        if ev.loc: return None
        c = ev.args[0]
        seen = val.a[1] if val.op == 'call' else ()   # what the call saw of its arguments (a &mut argument is unknown afterwards)
        for k, a in enumerate(ev.args):
            s = text(seen[k]) if k < len(seen) else None
            if s is None: s = text(whole(I, st, a))
            if s is None: continue
            ps = ()
            if k + 1 < len(ev.args): ps = params(I, st, ev.args[k + 1])
            return sql(s), norm(s), ps
        return (None, '?', None) if m[0] in ('Statement', 'Connection', 'CachedStatement', 'Transaction') else None

SPEC = {   # what each logged operation has to do to the tables
    'Insert': (('ins', 'queue', 'Message'),), 'Delete': (('del', 'queue'),), 'UpdateState': (('upd', 'queue'),),
    'InsertDLQ': (('ins', 'dlq', 'DlqMessage'),), 'DeleteDLQ': (('del', 'dlq'),),
    'MoveToDLQ': (('del', 'queue'), ('ins', 'dlq', 'DlqMessage')), 'MoveToMain': (('del', 'dlq'), ('ins', 'queue', 'Message')), 'PurgeDLQ': (('purge', 'dlq'),)}
NEED = {'queue': ('id', 'payload', 'priority', 'visible_at', 'attempts', 'created_at'), 'dlq': ('id', 'payload', 'priority', 'attempts', 'created_at', 'failed_at', 'failure_reason')}
WIDTH = {'priority': 8, 'attempts': 32, 'visible_at': 64, 'created_at': 64, 'failed_at': 64}

class OpMon(StoreBase):
    """exec_op: what each operation does to the tables"""
    def __init__(self, P, api, out):
        Base.__init__(self, P, api); self.out = out; self.SOP = [d for d in P.adts if d.endswith('persistence::StorageOp') and 'queue' in d][0]
        self.seen = set()
    def on_ret(self, I, st, ev, val):
        s = self.statement(I, st, ev, val)
        if s is None: return
        q, t, ps = s
        self.n('statements checked'); st.note('%s %s' % (t[:100], where(ev.span)))
        if q is None or ps is None and q[0] != 'other': self.bad('Q07', 'sql', 'a statement whose effect is not understood: %s' % t[:120], ev.span, st); return
        st.mon['eff'] = st.mon.get('eff', ()) + ((q_key(q), tuple(ps or ()), tuple(ev.span), val),)
    def failing(self, I, st):
        """some statement failed on this path"""
        for k, ps, sp, v in st.mon.get('eff', ()):
            if I.variant_of(st, v, RES) == 'Err': return True
        return False
    def on_end(self, I, st, kind, val):
        if kind == 'panic' or val is None: return
        v = I.val(st, val)
        if I.variant_of(st, v, RES) == 'Err' or self.failing(I, st): return
        ops = [x for x in self.opterms(I, st)]
        eff = st.mon.get('eff', ())
        k = None
        for o in ops:
            k = I.variant_of(st, o, self.SOP)
            if k: break
        if k is None:
            if not eff or ops: self.bad('Q07', 'unhandled', 'an operation can be skipped without touching the database', None, st)
            return
        self.n('operations checked'); self.seen.add(k)
        want = SPEC.get(k)
        if want is None: return
        got = []
        for q, ps, sp, r in eff:
            q = dict_q(q)
            if q[0] == 'other': continue
            def role(slot):
                if slot[0] == 'lit':
                    return ('k', 0) if slot[1] in ('0',) else ('lit', slot[1])
                if slot[0] != '?' or slot[1] >= len(ps): return ('?',)
                x = ps[slot[1]]; y, w = casts(x)
                if y.op == 'k': return ('k', y.a[1])
                fp, base = fieldpath(x)
                f = fp[-1] if fp else '?'
                if f == '0' or f == 'id': f = 'id'
                if not any(base is b or any(z is b for z in subterms(x)) for b in ops): return ('?', show(x)[-60:])
                if WIDTH.get(f, 0) > w: self.bad('Q07', 'narrow:' + k, 'the %s of a message is stored with only %d bits' % (f, w), sp, st)
                return ('f', f)
            tb = q[1]; side = self.out.setdefault('tables', {}).get(tb)
            if q[0] == 'ins': got.append(('ins', tb, {c: role(s) for c, s in q[2].items()}, sp)); 
            elif q[0] == 'del': got.append(('del', tb, None if q[2] is None else (q[2][0], role(q[2][1])), sp))
            elif q[0] == 'upd': got.append(('upd', tb, {c: role(s) for c, s in q[2].items()}, sp, (q[3][0], role(q[3][1]))))
            else: self.bad('Q07', 'effect:' + k, '%s runs an unexpected statement' % k, sp, st)
            if q[0] == 'ins' and q[3] not in ('', 'REPLACE', 'ABORT', 'FAIL', 'ROLLBACK'): self.bad('Q07', 'orignore:' + k, '%s does not store the message when a row with its id exists' % k, sp, st)
        self.out.setdefault('ops', {}).setdefault(k, []).append((got, tuple(st.tracelist())))
    def opterms(self, I, st): return self.ops
    def on_start(self, I, st):
        nm, ref = op_param(self.P, I.root)
        self.ops = [I.readloc(st, ('H', mk('arg', nm), ())) if ref else mk('arg', nm)]
def q_key(q): return tuple(tuple(sorted(x.items())) if isinstance(x, dict) else tuple(x) if isinstance(x, list) else x for x in q)
def dict_q(q): return tuple(dict(x) if isinstance(x, tuple) and x and isinstance(x[0], tuple) and len(x[0]) == 2 and i == 2 and q[0] in ('ins', 'upd') else x for i, x in enumerate(q))

def iv(t):
    t = strip(t)
    return t
class RowMon(StoreBase):
    """one row of a SELECT turned into a message"""
    def __init__(self, P, api, cols, table, out):
        Base.__init__(self, P, api); self.cols = cols; self.table = table; self.out = out
    def override(self, I, st, ev): return None
    def on_ret(self, I, st, ev, val):
        m = ev.name.split('::')
        if m[-1] == 'next':          # another row
            for k in ('ty', 'future', 'past', 'made'): st.mon.pop(k, None)
        if m[0] == 'Row' and m[-1] in ('get', 'get_unwrap', 'get_ref'):
            ty = [self.P.tys(x) for x in ev.c.get('targs', ()) if isinstance(x, int)]
            self.n('column reads checked'); st.mon['ty:%d' % val.a[-1] if False else 'ty'] = st.mon.get('ty', ()) + ((val, ty[-1] if ty else '?', tuple(ev.span)),)
    def col(self, t):
        """the column a value comes from: (column, call term)"""
        for s in [t] + list(subterms(t)):
            if s.op == 'call' and s.a[0].split('::')[-1] in ('get', 'get_unwrap') and len(s.a[1]) == 2:
                i = strip(s.a[1][1])
                if i.op == 'k' and isinstance(i.a[1], int): return (self.cols[i.a[1]] if i.a[1] < len(self.cols) else None), s
                x = text(i) or (i.a[1] if i.op == 'k' else None)
                if isinstance(x, str) and x.lower() in self.cols: return x.lower(), s
        return None, None
    def on_agg(self, I, st, term, span):
        o = last(term.a[0])
        if o not in ('Message', 'DlqMessage'): return
        f = dict(zip(term.a[2], term.a[3])); self.n('rows turned into messages'); st.note('row becomes %s %s' % (o, where(span)))
        st.mon['made'] = 1
        m = {}
        types = {v: ty for v, ty, _ in st.mon.get('ty', ())}
        for name, v in f.items():
            v = whole(I, st, v)
            if name == 'state' or o == 'Message' and name == 'failure_reason': continue
            c, call = self.col(v)
            ncols = {self.col(s)[0] for s in subterms(v) if s.op == 'call' and s.a[0].split('::')[-1] == 'get'} | {c}
            if c is None:
                d = self.nullfact(I, st, name)
                if not d: self.bad('Q07', 'field:' + name, 'the %s of a restored message is not what was stored (%s)' % (name, show(v)[-60:]), span, st)
                continue
            if len(ncols - {None}) > 1: self.bad('Q07', 'mixed:' + name, 'the %s of a restored message mixes columns' % name, span, st)
            x, w = casts(v)
            tw = TYW.get(types.get(call, ''), 999)
            if WIDTH.get(name, 0) > min(w, tw): self.bad('Q07', 'width:' + name, 'the %s of a restored message is read with only %d bits' % (name, min(w, tw)), span, st)
            if x.op == 'bin': self.bad('Q07', 'changed:' + name, 'the %s of a restored message is computed from what was stored' % name, span, st)
            m[name] = c
        r = self.out.setdefault('read', {}).setdefault((self.table, o), {})
        for k, c in m.items():
            if r.setdefault(k, c) != c: self.bad('Q07', 'two:' + k, 'the %s of a restored message comes from different columns' % k, span, st)
        if o == 'Message': self.state(I, st, f, span)
    def nullfact(self, I, st, name):
        return any(isinstance(t, Term) and t.op == 'discr' and self.col(t.a[0])[0] for t in st.facts)
    def on_branch(self, I, st, term, val, span):
        for o, x, y in decided(term, val):
            x, y = peelnum(strip(x)), peelnum(strip(y))
            if o in ('Lt', 'Le') and isnow(x) and self.col(y)[0]: st.mon['future'] = y
            if o in ('Lt', 'Le') and isnow(y) and self.col(x)[0]: st.mon['past'] = x
    def state(self, I, st, f, span):
        s = f.get('state'); 
        if s is None: return
        s = whole(I, st, s); self.n('restored states checked')
        va = casts(whole(I, st, f.get('visible_at', mk('undef'))))[0]
        att = casts(whole(I, st, f.get('attempts', mk('undef'))))[0]
        va, att = peelnum(va), peelnum(att)
        never = None
        later = 'Lt' if st.mon.get('future') is va else 'no' if st.mon.get('past') is va else None
        for o, x, y in factcmps(st):
            x, y = peelnum(strip(x)), peelnum(strip(y))
            if x is att and y.op == 'k' and (o == 'Le' and y.a[1] == 0 or o == 'Lt' and y.a[1] == 1 or o == 'Eq' and y.a[1] == 0): never = True
            if y is att and x.op == 'k' and o == 'Eq' and x.a[1] == 0: never = True
        k = s.a[1] if s.op == 'agg' else None
        if k == 'InFlight':
            d = peelnum(casts(whole(I, st, s.a[3][0]))[0]) if s.a[3] else None
            if d is not va: self.bad('Q07', 'deadline', 'a restored message in flight does not keep its deadline', span, st)
            if later not in ('Lt', 'Le'): self.bad('Q07', 'inflight', 'a restored message counts as in flight although its deadline was not found to be in the future', span, st)
        elif k == 'Ready':
            if later != 'no' and not never and not self.zero(st, att): self.bad('Q07', 'ready', 'a message in flight is available again after a restart before its deadline', span, st)
        else: self.bad('Q07', 'state', 'the state of a restored message is not known (%s)' % show(s)[-60:], span, st)
    def zero(self, st, att):
        return any(isinstance(t, Term) and v == 0 and peelnum(strip(t)) is att for t, v in st.facts.items())
    def on_end(self, I, st, kind, val):
        if kind == 'panic': return
        self.n('paths checked')
def isnow(t): return any(s.op == 'call' and ('now' in s.a[0] or 'as_millis' in s.a[0] or 'duration_since' in s.a[0] or 'current_time' in s.a[0] or 'elapsed' in s.a[0]) for s in [t] + list(subterms(t))) or 'now' in show(t) or 'UNIX_EPOCH' in show(t)
def peelnum(t):
    while t.op == 'cast': t = t.a[1]
    return t

class LoadMon(StoreBase):
    """QueueStore::recover: which rows come back"""
    def __init__(self, P, api, out):
        Base.__init__(self, P, api); self.out = out; self.closures = []; self.pend = []
    def on_ret(self, I, st, ev, val):
        m = ev.name.split('::')[-1]
        s = self.statement(I, st, ev, val)
        if s and m in ('query_map', 'query', 'query_and_then'):
            q, t, ps = s; st.note('%s %s' % (t[:80], where(ev.span))); self.n('queries checked')
            if q is None or q[0] != 'sel': self.bad('Q07', 'query', 'a query that is not understood: %s' % t[:120], ev.span, st); return
            if q[3] and not re.fullmatch(r'ORDER BY [\w ,]+', q[3], re.I): self.bad('Q07', 'part', 'only part of the stored messages is loaded (%s)' % q[3], ev.span, st)
            for a in ev.args:
                for z in [a] + list(subterms(a)):
                    if z.op == 'cl' or z.op == 'fn' and z.a[2] and z.a[1] in self.P.fns:
                        k = (z.a[0] if z.op == 'cl' else z.a[1], tuple(q[2]), q[1])
                        if k not in self.closures: self.closures.append(k)
            if m == 'query':
                r = (q[1], q[2], ev.fn.path)
                if r not in self.out.setdefault('rows', []): self.out['rows'].append(r)
            st.mon['q'] = st.mon.get('q', ()) + ((q[1], val),)
        if m == 'next' and val.op == 'agg' and val.a[1] == 'Some':
            x = strip(val.a[3][0])
            if x.op == 'elem':
                for tb, qv in st.mon.get('q', ()):
                    if any(z is qv for z in subterms(x)): st.mon['row:' + tb] = x
    def on_end(self, I, st, kind, val):
        if kind == 'panic' or val is None: return
        v = I.val(st, val)
        if v.op != 'agg' or v.a[1] != 'Ok': return
        t = whole(I, st, v.a[3][0])
        self.n('results checked')
        parts = [whole(I, st, x) for x in t.a[3]] if t.op == 'agg' else [t]
        qs = dict(st.mon.get('q', ()))
        for i, p in enumerate(parts):
            src = {tb for tb, qv in qs.items() if any(z is qv for z in [p] + list(subterms(p)))}
            if src: self.out.setdefault('part', {}).setdefault(i, set()).update(src)
        for tb in qs:
            x = st.mon.get('row:' + tb)
            if x is None: continue
            has = {i for i, p in enumerate(parts) if p.op != 'vec' or any(z is x for y in p.a[1] if isinstance(y, Term) for z in [y] + list(subterms(y)))}
            self.pend.append((tb, has, st))
        if len(parts) >= 2 and not qs: self.bad('Q07', 'noquery', 'recovery succeeds without reading the stored messages', None, st)
    def settle(self, I=None):
        """which part of the result holds which table is known once every path was seen"""
        for tb, has, st in self.pend:
            want = {i for i, ts in self.out.get('part', {}).items() if tb in ts}
            if not has & want: self.bad('Q07', 'dropped:' + tb, 'a stored message read from %s is left out of what is restored' % tb, None, st)

class StoreMon(Base):
    """does a method of the queue state store the message it is given, on every path?"""
    def __init__(self, P, A, arg): Base.__init__(self, P, ''); self.A = A; self.arg = mk('arg', arg); self.side = set(); self.ok = True; self.ends = 0
    def on_map(self, I, st, op, loc, key, was, val, ev):
        f = lastfield(loc); f = (f[2], f[1]) if f else None
        if f in self.A.reg | self.A.dlq:
            vt = I.val(st, val) if val is not None and val.op == 'ref' else val
            if op == 'insert' and vt is not None and any(z is self.arg for z in [vt] + list(subterms(vt))): st.mon['ins'] = 1; self.side.add('main' if f in self.A.reg else 'dlq')
            if op in ('remove', 'clear'): self.ok = False
        return (st,)
    def on_end(self, I, st, kind, val):
        if kind == 'panic': return
        self.ends += 1
        if 'ins' not in st.mon: self.ok = False
def storing(P, A):
    """{function: (side, position of the message)} of the functions that store the message they are given"""
    out = {}
    for f in P.libfns:
        if not f.path.startswith(MODP) or f.trait or f.kind not in ('fn', 'assocfn'): continue
        ps = [i for i in range(f.argc) if last(P.ty(f.locals[i + 1][0]).get('def', '')) in ('Message', 'DlqMessage')]
        if len(ps) != 1 or f.argc < 2: continue
        m = StoreMon(P, A, f.locals[ps[0] + 1][1] or 'arg%d' % (ps[0] + 1))
        try: Interp(P, m, 20000).run(f)
        except Budget: continue
        if m.ok and m.ends and len(m.side) == 1: out[f.path] = (m.side.pop(), ps[0])
    return out
class BuildMon(StoreBase):
    """build_queue: every restored message is in the queue"""
    def __init__(self, P, A, api, rec, stores):
        Base.__init__(self, P, api); self.A = A; self.rec = rec; self.path = {}; self.stores = stores
    def opaque(self, I, path): 
        p = path.split('::{')[0]
        return p in self.rec or p.endswith('QueueStore::new') or p in self.stores
    def on_ret(self, I, st, ev, val):
        m = ev.name.split('::')[-1]
        if ev.loc and ev.res.split('::{')[0] in self.rec: st.mon['rec'] = val; self.n('recoveries'); st.note('recover %s' % where(ev.span))
        if ev.loc and ev.res.split('::{')[0].endswith('QueueStore::new'):
            st.mon['store'] = val; self.path['open'] = pathkey_of(I, st, ev.args[0])
        if ev.loc and ev.res in self.stores:
            side, i = self.stores[ev.res]; vt = whole(I, st, ev.args[i]); self.inserted(I, st, side, vt, ev)
    def on_draw(self, I, st, e, ev):
        x = strip(e)
        if x.op == 'elem' and st.mon.get('rec') is not None and any(z is st.mon['rec'] for z in subterms(x)) and x not in st.mon.get('row', ()): st.mon['row'] = st.mon.get('row', ()) + (x,)
    def on_map(self, I, st, op, loc, key, was, val, ev):
        f = lastfield(loc)
        f = (f[2], f[1]) if f else None
        if op == 'insert' and f in self.A.reg | self.A.dlq:
            self.inserted(I, st, 'main' if f in self.A.reg else 'dlq', I.val(st, val) if val.op == 'ref' else val, ev)
        if op in ('remove', 'clear') and f in self.A.reg | self.A.dlq: self.bad('Q07', 'removed', 'restored messages are removed again while the queue is built', ev.span, st)
        return (st,)
    def inserted(self, I, st, side, vt, ev):
            for x in st.mon.get('row', ()):
                if any(z is x for z in [vt] + list(subterms(vt))):
                    st.mon['ins'] = st.mon.get('ins', ()) + (x,) if x not in st.mon.get('ins', ()) else st.mon['ins']
                    n = self.part(x); self.n('restored messages stored')
                    if n is not None and n != side: self.bad('Q07', 'side', 'a restored message of the %s is put into the %s' % (('queue', 'dead-letter list') if n == 'main' else ('dead-letter list', 'queue')), ev.span, st)
    def part(self, x):
        f = fieldpath(x.a[0])[0]
        return {'0': 'main', '1': 'dlq'}.get(f[-1] if f else None)
    def on_end(self, I, st, kind, val):
        if kind == 'panic' or val is None: return
        self.n('paths checked')
        if 'rec' not in st.mon: self.bad('Q07', 'norecover', 'a queue is opened without restoring its stored messages', None, st); return
        for x in st.mon.get('row', ()):
            if x not in st.mon.get('ins', ()): self.bad('Q07', 'lost', 'a restored message is not put back into the queue', None, st)

def literals(t):
    """constant strings in a term, in order of appearance"""
    r = []
    def go(x, d):
        if d > 60: return
        if isinstance(x, Term):
            if x.op == 'k':
                v = x.a[1] if len(x.a) > 1 else None
                if isinstance(v, bytes): v = v.decode('latin1')
                if isinstance(v, str):
                    q = re.fullmatch(r"b?(['\"])(.*)\1", v, re.S)
                    r.append(q.group(2) if q else v)
                return
            for y in x.a[1:] if x.op in ('call', 'agg', 'fld') else x.a: go(y, d + 1)
        elif isinstance(x, tuple):
            for y in x: go(y, d + 1)
    go(t, 0)
    return r
def frags(t):
    """literal pieces of a path or name term, in order of appearance"""
    r = []
    for q in literals(t):
        q = re.sub(r'\\x[0-9a-f]{2}|\\.|[\x00-\x1f\x7f-\xff]', ' ', q)
        r += re.findall(r'[A-Za-z0-9._\-]+', q)
    return tuple(x for x in r if x.strip('-_'))
def pathkey_of(I, st, a):
    v = whole(I, st, a)
    for _ in range(3):
        if v.op == 'vref': v = v.a[0]
        if v.op == 'ref': v = whole(I, st, v)
    big = []
    for s in [v] + list(subterms(v)):
        if s.op == 'call' and s.a[0].split('::')[-1] in ('fmt', 'join', 'concat'): big.append(s)
    full = ' '.join(fullshow(s) for s in ([v]))
    return (frags(v), 'persistence_path' in full), v
def fullshow(t, d=0):
    if d > 40: return '…'
    if isinstance(t, tuple): return '(' + ','.join(fullshow(x, d + 1) for x in t) + ')'
    if not isinstance(t, Term): return repr(t) if isinstance(t, (str, bytes)) else str(t)
    return '%s(%s)' % (t.op, ','.join(fullshow(x, d + 1) for x in t.a))

BADNAME = ('trim_end_matches', 'trim_matches', 'trim_start_matches', 'trim_right_matches', 'replace', 'replacen', 'split_once', 'split', 'trim_end', 'to_lowercase', 'to_uppercase')
class WarmMon(StoreBase):
    """QueueManager::new: every database file becomes the queue of its name again"""
    def __init__(self, P, api, build, openfr): Base.__init__(self, P, api); self.build = build; self.openfr = openfr; self.cfg = None; self.used = False
    def opaque(self, I, path): p = path.split('::{')[0]; return p in self.build or 'spawn' in p.split('::')[-1]
    def mine(self, t): return any(s.op == 'elem' and 'read_dir' in show(s)[:400] for s in [t] + list(subterms(t)))
    def on_ret(self, I, st, ev, val):
        m = ev.name.split('::')[-1]
        if m == 'next' and val.op == 'agg':
            self.close(I, st)
            it = I.val(st, ev.args[0]) if ev.args else None; k = 0
            while it is not None and it.op == 'ref' and k < 5: it = I.val(st, it); k += 1
            if it is not None and 'read_dir' in show(it)[:600]:
                if val.a[1] == 'Some': st.mon['open'] = 1
                else: st.mon.pop('open', None)
            if val.a[1] == 'Some' and self.mine(strip(val.a[3][0])): st.mon['entry'] = 1; self.n('files looked at'); st.note('next file %s' % where(ev.span))
        if m in ('push', 'push_back', 'insert', 'extend') and 'entry' in st.mon and 'built' not in st.mon and len(ev.args) >= 2 and self.mine(whole(I, st, ev.args[1])): st.mon['kept'] = 1
        if ev.loc and ev.res in self.build:
            self.n('queues restored'); st.note('build %s' % where(ev.span))
            c = whole(I, st, ev.args[1])
            if any(s.op == 'call' and s.a[0].split('::')[-1] in ('from_str', 'from_slice', 'from_reader') for s in [c] + list(subterms(c))): self.used = True
            name = whole(I, st, ev.args[0])
            if not self.mine(name):
                if track(name): self.bad('Q07', 'name', 'a restored queue does not get its name from its file (%s)' % show(name)[-60:], ev.span, st)
                return
            for s in [name] + list(subterms(name)):
                f = s.a[0].split('::')[-1] if s.op == 'call' else ''
                if f in BADNAME: self.bad('Q07', 'inverse', 'the name of a restored queue is cut from its file name with %s, which does not give back every name (for instance one that itself ends in the suffix)' % f, ev.span, st)
                if f in ('strip_suffix',) and text2(s.a[1][1]) and self.openfr and text2(s.a[1][1]) != self.openfr[-1]: self.bad('Q07', 'suffix', 'the suffix cut from the file name of a restored queue is not the one its file is created with', ev.span, st)
            st.mon['built'] = (name, val)
        if m in ('insert', 'entry', 'or_insert', 'or_insert_with') and 'built' in st.mon and len(ev.args) >= 3:
            nme, b = st.mon['built']
            v = whole(I, st, ev.args[2])
            if any(z is b for z in [v] + list(subterms(v))):
                self.n('restored queues registered'); st.mon['reg'] = 1
                k = whole(I, st, ev.args[1])
                if k is not nme: self.bad('Q07', 'key', 'a restored queue is registered under another name than its own', ev.span, st)
        if m in ('read_to_string', 'read', 'open') and ev.name.startswith(('fs', 'File')):
            k = pathkey_of(I, st, ev.args[0])[0]; self.cfg = k
    def on_split(self, I, st, v, variant):
        if 'entry' in st.mon and variant in ('None', 'Err'):
            f = v.a[0].split('::')[-1] if v.op == 'call' else ''
            if f in self.PEEK: st.mon['why'] = 1
            if f == 'strip_suffix': self.suffix(st, v, False)
    PEEK = ('file_name', 'to_str', 'file_stem', 'extension', 'file_type', 'metadata', 'into_string')
    def suffix(self, st, t, yes):
        suf = text2(t.a[1][1]) if len(t.a[1]) > 1 else None
        own = self.openfr[-1] if self.openfr else '.db'
        if suf is not None and yes != (own.endswith(suf) or suf.endswith(own)): st.mon['why'] = 1
    def on_branch(self, I, st, term, val, span):
        if 'entry' not in st.mon: return
        t = term.a[0] if term.op == 'discr' else term
        names = {s.a[0].split('::')[-1] for s in [t] + list(subterms(t)) if s.op == 'call'}
        outer = t.a[0].split('::')[-1] if t.op == 'call' else ''
        if outer == 'ends_with' or outer == 'strip_suffix' or outer == 'eq':
            self.suffix(st, t, val == 1)
            if outer == 'eq': st.mon['why'] = 1
        elif names & {'is_file', 'file_name', 'to_str', 'file_stem', 'extension', 'file_type', 'metadata', 'is_dir', 'into_string', 'to_string_lossy', 'path'} and not outer in ('read_to_string', 'from_str'): 
            if outer in self.PEEK + ('is_dir', 'is_file'): 
                if term.op == 'discr' and val != (0 if outer in ('file_type', 'metadata', 'into_string') else 1): st.mon['why'] = 1
                elif term.op != 'discr' and val == (1 if outer == 'is_dir' else 0): st.mon['why'] = 1
    def close(self, I, st, last=False):
        if 'kept' in st.mon and 'built' not in st.mon and not last: return      # put aside: it is gone through later
        if 'entry' in st.mon and 'why' not in st.mon:
            if 'built' not in st.mon: self.bad('Q07', 'skipped', 'a queue database can be skipped when the server starts', None, st)
            elif 'reg' not in st.mon: self.bad('Q07', 'unregistered', 'a restored queue is not registered under its name', None, st)
        for k in ('entry', 'why', 'built', 'reg', 'kept'): st.mon.pop(k, None)
    def on_end(self, I, st, kind, val):
        if kind == 'panic': return
        self.n('paths checked'); self.close(I, st, True)
        if 'open' in st.mon: self.bad('Q07', 'early', 'the server stops looking through its data directory before the end: the queues behind are not restored', None, st)
def text2(t):
    for s in [t] + list(subterms(t)):
        if s.op == 'k' and isinstance(s.a[1], str): return s.a[1].strip("'")
        if s.op == 'k' and isinstance(s.a[1], int) and 32 < s.a[1] < 127: return chr(s.a[1])
    return None

class DeleteMon(StoreBase):
    """delete_queue: files go only after the writer is done; create_queue: settings are saved where they are read"""
    def __init__(self, P, api, build, openfr, shut): Base.__init__(self, P, api); self.build = build; self.openfr = openfr; self.shut = shut; self.cfg = None
    def opaque(self, I, path): p = path.split('::{')[0]; return p in self.build or p in self.shut
    def on_ret(self, I, st, ev, val):
        m = ev.name.split('::')[-1]
        if m == 'remove' and 'Map' in ev.name and val.op == 'agg' and val.a[1] == 'Some': st.mon['taken'] = 1; st.note('unregister %s' % where(ev.span))
        if m == 'remove_file':
            k, v = pathkey_of(I, st, ev.args[0]); st.note('remove_file %s %s' % (k[0], where(ev.span))); self.n('file removals checked')
            if k[0] == self.openfr:
                st.mon['gone'] = 1
                if 'taken' in st.mon and 'done' not in st.mon: self.bad('Q06', 'early', 'the database of a deleted queue is removed while its writer may still run', ev.span, st)
        if m == 'write' and ev.name.startswith('fs') or m == 'create' and ev.name.startswith('File'):
            k, v = pathkey_of(I, st, ev.args[0]); self.cfg = k[0]; self.n('settings saved')
            if len(ev.args) > 1: st.mon['wrote'] = whole(I, st, ev.args[1])
        if ev.loc and ev.res in self.build:
            n = strip(whole(I, st, ev.args[0])); st.mon['built'] = (n, val); self.n('queues created')
            w, c = st.mon.get('wrote'), whole(I, st, ev.args[1])
            if w is not None and not any(z is c or z.op == 'agg' and z.a[:3] == c.a[:3] and z.a[3] == c.a[3] for z in subterms(w)): self.bad('Q07', 'settings', 'the settings that are saved for a queue are not the ones it is created with', ev.span, st)
        if m in ('insert', 'insert_entry') and 'built' in st.mon: st.mon['reg'] = 1
        if m == 'poll' and val.op == 'agg' and val.a[1] == 'Ready':
            for s in subterms(val):
                if s.op == 'call' and s.a[0].split('::{')[0] in self.shut: st.mon['done'] = 1; self.n('writers awaited'); st.note('writer has ended %s' % where(ev.span))
    def on_end(self, I, st, kind, val):
        if kind == 'panic': return
        self.n('paths checked')
class ExecMon(Base):
    """QueueStore::execute: the operation is handed to the writer"""
    def on_ret(self, I, st, ev, val):
        m = ev.name.split('::')
        if m[-1] in ('send', 'try_send', 'blocking_send') and 'Sender' in m[0]:
            x = whole(I, st, ev.args[1]); st.note('send %s' % where(ev.span)); self.n('operations handed over')
            if x.op == 'arg': st.mon['sent'] = 1
            if m[-1] == 'try_send': self.bad('Q06', 'full', 'an operation is dropped when the channel to the writer is full', ev.span, st)
    def on_end(self, I, st, kind, val):
        if kind == 'panic': return
        self.n('paths checked')
        if 'sent' in st.mon: return
        for t, v in st.facts.items():   # only a store that was shut down may drop operations
            if isinstance(t, Term) and t.op == 'discr' and v == 0 and 'guard' in show(t.a[0])[:40]: return
        if 'closed' in st.mon: return
        self.bad('Q06', 'unsent', 'an operation is not handed to the writer although the store is open', None, st)
    def on_branch(self, I, st, term, val, span):
        if term.op == 'discr' and I.variant_of(st, term.a[0], OPT) == 'None' and 'sender' in show(term.a[0]): st.mon['closed'] = 1
    def on_split(self, I, st, v, variant):
        if variant == 'None' and 'sender' in show(v): st.mon['closed'] = 1
class ShutMon(Base):
    """QueueStore::shutdown: the channel is closed, then the writer is awaited"""
    def on_ret(self, I, st, ev, val):
        m = ev.name.split('::')[-1]
        if m in ('take', 'replace') and val.op != 'agg' and 'sender' in show(val): st.mon['closed'] = 1; st.note('close %s' % where(ev.span)); self.n('channels closed')
        if m in ('take', 'replace') and 'handle' in show(val): st.mon['handle'] = val
        if m == 'poll' and val.op == 'agg' and val.a[1] == 'Ready' and 'handle' in show(val):
            st.mon['done'] = 1; st.note('writer has ended %s' % where(ev.span)); self.n('writers awaited')
            if 'closed' not in st.mon: self.bad('Q06', 'hang', 'the writer is awaited before its channel is closed: it would never end', ev.span, st)
    def on_store(self, I, st, loc, val, span):
        v = val
        if v.op == 'agg' and v.a[1] == 'None' and 'sender' in show(mk('ref', loc)): st.mon['closed'] = 1
    def on_end(self, I, st, kind, val):
        if kind == 'panic': return
        self.n('paths checked')
        if 'closed' not in st.mon: self.bad('Q06', 'open', 'shutting a store down does not close its channel', None, st)
        h = st.mon.get('handle')
        if 'done' not in st.mon and (h is None or I.variant_of(st, h, OPT) != 'None'): self.bad('Q06', 'nowait', 'shutting a store down does not wait until its writer has stored everything', None, st)

RECV = ('recv', 'try_recv', 'blocking_recv', 'recv_many')
class WriterMon(Base):
    """the writer task: what is received is carried out in order, and forgotten only when committed"""
    def __init__(self, P, api, execs): Base.__init__(self, P, api); self.execs = execs
    def opaque(self, I, path): return path.split('::{')[0] in self.execs
    def prune(self, I, st):
        """what an opaque object became after a call only matters as 'some value of that place'"""
        for d in (st.env, st.heap):
            for k, v in list(d.items()):
                if isinstance(v, Term) and v.op == 'vec' and isinstance(v.a[1], tuple) and any(others(x) for x in v.a[1] if isinstance(x, Term)):
                    d[k] = mk('vec', v.a[0], tuple(x for x in v.a[1] if not others(x)), 0)
                elif isinstance(v, Term) and v.op in ('mut', 'havoc') and not (v.a and isinstance(v.a[0], tuple)):
                    new = mk('mut', ('at', repr(k) if d is st.env else show(k[0]) + repr(k[1])))
                    for t in [t for t in st.facts if isinstance(t, Term) and any(z is new or z is v for z in [t] + list(subterms(t)))]: del st.facts[t]
                    d[k] = new
    def got(self, I, st, v, fork=False):
        """v: what a receive returned, now known to hold an operation"""
        w = strip(v)
        D = OPT if w.op == 'call' and (w.a[0] == 'await' or self.source(v) == 'blocking_recv') else RES
        k = I.variant_of(st, v, D)
        if k not in ('Some', 'Ok'): return
        if any(z.op == 'other' for z in subterms(v)): return
        x = I.val(st, project(v, (('v', k), ('f', '0', D))))
        if any(z[1] is x for z in st.mon.get('ops', ())): return
        # this operation is either the one the path follows, or one of the others
        r = []
        if fork or st.mon.get('ops'):
            s2 = st.copy() if not st.mon.get('ops') else st
            I.retire(s2, v, mk('other', mk('named', self.source(v)), '', 0)); r.append(s2)
            if s2 is st: return r
        st.mon['ops'] = (('p', x),); self.n('operations followed'); st.note('an operation is received'); st.mon.pop('fail', None)
        return r + [st]
    def source(self, v):
        v = strip(v); c = v
        if v.op == 'call' and v.a[0] == 'await': c = strip(v.a[1][0])
        return nm(c)
    def on_split(self, I, st, v, variant):
        if self.source(v) in RECV and variant in ('Some', 'Ok'): self.got(I, st, v)
        if variant == 'Err' and self.source(v) in ('transaction', 'commit', 'unchecked_transaction', 'transaction_with_behavior'): st.mon['fail'] = 1
    def on_branch(self, I, st, term, val, span):
        if term.op != 'discr': return
        v = term.a[0]; s = self.source(v)
        if s in RECV: return self.got(I, st, v, True)
        if s in ('transaction', 'commit', 'unchecked_transaction', 'transaction_with_behavior') and I.variant_of(st, v, RES) == 'Err': st.mon['fail'] = 1; st.note('%s fails %s' % (s, where(span)))
    def batches(self, I, st):
        for v in list(st.env.values()) + list(st.heap.values()):
            if isinstance(v, Term):
                for s in [v] + list(subterms(v)) if v.op in ('co', 'agg', 'upd') else [v]:
                    if s.op == 'vec': yield s
    def held(self, I, st, x):
        return any(any(y is x for y in (b.a[1] if isinstance(b.a[1], tuple) else ())) for b in self.batches(I, st))
    def check(self, I, st, span, what):
        ops = []
        com = st.mon.pop('commit', None)
        cok = com is not None and I.variant_of(st, com, RES) == 'Ok'
        for s, x in st.mon.get('ops', ()):
            if s == 'x': continue
            h = self.held(I, st, x)
            if s == 'e' and cok:
                if h: self.bad('Q06', 'twice', 'operations that were committed stay in the batch and are carried out again', span, st)
                continue
            if not h:
                if s == 'p': self.bad('Q06', 'dropped', 'an operation can be removed from the batch without being carried out', span, st)
                elif com is None: self.bad('Q06', 'uncommitted', 'operations are carried out in a transaction that is not committed, and forgotten', span, st)
                elif 'fail' in st.mon: self.bad('Q06', 'lostcommit', 'the batch is cleared although the transaction could not be committed: the operations in it are lost', span, st)
                else: self.bad('Q06', 'unchecked', 'the batch is cleared without knowing that its transaction was committed', span, st)
                continue
            ops.append(('p', x))
        if ops: st.mon['ops'] = tuple(ops)
        else: st.mon.pop('ops', None)
    def on_call(self, I, st, ev):
        m = ev.name.split('::')[-1]
        if m in RECV and 'Receiver' in ev.name and m != 'try_recv':
            if st.mon.get('last') == 'tick':
                self.n('ticks checked')
                if any(s != 'x' for s, x in st.mon.get('ops', ())) and 'fail' not in st.mon and 'commit' not in st.mon: self.bad('Q06', 'tick', 'the timer does not store what was received', ev.span, st)
            self.check(I, st, ev.span, 'receive'); st.mon.pop('last', None); st.mon.pop('fail', None)
    def on_ret(self, I, st, ev, val):
        m = ev.name.split('::')[-1]
        if m == 'poll' and val.op == 'agg' and val.a[1] == 'Ready': st.mon['last'] = nm(awaited(strip(val.a[3][0]))) or 'other'
        if ev.loc and ev.res.split('::{')[0] in self.execs:
            self.n('operations carried out'); st.note('%s %s' % (m, where(ev.span)))
            a = [whole(I, st, x) for x in ev.args]
            st.mon['ops'] = tuple(('e' if s == 'p' and any(z is x for y in a for z in [y] + list(subterms(y))) else s, x) for s, x in st.mon.get('ops', ()))
            if not st.mon['ops']: st.mon.pop('ops')
        if m == 'commit': st.mon['commit'] = val; st.note('commit %s' % where(ev.span)); self.n('commits checked')
        if m == 'rollback' and 'Transaction' in ev.name: st.mon.pop('commit', None)
        if m in ('next', 'next_back', 'pop', 'pop_back', 'swap_remove') and ev.args:
            it = whole(I, st, ev.args[0]); rev = False; k = 0
            while it.op == 'iterad' and k < 9: rev = rev != (it.a[0] == 'rev'); it = it.a[2]; k += 1
            back = rev != (m == 'next_back') or m in ('pop', 'pop_back', 'swap_remove')
            if back and any(z is x for s, x in st.mon.get('ops', ()) for z in subterms(val)): self.bad('Q06', 'order', 'the operations received are not carried out in the order they were logged', ev.span, st)
        if m in ('insert', 'push_front', 'sort', 'sort_by', 'sort_by_key', 'sort_unstable', 'sort_unstable_by', 'sort_unstable_by_key', 'reverse', 'swap') and ev.name.split('::')[0] in ('Vec', 'slice', 'VecDeque') and ev.args:
            if any(x is z for s, x in st.mon.get('ops', ()) for a in ev.args for z in subterms(whole(I, st, a))) or m == 'insert': self.bad('Q06', 'reordered', 'the operations received are put in another order before they are carried out', ev.span, st)
    def on_end(self, I, st, kind, val):
        if kind == 'panic': return
        self.n('paths checked')
        com = st.mon.get('commit'); cok = com is not None and I.variant_of(st, com, RES) == 'Ok'
        if 'fail' in st.mon: return
        for s, x in st.mon.get('ops', ()):
            if s == 'e' and cok: continue
            self.bad('Q06', 'exit', 'the writer can end without storing what it received', None, st)

class NewMon(Base):
    """QueueStore::new: one channel, one writer, one file"""
    def opaque(self, I, path): return path.split('::{')[0] in self.writers
    def on_ret(self, I, st, ev, val):
        m = ev.name.split('::')[-1]
        if m in ('unbounded_channel', 'channel'): st.mon['ch'] = val; self.n('channels'); st.note('channel %s' % where(ev.span))
        if m == 'channel' and ev.name.split('::')[0] != 'broadcast': st.mon['bounded'] = 1
        if m in ('spawn', 'spawn_local', 'spawn_blocking', 'spawn_on'):
            st.mon['task'] = whole(I, st, ev.args[-1]); self.n('writers started'); st.note('spawn %s' % where(ev.span))
    def on_agg(self, I, st, term, span):
        if last(term.a[0]) != 'QueueStore': return
        f = dict(zip(term.a[2], term.a[3])); self.n('stores checked')
        ch, task = st.mon.get('ch'), st.mon.get('task')
        if ch is None or task is None: self.bad('Q06', 'nowriter', 'a queue is opened without starting its writer', span, st); return
        def has(t, x): return any(z is x for z in [t] + list(subterms(t)))
        if not any(has(whole(I, st, v), ch) for v in f.values()): self.bad('Q06', 'channel', 'the store does not keep the channel to its writer', span, st)
        if not has(task, ch): self.bad('Q06', 'channel2', 'the writer is not given the channel of its store', span, st)
        p = [v for k, v in f.items() if 'path' in k]
        if p and not has(task, strip(p[0])): self.bad('Q06', 'path', 'the writer and recovery use different files', span, st)
    def on_end(self, I, st, kind, val):
        if kind != 'panic': self.n('paths checked')

def op_param(P, f):
    """(name, by reference) of the parameter of type StorageOp"""
    for i in range(f.argc):
        l = f.locals[i + 1]; t = P.ty(l[0]); r = False
        if t['k'] == 'ref': t = args_of(P, t)[0] if t.get('args') else P.ty(t['to']) if 'to' in t else t; r = True
        if t['k'] == 'adt' and t['def'].endswith('::StorageOp'): return l[1] or 'arg%d' % (i + 1), r
    return None
def storage_fns(P):
    """functions that carry out one logged operation: they are given a StorageOp and run SQL"""
    out = [f for f in P.libfns if f.path.startswith(MODP) and not f.trait and f.kind in ('fn', 'assocfn') and op_param(P, f) and any('rusqlite' in str(P.fns[q].blocks) for q in reach(P, f))]
    inner = {q for f in out for q in reach(P, f) if q != f.path}
    return [f for f in out if f.path not in inner]

def run_ops(P, rep, props, out):
    fs = storage_fns(P)
    if not fs: rep.violation('missing:exec', 'no function found that carries out a logged queue operation'); return
    for f in fs:
        m = OpMon(P, f.path.split('::')[-1], out)
        runone(P, rep, props, m, f, m.api, ('statements checked', 'operations checked'))
        for k in SPEC:
            if k not in m.seen: rep.violation('missing:op:' + k, 'nothing carries out the logged operation %s' % k, f.path)

def run_read(P, rep, props, out):
    f = P.fns.get([p for p in P.fns if p.endswith('QueueStore::recover')][0]) if any(p.endswith('QueueStore::recover') for p in P.fns) else None
    if f is None: rep.violation('missing:recover', 'QueueStore::recover not found'); return
    m = LoadMon(P, 'recover', out)
    runone(P, rep, props, m, f, 'QueueStore::recover', ('queries checked', 'results checked'))
    for path, cols, tb in m.closures:
        g = P.fns.get(path)
        if g is None: rep.violation('missing:row:' + tb, 'what turns a row of %s into a message is not known (%s)' % (tb, path)); continue
        r = RowMon(P, 'row of ' + tb, list(cols), tb, out)
        runone(P, rep, props, r, g, 'row of ' + tb, ('column reads checked', 'rows turned into messages'))
    for tb, cols, where_ in out.get('rows', []):
        r = RowMon(P, 'row of ' + tb, list(cols), tb, out)
        runone(P, rep, props, r, P.fns.get(where_, f), 'row of ' + tb, ('rows turned into messages',))

def creates(P, out):
    """tables created anywhere in the queue broker"""
    for f in P.libfns:
        if not f.path.startswith(MODP): continue
        for t in consts(f):
            for q in [sql(x) for x in t.split(';')] if 'CREATE' in t.upper() else []:
                if q and q[0] == 'create': out.setdefault('create', {})[q[1]] = (q[2], f)
def consts(f):
    r = []
    def go(x):
        if isinstance(x, str):
            if 'CREATE TABLE' in x.upper(): r.append(x)
        elif isinstance(x, dict):
            for y in x.values(): go(y)
        elif isinstance(x, (list, tuple)):
            for y in x: go(y)
    go(f.blocks); go(f.promoted)
    return r

def compose(P, rep, props, out):
    """write then read is the identity on every stored field"""
    if 'Q07' not in props: return
    bad = lambda k, msg, w='': rep.violation(k, msg, w)
    side = {}
    for (tb, o), m in out.get('read', {}).items(): side['queue' if o == 'Message' else 'dlq'] = (tb, m)
    for s in ('queue', 'dlq'):
        if s not in side: bad('compose:noread:' + s, 'the stored messages of the %s are not read back' % s); return
    name = {side['queue'][0]: 'queue', side['dlq'][0]: 'dlq'}
    creates(P, out)
    for s, (tb, m) in side.items():
        cr = out.get('create', {}).get(tb)
        if cr is None: bad('compose:nocreate:' + tb, 'no statement creates the table %s' % tb); continue
        if 'PRIMARY KEY' not in cr[0].get(m.get('id', 'id'), ''): bad('compose:nokey:' + tb, 'the id is not the key of the table %s: a message could be stored twice' % tb, where(cr[1].span))
        for n in NEED[s]:
            if n not in m: bad('compose:unread:%s:%s' % (s, n), 'the %s of a message in the %s is not restored' % (n, s))
            elif m[n] not in cr[0]: bad('compose:nocol:%s:%s' % (s, n), 'the table %s has no column %s' % (tb, m[n]), where(cr[1].span))
            rep.count('fields composed')
    for op, runs in out.get('ops', {}).items():
        want = list(SPEC[op])
        for got, tr in runs:
            left = list(want); rep.count('operations composed')
            for g in got:
                s = name.get(g[1]); w = where(g[3])
                if s is None: bad('op:%s:table' % op, '%s touches the table %s, which is not read at restart' % (op, g[1]), w, ); continue
                m = side[s][1]
                kind = 'purge' if g[0] == 'del' and g[2] is None else g[0]
                hit = [x for x in left if x[0] == kind and x[1] == s]
                if not hit: bad('op:%s:%s:%s' % (op, kind, s), '%s must not %s in the %s' % (op, {'ins': 'insert', 'del': 'delete', 'upd': 'update', 'purge': 'delete everything'}[kind], s), w); continue
                left.remove(hit[0])
                if kind == 'del':
                    if g[2][0] != m.get('id') or g[2][1] != ('f', 'id'): bad('op:%s:delkey' % op, '%s does not delete the row with the id of the message' % op, w)
                if kind == 'ins':
                    for n in NEED[s]:
                        v = g[2].get(m.get(n))
                        if v == ('f', n): continue
                        if op == 'MoveToMain' and n in ('visible_at', 'attempts') and v == ('k', 0): continue
                        bad('op:%s:col:%s' % (op, n), '%s stores %s where the %s of the message is read from at restart' % (op, 'nothing' if v is None else v[-1], n), w)
                if kind == 'upd':
                    if set(g[2]) != {m.get('visible_at'), m.get('attempts')}: bad('op:%s:set' % op, '%s must update exactly the deadline and the attempts of a message (updates %s)' % (op, ', '.join(sorted(g[2]))), w)
                    for n in ('visible_at', 'attempts'):
                        v = g[2].get(m.get(n))
                        if v is not None and v != ('f', n): bad('op:%s:upd:%s' % (op, n), '%s stores %s where the %s of the message is read from at restart' % (op, v[-1], n), w)
                    if g[4][0] != m.get('id') or g[4][1] != ('f', 'id'): bad('op:%s:updkey' % op, '%s does not update the row with the id of the message' % op, w)
            for x in left: bad('op:%s:missing' % op, '%s can succeed without its %s in the %s' % (op, {'ins': 'insert', 'del': 'delete', 'upd': 'update', 'purge': 'delete'}[x[0]], x[1]), '')

def smallest(P, cond):
    """functions of the queue broker that meet the condition together with what they call, but call nothing that meets it"""
    base = lambda q: q.split('::{')[0]
    R = {f.path: reach(P, f) for f in P.libfns if f.path.startswith(MODP) and f.kind in ('fn', 'assocfn')}
    c = {q for q in R if cond(R[q])}
    return [P.fns[q] for q in sorted(c) if not any(base(x) in c and base(x) != q for x in R[q])]
def run_qstore(P, rep, props):
    learntables(P)
    out = {}
    A = QAnchors(P)
    ends = lambda R, *ns: all(any(q.endswith(n) for q in R) for n in ns)
    builders = smallest(P, lambda R: ends(R, 'QueueStore::new', 'QueueStore::recover')) or smallest(P, lambda R: ends(R, 'QueueStore::recover'))
    builders = [f for f in builders if not f.path.endswith('QueueStore::recover')]
    if 'Q07' in props:
        run_ops(P, rep, props, out); run_read(P, rep, props, out); compose(P, rep, props, out)
        fs = builders
        if not fs: rep.violation('missing:build', 'nothing restores the stored messages of a queue')
        for f in fs:
            m = BuildMon(P, A, f.name, {p for p in P.fns if p.endswith('QueueStore::recover')}, storing(P, A))
            runone(P, rep, props, m, f, f.name, ('recoveries', 'restored messages stored'))
            out['open'] = m.path.get('open'); out['build'] = f
    named = lambda n: [f for p, f in P.fns.items() if p.startswith(MODP) and p.endswith(n)]
    build = {f.path for f in builders}
    if 'open' not in out:
        for b in build:
            m = BuildMon(P, A, 'build', {p for p in P.fns if p.endswith('QueueStore::recover')}, storing(P, A))
            try: Interp(P, m, 100000).run(b)
            except Budget: pass
            out['open'] = m.path.get('open')
    fr = out['open'][0][0] if out.get('open') else ()
    if not fr: rep.violation('missing:file', 'the file a queue is stored in is not known')
    shut = {f.path for f in named('QueueStore::shutdown')}
    if 'Q07' in props:
        users = smallest(P, lambda R: any(b in R for b in build) and any('read_dir' in str(P.fns[q].blocks) for q in R))
        if not users: rep.violation('missing:warm', 'nothing restores the queues of the data directory at start')
        wcfg = None
        for f in users:
            m = WarmMon(P, f.name or f.path.split('::')[-1], build, fr)
            runone(P, rep, props, m, f, m.api, ('files looked at', 'queues restored', 'restored queues registered'))
            wcfg = m.cfg
            if not m.used: rep.violation('config:unused', 'the settings saved for a queue are not used when it is restored', where(f.span))
        for f in named('QueueManager::create_queue::{closure#0}'):
            m = DeleteMon(P, 'create_queue', build, fr, shut)
            runone(P, rep, props, m, f, m.api, ('queues created',))
            if m.cfg and wcfg and m.cfg[:1] != wcfg[0][:1] and m.cfg != wcfg[0]: rep.violation('config:file', 'the settings of a queue are saved to %s but read from %s at start' % (m.cfg, wcfg[0]), where(f.span))
    if 'Q06' in props:
        execs = {f.path for f in storage_fns(P)}
        if not execs: rep.violation('missing:exec', 'no function found that carries out a logged queue operation')
        W = [f for f in P.libfns if f.kind == 'coroutine' and f.path.startswith(MODP) and any(q in execs for q in reach(P, f)) and 'recv' in str(f.blocks)]
        if not W: rep.violation('missing:writer', 'the task that stores logged operations was not found')
        for f in W:
            m = WriterMon(P, f.path.split('::{')[0].split('::')[-1], execs)
            runone(P, rep, props, m, f, m.api, ('operations followed', 'operations carried out', 'commits checked', 'ticks checked'))
        for n, cls, floor in (('QueueStore::execute', ExecMon, ('operations handed over',)), ('QueueStore::shutdown::{closure#0}', ShutMon, ('channels closed', 'writers awaited')), ('QueueStore::new', NewMon, ('channels', 'writers started', 'stores checked'))):
            fs = named(n)
            if not fs: rep.violation('missing:' + n, '%s not found' % n)
            for f in fs:
                m = cls(P, n.split('::{')[0]); m.writers = {w.path.split('::{')[0] for w in W}
                runone(P, rep, props, m, f, m.api, floor)
        for f in named('QueueManager::delete_queue::{closure#0}'):
            m = DeleteMon(P, 'delete_queue', build, fr, shut)
            runone(P, rep, props, m, f, m.api, ('file removals checked', 'writers awaited'))
    return out

if __name__ == '__main__':
    import sys, time, os
    sys.setrecursionlimit(20000)
    P = Prog(os.environ.get('NX_OUT', '/verif/build/out'))
    rep = Report('Q'); t = time.time()
    out = run_qstore(P, rep, set(sys.argv[1].split(',')))
    print(rep.counts, '%.1fs' % (time.time() - t))
    for v in rep.viol.values():
        print(v['key'], '|', v['msg'][:300], '|', v['where'])
