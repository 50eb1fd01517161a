"""Shared by the rules: reports, term helpers."""
from interp import *
from mir import *

class Report:
    def __init__(self, prop):
        self.prop = prop; self.viol = {}; self.counts = {}; self.fns = set(); self.notes = []; self.samples = []
        self.rule = ''
    def violation(self, key, msg, where='', trace=()):
        if key not in self.viol: self.viol[key] = {'key': key, 'msg': msg, 'where': where, 'trace': [str(x)[:600] for x in trace][-40:]}
    def count(self, what, n=1): self.counts[what] = self.counts.get(what, 0) + n
    def floor(self, what, n):
        """fail closed when fewer rule instances are found than were confirmed by hand"""
        if self.counts.get(what, 0) < n:
            self.violation('floor:' + what, 'only %d instance(s) of "%s" found, at least %d expected: the code the rule is anchored in is gone or no longer recognised' % (self.counts.get(what, 0), what, n))
    def sample(self, s):
        if len(self.samples) < 12: self.samples.append(str(s)[:300])

def where(span): return '%s:%s' % (span[0], span[1]) if span else ''
def locfields(loc): return [p for p in (loc[2] if loc[0] == 'H' else loc[3]) if p[0] == 'f']
def lastfield(loc):
    f = locfields(loc)
    return f[-1] if f else None
def locbase(loc): return loc[1] if loc[0] == 'H' else None
def under(term, pred):
    return any(pred(x) for x in subterms(term))

class Anchors:
    """types and fields of the repository the rules are anchored in, found by type"""
    def __init__(self, P): self.P = P
    def adt(self, name):
        r = self.P.adt(name)
        return r[0] if r else None
    def field_by_type(self, adt, pred):
        a = self.adt(adt)
        if not a: return None
        r = [f['name'] for v in a['variants'] for f in v['fields'] if 'ty' in f and pred(self.P.tys(f['ty']))]
        return r[0] if len(r) >= 1 else None

def pub_methods(P, tyname):
    """{name: (signature fn, body fn)} of the inherent pub methods of a type (async bodies resolved)"""
    out = {}
    for f in P.libfns:
        if f.kind != 'assocfn' or f.selfty is None or f.trait: continue
        t = P.ty(f.selfty)
        if not t.get('def', '').endswith('::' + tyname): continue
        body = P.fns.get(f.path + '::{closure#0}') if f.j.get('async') else f
        out[f.name] = (f, body if body is not None else f)
    return out
_called = {}
def helper(P, f):
    """a private function that other functions of the library call: it is judged in the context of its callers"""
    if id(P) not in _called:
        d = _called[id(P)] = {}
        for g in P.libfns:
            for h in callees(P, g):
                if g.path.split('::{')[0] != h.path.split('::{')[0]: d.setdefault(h.path.split('::{')[0], set()).add(g.path)
    return f.j.get('vis') != 'Public' and bool(_called[id(P)].get(f.path.split('::{')[0]))
def methods(P, tyname): return pub_methods(P, tyname)

def spawned(P, prefix):
    """coroutines handed to a spawn call inside functions under `prefix`"""
    out = []
    for f in P.libfns:
        if not f.path.startswith(prefix): continue
        for bb in f.blocks:
            for s in bb['s']:
                if s[0] == '=' and s[2][0] == 'agg' and s[2][1]['k'] == 'coroutine':
                    d = s[2][1]['def']
                    g = P.fns.get(d)
                    if g is None: continue
                    # an async fn's own body is created by its signature function
                    if f.j.get('async') and d == f.path + '::{closure#0}': continue
                    if g not in out: out.append(g)
    for f in P.libfns:          # an async function called and handed to spawn
        if not f.path.startswith(prefix): continue
        made = {}; moved = {}
        for bb in f.blocks:
            for s in bb['s']:
                if s[0] == '=' and s[2][0] == 'use' and s[2][1][0] == 'mv' and not s[1][1] and not s[2][1][1][1]: moved[s[1][0]] = s[2][1][1][0]
            t = bb['t']
            if t.get('k') == 'call' and t['f'][0] == 'c' and not t['d'][1]:
                q = t['f'][1].get('res', t['f'][1].get('fn'))
                if q in P.fns and P.fns[q].j.get('async'): made[t['d'][0]] = q
        for bb in f.blocks:
            t = bb['t']
            if t.get('k') == 'call' and t['f'][0] == 'c' and str(t['f'][1].get('fn', '')).split('::')[-1] in ('spawn', 'spawn_local', 'spawn_on') and t['a']:
                a = t['a'][-1] if len(t['a']) > 1 else t['a'][0]
                l = a[1][0] if a[0] in ('mv', 'cp') else None
                while l in moved: l = moved.pop(l)
                g = P.fns.get(made.get(l, '') + '::{closure#0}')
                if g is not None and g.path.startswith(prefix) and g not in out: out.append(g)
    return out

def reach(P, root, seen=None):
    """local functions syntactically reachable from root (calls, closures, coroutines)"""
    seen = set() if seen is None else seen
    work = [root]
    while work:
        f = work.pop()
        if f.path in seen: continue
        seen.add(f.path)
        for g in callees(P, f):
            if g.path not in seen: work.append(g)
    return seen
_callees = {}
def callees(P, f):
    k = (id(P), f.path)
    if k in _callees: return _callees[k]
    r = []
    def op(o):
        if o[0] == 'c' and 'fn' in o[1]:
            p = o[1].get('res', o[1]['fn'])
            for q in (p, o[1]['fn']):
                if q in P.fns:
                    r.append(P.fns[q]); break
    bodies = [f.blocks] + [p['blocks'] for p in f.promoted]
    for blocks in bodies:
        for bb in blocks:
            for s in bb['s']:
                if s[0] != '=': continue
                x = s[2]
                if x[0] == 'agg':
                    if x[1]['k'] in ('closure', 'coroutine') and x[1]['def'] in P.fns: r.append(P.fns[x[1]['def']])
                    for o in x[1]['ops']: op(o)
                elif x[0] in ('use', 'repeat'): op(x[1])
                elif x[0] == 'cast': op(x[2])
            t = bb['t']
            if t['k'] == 'call':
                op(t['f'])
                for o in t['a']: op(o)
    _callees[k] = r
    return r

def generic_drop_reach(P): pass
