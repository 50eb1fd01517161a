"""Load the MIR dump: functions, types, ADTs, constants, spans."""
import json, re, os

_strip_cache = {}
def strip_generics(p):
    """core::option::Option::<T>::map -> core::option::Option::map ;
    `<A<B> as C>::m` keeps only `C::m`; `<impl X for Y>::m` -> m."""
    r = _strip_cache.get(p)
    if r is not None:
        return r
    s = p
    if s.startswith('<'):
        # <T as Trait>::name  /  <T>::name
        d = 0
        for i, c in enumerate(s):
            if c == '<': d += 1
            elif c == '>' and s[i-1] != '-':
                d -= 1
                if d == 0:
                    inner, rest = s[1:i], s[i+1:]
                    break
        m = split_as(inner)
        s = (m[1] if m else inner) + rest
    out, d = [], 0
    for i, c in enumerate(s):
        if c == '<': d += 1
        elif c == '>' and i and s[i-1] != '-': d -= 1
        elif d == 0: out.append(c)
    r = re.sub(r':{3,}', '::', ''.join(out))
    r = re.sub(r'::::', '::', r)
    _strip_cache[p] = r
    return r

def split_as(s):
    d = 0
    for i in range(len(s)):
        c = s[i]
        if c == '<': d += 1
        elif c == '>' and s[i-1] != '-': d -= 1
        elif d == 0 and s.startswith(' as ', i):
            return s[:i], s[i+4:]
    return None

def last2(p):
    p = strip_generics(p)
    a = [x for x in p.split('::') if x]
    return '::'.join(a[-2:])

class Fn:
    __slots__ = ('j','path','kind','blocks','locals','argc','span','upvars','promoted','prog','name',
                 'preds','_live','join','trait','selfty','parent','tyguard','crate')
    def __init__(self, j, prog, crate):
        self.j = j; self.prog = prog; self.crate = crate
        self.path = j['path']; self.kind = j['kind']; self.blocks = j['blocks']
        self.locals = j['locals']; self.argc = j['argc']; self.span = j['span']
        self.upvars = [u[0] for u in j.get('upvars', [])]
        self.promoted = j.get('promoted', [])
        self.name = j.get('name')
        self.trait = j.get('trait'); self.selfty = j.get('self'); self.parent = j.get('parent')
        self._live = None; self.preds = None; self.join = None; self.tyguard = None
    def succs(self, b, unwind=False):
        t = self.blocks[b]['t']; k = t['k']
        r = []
        if k in ('goto',): r = [t['t']]
        elif k == 'switch': r = [x[1] for x in t['ts']] + [t['else']]
        elif k in ('call','drop','assert','yield'):
            if t.get('t') is not None: r = [t['t']]
        if unwind and t.get('u') is not None: r = r + [t['u']]
        return r
    def compute(self):
        if self.preds is not None: return
        n = len(self.blocks)
        self.preds = [0]*n
        for b in range(n):
            if self.blocks[b]['c']: continue
            for s in self.succs(b): self.preds[s] += 1
        self.join = [p > 1 for p in self.preds]
        # liveness
        use = [set() for _ in range(n)]; de = [set() for _ in range(n)]
        addr = set()
        def up(p, u, d):
            if p[0] not in d: u.add(p[0])
            for e in p[1]:
                if e[0] == 'i' and e[1] not in d: u.add(e[1])
        def uop(o, u, d):
            if o[0] in ('cp','mv'): up(o[1], u, d)
        for b in range(n):
            u, d = use[b], de[b]
            for s in self.blocks[b]['s']:
                if s[0] == '=':
                    r = s[2]
                    if r[0] == 'ref': addr.add(r[2][0]) if not any(e[0]=='*' for e in r[2][1]) else None; up(r[2], u, d)
                    elif r[0] in ('use','repeat'): uop(r[1], u, d)
                    elif r[0] == 'cast': uop(r[2], u, d)
                    elif r[0] == 'bin': uop(r[2], u, d); uop(r[3], u, d)
                    elif r[0] == 'un': uop(r[2], u, d)
                    elif r[0] == 'discr': up(r[1], u, d)
                    elif r[0] == 'agg':
                        for o in r[1]['ops']: uop(o, u, d)
                    if s[1][1]: up(s[1], u, d)
                    else: d.add(s[1][0])
                elif s[0] == 'dead': d.add(s[1])
                elif s[0] == 'live': d.add(s[1])
            t = self.blocks[b]['t']; k = t['k']
            if k == 'switch': uop(t['d'], u, d)
            elif k == 'call':
                uop(t['f'], u, d)
                for o in t['a']: uop(o, u, d)
                if t['d'][1]: up(t['d'], u, d)
                else: d.add(t['d'][0])
            elif k == 'drop': up(t['p'], u, d)
            elif k == 'assert': uop(t['c'], u, d)
            elif k == 'return': u.add(0) if 0 not in d else None
        live = [set() for _ in range(n)]
        ch = True
        order = list(range(n))[::-1]
        while ch:
            ch = False
            for b in order:
                o = set()
                for s in self.succs(b): o |= live[s]
                nl = use[b] | (o - de[b])
                if nl != live[b]:
                    live[b] = nl; ch = True
        self._live = (live, addr)
    def live_in(self, b):
        self.compute()
        return self._live[0][b]
    @property
    def addr_taken(self):
        self.compute(); return self._live[1]

GUARDS = ('MutexGuard','RwLockReadGuard','RwLockWriteGuard','MappedMutexGuard','ReentrantMutexGuard',
          'OwnedMutexGuard','OwnedRwLockReadGuard','OwnedRwLockWriteGuard','MappedRwLockReadGuard','MappedRwLockWriteGuard')
def is_guard_def(d):
    l = d.split('::')[-1]
    if l in GUARDS: return True
    if d.startswith('dashmap::') and l in ('Ref','RefMut','RefMulti','RefMutMulti','Entry','OccupiedEntry','VacantEntry','MappedRef','MappedRefMut','Iter','IterMut'):
        return True
    return False

class Prog:
    def __init__(self, dumpdir):
        self.fns = {}; self.adts = {}; self.consts = {}
        self.types = []
        self.crates = []
        for f in sorted(os.listdir(dumpdir)):
            if not f.endswith('.json'): continue
            j = json.load(open(os.path.join(dumpdir, f)))
            crate = j['crate'] + '-' + j['kind']
            self.crates.append(crate)
            off = len(self.types)
            self._shift(j, off)
            self.types += j['types']
            pre = '' if j['kind'] == 'lib' else 'bin:'
            for x in j['fns']:
                fn = Fn(x, self, crate)
                key = pre + fn.path
                if x['kind'] == 'const' and key in self.fns: key += '#%d' % len(self.fns)
                self.fns[key] = fn
            for a in j['adts']: self.adts.setdefault(a['path'], a)
            for c in j['consts']: self.consts.setdefault(pre + c['path'], c)
        self._guard = {}
        self.libfns = [f for k, f in self.fns.items() if not k.startswith('bin:') and f.kind != 'const']
        self.alias = {}
        self._mono()
    def implof(self, trait, method, d):
        """the function that implements a method of a trait of this crate for a type"""
        if not hasattr(self, '_impls'):
            self._impls = {}
            for k, f in self.fns.items():
                if f.trait and f.selfty is not None and not k.startswith('bin:'): self._impls[f.trait, f.name, self.ty(f.selfty).get('def')] = k
        return self._impls.get((trait, method.split('::')[-1], d))
    def _mono(self):
        """a function with constant parameters is analysed once for each combination it is called with"""
        todo = list(self.fns.values()); made = {}
        def subst(x, env):
            if isinstance(x, dict):
                if 'param' in x and x['param'] in env:
                    if 'ty' in x: return {'ty': x['ty'], 'int': env[x['param']]}
                    return env[x['param']]
                return {k: subst(v, env) for k, v in x.items()}
            if isinstance(x, list): return [subst(y, env) for y in x]
            return x
        while todo and len(made) < 200:
            f = todo.pop()
            for bb in f.blocks:
                t = bb['t']
                if t.get('k') != 'call' or t['f'][0] != 'c' or 'cargs' not in t['f'][1]: continue
                c = t['f'][1]; q = c.get('res')
                if q not in self.fns or not all(isinstance(v, int) for n, v in c['cargs']): continue
                key = (q, tuple((n, v) for n, v in c['cargs']))
                if key not in made:
                    j = subst(self.fns[q].j, dict(c['cargs']))
                    g = Fn(j, self, self.fns[q].crate)
                    made[key] = k = '%s#%s' % (q, ','.join(str(v) for n, v in c['cargs']))
                    self.fns[k] = g; todo.append(g)
                c['res'] = made[key]
    def _shift(self, j, off):
        if not off: return
        def ty(t):
            if 'args' in t: t['args'] = [a + off for a in t['args']]
        for t in j['types']: ty(t)
        def walk_place(p):
            for e in p[1]:
                if e[0] == 'f': e[4] += off
        def walk_c(c):
            c['ty'] += off
            if 'targs' in c: c['targs'] = [a + off for a in c['targs']]
        def op(o):
            if o[0] == 'c': walk_c(o[1])
            elif o[0] in ('cp','mv'): walk_place(o[1])
        def body(b):
            for l in b['locals']: l[0] += off
            for bb in b['blocks']:
                for s in bb['s']:
                    if s[0] == '=':
                        walk_place(s[1]); r = s[2]
                        if r[0] in ('ref',): walk_place(r[2])
                        elif r[0] == 'discr': walk_place(r[1])
                        elif r[0] in ('use','repeat'): op(r[1])
                        elif r[0] == 'cast': op(r[2]); r[3] += off
                        elif r[0] == 'bin': op(r[2]); op(r[3])
                        elif r[0] == 'un': op(r[2])
                        elif r[0] == 'agg':
                            for o in r[1]['ops']: op(o)
                    elif s[0] == 'sd': walk_place(s[1])
                t = bb['t']; k = t['k']
                if k == 'switch': op(t['d']); t['dty'] += off
                elif k == 'call':
                    op(t['f']); [op(o) for o in t['a']]; t['at'] = [a + off for a in t['at']]; walk_place(t['d'])
                elif k == 'drop': walk_place(t['p']); t['pty'] += off
                elif k == 'assert':
                    op(t['c'])
                    for x in t['m'][1:]:
                        if isinstance(x, list): op(x)
                elif k == 'yield': walk_place(t['d'])
        for f in j['fns']:
            body(f)
            if 'self' in f: f['self'] += off
            for p in f['promoted']: body(p)
        for a in j['adts']:
            for v in a['variants']:
                for fl in v['fields']:
                    if 'ty' in fl: fl['ty'] += off
        for c in j['consts']: c['ty'] += off
    def ty(self, i): return self.types[i]
    def tys(self, i): return self.types[i]['s']
    def contains_guard(self, ti, seen=None):
        r = self._guard.get(ti)
        if r is not None: return r
        if seen is None: seen = set()
        if ti in seen: return False
        seen.add(ti)
        t = self.types[ti]
        k = t['k']
        res = False
        if k == 'adt' and is_guard_def(t['def']): res = True
        elif k in ('adt','tuple','array','closure','coroutine','slice'):
            res = any(self.contains_guard(a, seen) for a in t.get('args', []))
            if not res and k == 'adt':
                a = self.adts.get(t['def'])
                if a and a['local']:
                    res = any(self.contains_guard(f['ty'], seen) for v in a['variants'] for f in v['fields'] if 'ty' in f)
        self._guard[ti] = res
        return res
    def find(self, suffix, kind=None):
        """functions whose (generic-stripped) path ends with ::suffix"""
        r = []
        for k, f in self.fns.items():
            if k.startswith('bin:') or f.kind == 'const': continue
            p = strip_generics(f.path) if f.path.startswith('<') else re.sub(r'::<[^>]*>', '', f.path)
            if p == suffix or p.endswith('::' + suffix):
                if kind is None or f.kind == kind: r.append(f)
        return r
    def adt(self, suffix):
        r = [a for p, a in self.adts.items() if p == suffix or p.endswith('::' + suffix)]
        return r
