"""Models of the external functions the analysed code uses."""
from mir import last2, strip_generics, is_guard_def

OPTFN = {'map','and_then','unwrap_or_else','ok_or_else','ok_or','unwrap_or','unwrap_or_default','unwrap','expect','is_some','is_none','is_ok','is_err',
         'is_some_and','is_none_or','is_ok_and','filter','or_else','or','map_err','map_or','map_or_else','ok','err','as_ref','as_mut','as_deref','as_deref_mut','take','replace','insert','unwrap_unchecked','flatten',
         'get_or_insert_with','xor','zip','and','cloned','copied','inspect','unwrap_err','expect_err','transpose','get_or_insert','inspect_err','as_slice'}
LOOKUP = {'get','get_mut','contains_key','contains','remove','swap_remove','insert','entry','peek','peek_mut','pop_entry','get_key_value','remove_entry','put','pop','try_get','view'}
VECNEW = {'Vec::new','Vec::with_capacity','VecDeque::new','VecDeque::with_capacity','slice::into_vec_empty'}
VECTY = ('Vec','VecDeque','slice')

def is_map_ty(I, ti):
    t = I.P.ty(ti)
    while t['k'] == 'ref': t = I.P.ty(t['args'][0])
    if t['k'] != 'adt': return None
    l = t['def'].split('::')[-1]
    from interp import MAPS
    return l if l in MAPS else None
def base_ty(I, ti):
    t = I.P.ty(ti)
    while t['k'] in ('ref','ptr'): t = I.P.ty(t['args'][0])
    return t

def lockname(I, st, a, default):
    """a lock is named by the field that holds it (Owner.field), or by its type"""
    loc = I.deref_loc(st, a)
    pr = [p for p in loc[-1] if p[0] == 'f']
    if pr and len(pr[-1]) > 2 and pr[-1][2]: return pr[-1][2].split('::')[-1] + '.' + pr[-1][1]
    x = loc[1] if loc[0] == 'H' else None
    while x is not None and x.op in ('deref', 'valbox'): x = x.a[0]
    if x is not None and x.op == 'fld' and x.a[2]: return x.a[2].split('::')[-1] + '.' + x.a[1]
    if x is not None and x.op == 'named': return x.a[0]
    return default
def lock_class(I, ti):
    g = I.guard_class_of_type(ti)
    return g if g else ('?', 'write')

def model(I, st, ev, args, t, fin, inline, work, dest, ret):
    from interp import (mk, K, UNIT, MOVED, TRUE, FALSE, OPT, RES, CF, POLL, agg, Some, NONE, Ok, Err, tup, IDENT, IDENT_REF, REF_ID, LAZY, KEEP_MODE, MAPS, project, subterms, Term)
    n = ev.name; site = ev.site; at = t['at']
    owner, _, m = n.rpartition('::')
    P = I.P
    def rd(a): return I.readloc(st, I.deref_loc(st, a))
    # ---------- cheap identities ----------
    if n in ('Deref::deref', 'DerefMut::deref_mut'):
        inner = P.ty(at[0]); inner = P.ty(inner['args'][0]) if inner.get('args') else inner
        d = inner.get('def', '')
        l = d.split('::')[-1]
        loc = I.deref_loc(st, args[0])
        if l in ('Arc', 'Rc', 'Box') or is_guard_def(d) or l in ('LazyLock', 'Lazy', 'Pin', 'ManuallyDrop'):
            v = I.readloc(st, loc)
            if v.op == 'ref': fin(st, v); return 1
            if v.op == 'entref': fin(st, mk('ref', ('H', v.a[0], ()))); return 1
            if v.op in ('agg','co','cl'): fin(st, mk('ref', loc)); return 1
            fin(st, mk('ref', ('H', v, ()))); return 1
        fin(st, args[0]); return 1
    if n in IDENT and args:
        if n in ('From::from', 'Into::into') and base_ty(I, at[0]).get('k') == 'ref' : pass
        a = args[0]
        if n in ('From::from','Into::into') and a.op == 'ref' and P.ty(at[0])['k'] == 'ref' and (ev.dty is None or P.ty(ev.dty)['k'] != 'ref'):
            a = rd(a)
        fin(st, a); return 1
    if n in IDENT_REF and args:
        v = rd(args[0])
        if n in ('Clone::clone',) and v.op == 'ref' and P.ty(at[0])['k'] == 'ref' and P.ty(P.ty(at[0])['args'][0])['k'] != 'ref' and (ev.dty is None or P.ty(ev.dty)['k'] != 'ref'):
            v = I.val(st, v)
        fin(st, v); return 1
    if n in REF_ID and args and not (owner == 'Option' and m == 'as_slice'):
        l = base_ty(I, at[0]).get('def', '')
        if not (owner in ('AsRef', 'AsMut') and False):
            fin(st, args[0]); return 1
    # ---------- Option / Result ----------
    if owner in ('Option', 'Result') and m in OPTFN:
        return optres(I, st, ev, args, t, fin, inline, work, dest, ret, owner, m)
    if n == 'Try::branch':
        d = base_ty(I, at[0]).get('def')
        if d in (OPT, RES):
            for s2, k, p in I.split(st, args[0], d):
                if k in ('Some', 'Ok'): fin(s2, agg(CF, 'Continue', ('0',), (p,)))
                else: fin(s2, agg(CF, 'Break', ('0',), (NONE if k == 'None' else Err(p),)))
            return 1
    if n == 'FromResidual::from_residual':
        dt = P.ty(ev.dty) if ev.dty is not None else {}
        if dt.get('def') == OPT: fin(st, NONE); return 1
        if dt.get('def') == RES:
            fin(st, Err(mk('anyerr'))); return 1     # which error is returned is never what a rule asks
    # ---------- locks ----------
    if m in ('lock', 'read', 'write', 'lock_arc', 'upgradable_read', 'try_lock', 'try_read', 'try_write') and owner.split('<')[0] in ('Mutex', 'RwLock', 'ReentrantMutex', 'FairMutex'):
        dt = P.ty(ev.dty) if ev.dty is not None else {}
        g = lock_class(I, ev.dty)
        if g[0] == '?':   # tokio: a future
            fin(st, mk('call', ev.full, (args[0],), site)); return 1
        gt = mk('guard', args[0], lockname(I, st, args[0], g[0]), g[1] if m not in ('read',) else 'read', site)
        I.rebind(st, gt)
        if dt.get('def') == RES:
            if m.startswith('try_'):
                s2 = st.copy(); fin(s2, Err(UNIT))
            fin(st, Ok(gt)); return 1
        if dt.get('def') == OPT:
            s2 = st.copy(); fin(s2, NONE); fin(st, Some(gt)); return 1
        fin(st, gt); return 1
    if n in ('mem::drop',):
        v = args[0]
        I.do_drop(st, v, at[0], ev.span)
        fin(st, UNIT); return 1
    if n == 'mem::forget': fin(st, UNIT); return 1
    if n in ('mem::take', 'mem::replace'):
        loc = I.deref_loc(st, args[0]); old = I.readloc(st, loc)
        new = args[1] if n == 'mem::replace' else (mk('vec', 'E', (), site) if base_ty(I, at[0]).get('def', '').endswith('Vec') else (FALSE if base_ty(I, at[0])['s'] == 'bool' else (NONE if base_ty(I, at[0]).get('def') == OPT else mk('call', 'Default::default', (), site))))
        I.writeloc(st, loc, new, ev.span); fin(st, old); return 1
    if n == 'mem::swap':
        l1, l2 = I.deref_loc(st, args[0]), I.deref_loc(st, args[1])
        a, b = I.readloc(st, l1), I.readloc(st, l2)
        I.writeloc(st, l1, b, ev.span); I.writeloc(st, l2, a, ev.span); fin(st, UNIT); return 1
    if m in ('le', 'lt', 'ge', 'gt') and len(at) == 2 and any(x in P.tys(at[0]) for x in ('tracing_core', 'tracing::', 'log::Level')):
        fin(st, FALSE); return 1            # logging is not part of any property
    if n.endswith('thread_rng_n') and args[0].op == 'k' and args[0].a[1] <= 8:
        for i in range(args[0].a[1]): 
            fin(st.copy(), K(i))            # tokio::select! polls its branches in an arbitrary order
        return 1
    if m == 'elapsed' and owner.split('<')[0] == 'Instant' and len(args) == 1:
        fin(st, mk('call', owner + '::duration_since', (mk('call', owner + '::now', (), site), I.val(st, args[0])), 0)); return 1
    if n == 'Not::not': fin(st, mk('un', 'Not', args[0])); return 1
    if owner in ('PartialEq', 'PartialOrd') and m in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
        a, b = I.val(st, args[0]), I.val(st, args[1])
        fin(st, I.binop(st, m.capitalize(), a, b)); return 1
    if m == 'cmp' and owner in ('Ord',) and len(args) == 2:
        a, b = I.val(st, args[0]), I.val(st, args[1])
        for o, lt, eq in (('Less', 1, 0), ('Equal', 0, 1), ('Greater', 0, 0)):
            s2 = st.copy()
            if I.assume(s2, mk('bin', 'Lt', a, b), lt) and I.assume(s2, mk('bin', 'Eq', a, b), eq) and (o != 'Greater' or I.assume(s2, mk('bin', 'Gt', a, b), 1)) and (o != 'Equal' or I.assume(s2, mk('bin', 'Gt', a, b), 0)):
                fin(s2, agg('core::cmp::Ordering', o, (), ()))
        return 1
    # ---------- futures ----------
    if n == 'Future::poll':
        return poll(I, st, ev, args, t, fin, inline, work, dest, ret)
    if n == 'future::get_context': fin(st, args[0]); return 1
    if n == 'poll_fn::poll_fn' or n.endswith('::poll_fn'):
        fin(st, mk('pollfn', args[0])); return 1
    if n == 'support::poll_budget_available': fin(st, agg(POLL, 'Ready', ('0',), (UNIT,))); return 1
    if n == 'blocking::spawn_blocking' or n.endswith('spawn_blocking'):
        if args[0].op == 'cl' and args[0].a[0] in P.fns:
            # runs on a blocking thread; its handle yields the closure's result
            return inline(st, args[0], [], ('ret_join',)) or 1
    if n == 'timeout::timeout':
        fin(st, mk('timeoutf', args[1], args[0])); return 1
    # ---------- collections ----------
    if n in VECNEW or (m == 'new' and owner in ('Vec', 'VecDeque')):
        fin(st, mk('vec', 'E', (), site)); return 1
    if owner in ('Vec', 'VecDeque') and m in ('push', 'push_back', 'push_front'):
        loc = I.deref_loc(st, args[0]); v = I.readloc(st, loc)
        if v.op == 'vec':
            el = v.a[1]
            if track(args[1]) and args[1] not in el: el = (el + (args[1],))[-4:]
            nv = mk('vec', 'N', el, v.a[2])
            I.rebind(st, mk('len', nv)); I.writeloc(st, loc, nv)
        elif loc[0] == 'H' and loc[2]:
            # a collection inside a structure: its content is described by membership facts, its value keeps its name
            map_grew(I, st, loc, site)
            if m == 'push_front': forget_end(st, loc, 'front')
            else: forget_end(st, loc, 'back')
            key = args[1]
            st.facts[('has', loc, key)] = 1
            for s2 in emap(I, st, 'insert', loc, key, None, key, ev): fin(s2, UNIT)
            return 1
        else: I.writeloc(st, loc, mk('mut', site))
        fin(st, UNIT); return 1
    if n in ('slice::from_ref', 'raw::from_ref', 'slice::raw::from_ref', 'array::from_ref') and len(args) == 1:
        fin(st, mk('ref', ('H', mk('valbox', mk('agg', 'array', '', ('0',), (I.val(st, args[0]),))), ()))); return 1
    if m in ('retain', 'retain_mut') and len(args) == 2 and args[0].op == 'ref' and (args[0].a[0][0] == 'H' or I.val(st, args[0]).op == 'vec'):
        return retain(I, st, ev, args, fin, dest, ret, work)
    if owner in ('OnceLock', 'OnceCell', 'LazyLock') and m == 'get_or_init' and len(args) == 2 and args[1].op == 'cl':
        inline(st, args[1], [], ('once',)); return 1      # the cell holds what its initialiser computes
    if owner in ('RangeInclusive', 'Range', 'RangeFrom', 'RangeTo', 'RangeToInclusive') and m == 'contains' and len(args) == 2:
        r = I.val(st, args[0]); x = I.val(st, args[1]); lo = hi = None
        if r.op == 'valbox': r = r.a[0]
        if r.op == 'call' and r.a[0].endswith('::new') and len(r.a[1]) == 2: lo, hi = r.a[1]
        elif r.op == 'agg':
            for n, v in zip(r.a[2], r.a[3]):
                if n == 'start': lo = v
                elif n == 'end': hi = v
        c = []
        if lo is not None: c.append(I.decide(st, I.binop(st, 'Ge', x, lo)))
        if hi is not None: c.append(I.decide(st, I.binop(st, 'Le' if 'Inclusive' in owner else 'Lt', x, hi)))
        if c and (0 in c or None not in c): fin(st, FALSE if 0 in c else TRUE); return 1
    if owner in ('VecDeque', 'Vec', 'slice') and m == 'contains' and args[0].op == 'ref' and args[0].a[0][0] == 'H' and args[0].a[0][2]:
        return member(I, st, args[0].a[0], I.val(st, args[1]), ev, lambda s, hit: fin(s, TRUE if hit else FALSE))
    if owner in ('VecDeque', 'Vec') and m in ('remove', 'swap_remove', 'swap_remove_back', 'swap_remove_front') and len(args) == 2 and args[0].op == 'ref' and args[0].a[0][0] == 'H' and args[0].a[0][2]:
        loc = args[0].a[0]; x = args[1]
        while x.op == 'cast': x = x.a[1]
        key = x.a[0] if x.op == 'elemidx' else mk('at', mk('ref', loc), x, site)
        map_shrank(I, st, loc, site); forget_end(st, loc, 'front'); forget_end(st, loc, 'back')
        st.facts.pop(('has', loc, key), None)
        for s2 in emap(I, st, 'remove', loc, key, 1, key, ev): fin(s2, Some(key) if owner == 'VecDeque' else key)
        return 1
    if owner in ('Vec', 'VecDeque', 'slice', 'str', 'String') and m == 'is_empty':
        v = I.val(st, args[0])
        u = mk('un', 'is_empty', v); dd = I.decide(st, u)
        fin(st, K(dd) if dd is not None else u); return 1
    if owner in ('Vec', 'VecDeque', 'slice', 'String', 'str', 'Bytes', 'BytesMut') and m == 'len':
        fin(st, lenof(I.val(st, args[0]))); return 1
    if m == 'is_empty' and len(args) == 1 and owner in MAPS:
        loc = I.deref_loc(st, args[0])
        fin(st, mk('un', 'is_empty', I.readloc(st, loc))); return 1
    if owner in ('Vec', 'VecDeque') and m == 'clear':
        loc = I.deref_loc(st, args[0]); v = I.readloc(st, loc)
        if v.op != 'vec' and loc[0] == 'H' and loc[2]:
            drop_has(st, loc); map_shrank(I, st, loc, site); st.facts[mk('un', 'is_empty', I.readloc(st, loc))] = 1
            for w in ('front', 'back'): forget_end(st, loc, w)
            for s3 in emap(I, st, 'clear', loc, None, None, None, ev): fin(s3, UNIT)
            return 1
        I.writeloc(st, loc, mk('vec', 'E', (), v.a[2] if v.op == 'vec' else site)); fin(st, UNIT); return 1
    if owner in ('Vec', 'VecDeque') and m in ('extend_from_slice', 'append') or n == 'Extend::extend':
        loc = I.deref_loc(st, args[0]); v = I.readloc(st, loc)
        listed = v.op == 'vec' or base_ty(I, at[0]).get('def', '').endswith(('::Vec', '::VecDeque')) and loc[0] == 'H'
        def add(s2, x):         # one more element; the states it goes on in
            w = I.readloc(s2, loc)
            if w.op == 'vec':
                el = w.a[1]
                if track(x) and x not in el: el = (el + (x,))[-4:]
                nv = mk('vec', 'N', el, w.a[2])
                I.rebind(s2, mk('len', nv)); I.writeloc(s2, loc, nv)
                I.mon.on_ret(I, s2, asputs(ev, args[0], x), UNIT)
                return [s2]
            if not loc[2]:      # a list handed in by the caller
                I.mon.on_ret(I, s2, asputs(ev, args[0], x), UNIT)
                return [s2]
            map_grew(I, s2, loc, site); forget_end(s2, loc, 'back')
            s2.facts[('has', loc, x)] = 1
            r = emap(I, s2, 'insert', loc, x, None, x, ev)
            for s3 in r: I.mon.on_ret(I, s3, asputs(ev, args[0], x), UNIT)
            return r
        src = args[1]
        bt = P.ty(at[1])
        if listed and n == 'Extend::extend' and (bt['k'] == 'adt' and bt.get('def') == OPT or src.op == 'agg' and src.a[0] == OPT):
            for s2, k, x in I.split(st, src, OPT):
                I.mon.on_split(I, s2, src, k)
                if k != 'Some': fin(s2, UNIT)
                else:
                    for s3 in add(s2, x): fin(s3, UNIT)
            return 1
        if listed and n == 'Extend::extend' and src.op == 'iterad':
            md = 'N' if holds(I, st, src, True) else mode(I, st, src)
            if md != 'N': fin(st.copy(), UNIT)
            if md == 'E': return 1
            def done(s2, w):
                if w.op != 'vec': return fin(s2, UNIT)
                outs = [s2]
                for x in w.a[1]: outs = [s4 for s3 in outs for s4 in add(s3, x)]
                for s3 in outs:
                    u = I.readloc(s3, loc)
                    if not w.a[1] and u.op == 'vec' and w.a[0] != 'E': I.writeloc(s3, loc, mk('vec', 'N' if 'N' in (u.a[0], w.a[0]) else '?', u.a[1], u.a[2]))
                    fin(s3, UNIT)
            draw(I, st, src, lambda s2, it2: None, ev, dest, ret, work, ('collected', site, md), done, whole=True)
            return 1
        if v.op == 'vec':
            src = I.val(st, args[1]); md = mode(I, st, src)
            nm = 'N' if 'N' in (v.a[0], md) else ('E' if v.a[0] == 'E' and md == 'E' else '?')
            base = rest_of(I, st, src)
            I.writeloc(st, loc, mk('vec', nm, (v.a[1] + tuple(x for x in base if x not in v.a[1]))[-4:], v.a[2]))
            if m == 'append':
                I.writeloc(st, I.deref_loc(st, args[1]), mk('vec', 'E', (), site))
            cc = []; I.closures_of(st, src, cc)
            if n == 'Extend::extend' and cc: return None
            fin(st, UNIT); return 1
        return None
    if n in ('slice::into_vec', 'into_vec') or n.endswith('box_assume_init_into_vec_unsafe') or n.endswith('::into_vec'):
        v = I.val(st, args[0])
        if v.op == 'agg' and v.a[0] == 'array':
            fin(st, mk('vec', 'N' if v.a[3] else 'E', tuple(x for x in v.a[3] if track(x))[:4], site)); return 1
        # vec![..]: the array was written through the box
        for (b, q), w in list(st.heap.items()):
            if b is args[0] and w.op == 'agg' and w.a[0] == 'array':
                fin(st, mk('vec', 'N' if w.a[3] else 'E', tuple(x for x in w.a[3] if track(x))[:4], site)); return 1
        fin(st, mk('vec', '?', (), site)); return 1
    if n == 'Index::index' and len(args) == 2 and args[1].op == 'elemidx':
        fin(st, mk('ref', ('H', mk('valbox', args[1].a[0]), ()))); return 1
    if n == 'IntoIterator::into_iter' or (m in ('iter', 'iter_mut', 'into_iter', 'drain', 'values', 'values_mut', 'keys', 'into_values', 'into_keys', 'range') and len(args) >= 1 and owner != 'Iterator'):
        a = args[0]
        bt = P.ty(at[0])
        if n == 'IntoIterator::into_iter':
            if a.op in ('iter', 'iterad') or (a.op == 'call' and bt['k'] == 'adt' and not bt['def'].endswith(('Vec', 'HashMap', 'BTreeMap', 'HashSet', 'LinkedHashSet', 'VecDeque', 'LinkedHashMap', 'BTreeSet'))):
                fin(st, a); return 1
            if bt['k'] == 'adt' and bt['def'] == 'core::ops::range::Range':
                if a.op == 'agg' and a.a[3][0].op == 'k' and a.a[3][0].a[1] == 0 and a.a[3][1].op == 'len' and a.a[3][1].a[0].op == 'vec':
                    v = a.a[3][1].a[0]      # the positions of a list stand for its elements
                    fin(st, mk('iterad', 'indices', v.a[0], mk('iter', v.a[0], v, v.a[1], site), (), site)); return 1
                fin(st, mk('iter', '?', a, ('*',), site)); return 1
        tag = {'values': 'v', 'values_mut': 'v', 'into_values': 'v', 'keys': 'k', 'into_keys': 'k'}.get(m, '')
        if a.op == 'ref':
            loc = a.a[0]; v = I.readloc(st, loc)
            k = 0
            while v.op == 'ref' and k < 4: loc = v.a[0]; v = I.readloc(st, loc); k += 1
            md = mode(I, st, v)
            if base_ty(I, at[0]).get('def', '').endswith('DashMap'):
                fin(st, mk('iter', '?', mk('ref', loc), ('*',), site)); return 1
            if m == 'range':
                fin(st, mk('iter', '?', mk('rng', mk('ref', loc), I.val(st, args[1])), ('*',), site)); return 1
            if v.op == 'vec':
                r = mk('iter', md, v, v.a[1], site)
                if m == 'drain': I.writeloc(st, loc, mk('vec', 'E', (), v.a[2]))
            elif v.op == 'agg' and v.a[0] == 'array':
                r = mk('iter', md, v, tuple(v.a[3]), '=%s' % (site,) if len(v.a[3]) <= 4 else site)
            else:
                src = mk('ref', loc) if loc[0] == 'H' else v
                r = mk('iter', md, src, ('*' + tag,), site)
            fin(st, r); return 1
        v = a
        if v.op == 'vec': fin(st, mk('iter', v.a[0], v, v.a[1], site)); return 1
        if v.op == 'agg' and v.a[0] == 'array': fin(st, mk('iter', 'N' if v.a[3] else 'E', v, tuple(v.a[3]), '=%s' % (site,) if len(v.a[3]) <= 4 else site)); return 1
        if v.op == 'agg' and v.a[0] == OPT: fin(st, mk('iter', 'N' if v.a[3] else 'E', v, tuple(v.a[3]), '=%s' % (site,) if v.a[3] else site)); return 1
        if bt['k'] == 'adt' and bt['def'] == OPT:
            for s2, k, x in I.split(st, v, OPT):
                I.mon.on_split(I, s2, v, k)
                fin(s2, mk('iter', 'N', Some(x), (x,), '=%s' % (site,)) if k == 'Some' else mk('iter', 'E', NONE, (), site))
            return 1
        fin(st, mk('iter', mode(I, st, v), v, ('*' + tag,), site)); return 1
    if owner == 'bool' and m in ('then', 'then_some') and len(args) == 2:
        b = I.val(st, args[0])
        for c in (0, 1):
            s2 = st.copy() if c == 0 else st
            if not I.assume(s2, b, c): continue
            I.mon.on_branch(I, s2, b, c, ev.span)
            if not c: fin(s2, NONE)
            elif m == 'then_some': fin(s2, Some(args[1]))
            else: I.call_closure(s2, args[1], [], ('Some',), dest, ret, work)
        return 1
    if n in ('iter::from_fn', 'from_fn::from_fn', 'sources::from_fn') and len(args) == 1:
        fin(st, mk('iterad', 'from_fn', '?', mk('fromfn', args[0], site), (args[0],), site)); return 1
    if owner == 'Iterator' and m in LAZY:
        a = args[0]
        if a.op == 'ref' and m == 'by_ref': fin(st, a); return 1
        if m in ('peekable', 'fuse', 'by_ref'): fin(st, a); return 1
        md = mode(I, st, a) if m in KEEP_MODE else ('E' if mode(I, st, a) == 'E' else '?')
        xs = tuple(args[1:])
        if m == 'chain':
            for s2, b in seconds(I, st, args[1], P.ty(at[1]), site):
                ma, mb = mode(I, s2, a), mode(I, s2, b)
                fin(s2, b if ma == 'E' else a if mb == 'E' else mk('iterad', 'chain', 'N' if 'N' in (ma, mb) else '?', a, (b,), site))
            return 1
        if m == 'flatten' and ev.dty is not None: xs = (mk('flat', P.tys(ev.dty)),)
        fin(st, mk('iterad', m, md, a, xs, site)); return 1
    if n == 'Iterator::last' and len(args) == 1 and args[0].op in ('iter', 'iterad'):
        draw(I, st, args[0], lambda s2, it2: None, ev, dest, ret, work, ('ret',), fin)
        return 1
    if n in ('Iterator::next', 'DoubleEndedIterator::next_back'):
        loc = I.deref_loc(st, args[0])
        k = 0
        it = I.readloc(st, loc)
        while it.op == 'ref' and k < 5: loc = it.a[0]; it = I.readloc(st, loc); k += 1
        draw(I, st, it, lambda s2, it2: I.writeloc(s2, loc, it2), ev, dest, ret, work, ('ret',), fin)
        return 1
    if n == 'Iterator::partition' and len(args) == 2:
        a = args[0]; dt = P.ty(ev.dty) if ev.dty is not None else {}
        if dt.get('args') and all(P.ty(x).get('def', '').endswith(('::Vec', '::VecDeque')) for x in dt['args']):
            md = 'N' if holds(I, st, a, True) else mode(I, st, a)
            if md != 'N': fin(st.copy(), tup(mk('vec', 'E', (), (site, 0)), mk('vec', 'E', (), (site, 1))))
            if md == 'E': return 1
            draw(I, st, a, lambda s2, it2: None, ev, dest, ret, work, ('hof', 'partition', args[1]), fin, whole=True)
            return 1
        return None
    if n == 'Iterator::collect' or n in ('FromIterator::from_iter',):
        a = args[0]
        dt = P.ty(ev.dty) if ev.dty is not None else {}
        wrapr = None
        if dt.get('def') in (RES, OPT) and dt.get('args') and P.ty(dt['args'][0]).get('def', '').endswith(('::Vec', '::VecDeque')): wrapr = dt['def']
        if wrapr is None and (dt.get('def', '').endswith(('::Vec', '::VecDeque', '::HashMap')) or dt.get('def', '').endswith(('::HashSet', '::BTreeSet')) and holds(I, st, a)):
            md = 'N' if holds(I, st, a, True) else mode(I, st, a)
            if md != 'N': fin(st.copy(), mk('vec', 'E', (), site))
            if md == 'E': return 1
            def nothing(s2, it2): pass
            draw(I, st, a, nothing, ev, dest, ret, work, ('collected', site, md), fin, whole=True)
            return 1
        return None
    if m == 'partition_point' and len(args) == 2 and args[0].op in ('ref', 'vref') and args[1].op == 'cl' and args[1].a[0] in P.fns:
        # either none of the elements satisfies the predicate, or the point is behind one that does
        v = I.val(st, args[0]) if args[0].op == 'ref' else args[0].a[0]
        if v.op == 'vec' and v.a[0] == 'E': fin(st, K(0)); return 1
        fin(st.copy(), K(0))
        draw(I, st, mk('iter', '?', v if v.op == 'vec' else args[0] if args[0].op == 'ref' else v, v.a[1] if v.op == 'vec' else ('*',), site), lambda s2, it2: None, ev, dest, ret, work, ('hof', m, args[1]), fin, whole=True)
        return 1
    if owner in ('Iterator', 'DoubleEndedIterator') and m in ('find_map', 'find', 'any', 'all', 'position', 'rposition', 'for_each', 'rfind', 'count', 'max', 'min', 'sum', 'last', 'max_by_key', 'min_by_key', 'fold', 'try_for_each'):
        it = args[0]; loc = None; k = 0
        while it.op == 'ref' and k < 5: loc = it.a[0]; it = I.readloc(st, loc); k += 1
        if m in ('find_map', 'find', 'any', 'all', 'position', 'rposition', 'for_each', 'rfind') and len(args) == 2:
            md = 'N' if holds(I, st, it) else mode(I, st, it)
            none = {'any': FALSE, 'all': TRUE, 'for_each': UNIT}.get(m, NONE)
            if loc is not None and it.op in ('iter', 'iterad'): I.writeloc(st, loc, spent(it))
            if m in ('any', 'all', 'position', 'find') and it.op == 'iter' and it.a[1].op == 'ref' and it.a[1].a[0][0] == 'H' and it.a[1].a[0][2] and it.a[2] and it.a[2][0] == '*':
                cl = args[1]
                if cl.op == 'cl' and cl.a[0] in P.fns:
                    # is it a membership test?  evaluate the predicate on a stand-in
                    p = I.pure_pred(st, cl, m)
                    if p is not None:
                        def res(s, hit):
                            if m == 'any': fin(s, TRUE if hit else FALSE)
                            elif m == 'all': fin(s, FALSE if hit else TRUE)
                            elif m == 'position': fin(s, Some(mk('elemidx', p)) if hit else NONE)
                            else: fin(s, Some(mk('ref', ('H', mk('valbox', p), ()))) if hit else NONE)
                        return member(I, st, it.a[1].a[0], p, ev, res)
            if md != 'N': fin(st.copy(), none)
            if md == 'E': return 1
            draw(I, st, it, lambda s2, it2: None, ev, dest, ret, work, ('hof', m, args[1]), fin, whole=True)
            return 1
        if m == 'fold' and len(args) == 3:
            if loc is not None and it.op in ('iter', 'iterad'): I.writeloc(st, loc, spent(it))
            fold(I, st, it, args[1], args[2], 0, ev, fin, dest, ret, work)
            return 1
        return None
    if m == 'entry' and len(args) == 2 and owner in MAPS:
        loc = I.deref_loc(st, args[0]); key = I.val(st, args[1]); t = mk('mapent', mk('ref', loc), key)
        d = P.ty(ev.dty).get('def') if ev.dty is not None else None
        oc, va = (I.vidx(d, 'Occupied'), I.vidx(d, 'Vacant')) if d else (None, None)
        if oc is None or va is None or not isinstance(dest, tuple) or dest[0] != 'L' or dest[3] or "['discr', [%d, []]]" % dest[2] not in I.blocktext(st.frames[-1].fn): fin(st, t); return 1
        # the entry is matched on: what is found is decided here
        I.rebind(st, t); f = ('has', loc, key); p = st.facts.get(f); dc = mk('discr', t)
        if p != 0:
            s2 = st.copy(); s2.facts[f] = 1
            for s3 in emap(I, s2, 'hit', loc, key, p, None, ev): s3.facts[dc] = oc; fin(s3, t)
        if p != 1:
            for s3 in emap(I, st, 'miss', loc, key, 0, None, ev):
                s3.facts[f] = 0; s3.facts[dc] = va; ent = mk('entry', loc, key)
                for k in [k for k in s3.heap if k[0] is ent]: del s3.heap[k]
                fin(s3, t)
        return 1
    if args and owner in ('Entry', 'VacantEntry', 'OccupiedEntry') :
        v = I.val(st, args[0])
        x = v
        while x.op in ('fld', 'var'): x = x.a[0]
        if x.op == 'mapent':
            loc = I.deref_loc(st, x.a[0]); key = x.a[1]; ent = mk('entry', loc, key); f = ('has', loc, key)
            dash = base_ty(I, at[0]).get('def', '').startswith('dashmap')
            cls = None
            def out(s):
                if dash:
                    g = I.guard_class_of_type(ev.dty) if ev.dty is not None else None
                    fin(s, mk('entref', ent, g[0] if g else 'DashMap'))
                else: fin(s, mk('ref', ('H', ent, ())))
            if m in ('or_default', 'or_insert', 'or_insert_with', 'or_insert_entry', 'or_insert_with_key'):
                p = st.facts.get(f)
                if p != 0:
                    s2 = st.copy() if p is None else st
                    s2.facts[f] = 1
                    for s3 in emap(I, s2, 'hit', loc, key, p, None, ev): out(s3)
                    if p == 1: return 1
                for s3 in emap(I, st, 'miss', loc, key, 0, None, ev):
                    s3.facts[f] = 1
                    for k in [k for k in s3.heap if k[0] is ent]: del s3.heap[k]
                    if m == 'or_insert': v0 = args[1]
                    elif m == 'or_default': v0 = mk('default', ent)
                    else:
                        inline(s3, args[1], [], ('mapins', I, ent, dash, ev, fin)); continue
                    I.writeloc(s3, ('H', ent, ()), v0)
                    map_grew(I, s3, loc, ev.site)
                    for s4 in emap(I, s3, 'insert', loc, key, 0, v0, ev): out(s4)
                return 1
            if m == 'and_modify': fin(st, v); return 1
            if m in ('insert', 'insert_entry'):
                was = st.facts.get(f)
                for k in [k for k in st.heap if k[0] is ent]: del st.heap[k]
                I.writeloc(st, ('H', ent, ()), args[1]); st.facts[f] = 1
                map_grew(I, st, loc, ev.site)
                for s3 in emap(I, st, 'insert', loc, key, 0 if owner == 'VacantEntry' else was, args[1], ev): out(s3)
                return 1
            if m in ('get', 'get_mut', 'into_mut', 'into_ref'): out(st); return 1
            if m in ('remove', 'remove_entry'):
                for s3 in emap(I, st, 'hit', loc, key, 1, None, ev):
                    r = I.readloc(s3, ('H', ent, ()))
                    for k in [k for k in s3.heap if k[0] is ent]: del s3.heap[k]
                    s3.facts[f] = 0
                    map_shrank(I, s3, loc, ev.site)
                    for s4 in emap(I, s3, 'remove', loc, key, 1, r, ev): fin(s4, r if m == 'remove' else tup(key, r))
                return 1
            if m in ('key',): fin(st, mk('ref', ('H', mk('valbox', key), ()))); return 1
    mt = is_map_ty(I, at[0]) if at else None
    if mt and m in LOOKUP and owner in MAPS:
        return lookup(I, st, ev, args, t, fin, inline, work, dest, ret, mt, m)
    if mt and m in ('clear',):
        loc = I.deref_loc(st, args[0])
        drop_has(st, loc)
        v = I.readloc(st, loc); olde = mk('un', 'is_empty', v); was = mk('len', v)
        if I.decide(st, olde) == 1: st.facts[was] = 0
        st.env['was'] = was
        map_shrank(I, st, loc, ev.site)
        was = st.env.pop('was'); st.facts[mk('un', 'is_empty', v)] = 1
        for s3 in emap(I, st, 'clear', loc, None, None, was, ev): fin(s3, UNIT)
        return 1
    if owner in MAPS | {'VecDeque', 'slice', 'Vec'} and m in ('front', 'back', 'first', 'last', 'pop_front', 'pop_back', 'pop_first', 'pop_last', 'front_mut', 'back_mut', 'first_key_value', 'last_key_value', 'pop', 'first_mut', 'last_mut', 'first_entry', 'last_entry') and len(args) == 1:
        return ends(I, st, ev, args, fin, m)
    if mt and m in ('len',):
        loc = I.deref_loc(st, args[0]); fin(st, mk('len', I.readloc(st, loc))); return 1
    if owner in ('RefMut', 'Ref', 'RefMulti', 'RefMutMulti') and m in ('value', 'value_mut', 'key', 'pair'):
        v = rd(args[0])
        if v.op == 'entref':
            e = v.a[0]
            if m == 'key': fin(st, mk('ref', ('H', mk('valbox', e.a[1] if e.op == 'entry' else mk('fld', e, 'key', '')), ()))); return 1
            fin(st, mk('ref', ('H', e, ()))); return 1
        fin(st, mk('ref', ('H', mk('fld', v, m, ''), ()))); return 1
    # ---------- formatting ----------
    if owner.startswith('Argument') and m.startswith('new_'):
        fin(st, mk('fmtarg', I.val(st, args[0]))); return 1
    if owner.startswith('Arguments') and m in ('new', 'from_str', 'from_str_nonconst', 'new_const', 'new_v1'):
        tpl = args[0]
        tpl = I.val(st, tpl)
        av = I.val(st, args[1]) if len(args) > 1 else None
        vals = tuple(project(x, ()) .a[0] if x.op == 'fmtarg' else x for x in (av.a[3] if av is not None and av.op == 'agg' else ()))
        fin(st, mk('fmt', tpl, vals)); return 1
    if n in ('fmt::format', 'alloc::fmt::format'): fin(st, args[0]); return 1
    # ---------- ints ----------
    if m in PUREINT and 1 <= len(args) <= 2 and (owner in INTS or owner == 'Ord'):
        if P.ty(at[0])['k'] != 'ref' and P.ty(at[0])['s'] in INTS:
            v = tuple(args)
            if m in ('max', 'min') and all(isinstance(I.decide(st, x), int) for x in v): fin(st, K((max if m == 'max' else min)(*[I.decide(st, x) for x in v]))); return 1
            t = mk('call', m, v, 0)
            if t.op != 'call' or nestint(t) > 5: t = mk('top', 'arith', site)
            fin(st, t); return 1
    if m == 'checked_sub' and len(args) == 2 and (owner in INTS or owner == 'num') and P.tys(at[0]) in INTS and P.tys(at[0])[0] == 'u':
        a, b = args; c = mk('bin', 'Lt', a, b)
        d = I.decide(st, c)
        if d is None:
            v = mk('bin', 'Le', b, a); d = I.decide(st, v)
            d = None if d is None else 1 - d
        if d != 0:
            s2 = st.copy() if d is None else st
            if d == 1 or I.assume(s2, c, 1): I.mon.on_branch(I, s2, c, 1, ev.span); fin(s2, NONE)
        if d != 1 and (d == 0 or I.assume(st, c, 0)):
            if d is None: I.mon.on_branch(I, st, c, 0, ev.span)
            x = mk('bin', 'Sub', a, b)
            if a.op == 'k' and b.op == 'k': x = K(a.a[1] - b.a[1])
            elif nestint(x) > 5: x = mk('top', 'arith', site)
            fin(st, Some(x))
        return 1
    if m in ('to_be_bytes', 'to_le_bytes', 'to_ne_bytes', 'from_be_bytes', 'from_le_bytes'):
        fin(st, mk('call', m, (args[0], K(intty(I, at, ev, m))), 0)); return 1
    return None

def asputs(ev, to, x):
    """an element that `extend` adds, as if it were pushed by itself"""
    from interp import Ev
    e = Ev()
    for k in Ev.__slots__:
        if hasattr(ev, k): setattr(e, k, getattr(ev, k))
    e.name = 'Vec::push'; e.args = [to, x]
    return e
def bytesof(t, sh=0):
    """an integer put together from bytes by shifting: {shift: byte}, or None"""
    if t.op in ('cast', 'trunc') or t.op == 'call' and t.a[0].split('::')[-1] in ('from', 'into') and len(t.a[1]) == 1:
        x = t.a[1] if t.op != 'call' else t.a[1][0]
        return bytesof(x, sh)
    if t.op == 'idx' and len(t.a) == 2 and isinstance(t.a[1], int): return {sh: t}
    if t.op == 'bin' and t.a[0] in ('Shl', 'ShlUnchecked'):
        k = t.a[2]
        while k.op == 'cast': k = k.a[1]
        return bytesof(t.a[1], sh + k.a[1]) if k.op == 'k' and isinstance(k.a[1], int) else None
    if t.op == 'bin' and t.a[0] in ('BitOr', 'Add', 'BitXor'):
        x = bytesof(t.a[1], sh); y = bytesof(t.a[2], sh) if x else None
        return None if not x or not y or set(x) & set(y) else {**x, **y}
    if t.op == 'call' and t.a[0] == 'from_be_bytes' and t.a[1][0].op == 'agg':
        bs = t.a[1][0].a[3]
        return {sh + 8 * (len(bs) - 1 - i): b for i, b in enumerate(bs)}
    return None
def wholeint(a, b):
    """the integer all of whose bytes, in order, are combined by shifting: written as from_be_bytes / from_le_bytes"""
    from interp import mk, K
    if a.op not in ('bin', 'call', 'cast', 'idx') or b.op not in ('bin', 'call', 'cast', 'idx'): return None
    x = bytesof(a); y = bytesof(b) if x else None
    if not x or not y or set(x) & set(y): return None
    z = {**x, **y}; n = len(z)
    if n not in (2, 4, 8) or set(z) != {8 * i for i in range(n)} or len({t.a[0] for t in z.values()}) != 1: return None
    bs = tuple(z[8 * (n - 1 - i)] for i in range(n)); ix = [t.a[1] for t in bs]
    arr = lambda v: mk('agg', 'array', '', tuple(str(i) for i in range(n)), v)
    if ix == list(range(ix[0], ix[0] + n)): return mk('call', 'from_be_bytes', (arr(bs), K('u%d' % (8 * n))), 0)
    if ix == list(range(ix[0], ix[0] - n, -1)): return mk('call', 'from_le_bytes', (arr(bs[::-1]), K('u%d' % (8 * n))), 0)
    return None
def lenof(v):
    from interp import mk, K
    if v.op == 'call' and v.a[0] in ('to_be_bytes', 'to_le_bytes', 'to_ne_bytes') and len(v.a[1]) == 2:
        w = ''.join(c for c in str(v.a[1][1].a[1]) if c.isdigit())
        if w: return K(int(w) // 8)
    return mk('len', v)
INTS = {'u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize'}
PUREINT = {'max', 'min', 'saturating_sub', 'saturating_add', 'wrapping_add', 'wrapping_sub', 'saturating_mul', 'abs_diff'}
def nestint(x):
    from interp import Term
    if x.op == 'bin' and x.a[0] in ('Add', 'Sub', 'Mul', 'Shl', 'BitOr', 'BitAnd'): return 1 + max(nestint(x.a[1]), nestint(x.a[2]))
    if x.op == 'call' and x.a[0] in PUREINT: return 1 + max(nestint(y) for y in x.a[1])
    if x.op in ('cast', 'trunc'): return nestint(x.a[1])
    return 0
def intty(I, at, ev, m):
    if m.startswith('to_'): return I.P.tys(at[0])
    return I.P.tys(ev.dty) if ev.dty is not None else '?'

def mode(I, st, v):
    """does a collection / iterator surely have (N) or lack (E) elements"""
    if v.op in ('vec', 'iter'): return v.a[0]
    if v.op == 'iterad': return v.a[1]
    if v.op == 'agg' and v.a[0] == 'array': return 'N' if v.a[3] else 'E'
    if v.op == 'ref': return mode(I, st, I.readloc(st, v.a[0]))
    from interp import mk, OPT
    if v.op == 'agg' and v.a[0] == OPT: return 'N' if v.a[1] == 'Some' else 'E'
    d = I.decide(st, mk('un', 'is_empty', v))
    if d is not None: return 'E' if d else 'N'
    return '?'

def track(x):
    """is x (part of) the element a path follows, as opposed to `some other element`"""
    from interp import subterms
    return not any(s.op == 'other' for s in subterms(x))

def rest_of(I, st, src):
    if src.op == 'vec': return src.a[1]
    if src.op == 'iter': return tuple(x for x in src.a[2] if not isinstance(x, str))
    if src.op == 'agg' and src.a[0] == 'array': return tuple(x for x in src.a[3] if track(x))
    if src.op == 'ref': return rest_of(I, st, I.readloc(st, src.a[0]))
    return ()

def holds(I, st, it, plain=False):
    """does the iterator go through the element a path follows (plain: and surely yields something)"""
    k = 0
    while k < 12:
        k += 1
        if it.op == 'iterad':
            if it.a[0] == 'chain' and holds(I, st, it.a[3][0], plain): return True
            if plain and it.a[0] not in ('map', 'cloned', 'copied', 'enumerate', 'inspect', 'rev'): return False
            it = it.a[2]
        elif it.op == 'ref': it = I.readloc(st, it.a[0])
        else: break
    return it.op == 'iter' and bool(it.a[2]) and not isinstance(it.a[2][0], str)

def seconds(I, st, v, ty, site):
    """[(state, iterator)] for the argument of `chain`"""
    from interp import mk, OPT
    if v.op in ('iter', 'iterad'): return [(st, v)]
    if ty['k'] == 'adt' and ty['def'] == OPT or v.op == 'agg' and v.a[0] == OPT:
        out = []
        for s2, k, x in I.split(st, v, OPT):
            I.mon.on_split(I, s2, v, k)
            out.append((s2, mk('iter', 'N', v, (x,), '=%s' % (site,)) if k == 'Some' else mk('iter', 'E', v, (), site)))
        return out
    w = I.readloc(st, v.a[0]) if v.op == 'ref' else v
    k = 0
    while w.op == 'ref' and k < 4: w = I.readloc(st, w.a[0]); k += 1
    if w.op == 'vec': return [(st, mk('iter', w.a[0], w, w.a[1], site))]
    if w.op == 'agg' and w.a[0] == 'array': return [(st, mk('iter', 'N' if w.a[3] else 'E', w, tuple(w.a[3]), '=%s' % (site,) if len(w.a[3]) <= 4 else site))]
    if v.op == 'call' and ty['k'] == 'adt' and not ty['def'].endswith(('Vec', 'HashMap', 'BTreeMap', 'HashSet', 'VecDeque', 'BTreeSet')): return [(st, v)]
    return [(st, mk('iter', mode(I, st, v), v, ('*',), site))]

def spent(it):
    """the iterator after an unknown number of its elements were consumed"""
    from interp import mk
    if it.op == 'iter': return mk('iter', '?', it.a[1], (), it.a[3])
    if it.op == 'iterad' and it.a[0] == 'chain': return mk('iterad', 'chain', '?', spent(it.a[2]), (spent(it.a[3][0]),), it.a[4])
    if it.op == 'iterad': return mk('iterad', it.a[0], '?', spent(it.a[2]), it.a[3], it.a[4])
    return it

def base_draw(I, st, it, site):
    """[(state, iterator', element | None, followed?)] for a base iterator.  One element - the one the path follows - is drawn
    at most once, exactly once before exhaustion if it is known to be in the collection; all the others are the anonymous
    `other` element."""
    from interp import mk, K, UNIT
    if it.op == 'fromfn': return [(st, it, UNIT, False)]        # what comes next is up to the closure
    if it.op == 'iter':
        md, src, rest, s0 = it.a
        rg = src
        if rg.op == 'agg' and rg.a[0].endswith('ops::range::Range') and all(x.op == 'k' for x in rg.a[3]) and rg.a[3][1].a[1] - rg.a[3][0].a[1] <= 16:
            lo, hi = rg.a[3][0].a[1], rg.a[3][1].a[1]
            if lo >= hi: return [(st, it, None, False)]
            return [(st, mk('iter', '?', mk('agg', rg.a[0], rg.a[1], rg.a[2], (K(lo + 1), rg.a[3][1])), rest, s0), K(lo), True)]
        if md == 'E': return [(st, it, None, False)]
        if isinstance(s0, str) and s0[0] == '=':      # a short array: each of its elements, in turn
            if not rest: return [(st, it, None, False)]
            return [(st, mk('iter', 'N' if len(rest) > 1 else 'E', src, rest[1:], s0), rest[0], True)]
        out = []
        if rest and isinstance(rest[0], str):
            if md != 'N': out.append((st.copy(), mk('iter', 'E', src, (), s0), None, False))
            e = mk('elem', src, rest[0], site)
            if not I.inuse(st, e):
                s2 = st.copy(); I.rebind(s2, e)
                out.append((s2, mk('iter', '?', src, (), s0), e, True))
            o = mk('other', src, '', site)
            s3 = st.copy(); I.rebind(s3, o)
            out.append((s3, mk('iter', '?', src, rest, s0), o, True))
            return out
        if rest:
            out.append((st.copy(), mk('iter', '?', src, rest[1:], s0), rest[0], True))
            o = mk('other', src, '', site); s3 = st.copy(); I.rebind(s3, o)
            out.append((s3, mk('iter', 'N', src, rest, s0), o, True))
            return out
        if md != 'N': out.append((st.copy(), mk('iter', 'E', src, (), s0), None, False))
        o = mk('other', src, '', site); s3 = st.copy(); I.rebind(s3, o)
        out.append((s3, mk('iter', '?', src, (), s0), o, True))
        return out
    if it.op == 'agg' and it.a[0].endswith('ops::range::Range') and all(x.op == 'k' for x in it.a[3]) and it.a[3][1].a[1] - it.a[3][0].a[1] <= 16:
        lo, hi = it.a[3][0].a[1], it.a[3][1].a[1]
        if lo >= hi: return [(st, it, None, False)]
        return [(st, mk('agg', it.a[0], it.a[1], it.a[2], (K(lo + 1), it.a[3][1])), K(lo), True)]
    # an opaque iterator or range
    src = it if it.op != 'mut' else mk('top', 'it')
    s1 = st.copy()
    e = mk('elem', src, '*', site); s2 = st.copy(); I.rebind(s2, e)
    return [(s1, it, None, False), (s2, it, e, True)]

def fold(I, st, it, acc, cl, n, ev, fin, dest, ret, work):
    """`fold`: none, one or two of the elements go through the closure, in either order"""
    k = ('fold', ev.site)
    md = 'N' if n == 0 and holds(I, st, it) else mode(I, st, it)
    ka = ('acc', ev.site)
    if md != 'N':
        s2 = st.copy(); s2.env[ka] = acc
        I.mon.on_exhausted(I, s2, it, ev)
        fin(s2, s2.env.pop(ka))
    if md == 'E' or n >= 2: return
    st.env[ka] = acc
    def put(s2, it2): s2.env[k] = it2
    draw(I, st, it, put, ev, dest, ret, work, ('hof', 'fold', cl, acc, n), fin)
def fold_done(I, st, cont, v):
    _, n, cl, ev, fin, dest, ret, work = cont
    fold(I, st, st.env.pop(('fold', ev.site)), v, cl, n + 1, ev, fin, dest, ret, work)
def draw(I, st, it, put, ev, dest, ret, work, cont, fin, whole=False, above=(), after=None):
    """`next()` through a chain of lazy adaptors; `cont` says what becomes of the element, `above` are the adaptors around what
    is drawn from here, `after` draws from what comes next once this is exhausted"""
    from interp import mk, Some, NONE, tup
    P = I.P
    stages = []
    b = it
    k = 0
    while k < 12:
        k += 1
        if b.op == 'iterad' and b.a[0] == 'chain': break
        if b.op == 'iterad': stages.append(b); b = b.a[2]
        elif b.op == 'ref': b = I.readloc(st, b.a[0])
        else: break
    stages.reverse()
    over = list(above); above = stages + over
    def up(s2, nit, e):
        for sg in stages: nit = mk('iterad', sg.a[0], 'E' if e is None else ('N' if sg.a[1] == 'N' and mode(I, s2, nit) == 'N' else '?'), nit, sg.a[3], sg.a[4])
        return nit
    if b.op == 'iterad' and b.a[0] == 'chain':      # one after the other
        one, two, s0 = b.a[2], b.a[3][0], b.a[4]
        def second(s2): draw(I, s2, two, lambda s3, it3: put(s3, up(s3, it3, it3)), ev, dest, ret, work, cont, fin, whole, above, after)
        if whole and holds(I, st, two) and not holds(I, st, one): return second(st)
        draw(I, st, one, lambda s2, it2: put(s2, up(s2, mk('iterad', 'chain', 'N' if 'N' in (mode(I, s2, it2), mode(I, s2, two)) else '?', it2, (two,), s0), it2)), ev, dest, ret, work, cont, fin, whole, above, second)
        return
    # the element type the base produces: the parameter of the first closure, or the destination
    held = whole and b.op == 'iter' and b.a[2] and not isinstance(b.a[2][0], str)   # the element followed is among those gone through
    for s2, b2, e, fresh in base_draw(I, st, b, ev.site):
        if held and e is not None and e.op == 'other': continue
        put(s2, up(s2, b2, e))
        if e is not None: I.mon.on_draw(I, s2, e, ev)
        if e is not None and track(e) and any(sg.a[0] in ('take', 'skip', 'step_by') for sg in above) and cont[0] != 'hof':
            s4 = s2.copy()          # the followed element may be beyond the bound
            if cont[0] == 'collected': fin(s4, mk('vec', '?', (), cont[1]))
            else: fin(s4, NONE)
        if e is None:
            if after is not None: after(s2)
            elif cont[0] == 'collected': fin(s2, mk('vec', 'E', (), cont[1]))
            elif cont[0] == 'hof': fin(s2, NONE) if False else None
            else: fin(s2, NONE)
            continue
        chain(I, s2, e, fresh, b, above, 0, ev, dest, ret, work, cont, fin)

def chain(I, st, e, fresh, base, stages, i, ev, dest, ret, work, cont, fin):
    from interp import mk, Some, NONE, tup, UNIT, TRUE, FALSE
    P = I.P
    # the type the element has at this point
    while i < len(stages) and stages[i].a[0] in ('enumerate', 'indices', 'zip', 'rev', 'skip', 'take', 'step_by', 'chain', 'cycle', 'cloned', 'copied'):
        k = stages[i].a[0]
        if k in ('cloned', 'copied'):
            if fresh: e = shape(I, st, e, 'ref', base)
            e = I.val(st, e); fresh = False
        if k == 'enumerate': e = tup(mk('elemidx', e), shape(I, st, e, None, base) if False else e); 
        elif k == 'indices': e = mk('elemidx', e); fresh = False
        elif k == 'zip': e = tup(e, mk('elem', stages[i].a[3][0], '*', ev.site))
        i += 1
    if i >= len(stages) or not stages[i].a[3]:
        if fresh: e = shape(I, st, e, elem_ty(I, ev, cont), base)
        return finish(I, st, e, ev, dest, ret, work, cont, fin)
    sg = stages[i]; cl = sg.a[3][0]; kind = sg.a[0]
    if kind == 'flatten':
        from interp import RES, OPT
        t = cl.a[0]; D = RES if 'Rows<' in t or 'Result<' in t else OPT if 'option::Option<' in t else None
        if D is None:
            if fresh: e = shape(I, st, e, elem_ty(I, ev, cont), base)
            return finish(I, st, e, ev, dest, ret, work, cont, fin)
        for s2, k, p in I.split(st, e, D):
            I.mon.on_split(I, s2, e, k)
            if k in ('Some', 'Ok'): chain(I, s2, p, False, base, stages, i + 1, ev, dest, ret, work, cont, fin)
            else: filtered(I, s2, ev, cont, fin)
        return
    g = cl
    n = 0
    while g.op == 'ref' and n < 4: g = I.readloc(st, g.a[0]); n += 1
    byref = kind in ('filter', 'take_while', 'skip_while', 'inspect')
    if g.op == 'cl' and g.a[0] in P.fns:
        fn = P.fns[g.a[0]]
        ti = fn.locals[2][0] if fn.argc >= 2 else None
        if ti is not None and fresh:
            if byref and P.ty(ti)['k'] == 'ref': ti = P.ty(ti)['args'][0]
            e = shape(I, st, e, ti, base)
    elif fresh: e = shape(I, st, e, None, base)
    a = mk('ref', ('H', mk('valbox', e), ())) if byref else e
    I.call_closure(st, cl, [] if kind == 'from_fn' else [a], ('stage', I, e, base, tuple(stages), i, ev, cont, fin, dest, ret, work), dest, ret, work)

def stage_done(st, cont, v):
    """continuation of `chain`: the closure of stage i returned v"""
    from interp import mk, OPT, NONE
    _, I, e, base, stages, i, ev, ncont, fin, dest, ret, work = cont
    kind = stages[i].a[0]
    if kind in ('map',):
        return chain(I, st, v, False, base, list(stages), i + 1, ev, dest, ret, work, ncont, fin)
    if kind in ('inspect',):
        return chain(I, st, e, False, base, list(stages), i + 1, ev, dest, ret, work, ncont, fin)
    if kind in ('filter', 'take_while', 'skip_while'):
        s2 = st.copy()
        if I.assume(s2, v, 0): I.mon.on_branch(I, s2, v, 0, ev.span); filtered(I, s2, ev, ncont, fin)
        if I.assume(st, v, 1): I.mon.on_branch(I, st, v, 1, ev.span); chain(I, st, e, False, base, list(stages), i + 1, ev, dest, ret, work, ncont, fin)
        return
    if kind in ('filter_map', 'map_while', 'from_fn'):
        for s2, k, p in I.split(st, v, OPT):
            if kind == 'from_fn':
                I.mon.on_split(I, s2, v, k)
                if k == 'None':
                    if ncont[0] == 'collected': fin(s2, mk('vec', 'E', (), ncont[1]))
                    elif ncont[0] == 'ret': fin(s2, NONE)
                    else: filtered(I, s2, ev, ncont, fin)
                    continue
            if k == 'Some': chain(I, s2, p, False, base, list(stages), i + 1, ev, dest, ret, work, ncont, fin)
            else: filtered(I, s2, ev, ncont, fin)
        return
    # flat_map, scan ...: elements of the produced iterator
    after = list(stages[i + 1:]); n = 0
    while v.op == 'iterad' and n < 8:      # what is done to the inner elements comes first
        after.insert(0, v); v = v.a[2]; n += 1
    if n: stages = after; i = -1
    r = rest_of(I, st, v) if v.op in ('vec', 'iter') else ()
    if v.op == 'iter' and v.a[2] and isinstance(v.a[2][0], str):
        x = mk('elem', v.a[1], v.a[2][0], ev.site)
        I.mon.on_inner(I, st, x, v, stages[i + 1:], ev)
        return chain(I, st, x, True, v, list(stages), i + 1, ev, dest, ret, work, ncont, fin)
    if r: return chain(I, st, r[0], False, base, list(stages), i + 1, ev, dest, ret, work, ncont, fin)
    return chain(I, st, mk('elem', v, '*', ev.site), True, v, list(stages), i + 1, ev, dest, ret, work, ncont, fin)

def filtered(I, st, ev, cont, fin):
    from interp import mk, NONE, FALSE, TRUE, UNIT, Some
    I.mon.on_reject(I, st, ev)
    if cont[0] == 'collected': fin(st, mk('vec', '?', (), cont[1]))
    elif cont[0] == 'hof' and cont[1] == 'partition': fin(st, mk('agg', 'tuple', '', ('0', '1'), (mk('vec', '?', (), (ev.site, 0)), mk('vec', '?', (), (ev.site, 1)))))
    elif cont[0] == 'hof' and cont[1] == 'fold': fin(st, st.env.pop(('acc', ev.site)))
    elif cont[0] == 'hof': fin(st, {'any': FALSE, 'all': TRUE, 'for_each': UNIT}.get(cont[1], NONE))
    else:
        fin(st.copy(), NONE)
        o = mk('other', mk('unit'), 'f', ev.site); I.rebind(st, o)
        fin(st, Some(shape(I, st, o, elem_ty(I, ev, cont), None)))

def finish(I, st, e, ev, dest, ret, work, cont, fin):
    from interp import mk, Some, NONE, UNIT
    if cont[0] == 'collected':
        fin(st, mk('vec', 'N', (e,) if track(e) else (), cont[1])); return
    if cont[0] == 'hof':
        m, cl = cont[1], cont[2]
        if m in ('find', 'rfind'):
            return I.call_closure(st, cl, [mk('ref', ('H', mk('valbox', e), ()))], ('boolopt', Some(e), ev), dest, ret, work)
        if m in ('position', 'rposition'): return I.call_closure(st, cl, [e], ('boolopt', Some(mk('elemidx', e))), dest, ret, work)
        if m == 'partition_point': return I.call_closure(st, cl, [mk('ref', ('H', mk('valbox', e), ()))], ('boolopt', mk('pastidx', e)), dest, ret, work)
        if m == 'fold': return I.call_closure(st, cl, [st.env.pop(('acc', ev.site)), e], ('fold', cont[4], cl, ev, fin, dest, ret, work), dest, ret, work)
        if m == 'partition': return I.call_closure(st, cl, [mk('ref', ('H', mk('valbox', e), ()))], ('parted', e if track(e) else None, ev), dest, ret, work)
        if m == 'for_each': return I.call_closure(st, cl, [e], ('val', UNIT, ev), dest, ret, work)
        if m == 'find_map' and I.mon.rejects: return I.call_closure(st, cl, [e], ('found', ev), dest, ret, work)
        return I.call_closure(st, cl, [e], ('ret',), dest, ret, work)
    fin(st, Some(e))

def elem_ty(I, ev, cont):
    P = I.P
    if cont[0] == 'ret':
        dt = P.ty(ev.dty) if ev.dty is not None else {}
        return dt['args'][0] if dt.get('args') else None
    if cont[0] == 'hof':
        g = cont[2]
        if g.op == 'cl' and g.a[0] in P.fns and P.fns[g.a[0]].argc >= 2:
            ti = P.fns[g.a[0]].locals[3 if cont[1] == 'fold' and P.fns[g.a[0]].argc >= 3 else 2][0]
            if cont[1] in ('find', 'rfind', 'partition', 'partition_point') and P.ty(ti)['k'] == 'ref': ti = P.ty(ti)['args'][0]
            return ti
    if cont[0] == 'collected':
        dt = P.ty(ev.dty) if ev.dty is not None else {}
        if dt.get('def', '').endswith('::HashMap'): return None
        return dt['args'][0] if dt.get('args') else None
    return None

def inrange(I, st, rg, key):
    """the key of an element visited by map.range(rg) lies in that range"""
    from interp import mk, Term
    if rg.op == 'valbox': rg = rg.a[0]
    lo = hi = None; ho = 'Lt'
    if rg.op == 'call' and rg.a[0].endswith('RangeInclusive::new') and len(rg.a[1]) == 2: lo, hi = rg.a[1]; ho = 'Le'
    elif rg.op == 'agg' and isinstance(rg.a[2], tuple):
        for n, v in zip(rg.a[2], rg.a[3]):
            if n == 'start': lo = v
            elif n == 'end': hi = v
        if 'Inclusive' in str(rg.a[0]): ho = 'Le'
    for o, x in (('Ge', lo), (ho, hi)):
        if x is None: continue
        c = mk('bin', o, key, I.val(st, x))
        if I.assume(st, c, 1): I.mon.on_branch(I, st, c, 1, None)
def shape(I, st, e, ti, base):
    """give the anonymous element e the shape its type has: references, pairs, map guards"""
    from interp import mk, tup, Term
    P = I.P
    if ti is None: return e
    et = P.ty(ti) if ti != 'ref' else {'k': 'ref'}
    k = et.get('k')
    if base is not None and base.op == 'iter' and e.op in ('elem', 'other') and e.a[0] is base.a[1]:
        src = e.a[0]
        rg = None
        if src.op == 'rng': src, rg = src.a[0], src.a[1]
        tag = base.a[2][0] if base.a[2] and isinstance(base.a[2][0], str) else '*'
        pair = k == 'tuple' and len(et['args']) == 2 and all(P.ty(a)['k'] == 'ref' for a in et['args'])
        if src.op == 'ref' and src.a[0][0] == 'H' and (pair or tag in ('*v', '*k')):
            loc = src.a[0]; key = mk(e.op, e, 'key', e.a[-1]); ent = mk('entry', loc, key)
            st.facts[('has', loc, key)] = 1
            if e.op == 'elem': I.mon.on_elem(I, st, loc, key)
            if rg is not None: inrange(I, st, rg, key)
            kr = mk('ref', ('H', mk('valbox', key), ())); vr = mk('ref', ('H', ent, ()))
            return tup(kr, vr) if pair else (vr if tag == '*v' else kr)
    if k == 'ref':
        if e.op == 'ref': return e
        return mk('ref', ('H', mk('valbox', e), ()))
    if k == 'tuple' and e.op in ('elem', 'other'):
        parts = []
        for i, a in enumerate(et['args']):
            x = mk(e.op, e, 'part%d' % i, e.a[-1])
            parts.append(shape(I, st, x, a, None))
        return tup(*parts)
    if k == 'tuple' and e.op == 'agg' and e.a[0] == 'tuple' and len(e.a[3]) == len(et['args']):
        return tup(*[shape(I, st, x, a, None) if x.op in ('elem', 'other') else x for x, a in zip(e.a[3], et['args'])])
    if k == 'adt' and is_guard_def(et['def']) and e.op in ('elem', 'other'):
        g = I.guard_class_of_type(ti)
        src = e.a[0]
        if e.op == 'elem' and isinstance(src, Term): I.mon.on_elem(I, st, I.deref_loc(st, src) if src.op == 'ref' else ('H', src, ()), mk(e.op, e, 'key', e.a[-1]))
        return mk('entref', mk('entry', I.deref_loc(st, src) if isinstance(src, Term) and src.op == 'ref' else ('H', src, ()), mk(e.op, e, 'key', e.a[-1])), g[0] if g else '?')
    return e

def drop_has(st, loc):
    for k in [k for k in st.facts if isinstance(k, tuple) and k[0] == 'has' and k[1] == loc]: del st.facts[k]

def emap(I, st, op, loc, key, was, val, ev):
    """tell the rule about a map operation; it may prune the state or split it"""
    return I.mon.on_map(I, st, op, loc, key, was, val, ev)
def map_changes(I, st, loc, site):
    """the collection at loc is about to change size"""
    from interp import mk, subterms, Term, K
    v = I.readloc(st, loc)
    old = mk('len', v); new = mk('top', 'oldlen', site)
    e = I.decide(st, mk('un', 'is_empty', v))
    if any(old in subterms(x) for x in list(st.env.values()) + list(st.heap.values()) + [k for k in st.facts if isinstance(k, Term)]):
        I.retire(st, old, new)
        if e == 1: st.facts[new] = 0
    olde = mk('un', 'is_empty', v)
    if any(olde in subterms(x) for x in st.env.values()): I.retire(st, olde, mk('bin', 'Eq', new, K(0)))
    st.facts.pop(olde, None); st.nfacts.pop(olde, None)
    return v
def map_grew(I, st, loc, site=0):
    from interp import mk
    v = map_changes(I, st, loc, site); st.facts[mk('un', 'is_empty', v)] = 0
def map_shrank(I, st, loc, site=0):
    map_changes(I, st, loc, site)

def forget_end(st, loc, which):
    from interp import mk
    st.heap.pop((mk('endof', mk('ref', loc), which), ()), None)
def member(I, st, loc, key, ev, res):
    from interp import mk
    f = ('has', loc, key)
    p = st.facts.get(f)
    if p != 1:
        s2 = st.copy() if p is None else st
        s2.facts[f] = 0
        for s in emap(I, s2, 'miss', loc, key, 0, None, ev): res(s, False)
    if p != 0:
        st.facts[f] = 1
        for s in emap(I, st, 'hit', loc, key, p, None, ev): res(s, True)
    return 1
def retain(I, st, ev, args, fin, dest, ret, work):
    """either the followed element is not concerned, or it is in the collection and the predicate decides about it"""
    from interp import mk, UNIT, tup, Term
    P = I.P
    loc = args[0].a[0]
    map_shrank(I, st, loc, ev.site)
    for w in ('front', 'back'): forget_end(st, loc, w)
    v = I.readloc(st, loc); k = 0
    while v.op == 'ref' and k < 4: loc = v.a[0]; v = I.readloc(st, loc); k += 1
    held = [x for x in v.a[1] if isinstance(x, Term)] if v.op == 'vec' else []
    if v.op == 'vec' and v.a[0] == 'E': fin(st, UNIT); return 1
    if not held: fin(st.copy(), UNIT)
    src = mk('ref', loc)
    c = args[1]
    n = 0
    while c.op == 'ref' and n < 4: c = I.readloc(st, c.a[0]); n += 1
    e = mk('elem', src, '*', ev.site)
    if held: e = held[0]
    elif not I.inuse(st, e): I.rebind(st, e)
    two = c.op == 'cl' and c.a[0] in P.fns and P.fns[c.a[0]].argc >= 3
    st.facts[('has', loc, e)] = 1
    if not held and e.op == 'elem': I.mon.on_elem(I, st, loc, e)
    if two: a = [mk('ref', ('H', mk('valbox', e), ())), mk('ref', ('H', mk('entry', loc, e), ()))]
    else: a = [mk('ref', ('H', mk('valbox', e), ()))]
    I.call_closure(st, args[1], a, ('retain', loc, e, ev), dest, ret, work)
    return 1

def ends(I, st, ev, args, fin, m):
    from interp import mk, Some, NONE, tup
    P = I.P
    loc = I.deref_loc(st, args[0]); v = I.readloc(st, loc); k = 0
    while v.op == 'ref' and k < 4: loc = v.a[0]; v = I.readloc(st, loc); k += 1
    dt = P.ty(ev.dty) if ev.dty is not None else {}
    ti = dt['args'][0] if dt.get('args') else None
    popping = m.startswith('pop')
    emp = mk('un', 'is_empty', v)
    d = I.decide(st, emp)
    if d != 0:
        s2 = st.copy() if d is None else st
        I.assume(s2, emp, 1)
        fin(s2, NONE)
        if d == 1: return 1
    if v.op == 'vec':
        for i, e in enumerate(v.a[1]):
            s2 = st.copy()
            if popping: I.writeloc(s2, loc, mk('vec', '?', v.a[1][:i] + v.a[1][i + 1:], v.a[2]))
            fin(s2, Some(shape(I, s2, e, ti, None)))
        o = mk('other', v, '', ev.site); I.rebind(st, o)
        if popping: I.writeloc(st, loc, mk('vec', '?', v.a[1], v.a[2]))
        fin(st, Some(shape(I, st, o, ti, None))); return 1
    src = mk('ref', loc) if loc[0] == 'H' else v
    ismap = src.op == 'ref' and base_ty(I, ev.at[0]).get('def', '').endswith('BTreeMap') if ev.at else False
    I.assume(st, emp, 0)
    which = 'back' if ('back' in m or 'last' in m or m == 'pop') else 'front'
    eo = (mk('endof', src, which), ())
    for op in ('elem', 'other'):
        kn = st.heap.get(eo)
        if kn is not None: e = kn; op = 'known'
        else: e = mk('elem', src, '*', ev.site) if op == 'elem' else mk('other', src, '', ev.site)
        if op == 'elem' and I.inuse(st, e): continue
        s2 = st.copy()
        if op != 'known': I.rebind(s2, e)
        if popping: s2.heap.pop(eo, None)
        elif loc[0] == 'H' and loc[2]: s2.heap[eo] = e
        if ismap:
            key = mk(e.op, e, 'key', e.a[-1]); ent = mk('entry', loc, key)
            x = shape(I, s2, e, ti, mk('iter', '?', src, ('*',), ev.site))
            if m.endswith('_entry'):
                s2.facts[('has', loc, key)] = 1
                if e.op == 'elem': I.mon.on_elem(I, s2, loc, key)
                fin(s2, Some(mk('mapent', src, key))); continue
            if popping:
                if e.op == 'elem': I.mon.on_elem(I, s2, loc, key)
                x = tup(key, I.readloc(s2, ('H', ent, ())))
                for k2 in [k2 for k2 in s2.heap if k2[0] is ent]: del s2.heap[k2]
        else: x = shape(I, s2, e, ti, None)
        if popping:
            map_shrank(I, s2, loc, ev.site)
            kt = x.a[3][0] if x.op == 'agg' and x.a[0] == 'tuple' else x
            s2.facts.pop(('has', loc, kt), None)
            for s3 in emap(I, s2, 'remove', loc, kt, 1, x, ev): fin(s3, Some(x))
        else: fin(s2, Some(x))
        if op == 'known': break
    return 1

def lookup(I, st, ev, args, t, fin, inline, work, dest, ret, mt, m):
    from interp import mk, K, UNIT, TRUE, FALSE, Some, NONE, OPT, project, Ok, Err, pathkey, agg, subterms, tup
    P = I.P
    loc = I.deref_loc(st, args[0])
    dt = P.ty(ev.dty) if ev.dty is not None else {}
    if m == 'pop' and len(args) == 1: return None
    key = I.val(st, args[1]) if len(args) > 1 else UNIT
    f = ('has', loc, key)
    ent = mk('entry', loc, key)
    shared = mt == 'DashMap'       # another thread may change it between two calls
    def present(s): return s.facts.get(f) if not shared else None
    def absent(s):
        if not shared: s.facts[f] = 0
        return emap(I, s, 'miss', loc, key, 0, None, ev)
    def there(s):
        was = present(s)
        if not shared: s.facts[f] = 1
        return emap(I, s, 'hit', loc, key, was, None, ev)
    if m in ('insert', 'put'):
        val = args[2] if len(args) > 2 else UNIT
        old = present(st)
        oldv = I.readloc(st, ('H', ent, ())) if len(args) > 2 else UNIT
        for k in [k for k in st.heap if k[0] is ent]: del st.heap[k]
        for s in (st.facts, st.nfacts):
            for k in [k for k in s if not isinstance(k, tuple) and ent in subterms(k)]: del s[k]
        if len(args) > 2: I.writeloc(st, ('H', ent, ()), val)
        st.facts[f] = 1
        map_grew(I, st, loc, ev.site)
        for s in emap(I, st, 'insert', loc, key, old, val, ev):
            if dt.get('s') == 'bool': fin(s, K(1 - old) if old is not None else mk('call', ev.full, (key,), ev.site))
            elif dt.get('def') == OPT:
                fin(s, Some(oldv) if old == 1 else (NONE if old == 0 else mk('call', ev.full, (key,), ev.site)))
            else: fin(s, UNIT)
        return 1
    if m in ('contains_key', 'contains'):
        p = present(st)
        if p != 1:
            s2 = st.copy() if p is None else st
            for s in absent(s2): fin(s, FALSE)
        if p != 0:
            for s in there(st): fin(s, TRUE)
        return 1
    if m in ('get', 'get_mut', 'peek', 'peek_mut', 'try_get'):
        p = present(st)
        def hit(s):
            if shared:
                et = dt['args'][0] if dt.get('args') else None
                g = I.guard_class_of_type(et) if et is not None else None
                fin(s, Some(mk('entref', ent, g[0] if g else 'DashMap')))
            else: fin(s, Some(mk('ref', ('H', ent, ()))))
        if p != 1:
            s2 = st.copy() if p is None else st
            for s in absent(s2): fin(s, NONE)
        if p != 0:
            for s in there(st): hit(s)
        return 1
    if m in ('remove', 'pop', 'swap_remove', 'remove_entry'):
        p = present(st)
        if p != 1:
            s2 = st.copy() if p is None else st
            for s in absent(s2): fin(s, FALSE if dt.get('s') == 'bool' else NONE)
        if p != 0:
            for s in there(st):
                v = I.readloc(s, ('H', ent, ()))
                for k in [k for k in s.heap if k[0] is ent]: del s.heap[k]
                if not shared: s.facts[f] = 0
                map_shrank(I, s, loc, ev.site)
                for s2 in emap(I, s, 'remove', loc, key, 1, v, ev):
                    if dt.get('s') == 'bool': fin(s2, TRUE)
                    else: fin(s2, Some(tup(key, v) if shared or m == 'remove_entry' else v))
        return 1
    return None

def poll(I, st, ev, args, t, fin, inline, work, dest, ret):
    from interp import mk, agg, POLL, UNIT, subterms, Ok, Err
    P = I.P
    a = args[0]
    loc = None; v = a
    n = 0
    while v.op == 'ref' and n < 8:
        loc = v.a[0]; v = I.readloc(st, loc); n += 1
    if v.op == 'pollfn':
        cl = v.a[0]
        return inline(st, mk('ref', loc[:-1] + (loc[-1],)) if False else cl, [args[1]], ('ret',)) or 1
    if v.op == 'joined':
        fin(st, agg(POLL, 'Ready', ('0',), (Ok(v.a[0]),))); return 1
    if v.op == 'co' and v.a[0] in P.fns and len(st.frames) < 40:
        g = P.fns[v.a[0]]
        if not I.mon.opaque(I, v.a[0]) and not any(f.fn is g for f in st.frames):
            I.push(st, g, [v, args[1]], ('Ready',), dest, ret)
            if loc: I.writeloc(st, loc, mk('moved'))
            I.goto(st, 0, work)
            return 1
        val = mk('call', v.a[0], v.a[2], ev.site)
        r = agg(POLL, 'Ready', ('0',), (val,))
        I.mon.on_ret(I, st, ev, val)
        fin(st, r, False); return 1
    if v.op == 'timeoutf':
        inner = v.a[0]
        if inner.op == 'co' and inner.a[0] in P.fns:
            s2 = st.copy()
            fin(s2, agg(POLL, 'Ready', ('0',), (Err(UNIT),)))
            I.push(st, P.fns[inner.a[0]], [inner, args[1]], ('ReadyOk',), dest, ret)
            I.goto(st, 0, work); return 1
    # tokio async locks
    dt = P.ty(ev.dty) if ev.dty is not None else {}
    g = I.guard_class_of_type(ev.dty) if ev.dty is not None else None
    if g and v.op == 'call' and v.a[0].split('::')[-1] in ('lock', 'read', 'write', 'lock_owned', 'read_owned', 'write_owned'):
        gt = mk('guard', v.a[1][0], 'async ' + lockname(I, st, v.a[1][0], g[0]), g[1], ev.site)
        I.rebind(st, gt)
        fin(st, agg(POLL, 'Ready', ('0',), (gt,))); return 1
    # an external future: pending or ready
    I.mon.on_poll(I, st, v, ev)
    s2 = st.copy()
    fin(s2, agg(POLL, 'Pending', (), ()))
    out = mk('call', 'await', (I.deloc(st, v) if v.op == 'ref' else v,), ev.site) if v.op not in ('moved', 'undef', 'mut') else mk('call', 'await', (), ev.site)
    if loc and loc[0] == 'L' and False: pass
    fin(st, agg(POLL, 'Ready', ('0',), (out,)))
    return 1

def optres(I, st, ev, args, t, fin, inline, work, dest, ret, owner, m):
    from interp import mk, K, UNIT, TRUE, FALSE, OPT, RES, Some, NONE, Ok, Err, project, agg
    D = OPT if owner == 'Option' else RES
    good = 'Some' if D == OPT else 'Ok'
    if m == 'as_slice' and D == OPT:
        for s2, k, p in I.split(st, I.val(st, args[0]), D):
            fin(s2, mk('ref', ('H', mk('valbox', mk('agg', 'array', '', ('0',) if k == good else (), (p,) if k == good else ())), ())))
        return 1
    if m in ('as_ref', 'as_mut', 'as_deref', 'as_deref_mut', 'take', 'replace', 'insert', 'get_or_insert_with', 'get_or_insert'):
        loc = I.deref_loc(st, args[0]); v = I.readloc(st, loc)
        if m == 'take':
            I.writeloc(st, loc, NONE, ev.span); fin(st, v); return 1
        if m == 'replace':
            I.writeloc(st, loc, Some(args[1]), ev.span); fin(st, v); return 1
        if m == 'insert':
            I.writeloc(st, loc, Some(args[1]), ev.span); fin(st, mk('ref', loc[:-1] + (loc[-1] + (('v', 'Some'), ('f', '0', OPT)),))); return 1
        if m.startswith('get_or'):
            place = mk('ref', loc[:-1] + (loc[-1] + (('v', 'Some'), ('f', '0', OPT)),))
            for s2, k, p in I.split(st, v, OPT):
                if k == 'Some': fin(s2, place)
                elif m == 'get_or_insert': I.writeloc(s2, loc, Some(args[1]), ev.span); fin(s2, place)
                else: inline(s2, args[1], [], ('goi', loc, place, ev.span))
            return 1
        for s2, k, p in I.split(st, v, D):
            if k == good:
                r = mk('ref', loc[:-1] + (loc[-1] + (('v', k), ('f', '0', D)),))
                if m.startswith('as_deref'):
                    if p.op == 'ref': r = p
                    elif p.op == 'entref': r = mk('ref', ('H', p.a[0], ()))
                    elif p.op == 'guard': r = mk('ref', ('H', p, ()))
                fin(s2, agg(D, good, ('0',), (r,)))
            elif k == 'None': fin(s2, NONE)
            else: fin(s2, Err(mk('ref', loc[:-1] + (loc[-1] + (('v', k), ('f', '0', D)),))))
        return 1
    v = args[0]
    if m in ('is_some', 'is_none', 'is_ok', 'is_err'):
        v = I.val(st, v)
        for s2, k, p in I.split(st, v, D):
            fin(s2, K(int((k == good) == (m in ('is_some', 'is_ok')))))
        return 1
    for s2, k, p in I.split(st, v, D):
        g = k == good
        bad = NONE if k == 'None' else Err(p)
        if m == 'map':
            if g: inline(s2, args[1], [p], (good,))
            else: fin(s2, bad)
        elif m in ('and_then',):
            if g: inline(s2, args[1], [p], ('ret',))
            else: fin(s2, bad)
        elif m == 'and':
            fin(s2, args[1] if g else bad)
        elif m == 'unwrap_or_else':
            if g: fin(s2, p)
            else: inline(s2, args[1], [] if k == 'None' else [p], ('ret',))
        elif m == 'ok_or_else':
            if g: fin(s2, Ok(p))
            else: inline(s2, args[1], [], ('Err',))
        elif m == 'ok_or': fin(s2, Ok(p) if g else Err(args[1]))
        elif m == 'unwrap_or': fin(s2, p if g else args[1])
        elif m == 'unwrap_or_default':
            if g: fin(s2, p)
            else:
                dt = I.P.ty(ev.dty) if ev.dty is not None else {}
                fin(s2, K(0) if dt.get('k') == 'prim' else (mk('vec', 'E', (), ev.site) if dt.get('def', '').endswith('::Vec') else (NONE if dt.get('def') == OPT else mk('call', 'Default::default', (), ev.site))))
        elif m in ('unwrap', 'expect', 'unwrap_unchecked'):
            if g: fin(s2, p)
            else: I.mon.on_end(I, s2, 'panic', None)
        elif m in ('unwrap_err', 'expect_err'):
            if not g: fin(s2, p)
        elif m == 'map_err':
            if g: fin(s2, Ok(p))
            else: inline(s2, args[1], [p], ('Err',))
        elif m == 'or_else':
            if g: fin(s2, agg(D, good, ('0',), (p,)))
            else: inline(s2, args[1], [] if k == 'None' else [p], ('ret',))
        elif m == 'or': fin(s2, agg(D, good, ('0',), (p,)) if g else args[1])
        elif m == 'map_or':
            if g: inline(s2, args[2], [p], ('ret',))
            else: fin(s2, args[1])
        elif m == 'map_or_else':
            if g: inline(s2, args[2], [p], ('ret',))
            else: inline(s2, args[1], [] if k == 'None' else [p], ('ret',))
        elif m in ('is_some_and', 'is_ok_and'):
            if g: inline(s2, args[1], [p], ('ret',))
            else: fin(s2, FALSE)
        elif m == 'is_none_or':
            if g: inline(s2, args[1], [p], ('ret',))
            else: fin(s2, TRUE)
        elif m == 'filter':
            if g: inline(s2, args[1], [mk('ref', ('H', mk('valbox', p), ()))], ('boolopt', Some(p)))
            else: fin(s2, NONE)
        elif m == 'ok': fin(s2, Some(p) if g else NONE)
        elif m == 'err': fin(s2, NONE if g else Some(p))
        elif m == 'flatten': fin(s2, p if g else bad)
        elif m in ('cloned', 'copied'): fin(s2, agg(D, good, ('0',), (I.val(s2, p),)) if g else bad)
        elif m in ('inspect', 'inspect_err'):
            if g == (m == 'inspect'): inline(s2, args[1], [mk('ref', ('H', mk('valbox', p), ()))], ('val', agg(D, good, ('0',), (p,)) if g else bad))
            else: fin(s2, agg(D, good, ('0',), (p,)) if g else bad)
        else:
            fin(s2, mk('call', ev.full, tuple(args), ev.site))
    return 1
