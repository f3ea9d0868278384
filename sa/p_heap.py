"""M: ownership of heap blocks over the life of a presolver, allocation failure, caller memory"""
import build
import common
import flow
import heap
from common import callee_name, fmt
from heap import T, N

SIZES = ('m', 'n', 'nnz')


def _args(M, fname, first=None, sizes=False):
    f = M.functions.get(fname)
    if f is None or f.is_decl:
        raise build.AnalysisError('API function %s not found' % fname)
    out = []
    k = 0
    for i, a in enumerate(f.args):
        if i == 0 and first is not None:
            out.append(first)
        elif a.ty.kind == 'ptr':
            out.append(('P', ('arg', fname, i), 0))
        elif sizes and a.ty.kind == 'int' and a.ty.width == 64 and k < 3:
            out.append(('Y', ((SIZES[k], 1),), 0))
            k += 1
        else:
            out.append(T)
    return f, out


def _cleanup(ip, seq, rv, h, fl):
    M = ip.M
    f, a = _args(M, 'free_presolver', rv)
    for rv2, h2, fl2, t2 in ip.run(f, a, h, fl):
        for o in ip.leaks(h2):
            ip.report('leak', ip.objinstr[o], '%s: the %s is never freed' % (seq, ip.oname(o)), fl2)


LIFE_RULE = ("disjunctive abstract interpretation (points-to + allocation state, context sensitive) of the call sequences "
             "new_presolver [run_presolver [postsolve [postsolve]]] free_presolver with every allocation succeeding and every "
             "realloc moving its block: no access to, or free of, a freed, moved, null or uninitialised pointer on any path; "
             "every block freed when free_presolver returns")


def lifecycle(rep):
    for cfg in (('release', 'debug') if rep.tier == 'quick' else ('release', 'debug', 'testing')):
        M = build.module(cfg)
        ip = heap.Interp(M, limit=1000000)
        f, a = _args(M, 'new_presolver')
        runs = 0
        news = ip.run(f, a, {})
        seen = set()
        for rv, h, fl, _ in news:
            if rv[0] != 'P':
                rep.bad('null|new_presolver', 'new_presolver can return without an object although nothing failed')
                continue
            _cleanup(ip, 'new_presolver, free_presolver', rv, h, fl)
            runs += 1
            g, a = _args(M, 'run_presolver', rv)
            for rv1, h1, fl1, _ in ip.run(g, a, h, fl):
                _cleanup(ip, 'new_presolver, run_presolver (status %s), free_presolver' % (
                    rv1[1] if rv1[0] == 'I' else '?'), rv, h1, fl1)
                runs += 1
                if rv1[0] == 'I' and rv1[1] not in (0, 1):
                    continue
                p, a = _args(M, 'postsolve', rv)
                for _, h2, fl2, _ in ip.run(p, a, h1, fl1):
                    _cleanup(ip, 'new_presolver, run_presolver, postsolve, free_presolver', rv, h2, fl2)
                    runs += 1
                    for _, h3, fl3, _ in ip.run(p, a, h2, fl2):
                        _cleanup(ip, 'new_presolver, run_presolver, postsolve, postsolve, free_presolver', rv, h3, fl3)
                        runs += 1
        d, a = _args(M, 'default_settings')
        for rv, h, fl, _ in ip.run(d, a, {}):
            fs, a = _args(M, 'free_settings', rv)
            for _, h2, _, t2 in ip.run(fs, a, h):
                for o in ip.leaks(h2):
                    ip.report('leak', ip.objinstr[o], 'default_settings, free_settings: the %s is never freed' % ip.oname(o))
        for k, v in ip.viol.items():
            rep.bad(k, '[%s build] %s' % (cfg, v))
        rep.ok('%s build: %d dereferences, %d frees, %d allocation sites over %d paths of API calls' % (
            cfg, len(ip.nderef), len(ip.nfree), len(ip.nalloc), runs), n=len(ip.nderef) + len(ip.nfree) + len(ip.nalloc))
        rep.cov.setdefault('states', {})[cfg] = ip.steps
        rep.need('dereference sites (%s)' % cfg, len(ip.nderef), 1500)
        rep.need('API call paths (%s)' % cfg, runs, 5)
        rep.cov.setdefault('functions analysed', {})[cfg] = sorted({b.fn.name for b in ip.blocks})
    rep.assumptions.append('allocations inside run_presolver and growth of the internal lists succeed (M02 covers new_presolver)')


OOM_RULE = ("the same abstract interpretation of new_presolver with (a) exactly one allocation or thread creation failing and "
            "(b) that one and all later ones failing, for each of them: no access through null / uninitialised / freed "
            "pointers, nothing freed twice, and either NULL is returned with every block freed, or an object that "
            "free_presolver releases completely")


def oom(rep):
    for cfg in (('release',) if rep.tier == 'quick' else ('release', 'debug', 'testing')):
        M = build.module(cfg)
        f, a = _args(M, 'new_presolver')
        base = heap.Interp(M)
        base.run(f, a, {})
        sites = dict(base.sites)
        rep.need('allocation sites in new_presolver (%s)' % cfg, len(sites), 60)
        d, da = _args(M, 'default_settings')
        for k, (I, stk) in sorted(sites.items(), key=lambda x: x[0]):
            nm = callee_name(I)
            where = ' <- '.join(str(c.loc) for c in [I] + stk[::-1])
            for persist in (False, True):
                ip = heap.Interp(M, fails=frozenset([k]), persist=persist)
                ip.failtext = 'the %s at %s%s' % (nm, where, ' and everything after it' if persist else '')
                hit = False
                for rv, h, fl, t in ip.run(f, a, {}):
                    if fl is not None:
                        hit = True
                    if rv == N:
                        for o in ip.leaks(h):
                            ip.report('leak', t, 'new_presolver returns NULL but the %s is not freed' % ip.oname(o), fl)
                    else:
                        if fl is not None and nm != 'pthread_create':
                            ip.report('object', t, 'new_presolver returns an object', fl)
                        _cleanup(ip, 'new_presolver, free_presolver', rv, h, fl)
                for kk, v in ip.viol.items():
                    rep.bad(kk, v)
                if not ip.viol:
                    rep.ok('%s%s: released, nothing touched (%d states)' % (where, ' (and later)' if persist else '', ip.steps))
        k = None
        ip = heap.Interp(M)
        ip.run(d, da, {})
        for k in ip.sites:
            i2 = heap.Interp(M, fails=frozenset([k]))
            i2.failtext = 'malloc'
            for rv, h, fl, t in i2.run(d, da, {}):
                if rv != N:
                    i2.report('object', t, 'default_settings returns an object', fl)
            for kk, v in i2.viol.items():
                rep.bad(kk, v)
            rep.ok('default_settings returns NULL when its allocation fails')
    rep.assumptions.append('growth of an internal list (realloc) is not part of this property: it ends the process by design')


# ---------------------------------------------------------------- A01
CALLER_RULE = ("abstract interpretation of new_presolver and postsolve with each caller array as its own object: no store, "
               "copy or free into it; after return no heap block holds a pointer to it (except the settings object); every "
               "read index that is a loop counter or a constant multiple of m, n, nnz stays below the documented length")
EXTENT = {'Ax': ('nnz', 8, 0), 'Ai': ('nnz', 4, 0), 'Ap': ('m', 4, 1), 'lhs': ('m', 8, 0), 'rhs': ('m', 8, 0),
          'lbs': ('n', 8, 0), 'ubs': ('n', 8, 0), 'c': ('n', 8, 0)}
NEW_ORDER = ['Ax', 'Ai', 'Ap', None, None, None, 'lhs', 'rhs', 'lbs', 'ubs', 'c', 'stgs']


def caller(rep):
    M = build.module('release')
    f, a = _args(M, 'new_presolver', sizes=True)
    if len(f.args) != 12:
        raise build.AnalysisError('new_presolver has %d parameters' % len(f.args))
    names = {('arg', 'new_presolver', i): n for i, n in enumerate(NEW_ORDER) if n}
    ip = heap.Interp(M)
    ip.peel = False
    ip.record = {}
    outs = ip.run(f, a, {})
    objs = []
    for rv, h, fl, t in outs:
        if rv[0] == 'P':
            objs.append((rv, h))
        for o, ob in h.items():
            if o[0] != 'A':
                continue
            for off, v in ob.fields.items():
                if v[0] == 'P' and v[1][0] == 'arg' and names.get(v[1]) != 'stgs':
                    rep.bad('retained|%s' % names.get(v[1]), 'after new_presolver returns the %s still points to the '
                            'caller\'s array %s (offset %s)' % (ip.oname(o), names.get(v[1]), off))
    rep.need('returned objects', len(objs), 1)
    if objs:
        rep.ok('no caller array is referenced by the returned object (%d blocks examined)' % len(objs[0][1]))
    _writes(rep, ip, names, 'new_presolver')
    _extents(rep, M, ip, names)
    # postsolve
    nm2 = {('arg', 'postsolve', 1): 'x', ('arg', 'postsolve', 2): 'y', ('arg', 'postsolve', 3): 'z'}
    f, a = _args(M, 'new_presolver')
    ip2 = heap.Interp(M, limit=1000000)
    ip2.peel = False
    live = [(rv, h) for rv, h, _, _ in ip2.run(f, a, {}) if rv[0] == 'P']
    rep.need('returned objects', len(live), 1)
    g, ga = _args(M, 'run_presolver', live[0][0])
    posts = 0
    ip2.memo.clear()
    ip2.record = {}
    for rv1, h1, fl1, _ in ip2.run(g, ga, live[0][1]):
        if rv1[0] != 'I' or rv1[1] in (0, 1):
            p, pa = _args(M, 'postsolve', live[0][0])
            for _, h2, _, t in ip2.run(p, pa, h1):
                posts += 1
                for o, ob in h2.items():
                    for off, v in ob.fields.items():
                        if v[0] == 'P' and v[1] in nm2:
                            rep.bad('retained|%s' % nm2[v[1]], 'after postsolve returns the %s still points to the caller\'s '
                                    'array %s' % (ip2.oname(o), nm2[v[1]]))
    rep.need('postsolve paths', posts, 1)
    _writes(rep, ip2, nm2, 'postsolve')
    # settings object: never written by run_presolver / postsolve
    st = {('arg', 'new_presolver', 11): 'stgs'}
    _writes(rep, ip2, st, 'run_presolver/postsolve', 0)


def _writes(rep, ip, names, who, least=1):
    n = 0
    for I, vs in ip.record.items():
        for v in vs:
            tgt = None
            if I.op == 'store':
                tgt = v[0]
            elif I.op == 'call' and len(v) >= 2:
                tgt = v[0]
            if tgt and tgt[0] == 'P' and tgt[1] in names:
                rep.bad('write|%s|%s' % (names[tgt[1]], I.loc.fn if I.loc else ''),
                        '%s writes to the caller\'s %s at %s' % (who, names[tgt[1]], fmt(I)))
            if tgt:
                n += 1
    for k, v in ip.viol.items():
        if k.startswith('free|') and 'argument' in v:
            rep.bad(k, v)
    rep.ok('%s: %d writing instructions, none into %s' % (who, n, sorted(set(names.values()))), n=n)


def _extents(rep, M, ip, names):
    und = 0
    dec = 0
    for I, vs in ip.record.items():
        for v in vs:
            if I.op == 'call' and len(v) == 3:      # memcpy(dst, src, len)
                sr, ln = v[1], v[2]
                if sr[0] == 'P' and names.get(sr[1]) in EXTENT:
                    nm = names[sr[1]]
                    N_, sz, ex = EXTENT[nm]
                    if ln[0] in 'YIW' and sr[2] is not None:
                        dec += 1
                        pick = min if ln[0] == 'W' and ln[1] == 'min' else max
                        okv, need = pick(((not fits(d, k + sr[2], {N_: sz}, sz * ex), (d, k)) for d, k in map(linear, ln[2] if ln[0] == 'W' else [ln])),
                                         key=lambda x: x[0])
                        okv = not okv
                        rep.check(okv, 'extent|%s' % nm, 'copy from the caller\'s %s at %s reads %s bytes '
                                  'but the array holds %s%s entries of %d bytes' % (
                                      nm, fmt(I), lin(*need), N_, '+1' if ex else '', sz),
                                  'copy of %s: %s bytes' % (nm, lin(*need)))
                    else:
                        und += 1
            if I.op == 'gep' and v[0][0] == 'P' and names.get(v[0][1]) in EXTENT:
                nm = names[v[0][1]]
                N_, sz, ex = EXTENT[nm]
                if len(I.ops) != 2 or not v[0][2] == 0 or not any(u.op in ('load', 'call') for u in I.users):
                    und += 1
                    continue
                ub = _upper(M, ip, I, I.ops[1], v[1][0])
                if ub is None:
                    und += 1
                    continue
                dec += 1
                coef, add = min(ub, key=lambda c: (not fits(c[0], c[1] + 1, {N_: 1}, ex), c[1]))
                okv = fits(coef, add + 1, {N_: 1}, ex)
                rep.check(okv, 'extent|%s' % nm, 'the caller\'s %s is read at %s with index up to %s but it holds %s%s '
                          'entries' % (nm, fmt(I), lin(coef, add), N_, '+1' if ex else ''),
                          'read of %s with index <= %s' % (nm, lin(coef, add)))
    rep.cov['caller array reads decided'] = dec
    rep.cov['caller array reads with undecided index'] = und
    rep.need('caller array reads decided', dec, 6)


def fits(a, ac, b, bc):
    """a*sizes + ac <= b*sizes + bc for all sizes >= 0"""
    return ac <= bc and all(c <= b.get(n, 0) for n, c in a.items())


def linear(v):
    return (dict(v[1]), v[2]) if v[0] == 'Y' else ({}, v[1])


def lin(d, k):
    t = ' + '.join(n if c == 1 else '%d*%s' % (c, n) for n, c in sorted(d.items()))
    return t + ('%+d' % k if k and t else '' if t else '%d' % k)


def _upper(M, ip, I, idx, val):
    """largest value of the index: (size name or None, addend), None if not a recognised counter"""
    if val[0] == 'Y':
        return [(dict(val[1]), val[2])]
    if val[0] == 'I':
        return [({}, val[1])]
    add = 0
    v = idx
    for _ in range(8):
        if v.op in ('sext', 'zext', 'trunc'):
            v = v.ops[0]
        elif v.op == 'add' and v.ops[1].op == 'const':
            add += v.ops[1].val
            v = v.ops[0]
        elif v.op == 'sub' and v.ops[1].op == 'const':
            add -= v.ops[1].val
            v = v.ops[0]
        else:
            break
    if v.op != 'phi':
        return None
    fn = I.bb.fn
    best = []
    idom = flow.dominators(fn)
    stepped = {v}
    for o in v.ops:
        if o.op in ('add',) and o.ops[0] is v and o.ops[1].op == 'const' and o.ops[1].val > 0:
            continue
        if o.op == 'const':
            continue
        return None
    for J in fn.instrs():
        if J.op != 'icmp':
            continue
        for side in (0, 1):
            w = J.ops[side]
            k = 0
            for _ in range(6):
                if w.op in ('sext', 'zext', 'trunc'):
                    w = w.ops[0]
                elif w.op == 'add' and w.ops[1].op == 'const':
                    k += w.ops[1].val
                    w = w.ops[0]
                else:
                    break
            if w is not v:
                continue
            pred = J.pred[1:] if J.pred[0] in 'su' else J.pred
            if side == 1:
                pred = {'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le'}.get(pred, pred)
            for u in J.users:
                if u.op != 'br':
                    continue
                # successor on which the counter is bounded above
                if pred in ('lt', 'le', 'ne'):
                    tb = u.succ[0]
                elif pred in ('ge', 'gt', 'eq'):
                    tb = u.succ[1]
                else:
                    continue
                if not flow.dominates(idom, tb, I.bb) or len(tb.preds) != 1:
                    continue
                for pair in ip.record.get(J, ()):
                    b = pair[1 - side]
                    strict = pred in ('lt', 'ge', 'ne', 'eq')
                    if b[0] == 'Y':
                        c = (dict(b[1]), b[2] - (1 if strict else 0) - k + add)
                    elif b[0] == 'I':
                        c = ({}, b[1] - (1 if strict else 0) - k + add)
                    else:
                        continue
                    best.append(c)
    return best or None
