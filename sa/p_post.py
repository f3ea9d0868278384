"""S03: postsolve writes the solution and nothing else, and starts from scratch on every call"""
import build
import common
import fill
import flow
import vf
from common import callee_name, fmt

PURE_RULE = ("effect analysis of postsolve (fully inlined, canonicalised): every store goes to an element of the solution arrays, "
             "a local, a timing statistic, or an internal field that gets the same value on every call; every external call is "
             "effect free or output; before any element of the solution is read, all dim_x / dim_y elements have been "
             "overwritten from the caller's vectors through the row/column map (scalar evolution gives the ranges, the map "
             "value decides the branches)")

# external functions that change nothing but what is passed to them as a buffer
EXTERN = {'clock_gettime', 'printf', 'puts', 'putchar', 'fprintf', 'fputs', 'fputc', 'fwrite', 'fflush', 'malloc', 'calloc', 'realloc', 'free', 'abort', 'exit',
          '__assert_fail', 'memcpy', 'memmove', 'memset', 'fabs', 'isinf'}
PUBLIC = {'PresolvedProblem', 'PresolveStats', 'Settings', 'Presolver'}
ARR = {'x': (1, 'dim_x', 'cols'), 'y': (2, 'dim_y', 'rows'), 'z': (3, 'dim_x', 'cols')}
MAPS = {('Mapping', 'cols'): 'cols', ('PostsolveInfo', 'col_map'): 'cols', ('Mapping', 'rows'): 'rows', ('PostsolveInfo', 'row_map'): 'rows'}


def sol_elem(M, p):
    """solution array an address lies in"""
    t = vf.target(M, p)
    if t and t[:2] == ('[]', 'Solution') and t[2] in ARR:
        return t[2]
    return None


def strip(v):
    while v.op in ('sext', 'zext', 'trunc', 'freeze'):
        v = v.ops[0]
    return v


def alts(v, bb, depth=0):
    """(value, block it comes from) alternatives of a joined value"""
    if v.op == 'phi' and depth < 4:
        out = []
        for w, p in v.inc:
            out += alts(w, p, depth + 1)
        return out
    return [(v, bb)]


def mapload(M, v):
    """map whose element v is"""
    v = strip(v)
    if v.op != 'load':
        return None, None
    t = vf.target(M, v.ops[0])
    if t and t[0] == '[]' and t[1:] in MAPS:
        return MAPS[t[1:]], v
    return None, None


def pure(rep):
    M = vf.module('release', entries=['postsolve'])
    f = M.functions.get('postsolve')
    if f is None or f.is_decl:
        raise build.AnalysisError('postsolve not found')
    for g in M.defined():
        if g is not f:
            raise build.AnalysisError('%s is not inlined into postsolve (recursion or indirect call)' % g.name)
    SE = vf.scev(M, 'postsolve')
    effects(rep, M, f)
    init(rep, M, f, SE)
    dims(rep)


def first(idom, I, J):
    if I.bb is J.bb:
        return I.bb.ins.index(I) < I.bb.ins.index(J)
    return flow.dominates(idom, I.bb, J.bb)


def effects(rep, M, f):
    own = {}
    idom = flow.dominators(f)
    for I in f.instrs():
        if I.op == 'store':
            own.setdefault(vf.target(M, I.ops[1]), []).append(I)
        elif I.op == 'call':
            n = callee_name(I)
            if n is None:
                rep.bad('indirect', 'postsolve calls through a pointer at %s: its effects are unknown' % fmt(I))
            elif n.startswith('llvm.mem') or n in ('memcpy', 'memmove', 'memset'):
                own.setdefault(vf.target(M, I.ops[0]), []).append(I)
            elif n.startswith('llvm.'):
                pass
            else:
                rep.check(n in EXTERN, 'extern|%s' % n, 'postsolve calls %s at %s, which may have effects beyond the solution' % (n, fmt(I)),
                          'external call %s' % n)
    rep.cov['stores'] = sum(len(l) for l in own.values())
    reads = {}
    for I in f.instrs():
        if I.op == 'load':
            reads.setdefault(vf.target(M, I.ops[0]), []).append(I)
    for t, l in sorted(own.items(), key=str):
        for I in l:
            if t is None or (t[0] == '[]' and t[1] == 'Solution' and t[2] in ARR):
                rep.ok('%s <- %s' % (t, fmt(I)[:60]))
                continue
            if fresh(M, I.ops[1] if I.op == 'store' else I.ops[0]):
                rep.ok('local block written at %s' % fmt(I)[:60])
                continue
            what = '.'.join(str(x) for x in t[-2:]) if t[0] in ('[]', '&') or len(t) == 2 else str(t)
            if t[0] == 'arg':
                rep.bad('store|arg%d' % t[2], 'postsolve writes to its argument %d at %s' % (t[2], fmt(I)))
            elif t == ('PresolveStats', 'time_postsolve'):
                rep.ok('time_postsolve')
            elif t[0] in ('[]', '&', '?') or t[0] in PUBLIC or t[0] == 'Solution':
                rep.bad('store|%s' % what, 'postsolve changes %s%s at %s: a later call, or the caller, sees a different presolver' % (
                    what, ' (elements)' if t[0] == '[]' else '', fmt(I)))
            elif not reads.get(t) or idempotent(M, I, own) and all(first(idom, I, J) for J in reads[t]):
                rep.ok('%s gets the same value on every call' % what)
            else:
                rep.bad('store|%s' % what, 'postsolve changes %s at %s, and a later postsolve reads it at %s' % (what, fmt(I), fmt(reads[t][0])))
    rep.need('stores to the solution', sum(len(l) for t, l in own.items() if t and t[:2] == ('[]', 'Solution')), 6)


def fresh(M, p, depth=0):
    """p points into a block allocated in this call"""
    while p.op == 'gep' and depth < 20:
        p = p.ops[0]
        depth += 1
    return p.op == 'alloca' or p.op == 'call' and callee_name(p) in ('malloc', 'calloc')


def idempotent(M, I, own):
    """the stored value is computed from memory that postsolve leaves alone"""
    if I.op != 'store':
        return False
    seen, st = set(), [I.ops[0]]
    while st:
        v = st.pop()
        if v in seen:
            continue
        seen.add(v)
        if v.op == 'const' or v.op == 'global':
            continue
        if v.op == 'arg':
            if v.idx != 0:
                return False
            continue
        if v.op == 'load':
            t = vf.target(M, v.ops[0])
            if t in own:
                return False
            st.append(v.ops[0])
        elif v.op in ('call', 'alloca'):
            return False
        else:
            st.extend(v.ops)
    return True


def init(rep, M, f, SE):
    idom = flow.dominators(f)

    def name(v):
        p = vf.ap(M, strip(v))
        if p[:2] == ('Solution', 'dim_x'):
            return 'dim_x'
        if p[:2] == ('Solution', 'dim_y'):
            return 'dim_y'
        return None
    for k, (argn, dim, mp) in sorted(ARR.items()):
        stores = [I for I in f.instrs() if I.op == 'store' and sol_elem(M, I.ops[1]) == k]
        # stores whose value comes straight from the caller's vectors or is a constant, in a loop over the array
        copies, consts = [], []
        for I in stores:
            sg = fill.segments(M, f, SE, I, I.ops[1], 8, name)
            if sg is None or sg[2] is None:
                continue
            for v, bb in alts(I.ops[0], I.bb):
                if v.op == 'select':
                    for w in v.ops[1:]:
                        (consts if w.op == 'const' else copies).append((I, w, bb, sg))
                else:
                    (consts if v.op == 'const' else copies).append((I, v, bb, sg))
        for I in f.instrs():
            if I.op == 'call' and (callee_name(I) or '').startswith('llvm.memset') and sol_elem(M, I.ops[0]) == k:
                consts.append((I, I.ops[1], I.bb, ({}, None, None, None)))
        good = []
        for I, v, bb, sg in copies:
            if v.op != 'load':
                continue
            g = v.ops[0]
            if g.op != 'gep' or g.ops[0].op != 'arg' and not (g.ops[0].op == 'load'):
                continue
            src = g.ops[0]
            m, ml = mapload(M, g.ops[-1])
            if src.op == 'arg' and m is None:
                rep.bad('unmapped|%s' % k, 'the solution\'s %s is taken from the caller\'s vector without the %s map at %s' % (k, mp, fmt(I)))
                continue
            if src.op != 'arg' or m is None:
                continue
            rep.check(src.idx == argn, 'vector|%s' % k, 'the solution\'s %s is filled from argument %d of postsolve at %s, not from argument %d' % (
                k, src.idx, fmt(I), argn), '%s <- argument %d' % (k, argn))
            rep.check(m == mp, 'map|%s' % k, 'the solution\'s %s is filled through the %s map at %s, not the %s map' % (k, m, fmt(I), mp),
                      '%s through the %s map' % (k, mp))
            ms = fill.segments(M, f, SE, ml, ml.ops[0], 4, name)
            if ms is not None:
                rep.check(ms[0] == sg[0] and ms[2] == sg[2] and ms[3].step.get(None, 0) * 2 == sg[3].step.get(None, 0), 'position|%s' % k,
                          'element i of the solution\'s %s does not use entry i of the map at %s' % (k, fmt(I)), '%s[i] uses map[i]' % k)
            good.append((I, v, ml, sg))
        if not rep.check(bool(good), 'init|%s' % k, 'postsolve does not fill the solution\'s %s from the caller\'s vector' % k, None):
            continue
        hs = set()
        for I, v, ml, sg in good:
            rep.check(fill.covers([sg], {dim: 1}), 'range|%s' % k, 'postsolve re-initialises entries %s..%s of the solution\'s %s, not all %s' % (
                sg[0], sg[1], k, dim), '%s: entries 0..%s-1' % (k, dim))
            hs.add(sg[2])

            def leaf(n):
                return lambda w: (n & 0xffffffff) if w is ml else None
            cs = {J.bb for J, v2, bb, s2 in consts if s2[2] in (sg[2], None) or True}
            before = [J for J, v2, bb, s2 in consts if s2[2] != sg[2] and (s2[1] is None or fill.covers([s2], {dim: 1})) and
                      J.bb in flow.reach_from([f.blocks[0]], lambda x: x.succs)]
            for n in (0, 3):
                rep.check(fill.each_iteration(f, sg[2], {I.bb}, lambda t, n=n: fill.branch_under(t, leaf(n))), 'skip|%s' % k,
                          'postsolve does not copy every entry of the solution\'s %s whose %s map entry is not -1 (%s)' % (k, mp[:-1], fmt(I)),
                          '%s: every surviving entry is copied' % k)
            # removed entries: reset, and the caller's vector is not read at -1
            hit = reach_loop(f, sg[2], {v.bb}, lambda t: fill.branch_under(t, leaf(-1)))
            sel = v.bb is not I.bb or not hit
            if not before:
                ok = fill.each_iteration(f, sg[2], {J.bb for J, v2, bb, s2 in consts if s2[2] == sg[2]}, lambda t: fill.branch_under(t, leaf(-1)))
                rep.check(ok, 'keep|%s' % k, 'postsolve leaves entries of the solution\'s %s whose %s was removed as the previous call left them (%s)' % (
                    k, mp[:-1], fmt(I)), '%s: removed entries are reset' % k)
            rep.check(not hit, 'negative|%s' % k, 'postsolve reads the caller\'s vector at position -1 for a removed %s at %s' % (mp[:-1], fmt(v)),
                      '%s: the caller\'s vector is read for surviving entries only' % k)
        # nothing is read before
        cut = set()
        for n in hs:
            h, body = fill.loop_blocks(f, n)
            cut.add(h)
        reach = reach_guarded(M, f, SE, cut, dim, name)
        for I in f.instrs():
            if I.op == 'load' and sol_elem(M, I.ops[0]) == k and not any(I.bb in fill.loop_blocks(f, n)[1] for n in hs):
                rep.check(I.bb not in reach, 'early|%s' % k, 'postsolve reads an entry of the solution\'s %s at %s that may still hold the value '
                          'of the previous call' % (k, fmt(I)), None)
            elif I.op == 'load' and sol_elem(M, I.ops[0]) == k:
                rep.bad('mix|%s' % k, 'postsolve reads the previous solution\'s %s at %s while it re-initialises it' % (k, fmt(I)))
        for I in stores:
            if I.bb in reach and not any(I.bb in fill.loop_blocks(f, n)[1] for n in hs) and I not in [c[0] for c in consts]:
                rep.bad('before|%s' % k, 'postsolve writes an entry of the solution\'s %s at %s before the vector is re-initialised' % (k, fmt(I)))


def reach_loop(f, lname, targets, follow):
    h, body = fill.loop_blocks(f, lname)
    seen, st = set(), [h]
    while st:
        b = st.pop()
        if b in seen:
            continue
        seen.add(b)
        if b in targets:
            return True
        ss = follow(b.term) if b.term.op in ('br', 'switch') else None
        for s in (b.succs if ss is None else ss):
            if s is not h and s in body:
                st.append(s)
    return False


def reach_guarded(M, f, SE, cut, dim, name):
    """blocks reachable from the entry without passing the loop headers in cut, for a positive dimension"""
    seen, st = set(), [f.blocks[0]]
    while st:
        b = st.pop()
        if b in seen or b in cut:
            continue
        seen.add(b)
        ss = None
        t = b.term
        if t.op == 'br' and len(t.ops) == 1:
            rs = {fill.value_under(t.ops[0], lambda w, n=n: n if w.op == 'load' and name(w) == dim else None) for n in (1, 2, 7)}
            if rs == {None}:
                rs = fill.ptr_cond(M, f, SE, t.ops[0], dim, name)
            if len(rs) == 1 and None not in rs:
                ss = [t.succ[0] if rs.pop() & 1 else t.succ[1]]
        st.extend(b.succs if ss is None else ss)
    return seen


def dims(rep):
    """dimensions and array blocks of the solution are set once, by new_presolver, to the caller's n and m"""
    M = vf.module('release', entries=['new_presolver'])
    f = M.functions['new_presolver']
    sig = M.info.sigs['new_presolver']
    want = {'dim_x': 'n', 'dim_y': 'm'}
    args = {a.idx: a for a in f.args}
    seen = set()
    for I in f.instrs():
        if I.op != 'store':
            continue
        t = vf.target(M, I.ops[1])
        if t and t[0] == 'Solution' and t[1] in want:
            v = I.ops[0]
            n = size_arg(M, v)
            seen.add(t[1])
            rep.check(n in (None, want[t[1]]), 'dim|%s' % t[1], 'the solution\'s %s is set to the number of %s at %s' % (
                t[1], 'rows' if n == 'm' else 'columns', fmt(I)), '%s is %s' % (t[1], want[t[1]]))
            if n is None:
                rep.cov['dimension sources undecided'] = rep.cov.get('dimension sources undecided', 0) + 1
    rep.check(seen == set(want), 'dim|unset', 'new_presolver does not set the dimensions of the solution', 'dimensions set')
    for e in ('run_presolver', 'postsolve'):
        mods = vf.modsets(vf.module('release', inline=False, tag='ni'))
        for t in mods[e]:
            if t and t[0] == 'Solution':
                rep.bad('dim|%s' % t[1], '%s changes the %s of the solution' % (e, t[1]))
    rep.ok('the solution\'s dimensions and arrays are fixed at creation')


def size_arg(M, v):
    """'m' / 'n' when v is new_presolver's row / column count (arguments 3 and 4)"""
    v = strip(v)
    if v.op == 'arg':
        return {3: 'm', 4: 'n'}.get(v.idx)
    p = vf.ap(M, v)
    if p[:2] in (('Matrix', 'm'), ('Constraints', 'm'), ('Matrix', 'n'), ('Constraints', 'n')):
        tr = any(x == 'AT' for x in p[2:3] for x in x) if len(p) > 2 and isinstance(p[2], tuple) else False
        return {'m': 'n', 'n': 'm'}[p[1]] if tr else p[1]
    return None
