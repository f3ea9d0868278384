"""V02: what run_presolver returns and publishes"""
import build
import check
import common
import flow
import p_api
import vf
from common import callee_name, fmt
from flow import kconst

PUB_RULE = ("value-flow analysis of run_presolver (helpers inlined, reductions opaque): on every path that returns "
            "UNCHANGED/REDUCED each PresolvedProblem member has been stored, its last value is the member of the internal "
            "problem the interface names (access path), read after the last operation that can modify it; lbs, ubs, Ap are "
            "filled over their whole range (scalar evolution); paths returning a verdict publish nothing; UNCHANGED iff the "
            "three size comparisons hold; reduced/original counts in the statistics have the same sources")

P = ('Presolver', 'prob', ('arg', 0))
CON = ('Problem', 'constraints', P)
A = ('Constraints', 'A', CON)
AT = ('Constraints', 'AT', CON)
OBJ = ('Problem', 'obj', P)
SIZE = {'m': [('Matrix', 'm', A), ('Matrix', 'n', AT), ('Constraints', 'm', CON)],
        'n': [('Matrix', 'n', A), ('Matrix', 'm', AT), ('Constraints', 'n', CON)],
        'nnz': [('Matrix', 'nnz', A), ('Matrix', 'nnz', AT)]}
DIRECT = {'m': SIZE['m'], 'n': SIZE['n'], 'nnz': SIZE['nnz'], 'Ax': [('Matrix', 'x', A)], 'Ai': [('Matrix', 'i', A)],
          'lhs': [('Constraints', 'lhs', CON)], 'rhs': [('Constraints', 'rhs', CON)], 'c': [('Objective', 'c', OBJ)],
          'obj_offset': [('Objective', 'offset', OBJ)]}
ARRAYS = {'lbs': ('n', 0, ('Bound', 'lb'), ('Constraints', 'bounds', CON)),
          'ubs': ('n', 0, ('Bound', 'ub'), ('Constraints', 'bounds', CON)),
          'Ap': ('m', 1, ('RowRange', 'start'), ('Matrix', 'p', A))}
# a size may also be taken back from where it was published
ALSO = {'m': [('PresolvedProblem', 'm'), ('PresolveStats', 'n_rows_reduced')],
        'n': [('PresolvedProblem', 'n'), ('PresolveStats', 'n_cols_reduced')],
        'nnz': [('PresolvedProblem', 'nnz'), ('PresolveStats', 'nnz_reduced')]}
STATS = {'n_rows_reduced': SIZE['m'], 'n_cols_reduced': SIZE['n'], 'nnz_reduced': SIZE['nnz']}
ORIG = {'n_rows_original': 'm', 'n_cols_original': 'n', 'nnz_original': 'nnz'}
PAIR = {'n_rows_original': 'm', 'n_cols_original': 'n', 'nnz_original': 'nnz'}
SPINE = [('Presolver', 'prob'), ('Presolver', 'stats'), ('Presolver', 'reduced_prob'), ('Problem', 'constraints'), ('Problem', 'obj'), ('Constraints', 'A'),
         ('Constraints', 'AT')]


def prep():
    MS, status = p_api.status_module('release')
    S, taken = p_api.return_sets(MS, status)
    nl = set(common.reductions('release')) | {'problem_clean', 'remove_redundant_bounds'}
    M = vf.module('release', entries=['run_presolver'], noinline=nl)
    f = M.functions.get('run_presolver')
    if f is None or f.is_decl:
        raise build.AnalysisError('run_presolver not found')
    return M, f, S, taken


def publish(rep):
    M, f, S, taken = prep()
    K = build.constants(['INFEASIBLE', 'UNBNDORINFEAS', 'UNCHANGED', 'REDUCED'])
    INF, UNB, UNC, RED = (int(K[k]) for k in ('INFEASIBLE', 'UNBNDORINFEAS', 'UNCHANGED', 'REDUCED'))
    mods = vf.modsets(M)
    SE = vf.scev(M, 'run_presolver')
    for sp in SPINE:
        for n, ms in mods.items():
            if sp in ms:
                rep.bad('spine|%s.%s' % sp, '%s replaces %s.%s during presolve: the published problem is not the one the other '
                        'references see' % ((n,) + sp))
    rep.ok('the objects the published problem is taken from are never replaced during presolve', n=len(SPINE))

    # stores to the published struct and the statistics
    pub, arr, st = {}, {}, {}
    for I in f.instrs():
        if I.op != 'store':
            continue
        t = vf.target(M, I.ops[1])
        if t and t[0] == 'PresolvedProblem':
            pub.setdefault(t[1], []).append(I)
        elif t and t[0] == 'PresolveStats' and t[1] in STATS:
            st.setdefault(t[1], []).append(I)
        else:
            a = addr_of(M, f, SE, I.ops[1])
            k = array_of(M, a.base) if a else None
            if k:
                arr.setdefault(k, []).append(I)
    items = {}
    for k, l in pub.items():
        for I in l:
            items[I] = ('pub', k)
    for k, l in st.items():
        for I in l:
            items[I] = ('stat', k)
    # a filled array counts from the block that decides whether its loop runs at all
    anchors = {}
    for k, (N, ex, src, base) in ARRAYS.items():
        for bb in anchor_blocks(M, f, SE, arr.get(k, []), N, ex):
            anchors.setdefault(bb, set()).add(('fill', k))
    names = sorted(set(list(DIRECT) + list(ARRAYS)))
    need = {('pub', k) for k in names} | {('stat', k) for k in STATS} | {('fill', k) for k in ARRAYS if k in arr}
    succ_rets = set()
    ex_limit = flow.Explorer(f, split=p_api.splitter(S, taken))
    missing = {}
    verdict_pub = set()
    rets = set()

    def on(I, env, tag, key):
        add = set()
        if I in items:
            add.add(items[I])
        if I.bb in anchors and I.op in ('br', 'switch', 'ret'):
            add |= anchors[I.bb]
        if I.op == 'ret':
            kb = ex_limit.get(env, I.ops[0])
            vals = possible(kb)
            for v in vals:
                rets.add(v)
                if v in (UNC, RED):
                    succ_rets.add(I)
                    for x in need - tag:
                        missing.setdefault(x, I)
                elif any(x[0] in ('pub', 'fill') for x in tag):
                    verdict_pub.add((v, I))
            return None
        return frozenset(tag | add) if add - tag else None
    ex_limit.run([(f.blocks[0], 0, {}, frozenset())], on_instr=on)
    rep.cov['run_presolver return values'] = sorted(rets)
    for v in sorted(rets - {INF, UNB, UNC, RED}):
        rep.bad('return|%d' % v, 'run_presolver can return %d, which is no documented status' % v)
    rep.check(UNC in rets and RED in rets and INF in rets and UNB in rets, 'return|set',
              'run_presolver cannot return every documented status: %s' % sorted(rets), 'return values %s' % sorted(rets))
    for v, I in verdict_pub:
        rep.bad('verdict-publishes', 'run_presolver returns status %d after it has written the reduced problem' % v)
    what = {'pub': 'member %s of the reduced problem', 'stat': 'statistic %s', 'fill': 'contents of %s of the reduced problem'}
    for x in sorted(need):
        rep.check(x not in missing, 'unset|%s' % x[1], 'run_presolver returns UNCHANGED or REDUCED on a path on which the ' +
                  what[x[0]] % x[1] + ' is not set', 'set before every successful return: %s' % x[1])

    # sources of the stored values
    R = Reach(f)
    for k, alts in sorted(DIRECT.items()):
        for I in pub.get(k, []):
            source(rep, M, f, R, mods, I, 'the reduced problem\'s %s' % k, k, alts)
    for k, alts in sorted(STATS.items()):
        for I in st.get(k, []):
            source(rep, M, f, R, mods, I, 'the statistic %s' % k, k, alts)
    for k, (N, ex, src, base) in sorted(ARRAYS.items()):
        fill(rep, M, f, R, mods, SE, k, arr.get(k, []), N, ex, src, base)
    # nothing modifies the internal problem after publication
    first = [I for k in ('Ax', 'Ai', 'lhs', 'rhs', 'c') for I in pub.get(k, [])]
    for J in f.instrs():
        if J.op != 'call' or callee_name(J) not in mods:
            continue
        touched = {m for m in mods[callee_name(J)] if m and m[0] != 'PresolveStats'}
        if touched and any(R.after(I, J) for I in first):
            rep.bad('late|%s' % callee_name(J), '%s, called at %s after the reduced problem was published, modifies it' %
                    (callee_name(J), fmt(J)))
    rep.ok('no modifying call after publication')
    # original counts
    original(rep)
    unchanged(rep, M, f, S, taken, UNC, RED)


def possible(kb):
    if kb is None:
        return {0, 1, 2, 3, 6, 7}
    unk = [1 << i for i in range(3) if not kb.known() >> i & 1]
    vs = [kb.o & 0xff]
    for u in unk:
        vs += [v | u for v in vs]
    return set(vs)


class Reach:
    def __init__(s, f):
        s.r = {}
        for b in f.blocks:
            s.r[b] = flow.reach_from(list(b.succs), lambda x: x.succs)

    def after(s, a, b):
        """b can execute after a"""
        if a.bb is b.bb and a.bb.ins.index(b) > a.bb.ins.index(a):
            return True
        return b.bb in s.r[a.bb]


def source(rep, M, f, R, mods, I, what, k, alts):
    v = I.ops[0]
    vs = [v]
    if v.op == 'phi':
        vs = [o for o in v.ops]
    for w in vs:
        p = vf.ap(M, w)
        back = [x for s in ALSO if SIZE[s] is alts for x in ALSO[s]]
        if p[:2] in back and again(M, f, w, p[:2]):
            rep.ok('%s <- %s (published before)' % (k, vf.path(p)))
            continue
        if k in ('nnz', 'nnz_reduced') and p not in alts and starts(M, w):
            rep.cov['published counts computed from row starts (undecided)'] = rep.cov.get('published counts computed from row starts (undecided)', 0) + 1
            continue
        if not rep.check(p in alts, 'source|%s' % k, '%s is set to %s at %s, not to %s' % (what, vf.path(p), fmt(I), vf.path(alts[0])),
                         '%s <- %s' % (k, vf.path(p))):
            continue
        fresh(rep, M, f, R, mods, w, I, p, what, k)


def starts(M, v, depth=0):
    """a number computed from the row ranges of a matrix"""
    if depth > 12:
        return False
    if v.op == 'load':
        t = vf.pfield(M, v.ops[0])
        return bool(t and t[0] == 'RowRange')
    return v.op in ('sext', 'zext', 'trunc', 'add', 'sub', 'phi', 'select') and any(
        starts(M, o, depth + 1) for o in (v.ops[1:] if v.op == 'select' else v.ops))


def again(M, f, w, key):
    """the load w reads a member after it was set"""
    idom = flow.dominators(f)
    for J in f.instrs():
        if J.op == 'store' and vf.pfield(M, J.ops[1]) == key:
            if J.bb is w.bb and J.bb.ins.index(J) < w.bb.ins.index(w) or J.bb is not w.bb and flow.dominates(idom, J.bb, w.bb):
                return True
    return False


def fresh(rep, M, f, R, mods, w, I, p, what, k):
    """no modification of the field between its read and the end of the run"""
    if w.op != 'load':
        return
    key = (p[0], p[1])
    for J in f.instrs():
        hit = False
        if J.op == 'call' and callee_name(J) in mods:
            hit = key in mods[callee_name(J)]
        elif J.op == 'store' and vf.target(M, J.ops[1]) == key:
            hit = True
        if hit and R.after(w, J):
            rep.bad('stale|%s' % k, '%s at %s comes from a value read at %s, but %s at %s can change it afterwards' % (
                what, fmt(I), fmt(w), callee_name(J) or 'the store', fmt(J)))
            return
    rep.ok('%s is read after the last change' % k)


def size_of(M, f, name, byname):
    """name of the problem size an SSA atom stands for"""
    I = byname.get(name)
    if I is None:
        return None
    p = vf.ap(M, I)
    return size_ap(p)


def size_ap(p):
    for s, alts in SIZE.items():
        if p in alts or p[:2] in ALSO[s]:
            return s
    return None


def norm(M, f, byname, l):
    """linear form over m, n, nnz"""
    out = {}
    for a, c in (l or {}).items():
        if a is None:
            out[None] = out.get(None, 0) + c
        else:
            s = size_of(M, f, a, byname)
            if s is None:
                return None
            out[s] = out.get(s, 0) + c
    return {a: c for a, c in out.items() if c}


_bn = {}


def byname(f):
    if f not in _bn:
        _bn[f] = {I.name: I for I in f.instrs() if I.name}
    return _bn[f]


class Addr:
    pass


def addr_of(M, f, SE, p):
    """address as base pointer (SSA value) + start + k*step in a loop, everything else linear in the sizes"""
    e = SE.val.get(p.name)
    if p.op == 'gep' and (e is None or e[0] is None):
        return None
    if p.op != 'gep' and e is None:
        e = (('v', p.name), None)
    r = vf.addrec(e[0])
    if r is None:
        l = vf.linear(e[0])
        if l is None:
            return None
        r = (l, {None: 0}, None)
    bn = byname(f)
    a = Addr()
    a.base = None
    st = {}
    for q, c in r[0].items():
        if q is not None and c == 1 and q in bn and bn[q].ty.kind == 'ptr' and a.base is None:
            a.base = bn[q]
        elif c:
            st[q] = c
    a.start, a.step, a.loop = st, {q: c for q, c in r[1].items() if c}, r[2]
    return a


def array_of(M, b):
    """published array a base pointer denotes"""
    if b is None:
        return None
    t = vf.elem(M, b)
    return t[2] if t and t[:2] == ('[]', 'PresolvedProblem') else None


def div(l, k):
    if any(c % k for c in l.values()):
        return None
    return {a: c // k for a, c in l.items()}


def loop_of(M, f, SE, I):
    pass


def anchor_blocks(M, f, SE, stores, N, ex):
    out = []
    bn = byname(f)
    ls = dict(flow.loops(f))
    for I in stores:
        e = addr_of(M, f, SE, I.ops[1])
        hs = [h for h in ls if h.name == e.loop] if e is not None and e.loop is not None else []
        if not hs:
            inside = [h for h in ls if I.bb in ls[h]]
            if not inside:
                out.append(I.bb)
                continue
            # address not understood: the outermost loop around it
            hs = [max(inside, key=lambda h: len(ls[h]))]
        h = hs[0]
        body = ls[h]
        # the store must run in every iteration
        idom = flow.dominators(f)
        latches = [b for b in h.preds if b in body]
        if e is not None and e.loop is not None and not all(flow.dominates(idom, I.bb, b) for b in latches):
            continue
        outer = [b for b in h.preds if b not in body]
        if len(outer) != 1:
            out += outer
            continue
        b = outer[0]
        for _ in range(6):
            t = b.term
            if t.op == 'br' and len(t.ops) == 1:
                other = t.succ[1] if (t.succ[0] is h or h in flow.reach_from([t.succ[0]], lambda x: x.succs)) else t.succ[0]
                if zero_trip(M, f, SE, t, other, N, ex) is not False:
                    break
                b = None
                break
            if len(b.preds) == 1 and b.preds[0].term.op == 'br' and len(b.preds[0].term.ops) == 1:
                g = b.preds[0]
                other = g.term.succ[0] if g.term.succ[1] is b else g.term.succ[1]
                z = zero_trip(M, f, SE, g.term, other, N, ex)
                if z or z is None and sizes_only(M, g.term.ops[0]):
                    b = g
                break
            break
        if b is not None:
            out.append(b)
    return out


def sizes_only(M, c, depth=0):
    """a comparison that involves nothing but sizes, constants and addresses"""
    if c.op == 'const' or c.op in ('global', 'alloca'):
        return True
    if c.op in ('load', 'arg', 'call'):
        return c.ty.kind == 'ptr' or size_ap(vf.ap(M, c)) is not None
    if c.op == 'phi' or depth > 12 or not getattr(c, 'ops', None):
        return False
    return all(sizes_only(M, o, depth + 1) for o in c.ops)


def zero_trip(M, f, SE, br, other, N, ex):
    """the edge br -> other is taken exactly when the array has no elements"""
    c = br.ops[0]
    neg = br.succ[0] is not other
    if c.op != 'icmp':
        return None
    l = []
    if c.ops[0].ty.kind == 'ptr':
        xs = []
        for o in c.ops:
            e = SE.val.get(o.name)
            xs.append(vf.linear(e[0]) if e and e[0] is not None else {o.name: 1} if getattr(o, 'name', None) else None)
        if None in xs:
            return None
        d = norm(M, f, byname(f), add(xs[0], xs[1], -1))
        if d is None or not set(d) <= {None, N}:
            return None
        for n in range(0, 6):
            x = d.get(None, 0) + d.get(N, 0) * n
            q = c.pred[-2:]
            r = {'eq': x == 0, 'ne': x != 0, 'lt': x < 0, 'le': x <= 0, 'gt': x > 0, 'ge': x >= 0}[q]
            if r ^ neg != (n + ex == 0):
                return False
        return True
    for o in c.ops:
        e = small_lin(M, o)
        if e is None:
            return None
        if not set(e) <= {None, N}:
            return False
        l.append(e)
    w = c.ops[0].ty.width if c.ops[0].ty.kind == 'int' else 64
    for n in range(0, 6):
        v = [flow_int(e.get(None, 0) + e.get(N, 0) * n, w) for e in l]
        m = (1 << w) - 1
        r = flow.ev_int(c, [x & m for x in v])
        if r is None:
            return None
        if bool(r) ^ neg != (n + ex == 0):
            return False
    return True


def flow_int(v, w):
    return v & ((1 << w) - 1)


def small_lin(M, o, depth=0):
    """linear form over the sizes of an integer value (extensions are transparent)"""
    if depth > 8:
        return None
    if o.op in ('zext', 'sext', 'trunc', 'freeze'):
        return small_lin(M, o.ops[0], depth + 1)
    if o.op == 'const' and o.kind == 'int':
        return {None: o.val} if o.val else {}
    if o.op in ('add', 'sub', 'mul', 'shl'):
        a, b = (small_lin(M, x, depth + 1) for x in o.ops)
        if a is None or b is None:
            return None
        if o.op in ('add', 'sub'):
            return add(a, b, 1 if o.op == 'add' else -1)
        if not set(b) <= {None}:
            return None
        k = b.get(None, 0)
        k = k if o.op == 'mul' else 1 << k
        return {q: c * k for q, c in a.items() if c * k}
    s = size_ap(vf.ap(M, o))
    return {s: 1} if s else None


def fill(rep, M, f, R, mods, SE, k, stores, N, ex, src, base):
    what = 'the reduced problem\'s %s' % k
    if not rep.check(bool(stores), 'fill|%s' % k, 'run_presolver never writes the elements of %s' % what, None):
        return
    esz = 8 if k != 'Ap' else 4
    bn = byname(f)
    segs = []
    und = False
    for I in stores:
        v = I.ops[0]
        e = addr_of(M, f, SE, I.ops[1])
        idx = None
        if e:
            a, b = div(e.start, esz), div(e.step, esz)
            if a is not None and b is not None:
                idx = (norm(M, f, bn, a), b, e.loop)
        while v.op in ('trunc', 'sext', 'zext'):
            v = v.ops[0]
        p = vf.ap(M, v)
        ok = False
        la = addr_of(M, f, SE, v.ops[0]) if v.op == 'load' else None
        if la is not None and la.base is not None and p not in SIZE['nnz']:
            arrp = vf.ap(M, la.base)
            lay = vf._layout(M, src[0])
            ssz = max(o + z for o, z, fn in lay)
            off = la.start.get(None, 0) % ssz
            fld = next((fn for o, z, fn in lay if o == off), None)
            end = k == 'Ap' and fld == 'end'
            if not rep.check((fld == src[1] or end) and arrp == base, 'source|%s' % k, 'the elements of %s are set from %s.%s (%s) at '
                             '%s, not from %s.%s' % (what, src[0] if arrp == base else '?', fld if arrp == base else '?', vf.path(arrp),
                                                     fmt(I), vf.path(base), src[1]), '%s <- %s.%s' % (k, vf.path(arrp), fld)):
                continue
            s0 = dict(la.start)
            s0[None] = s0.get(None, 0) - off
            d0, d1 = div(s0, ssz), div(la.step, ssz)
            n0 = norm(M, f, bn, d0) if d0 is not None else None
            if n0 is not None and d1 is not None and idx and idx[0] is not None and la.loop == idx[2]:
                want = add(n0, {None: 1}, 1) if end else n0
                same = add(want, {}, 1) == add(idx[0], {}, 1) and add(d1, {}, 1) == add(idx[1], {}, 1)
                rep.check(same, 'index|%s' % k, '%s[i] at %s is taken from entry %s of %s instead of the same position' % (
                    what, fmt(I), show(n0), vf.path(arrp)), '%s[i] <- [i].%s' % (k, fld))
            fresh(rep, M, f, R, mods, v, I, (src[0], fld, arrp), 'an element of ' + what, k)
        elif k == 'Ap' and v.op == 'const' and v.kind == 'int' and v.val == 0 and idx and not idx[0] and idx[2] is None:
            ok = True
        if v.op == 'load' and k == 'Ap' and p in SIZE['nnz']:
            ok = idx is not None and idx[0] == {'m': 1}
        if not ok and not (v.op == 'load'):
            rep.bad('source|%s' % k, 'the elements of %s are set from %s at %s' % (what, vf.path(p), fmt(I)))
            continue
        if idx is None or idx[0] is None:
            und = True
            continue
        lo = idx[0]
        if idx[2] is None:
            segs.append((lo, lo))
            continue
        bt = SE.loops.get(idx[2])
        bl = norm(M, f, bn, vf.linear(bt)) if bt is not None and vf.linear(bt) is not None else None
        stp = idx[1].get(None, 0) if set(idx[1]) <= {None} else None
        if bl is None or stp is None:
            und = True
            continue
        if stp not in (1, -1):
            rep.bad('range|%s' % k, '%s is filled in steps of %d at %s' % (what, stp, fmt(I)))
            continue
        hi = add(lo, bl, stp)
        segs.append((lo, hi) if stp == 1 else (hi, lo))
    if und:
        rep.cov['fill ranges undecided'] = rep.cov.get('fill ranges undecided', 0) + 1
        return
    total = add({N: 1}, {None: ex}, 1)
    cur = {}
    rest = list(segs)
    while rest and cur != total:
        nxt = None
        for s in rest:
            d = add(s[0], cur, -1)
            if set(d) <= {None} and d.get(None, 0) <= 0:
                nxt = s
                break
        if nxt is None:
            break
        rest.remove(nxt)
        e2 = add(nxt[1], {None: 1}, 1)
        d = add(e2, cur, -1)
        if set(d) <= {None} and d.get(None, 0) <= 0:
            continue
        cur = e2
    rep.check(cur == total, 'range|%s' % k, '%s has %s entries but entries %s are filled' % (
        what, show(total), ', '.join('%s..%s' % (show(a), show(b)) for a, b in segs)),
        '%s: entries 0..%s filled' % (k, show(add(total, {None: 1}, -1))))


def add(a, b, f):
    r = dict(a)
    for k, c in b.items():
        r[k] = r.get(k, 0) + f * c
    return {k: c for k, c in r.items() if c}


def show(l):
    if l is None:
        return '?'
    t = '+'.join(('%s' % k if c == 1 else '%d*%s' % (c, k)) for k, c in sorted((x for x in l.items() if x[0]), key=str))
    c = l.get(None, 0)
    return (t + ('%+d' % c if c else '')) if t else str(c)


def original(rep):
    M = vf.module('release', entries=['new_presolver'], noinline=())
    f = M.functions.get('new_presolver')
    pos = {'m': 3, 'n': 4, 'nnz': 5}
    seen = {}
    for I in f.instrs():
        if I.op == 'store':
            t = vf.pfield(M, I.ops[1])
            if t and t[0] == 'PresolveStats' and t[1] in ORIG:
                p = vf.ap(M, I.ops[0])
                seen[t[1]] = I
                rep.check(p == ('arg', pos[ORIG[t[1]]]), 'original|%s' % t[1], 'the statistic %s is set to %s at %s instead of the '
                          'size %s passed in' % (t[1], vf.path(p), fmt(I), ORIG[t[1]]), '%s <- %s' % (t[1], ORIG[t[1]]))
    M = vf.module('release', entries=['run_presolver', 'postsolve'], noinline=())
    n = 0
    for g in M.functions.values():
        if g.is_decl or g.name == 'new_presolver':
            continue
        for I in g.instrs():
            if I.op == 'store':
                t = vf.pfield(M, I.ops[1])
                if t and t[0] == 'PresolveStats' and t[1] in ORIG:
                    v = I.ops[0]
                    if not (v.op == 'load' and vf.pfield(M, v.ops[0]) == t):
                        rep.bad('original|%s|%s' % (t[1], g.name), '%s changes the statistic %s, which records the size of the '
                                'original problem, at %s' % (g.name, t[1], fmt(I)))
                else:
                    n += 1
    rep.ok('no other function stores into the original sizes', n=n)
    for k in ORIG:
        if k not in seen:
            rep.bad('original|%s' % k, 'new_presolver does not record %s' % k)


def unchanged(rep, M, f, S, taken, UNC, RED):
    """which of UNCHANGED/REDUCED is returned under each outcome of the three size comparisons"""
    cmp = {}
    for I in f.instrs():
        if I.op != 'icmp':
            continue
        ps = [vf.ap(M, o) for o in I.ops]
        for a, b in ((0, 1), (1, 0)):
            if ps[a][:2] in [('PresolveStats', k) for k in PAIR]:
                k = PAIR[ps[a][1]]
                other = ps[b]
                if other in SIZE[k] or other[:2] == ('PresolveStats', [x for x in STATS if STATS[x] is SIZE[k]][0]):
                    cmp[I] = (k, a)
                elif any(other in SIZE[q] for q in SIZE if q != k):
                    rep.bad('unchanged|pair', 'the original number of %s is compared with %s at %s' % (k, vf.path(other), fmt(I)))
    und = 0
    starts = []
    for I in f.instrs():
        if I.op == 'store':
            t = vf.target(M, I.ops[1])
            if t and t[0] == 'PresolvedProblem' and I.bb not in starts:
                starts.append(I.bb)
    for bits in range(8):
        eq = {k: bool(bits >> j & 1) for j, k in enumerate(('m', 'n', 'nnz'))}

        def assume(I, env, _ex):
            if I not in cmp:
                return None
            k, a = cmp[I]
            p = I.pred
            if eq[k]:
                return kconst(1, int(p in ('eq', 'uge', 'ule', 'sge', 'sle')))
            if p in ('eq', 'ne'):
                return kconst(1, int(p == 'ne'))
            gt = a == 0     # original on the left, and original > reduced
            return kconst(1, int((p[1:] in ('gt', 'ge')) == gt))
        ex = flow.Explorer(f, assume=assume, split=p_api.splitter(S, taken))
        got = set()

        def on(I, env, tag, key):
            if I.op == 'ret':
                got.update(possible(ex.get(env, I.ops[0])))
            return None
        ex.run([(b, 0, {}, frozenset()) for b in starts], on_instr=on)
        want = {UNC} if all(eq.values()) else {RED}
        if got == want:
            rep.ok('sizes equal %s -> %s' % (eq, want))
        elif len(got & {UNC, RED}) == 1:
            rep.bad('unchanged|%s' % ''.join(k for k in sorted(eq) if eq[k]), 'run_presolver returns %s when %s' % (
                'UNCHANGED' if UNC in got else 'REDUCED', ', '.join('%s of %s' % ('the same number' if eq[k] else 'a smaller number', k) for k in eq)))
        else:
            und += 1
    if und:
        rep.cov['status comparisons undecided'] = und
