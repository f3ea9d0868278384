"""Optimality arguments: a column is fixed at one of its own bounds or sent to infinity, an inequality becomes an equality, a
problem is called unbounded or infeasible and parallel columns are merged only where the signs of the cost and the coefficients
and the infinite sides and bounds allow it."""
import cmpr
import dirn
import p_dir
import vf
from absint import N, P, Z, Sg
from check import fan
from dirn import Und, mmul
from p_dir import functions, keyname, single, where

UNBND = 6
LIMIT = 6000
SIGNS = (Sg(N), Sg(P))


class Edge:
    """a place where a constant verdict is chosen"""
    def __init__(s, I, k, x):
        s.I, s.k, s.x = I, k, x

    def live(s, R):
        if s.I.bb not in R.exe:
            return False
        if s.I.op == 'phi':
            return (s.x, s.I.bb) in R.edges
        if s.I.op == 'select':
            return R.bool(s.k) in (None, s.x)
        return True

    @property
    def loc(s):
        return s.x.ins[-1] if s.I.op == 'phi' else s.I


def verdicts(F, val):
    """edges on which the status val is chosen that reaches the return value, directly or through tests of it"""
    f = F.f
    seen, st, out = set(), [], []
    for I in f.instrs():
        if I.op == 'ret' and I.ops:
            st.append(I.ops[0])
    while st:
        v = st.pop()
        if v in seen or v.op == 'const':
            continue
        seen.add(v)
        w = [v]
        if v.op == 'phi':
            for o, b in v.inc:
                if o.op == 'const' and o.kind == 'int' and o.val == val and o.ty.width > 2:
                    out.append(Edge(v, None, b))
        elif v.op == 'select':
            for o, x in ((v.ops[1], True), (v.ops[2], False)):
                if o.op == 'const' and o.kind == 'int' and o.val == val and o.ty.width > 2:
                    out.append(Edge(v, v.ops[0], x))
        elif v.op == 'or':
            if any(o.op == 'const' and o.val == val for o in v.ops):
                out.append(Edge(v, None, None))
        c = [o.val for o in v.ops if o.op == 'const' and o.kind == 'int']
        if v.op == 'icmp' and c and c[0] != val and not any(o.op == 'and' for o in v.ops) or v.op == 'and' and c and not c[0] & val:
            continue
        if v.op in ('phi', 'select', 'or', 'and', 'icmp', 'trunc', 'zext', 'freeze', 'xor', 'add', 'sub', 'shl', 'lshr'):
            st += [o for o in v.ops if o.ty is not None and o.ty.kind == 'int']
        if v.op == 'load':
            b, off = vf.root(F.M, v.ops[0])
            st += list(F.S.st.get((b, off), ()))
    return [e for e in out if reaches(F, e, val) and not derived(e, seen)]


def reaches(F, e, val):
    """may the function return the status when the value is chosen (and is it a status at all)?"""
    if e.I.op == 'or':
        return True
    R = F.run({('ssa', e.I): (val, ~val)})
    for I in F.f.instrs():
        if I.op == 'ret' and I.bb in R.exe:
            x = R.get(I.ops[0])
            if x is None or not getattr(x, 'z', 0) & val:
                return True
    return False


def derived(e, seen):
    """chosen because a status that is followed too has the value"""
    if e.I.op == 'select':
        c = e.k
    elif e.I.op == 'phi':
        b, p = e.x, e.I.bb
        while True:
            t = b.ins[-1]
            if t.op == 'br' and t.ops:
                c = t.ops[0]
                break
            if len(b.preds) != 1:
                return False
            b = b.preds[0]
    else:
        return False
    if c.op != 'icmp':
        return False
    v = [o for o in c.ops if o.op != 'const']
    if len(v) == 1 and v[0].op == 'and' and any(o.op == 'const' for o in v[0].ops):
        v = [o for o in v[0].ops if o.op != 'const']
    return len(v) == 1 and v[0] in seen and v[0].ty.width > 2


class Dual:
    def __init__(s, F):
        s.F = F
        s.S = F.S
        s.costs, s.co, s.lock, s.tags, s.rt = {}, {}, set(), set(), set()
        for I in F.f.instrs():
            if I.op != 'load':
                continue
            pl = F.S.place(I.ops[0])
            if not pl:
                continue
            if pl[0] == 'c':
                s.costs.setdefault(pl[1], []).append(I)
            elif pl[0] == 'a' and pl[1] is not None and pl[2] is not None:
                s.co.setdefault(pl[2], {}).setdefault(pl, []).append(I)
            elif pl[0] in ('up', 'down'):
                s.lock.add(pl)
            elif pl[0] == 'col_tags':
                s.tags.add(pl)
            elif pl[0] == 'row_tags':
                s.rt.add(pl)
        s.loc = {}
        s.cmps = None
        s.facts = cmpr.Facts(F)

    def coefs(s, k):
        """(row, coefficient) of the column where the tag of the row is looked at"""
        return [(a[1], a) for a in s.co.get(k, ()) if ('row_tags', a[1]) in s.rt]

    def closing(s, k, up):
        """facts that let the column be fixed at its upper (up) / lower bound for other reasons: its bounds, or a bound and what is
        implied for it, meet there"""
        return lambda f: f[0] == 'close' and f[1][:2] == (('ub' if up else 'lb'), k)

    # ------------------------------------------------------------ parallel columns
    def pairs(s):
        """comparisons of the costs of two columns with parallel coefficients: [(fcmp, (k, j), factor, exact?)]: the compared
        difference is factor * (c_k - a_k / a_j * c_j)"""
        if s.cmps is not None:
            return s.cmps
        s.cmps = []
        E = s.F.eval({}, False)
        for I in s.F.f.instrs():
            if I.op != 'fcmp':
                continue
            j = E.join(I.ops[0], I.ops[1])
            if not j or len(j) != 1:
                continue
            (x, y), ch = j[0]
            ab = None
            d = dirn.padd(x, y, -1.0)
            fs = [f for m in d for f, e in m if f[0] == 'abs']
            if fs:
                rest = {m: c for m, c in d.items() if not any(f is fs[0] for f, e in m)}
                if len(fs) != 1 or any(m for m in rest):
                    continue
                d = dict(fs[0][1])
                ab = I
            q = s.pair(d)
            if q:
                s.cmps.append((I, q[0], q[1], ab is not None))
        return s.cmps

    def pair(s, d):
        if len(d) != 2:
            return None
        t = []
        for m, c in d.items():
            cs = [f for f, e in m if f[0] == 'c' and e == 1]
            if len(cs) != 1 or any(f[0] not in ('a', 'q', 'c') for f, e in m):
                return None
            t.append((cs[0][1], tuple(x for x in m if x[0] is not cs[0]), c))
        (k, mk, ck), (j, mj, cj) = sorted(t, key=lambda x: repr(x[0]), reverse=True)
        if abs(ck + cj) > 1e-12 * abs(ck) or k == j:
            return None
        r = mmul(mj, mk, -1)
        num = [f for f, e in r if e == 1]
        den = [f for f, e in r if e == -1]
        if len(num) != 1 or len(den) != 1 or len(r) != 2 or num[0][0] != 'a' or den[0][0] != 'a':
            return None
        if num[0][2] != k or den[0][2] != j:
            return None
        return (k, j, num[0], den[0]), (mk, ck)

    # ------------------------------------------------------------ justification of one case
    def tag(s, A, pl, bit):
        """True / False / None"""
        x = A.get(pl)
        if x is None:
            return None
        return True if x[0] & bit else False if x[1] & bit else None

    def free(s, A, k, up, ask):
        """can the column move (up / down) without ever hurting a row? ask(key) asks for a case distinction"""
        if keyname(k).startswith('empty_cols'):
            return True
        r = False
        for pl in s.lock:
            if pl[0] == ('up' if up else 'down') and pl[1] == k:
                x = A.get(pl)
                if x is None:
                    ask(pl)
                elif x[0] == 0:
                    return True
        cs = s.coefs(k)
        if cs:
            ok = True
            for row, a in cs:
                g = A.get(a)
                if g is None:
                    ask(a)
                    ok = False
                    continue
                # the side that blocks the move
                bit = 2 if (g.m == P) == up else 1
                t = s.tag(A, ('row_tags', row), bit)
                if t is None:
                    ask(('row_tags', row))
                    ok = False
                elif not t:
                    ok = False
            r = r or ok
        return r

    def mayfree(s, k):
        """does the function look at anything that could tell that the column is free to move?"""
        return keyname(k).startswith('empty_cols') or any(p[1] == k for p in s.lock) or bool(s.coefs(k))

    def cost(s, A, k, ask):
        x = A.get(('c', k))
        if x is None:
            ask(('c', k))
            return None
        return x.m

    def par(s, A, k, ask):
        """[(sign of the cost advantage, sign of the multiple, other column, is k the first?)]: c_k - r * c_j"""
        out = []
        for q in {q for I, q, fac, ab in s.pairs()}:
            if k not in (q[0], q[1]):
                continue
            t = A.get(('cmp', q))
            if t is None:
                ask(('cmp', q))
                continue
            g = [A.get(a) for a in q[2:]]
            for a, x in zip(q[2:], g):
                if x is None:
                    ask(a)
            if None in g:
                continue
            r = P if g[0].m == g[1].m else N
            out.append((t.m, r, q))
        return out

    def fix(s, A, k, up, ask, strict=False):
        """may column k be moved to its upper (up) / lower bound?"""
        c = s.cost(A, k, ask) if s.mayfree(k) else None
        if c is not None and (c in ((N,) if up else (P,)) or c == Z and not strict) and s.free(A, k, up, ask):
            return True
        for t, r, q in s.par(A, k, ask):
            kk, j = q[0], q[1]
            if t == Z:
                continue
            # moving k down and j by r up pays when t is positive
            if k == kk:
                if (t == N) != up:
                    continue
                o, oup = j, (r == P) != up
            else:
                # j moves up by |r| when k moves down (t > 0, r > 0)
                jup = (t == P) == (r == P)
                if jup != up:
                    continue
                o, oup = kk, t == N
            bit = 4 if oup else 1
            x = s.tag(A, ('col_tags', o), bit)
            if x is None:
                ask(('col_tags', o))
            elif x:
                return True
        return False

    def ray(s, A, k, ask):
        """is the problem unbounded or infeasible because column k can move for ever?"""
        for up in (False, True):
            x = s.tag(A, ('col_tags', k), 4 if up else 1)
            if x is None:
                ask(('col_tags', k))
            if x is not False and s.fix(A, k, up, ask, True) and x:
                return True
        return False

    def active(s, A, k, a, up, ask, zero=False):
        """is the rhs (up) / lhs of the row active because of the cost of its column k with coefficient a?"""
        c = s.cost(A, k, ask)
        if c == Z and zero:
            return True
        g = A.get(a)
        if g is None:
            ask(a)
        if c is None or g is None or c == Z:
            return False
        return (c == g.m) != up

    def eq(s, A, r, ask):
        x = s.tag(A, ('row_tags', r), 4)
        if x is None:
            ask(('row_tags', r))
        return bool(x)

    # ------------------------------------------------------------ columns sent to infinity
    def inflist(s, I):
        return I.op == 'call' and I.callee is not None and (I.callee.name or '').startswith('iVec_append') and len(I.ops) >= 2 and \
            s.S.key(s.S.res(I.ops[0])) == ('ld', 'int_vec')

    def sent(s, I):
        """(column, sign) that is appended"""
        v = s.S.res(I.ops[1])
        if v.op == 'sub' and v.ops[0].op == 'const' and v.ops[0].val == 0:
            return s.S.ik(v.ops[1]), -1
        return s.S.ik(v), 1

    def toinf(s, A, k, up, ask):
        c = s.cost(A, k, ask)
        x = s.tag(A, ('col_tags', k), 4 if up else 1)
        if x is None:
            ask(('col_tags', k))
        return bool(c == Z and x and s.free(A, k, up, ask))

    # ------------------------------------------------------------ cases
    VALS = {'c': (Sg(N), Sg(Z), Sg(P)), 'a': (Sg(N), Sg(P)), 'up': ((0, ~0), (1, ~1)), 'down': ((0, ~0), (1, ~1)),
            'row_tags': ((0, 7), (1, 6), (2, 5), (4, 3)), 'col_tags': ((0, 5), (1, 4), (4, 1), (5, 0)), 'cmp': (Sg(N), Sg(Z), Sg(P))}

    def expand(s, A):
        """assumptions on compared values"""
        B = {}
        for k, v in A.items():
            if k[0] != 'cmp':
                B[k] = v
                continue
            for I, q, fac, ab in s.pairs():
                if q != k[1]:
                    continue
                if ab:
                    if v.m != Z:
                        B[('ssa', I)] = 1 if I.pred[1:] in ('gt', 'ge') else 0
                    else:
                        B[('ssa', I)] = 0 if I.pred[1:] in ('gt', 'ge') else 1
                    continue
                g = P if fac[1] > 0 else N
                ok = True
                for f, e in fac[0]:
                    x = A.get(f)
                    if e % 2 and not isinstance(x, Sg):
                        ok = False
                    elif e % 2 and x.m == N:
                        g = P if g == N else N
                if not ok:
                    continue
                d = v.m if g == P or v.m == Z else P if v.m == N else N
                p = I.pred[1:]
                d = {N: -1, Z: 0, P: 1}[d]
                B[('ssa', I)] = int({'gt': d > 0, 'ge': d >= 0, 'lt': d < 0, 'le': d <= 0, 'eq': d == 0, 'ne': d != 0}.get(p, True))
        return B

    ORDER = ('cmp', 'c', 'a', 'up', 'down', 'row_tags', 'col_tags')

    def pick(s, A, keys, live):
        """the distinction that rules out the most"""
        best = None
        keys.sort(key=lambda k: s.ORDER.index(k[0]) if k[0] in s.ORDER else len(s.ORDER))
        for k in keys:
            vs = s.VALS.get(k[0], SIGNS)
            n = 0
            for v in vs:
                B = s.expand({**A, k: v})
                n += live(s.F.run(B), B)
            if best is None or n / len(vs) < best[0] - 1e-9:
                best = (n / len(vs), k)
            if n == 0:
                break
        return best[1]

    def cases(s, live, good, want=None, at=None):
        """live cases that are not good and where no wanted fact was found: None, or the first such case; raises Und"""
        if want:
            r = s.facts.decide(lambda R: live(R, None), want, at=at)
            if r is None:
                return None
        st = [{}]
        n = 0
        while st:
            A = st.pop()
            n += 1
            if n > LIMIT:
                raise Und('too many cases')
            B = s.expand(A)
            if not live(s.F.run(B), B):
                continue
            keys = []
            if good(A, keys.append):
                continue
            und = []
            if want:
                B, spl, und, use = s.facts.state(B, want)
                if not live(s.F.run(B), B):
                    continue
                keys = keys or sorted(spl, key=repr)
            keys = [k for k in keys if k not in A]
            if not keys:
                for I in und:
                    if any(not live(s.F.run({**B, ('ssa', I): x}), {**B, ('ssa', I): x}) for x in (0, 1)):
                        raise Und('a comparison')
                return A
            k = s.pick(A, list(dict.fromkeys(keys)), live)
            for v in s.VALS.get(k[0], SIGNS):
                st.append({**A, k: v})
        return None


def showcase(A):
    w = {'c': 'cost', 'a': 'coefficient', 'up': 'up-locks', 'down': 'down-locks', 'cmp': 'cost advantage'}
    r = []
    for k, v in A.items():
        if k[0] == 'ssa':
            continue
        if isinstance(v, Sg):
            r.append('%s %s' % (w.get(k[0], k[0]), {N: 'negative', Z: 'zero', P: 'positive'}.get(v.m, '?')))
        elif k[0] in ('up', 'down'):
            r.append('%s %s' % ('no' if v[0] == 0 else 'some', w[k[0]]))
        else:
            b = {'row_tags': ('left side', 'right side', 'equality'), 'col_tags': ('lower bound', '', 'upper bound')}[k[0]]
            r.append(', '.join('%s %s' % (n, ('yes' if v[0] & bit else 'no') if n == 'equality' else 'infinite' if v[0] & bit else 'finite')
                               for n, bit in zip(b, (1, 2, 4)) if n and (v[0] & bit or n != 'equality')))
    return '; '.join(x for x in r if x)


def one_fn(F, rep):
    D = Dual(F)
    n, und = 0, {}
    todo = []
    E0 = F.eval({}, False)

    def has(sink, p):
        k = dirn.pkey(p)

        def live(R, A):
            if not sink.live(R):
                return False
            E = F.eval(R.assume if A is None else A, False)
            return any(dirn.pkey(q) == k for q, ch in sink.alts(E))
        return live

    def own(k, p, col, up):
        return ('%s: a column is fixed at its own %s bound' % (where(k.I), 'upper' if up else 'lower'), 'fix', has(k, p),
                lambda A, ask: D.fix(A, col, up, ask), D.closing(col, up), k.I.bb)

    for k in F.sinks:
        for p, ch in k.alts(E0):
            t = single(p)
            if k.kind in ('lb', 'ub') and t and t[0] in ('lb', 'ub') and t[0] != k.kind and t[1] == k.col:
                todo.append(own(k, p, k.col, t[0] == 'ub'))
            if k.kind in ('lhs', 'rhs') and t and t[0] in ('lhs', 'rhs') and t[0] != k.kind and t[1] == k.col:
                cs = [(c, a) for c in D.costs for a in D.co.get(c, ()) if a[1] == k.col]
                if cs:
                    todo.append(('%s: an inequality becomes an equality at its %s side' % (where(k.I), t[0]), 'side', has(k, p),
                                 lambda A, ask, cs=cs, up=t[0] == 'rhs': any([D.active(A, c, a, up, ask) for c, a in cs]), None, None))
            if k.kind == 'off':
                for m, c in p.items():
                    cs = [f for f, e in m if f[0] == 'c']
                    bs = [f for f, e in m if f[0] in ('lb', 'ub', 'lhs', 'rhs')]
                    if len(cs) != 1 or len(bs) != 1:
                        continue
                    b = bs[0]
                    if b[0] in ('lb', 'ub'):
                        if not keyname(cs[0][1]).startswith('fixed_cols_to_delete') and b[1] == cs[0][1]:
                            todo.append(own(k, p, b[1], b[0] == 'ub'))
                        continue
                    a = [f for f, e in m if f[0] == 'a' and e == -1]
                    if len(a) != 1 or a[0][1] != b[1] or a[0][2] != cs[0][1] or ('row_tags', b[1]) not in D.rt:
                        continue
                    todo.append(('%s: a column is substituted with its row at the %s side' % (where(k.I), b[0]), 'subst', has(k, p),
                                 lambda A, ask, c=cs[0][1], a=a[0], up=b[0] == 'rhs': D.eq(A, a[1], ask) or D.active(A, c, a, up, ask, True), None, None))
    for I in [I for I in F.f.instrs() if D.inflist(I)]:
        v, g = D.sent(I)
        if v not in D.costs or not any(p[1] == v for p in D.lock):
            continue
        todo.append(('%s: a column is sent to %sinfinity' % (where(I), '-' if g < 0 else ''), 'inf', lambda R, A, I=I: I.bb in R.exe,
                     lambda A, ask, v=v, up=g > 0: D.toinf(A, v, up, ask), None, None))
    for e in verdicts(F, UNBND):
        ks = sorted(D.costs, key=repr)
        todo.append(('%s: the problem is called unbounded or infeasible' % where(e.loc), 'verdict', lambda R, A, e=e: e.live(R),
                     lambda A, ask, ks=ks: any([D.ray(A, c, ask) for c in ks]), None, None))
    for txt, key, live, good, want, at in todo:
        n += 1
        try:
            A = D.cases(live, good, want, at)
        except Und as u:
            und[str(u)] = und.get(str(u), 0) + 1
            continue
        rep.check(A is None, '%s:%s:%s' % (F.f.name, key, txt), 'in %s, %s although it need not pay: %s' % (F.f.name, txt, showcase(A) if A is not None else ''))
    return {'n': n, 'und': und}


def dual(rep):
    t = fan(rep, functions(), one_fn)
    rep.cov['undecided'] = t.get('und', {})
    rep.need('optimality arguments', t['n'], 20)


DUAL_RULE = ('every store that fixes a column at its own bound (unless comparisons found its bounds to meet), sends it to infinity, turns an '
             'inequality into an equality at one side or substitutes with it, and every UNBNDORINFEAS verdict is unreachable in every '
             'combination of signs of cost and coefficients, locks, infinite sides and infinite bounds in which it is not optimal '
             '(cost pushes towards the bound or side and no row blocks; for parallel columns the sign of the cost difference)')
