"""Comparisons of bounds, sides and implied values: what each outcome of a comparison proves."""
import itertools
import dirn
import flow
from absint import N, P, Z
from dirn import BND, INF, Sg, Split, Und, cert, mmul, padd
from p_dir import Judge, keyname, single

ABSTOL, RELTOL = 1e-3, 1e-5
SIGNS = (Sg(dirn.N), Sg(P))
EQ = (4, 3)
ROWTAGS = ((0, 7), (1, 6), (2, 5), EQ)
OWN = ('lb', 'ub', 'lhs', 'rhs')


def small(m, c):
    """is the term a tolerance?"""
    return abs(c) <= (RELTOL if any(e > 0 for f, e in m) else ABSTOL)


def infterm(p):
    return any((INF, e) in m for m in p for e in (1, -1))


class Cmp:
    """the comparison I compares k * M * (D - p + eps), or its absolute value, with zero"""
    __slots__ = ('I', 'D', 'p', 'k', 'ab', 'eps', 'M')

    def __init__(s, I, D, p, k, ab, M):
        s.I, s.D, s.k, s.ab, s.M = I, D, k, ab, M
        s.eps = -sum(c for m, c in p.items() if small(m, c))
        s.p = {m: c for m, c in p.items() if not small(m, c)}

    def outcome(s, ge):
        """the outcome (1 / 0) that says D + eps >= p (ge) or <= p, for an absolute difference: that they are close"""
        q = s.I.pred[1:]
        if q not in ('gt', 'ge', 'lt', 'le'):
            return None
        up = q in ('gt', 'ge')
        if s.ab:
            return 0 if up else 1
        return int((up == (s.k > 0)) == ge)


def candidates(I, x, y):
    """the ways to read the comparison of x and y as one of a bound or side with another value"""
    d = padd(x, y, -1.0)
    ab = False
    big = [m for m in d if not small(m, d[m])]
    if len(big) == 1 and len(big[0]) == 1 and big[0][0][0][0] == 'abs' and big[0][0][1] == 1:
        ab = True
        d = dict(big[0][0][0][1])
    out, seen = [], set()
    com = None
    for m in d:
        if not small(m, d[m]):
            s = {(f, e) for f, e in m if f[0] not in BND + ('a', 'q', 'c') and e == 1}
            com = s if com is None else com & s
    M = tuple(sorted(com or (), key=repr))
    n = {mmul(m, M, -1): c for m, c in d.items()}

    def add(D, k):
        if (D, k) not in seen:
            seen.add((D, k))
            p = padd(dirn.atom(D), n, -1.0 / k)
            out.append(Cmp(I, D, p, k, ab, M))
    for m, c in n.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0][0] in OWN:
            add(m[0][0], c)
    if not ab and not M:
        for v, k in ((x, 1.0), (y, -1.0)):
            v = {m: c for m, c in v.items() if not small(m, c)}
            t = single(v)
            if t and t[0] in OWN:
                add(t, k)
    # a bound that cancels on the way
    for m in n:
        for f, e in m:
            if f[0] == 'a' and e == -1 and f[2] is not None:
                for b in ('lb', 'ub'):
                    for k in (1.0, -1.0):
                        add((b, f[2]), k)
    return out


class Fake:
    """a value that is compared with the datum D at the comparison I, judged like a store to D"""
    def __init__(s, I, D, ops):
        s.I, s.place, s.val, s.ch, s.ops = I, D, None, (), ops

    kind = property(lambda s: s.place[0])
    col = property(lambda s: s.place[1])

    def live(s, R):
        return s.I.bb in R.exe

    def alts(s, E, v=None):
        return [(c.p, {}) for (x, y), ch in E.join(*s.ops) or () for c in candidates(s.I, x, y) if c.D == s.place]


class Facts(Judge):
    """what the comparisons of a function prove"""
    def __init__(s, F):
        super().__init__(F)
        s.memo, s.reach, s.carried = {}, {}, set()
        s.idom = flow.dominators(F.f)
        E = F.eval({}, False)
        s.rt = {F.S.place(I.ops[0]) for I in F.f.instrs() if I.op == 'load'}
        s.fc = []
        for I in F.f.instrs():
            if I.op == 'fcmp' and I.pred[1:] in ('gt', 'ge', 'lt', 'le'):
                j = E.join(*I.ops)
                if j and any(f[0] in BND for (x, y), ch in j for p in (x, y) for m in p for f in flat(m)):
                    s.fc.append(I)

    def merge(s, E, sink, other, t, p):
        raise Und('another column')

    def valid(s, E, A, c, up):
        """is c.p a valid upper (up) / lower bound of the variable of c.D?"""
        D, p = c.D, c.p
        if not p and keyname(D[1]).startswith('empty_rows'):
            return True
        k = Fake(c.I, D, c.I.ops)
        tgt = ('x' if D[0] in ('lb', 'ub') else 'r', D[1])
        k.place = (('ub' if up else 'lb') if tgt[0] == 'x' else ('rhs' if up else 'lhs'), D[1]) + D[2:]
        t = single(p)
        if t and t[0] in OWN and t[1:] == D[1:] and (t[0] in dirn.UP) == up:
            return True
        k.alts = lambda E, v=None, D=D: Fake(c.I, D, c.I.ops).alts(E)
        ex = s.exact(k, A, p)
        r = cert(E, p, up, tgt, lambda f: f[0] in ('lhs', 'rhs') and A.get(('row_tags', f[1])) == EQ or ex(f))
        if isinstance(r, tuple):
            r = s.form(E, A, k, r[1], tgt, p)
        if r is not None and tgt[0] == 'r' and any(f[0] in ('lhs', 'rhs') and f[1] != D[1] and ('row_tags', f[1]) not in A
                                                      for m in p for f, e in m):
            raise Und('sides of several rows')
        return r is None

    def form(s, E, A, sink, vs, tgt, p):
        rs = [(v, ts) for v, ts in vs.items() if v[0] == 'r']
        xs = [(v, ts) for v, ts in vs.items() if v[0] == 'x']
        if tgt[0] == 'r' and len(rs) == 2 and not xs and all(len(ts) == 1 for v, ts in rs):
            # a multiple of a parallel row
            (v, (m, c)), = [(v, ts[0]) for v, ts in rs if v != tgt]
            for f, e in m:
                if f[0] == 'a' and f[1] is not None and f[1] != (tgt if e > 0 else v)[1]:
                    if E.R.first:
                        return 'the wrong multiple of a row'
                    raise Und('multiple of a row')
            if sum(e for f, e in m) == 0 and len(m) in (0, 2) and all(f[0] in ('a', 'q') for f, e in m):
                return None
        return super().form(E, A, sink, vs, tgt, p)

    def proves(s, I, A):
        """({(kind, datum, outcome): activities used}, splits, undecided?)"""
        k = (I, frozenset(A.items()))
        if k not in s.memo:
            s.memo[k] = s._proves(I, A)
        return s.memo[k]

    def _proves(s, I, A):
        E = s.F.eval(A, False)
        al = E.join(*I.ops)
        if al is None:
            return {}, set(), True
        if any(x == 'back' for a, ch in al for x in ch.values()):
            # the best of several, found by a loop
            s.carried |= {a for a, x in [y for p, ch in al for y in ch.items()] if x == 'back'}
            return {}, set(), True
        tot, spl, und, fix = None, set(), False, set()
        for (x, y), ch in al:
            if infterm(x) or infterm(y):
                o = s.infinite(I, x, y)
                fix |= {0, 1} if o is None else {o}
                continue
            else:
                if not any(m for q in (x, y) for m in q):
                    # the loop that finds a factor ran over nothing
                    continue
                got = {}
                for c in candidates(I, x, y):
                    g = s.fsigns(E, c.M)
                    use = frozenset(f for m in c.p for f, e in m if f[0] in ('min', 'max')) | s.sums(E, A, c)
                    ups = 0
                    for up in (False, True):
                        if c.outcome(True) is None:
                            continue
                        try:
                            ok = s.valid(E, A, c, up)
                        except Split as q:
                            spl.add((q.key, c.D))
                            continue
                        except Und:
                            und = True
                            continue
                        if not ok or E.R.first and c.D[0] in ('lhs', 'rhs'):
                            spl |= {(k, c.D) for k in s.rowtags(E, c)}
                        if not ok:
                            continue
                        if not g:
                            und = True
                            continue
                        ups += 1
                        for f in s.says(c, up, A):
                            got[f] = use
                    if ups == 2 and c.ab and c.D[0] in ('lhs', 'rhs') and A.get(('row_tags', c.D[1])) == EQ:
                        # an equality that another one contradicts
                        got['conflict', None, 1 - c.outcome(True)] = use
                und = und or not got and any(f[0] in ('?', 'acc') and len(f) > 1 for p in (x, y) for m in p for f in flat(m))
            tot = got if tot is None else {f: tot[f] | u for f, u in got.items() if f in tot}
        if tot is None and len(fix) == 1:
            return {('fixed', None, 1 - min(fix)): frozenset()}, spl, und
        return {f: u for f, u in (tot or {}).items() if f[2] not in fix}, spl, und

    def sums(s, E, A, c):
        """sums over the rest of the row of a bound: (min / max, row, column) and whether infinite contributions are left out"""
        out = set()
        for m, k in c.p.items():
            b = [f for f, e in m if f[0] in ('lb', 'ub')]
            a = [f for f, e in m if f[0] == 'a' and e == 1]
            if c.D[0] in ('lb', 'ub') and len(b) == 1 and len(a) == 1 and any(f[0] == 'sum' for f, e in m):
                t = ('col_tags', b[0][1])
                sg = E.fsign(a[0]) & ~Z
                if t in A or sg not in (N, P):
                    continue
                E2 = s.F.eval({**A, t: (5, 0)}, False)
                al = E2.join(*c.I.ops)
                skip = al is not None and not any(f == b[0] for ps, ch in al for p in ps for mm in p for f, e in mm)
                out.add(('sum', 'min' if (b[0][0] == 'lb') == (sg == P) else 'max', a[0][1], c.D[1], skip, 1 if c.D[0] == 'ub' else 4))
        return out

    def rowtags(s, E, c):
        """tags of the rows whose sides are compared, where the function looks at them"""
        if not E.R.first:
            return
        for r in {f[1] for m in c.p for f, e in m if f[0] in ('lhs', 'rhs')} | {c.D[1]}:
            if ('row_tags', r) in s.rt:
                yield 'row_tags', r

    def fsigns(s, E, M):
        for f, e in M:
            if E.fsign(f) & ~(P | Z):
                return False
        return True

    def says(s, c, up, A):
        """facts from a valid upper (up) / lower bound p"""
        out = s.say(c, up, c.D[0] in dirn.UP)
        if c.D[0] in ('lhs', 'rhs') and A.get(('row_tags', c.D[1])) == EQ:
            out += s.say(c, up, c.D[0] not in dirn.UP)
        return out

    def say(s, c, up, hi):
        out = []
        if hi != up:
            # they meet: D <= p for an upper D
            o = c.outcome(not hi)
            if not c.ab and (c.eps >= 0 if hi else c.eps <= 0):
                out.append(('conflict', None, o))
            out.append(('close', c.D, o))
        elif not c.ab:
            o = c.outcome(hi)
            out.append(('red', c.D, o))
            if c.eps < 0 if hi else c.eps > 0:
                out.append(('strict', c.D, o))
        return out

    def infinite(s, I, x, y):
        """the outcome when one of the values is infinite"""
        q = I.pred[1:]
        cs = {c > 0 for m, c in padd(x, y, -1.0).items() if m == ((INF, 1),)}
        if len(cs) != 1 or any(f == INF for p in (x, y) for m in p for f, e in m if len(m) > 1) or q not in ('gt', 'ge', 'lt', 'le'):
            return None
        return int(min(cs) == (q in ('gt', 'ge')))

    def ahead(s, at):
        """blocks from which the block is reached without going round a loop"""
        if at not in s.reach:
            seen, st = {at}, [at]
            while st:
                b = st.pop()
                for p in b.preds:
                    if p not in seen and p in s.idom and not flow.dominates(s.idom, b, p):
                        seen.add(p)
                        st.append(p)
            s.reach[at] = seen
        return s.reach[at]

    def state(s, A, want, drop=None, at=None):
        """assumption that no wanted fact is found, splits and undecided comparisons"""
        R = s.F.run(A)
        B, spl, und, use = dict(A), set(), [], set()
        near = s.ahead(at) if at else R.exe
        for I in s.fc:
            if I.bb not in R.exe or I.bb not in near:
                continue
            fs, sp, un = s.proves(I, A)
            n = 0
            for f, u in fs.items():
                if f[0] == 'fixed' or want(f):
                    if drop and drop in u:
                        continue
                    B[('ssa', I)] = 1 - f[2]
                    use |= u
                    n += 1
            if not n:
                spl |= {k for k, D in sp if any(want((x, D, o)) for x in KINDS for o in (0, 1))}
                if un:
                    und.append(I)
        return B, spl - set(A), und, use

    def decide(s, live, want, base=(), at=None):
        """None when live is impossible without a wanted fact; ('bad', A), ('act', A, activity) or ('und',)"""
        r = s.decide1(live, want, base, at)
        if r == ('und',) and s.carried:
            r = s.decide1(live, want, {**dict(base), **{('first', h): 1 for h in s.carried}}, at)
        if r and r[0] == 'bad':
            # counts of infinite contributions are not negative
            ks = sorted({k for k in s.counts() if k not in dict(base)}, key=repr)
            if ks and len(ks) <= 2:
                for vs in itertools.product((0, 1, 2), repeat=len(ks)):
                    q = s.decide1(live, want, {**dict(base), **{k: (v, ~v) for k, v in zip(ks, vs)}}, at)
                    if q:
                        return r if q[0] == 'bad' else q
                return None
        return r

    def counts(s):
        if s._counts is None:
            s._counts = {pl for I in s.F.f.instrs() if I.op == 'load' and I.ty.kind == 'int'
                         for pl in [s.F.S.place(I.ops[0])] if pl and pl[0] in ('n_inf_min', 'n_inf_max')}
        return s._counts

    _counts = None

    def decide1(s, live, want, base, at):
        st = [dict(base)]
        n = 0
        while st:
            A = st.pop()
            n += 1
            if n > 300:
                return ('und',)
            if not live(s.F.run(A)):
                continue
            B, spl, und, use = s.state(A, want, at=at)
            if live(s.F.run(B)) and not s.cases(live, B, A, at):
                if spl:
                    k = sorted(spl, key=repr)[0]
                    st += [{**A, k: v} for v in (ROWTAGS if k[0] == 'row_tags' else SIGNS)]
                    continue
                if s.hidden(live, B, und):
                    return ('und',)
                return s.decide1(live, want, base, None) if at else ('bad', A)
            for q in use:
                r = s.lost(live, want, A, q, at)
                if r:
                    return r
        return None

    def cases(s, live, B, A, at):
        """impossible whatever the other comparisons say?"""
        R = s.F.run(A)
        near = s.ahead(at) if at else R.exe
        o = [('ssa', I) for I in s.fc if I.bb in R.exe and I.bb in near and ('ssa', I) not in B]
        st = [B]
        n = 0
        for k in o[:8]:
            st = [C for b in st for v in (0, 1) for C in ({**b, k: v},) if live(s.F.run(C))]
            n += 1
            if len(st) == 2 ** n and n > 4:
                return False
        return not st

    def hidden(s, live, B, und):
        """could the comparisons that are not understood be what decides?"""
        if len(und) > 6:
            return True
        return any(not live(s.F.run({**B, **{('ssa', I): x for I, x in zip(und, xs)}})) for xs in itertools.product((0, 1), repeat=len(und)))

    def lost(s, live, want, A, q, at):
        """can the fact be gone because the activity q is infinite?"""
        if q[0] == 'sum':
            # every contribution but that of the column itself must be finite
            k, r = q[1:3]
            t = ('col_tags', q[3])
            sc = [{('n_inf_' + k, r): (2, ~2)}]
            if q[4] and not A.get(t, (0, 0))[0] & q[5]:
                sc.append({('n_inf_' + k, r): (1, ~1), t: tuple(x | y for x, y in zip(A.get(t, (0, 0)), (0, q[5])))})
        else:
            k, r = q
            sc = [{('n_inf_' + k, r): (v, ~v)} for v in (1, 2)]
        for x in sc:
            for t in ROWTAGS:
                A1 = {**A, **x}
                if A1.setdefault(('row_tags', r), t) != t or not live(s.F.run(A1)):
                    continue
                B1, sp, und, us = s.state(A1, want, q, at)
                if live(s.F.run(B1)) and not s.cases(live, B1, A1, at):
                    if sp or s.hidden(live, B1, und):
                        return ('und',)
                    return ('act', A1, q)
        return None


KINDS = ('conflict', 'close', 'red', 'strict')


def flat(m):
    """all factors, those inside absolute values included"""
    out = []
    for f, e in m:
        out.append(f)
        if f[0] == 'abs':
            for mm, c in f[1]:
                out += flat(mm)
    return out
