"""Conclusions about redundancy and infeasibility follow from a comparison that implies them."""
import cmpr
from absint import N, P, Sg
from check import fan
from cmpr import EQ
from p_dir import functions, keyname, where
from p_dual import verdicts

INFEAS = 2
LHS_INF, RHS_INF, R_EQ, R_OFF = 1, 2, 4, 8
LB_INF, UB_INF = 1, 4
FINITE = (0, 7)


class Tag:
    """a store that may set a bit of a tag"""
    def __init__(s, I, key, bit):
        s.I, s.key, s.bit = I, key, bit
        s.bb = I.bb

    def live(s, R):
        if s.I.bb not in R.exe:
            return False
        x = R.get(s.I.ops[0])
        return x is None or not x.z & s.bit

    def __str__(s):
        return where(s.I)


def tags(F, kind, bit):
    out = []
    for I in F.f.instrs():
        if I.op == 'store' and I.ops[0].ty.kind == 'int':
            pl = F.S.place(I.ops[1])
            if pl and pl[0] == kind:
                k = Tag(I, pl[1], bit)
                if k.live(F.run({pl: (0, bit)})):
                    out.append(k)
    return out


def red(D, key):
    return lambda f: f[0] in ('red', 'strict') and f[1][:2] == (D, key)


class Just:
    def __init__(s, F):
        s.F = F
        s.J = cmpr.Facts(F)
        s.pl = {p for p in s.J.rt if p}
        s.todo = []

    def add(s, txt, key, live, want, base, at):
        s.todo.append((txt, key, live, want, base, at))

    def infeasible(s):
        for e in verdicts(s.F, INFEAS):
            s.add('%s: the problem is called infeasible' % where(e.loc), 'verdict', e.live, lambda f: f[0] == 'conflict', {}, e.loc.bb)

    def single(s, r):
        """the singleton columns of the row that the function works on: [(column, coefficient)]"""
        return [(p[2], p) for p in s.pl if p[0] == 'a' and p[1] == r and p[2] is not None and keyname(p[2]).startswith('ston_cols')]

    def sides(s):
        F = s.F
        for bit, D, o in ((LHS_INF, 'lhs', RHS_INF), (RHS_INF, 'rhs', LHS_INF)):
            for k in tags(F, 'row_tags', bit):
                t = ('row_tags', k.key)
                for c, a in s.single(k.key):
                    for g in (N, P):
                        b = 'ub' if (g == P) == (D == 'lhs') else 'lb'
                        s.add('%s: the %s side of an equality is dropped with the %s bound of a singleton column' % (k, D, b), D, k.live,
                              red(b, c), {t: EQ, a: Sg(g), ('col_tags', c): (0, 5)}, k.bb)
                for base in (FINITE, (o, 7 & ~o)):
                    s.add('%s: the %s side of a row is dropped' % (k, D), D, k.live, red(D, k.key), {t: base}, k.bb)

    def rows(s):
        F = s.F
        for k in tags(F, 'row_tags', R_OFF):
            t = ('row_tags', k.key)
            n = keyname(k.key)
            sc = s.single(k.key)
            if sc:
                for c, a in sc:
                    for b, o, bit in (('lb', 'ub', LB_INF), ('ub', 'lb', UB_INF)):
                        for base in ((0, 5), (5 - bit, bit)):
                            for tg in (EQ, FINITE):
                                s.add('%s: a row is dropped with the %s bound of its singleton column' % (k, b), 'row', k.live, red(b, c),
                                      {t: tg, ('col_tags', c): base}, k.bb)
            elif n.startswith(('updated_activities', 'empty_rows')):
                for D, o in (('lhs', RHS_INF), ('rhs', LHS_INF)):
                    for base in (FINITE, (o, 7 & ~o)):
                        s.add('%s: a row with a finite %s side is dropped' % (k, D), 'row', k.live, red(D, k.key), {t: base}, k.bb)

    def bounds(s):
        F = s.F
        cols = {p for p in s.pl if p[0] == 'col_tags'}
        for bit, b in ((LB_INF, 'lb'), (UB_INF, 'ub')):
            for k in tags(F, 'col_tags', bit):
                t = ('col_tags', k.key)
                for base in ((0, 5), (5 - bit, bit)):
                    A = {t: base}
                    if len(cols) > 1:
                        # columns that are merged: infinite because of the other one
                        A = {**{x: (0, 5) for x in cols if not keyname(x[1]).startswith('A.i')}, t: base}
                    s.add('%s: the %s bound of a column is dropped' % (k, b), b, k.live, red(b, k.key), A, k.bb)

    def equal(s):
        F = s.F
        for k in tags(F, 'row_tags', R_EQ):
            sc = s.single(k.key)
            if not sc:
                s.add('%s: an inequality becomes an equality' % k, 'eq', k.live,
                      lambda f, r=k.key: f[0] == 'close' and f[1][0] in ('lhs', 'rhs') and f[1][1] == r, {('row_tags', k.key): FINITE}, k.bb)
            for c, a in sc:
                for g in (N, P):
                    for cs in (N, P):
                        b = 'lb' if cs == P else 'ub'
                        for base in (FINITE, (1, 6), (2, 5)):
                            s.add('%s: an inequality becomes an equality although its singleton column may be at its %s bound' % (k, b), 'eq',
                                  k.live, lambda f, b=b, c=c: f[0] == 'strict' and f[1][:2] == (b, c),
                                  {('row_tags', k.key): base, ('c', c): Sg(cs), a: Sg(g), ('col_tags', c): (0, 5)}, k.bb)


def show(A):
    r = []
    for k, v in A.items():
        if k[0] == 'a' and isinstance(v, Sg):
            r.append('coefficient %s' % ('positive' if v.m == P else 'negative'))
        elif k[0] == 'c' and isinstance(v, Sg):
            r.append('cost %s' % ('positive' if v.m == P else 'negative'))
        elif k[0] == 'row_tags':
            r.append({FINITE: 'both sides finite', (1, 6): 'left side infinite', (2, 5): 'right side infinite', EQ: 'equality'}.get(v, ''))
    return ', '.join(dict.fromkeys(x for x in r if x)) or 'always'


def one_fn(F, rep):
    W = Just(F)
    W.infeasible()
    W.sides()
    W.rows()
    W.bounds()
    W.equal()
    n, und = 0, {}
    for txt, key, live, want, base, at in W.todo:
        if not live(F.run(base)):
            continue
        n += 1
        r = W.J.decide(live, want, base, at)
        if r == ('und',):
            und[txt] = und.get(txt, 0) + 1
            continue
        why = ''
        if r:
            why = '%s although no comparison that was made implies it: %s' % (txt, show(r[1]))
            if r[0] == 'act':
                why = '%s on the strength of the %simum activity of a row, which may be infinite: %s' % (txt, r[2][1] if r[2][0] == 'sum' else r[2][0], show(r[1]))
        rep.check(r is None, '%s:%s:%s' % (F.f.name, key, txt), 'in %s, %s' % (F.f.name, why))
    return {'n': n, 'und': und}


def just(rep):
    t = fan(rep, functions(), one_fn)
    rep.cov['undecided'] = t.get('und', {})
    rep.need('conclusions', t['n'], 40)


JUST_RULE = ('every INFEASIBLE verdict, every store that drops a side of a row or a bound of a column, deactivates a row that is not empty of '
             'finite sides, or turns an inequality into an equality is unreachable once all comparisons that imply it (a bound or side against '
             'a value implied by rows, bounds and finite activities, with the right direction) are assumed to go the other way')
