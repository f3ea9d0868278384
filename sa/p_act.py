"""Row activities: every value stored is a valid bound of the row, infinite contributions are never lost, every change of a
bound, a coefficient or a column reaches the activities of its rows."""
import os
import build
import common
import dirn
import p_dir
import vf
from check import fan
from absint import N, P, Sg
from dirn import cert, same, BND
from p_dir import Judge, Sink, functions, infinite, where, keyname, one


class Act(Judge):
    def __init__(s, F):
        super().__init__(F)
        s.sums = {}
        F.cut = {v: ((p[0], p[1], 'new') if len(p) == 2 else p) for v, p in F.cut.items()}
        F.evs = {}
        s.cnt = []
        for I in F.f.instrs():
            if I.op == 'store' and I.ops[0].ty.kind == 'int':
                for pl, ch in F.places(I.ops[1]):
                    if pl[0] in ('n_inf_min', 'n_inf_max'):
                        s.cnt.append((Sink(I, pl, ch), pl, s.step(I.ops[0], pl, I.ops[1])))

    def initial(s, row, m):
        """is the activity or count set to zero before it is summed up?"""
        if not hasattr(s, '_in'):
            s._in = {(k.kind, k.col) for k in s.F.sinks if k.kind in ('min', 'max') and k.val.op == 'const' and k.val.val == 0}
            s._in |= {(pl[0], pl[1]) for k, pl, st in s.cnt if k.val.op == 'const' and k.val.val == 0}
        return (m, row) in s._in

    def step(s, v, pl, addr):
        """+1 / -1 when the value is the old one counted up / down"""
        S = s.F.S
        v = S.res(v)
        if v.op in ('add', 'sub'):
            for x, y in ((v.ops[0], v.ops[1]), (v.ops[1], v.ops[0])):
                if y.op == 'const' and y.val is not None:
                    x = S.res(x)
                    if x.op == 'load' and (S.place(x.ops[0]) == pl or S.res(x.ops[0]) is S.res(addr)) or x.op == 'phi':
                        c = y.val if v.op == 'add' else -y.val
                        c = c - (1 << 32) if c > 1 << 31 else c
                        return c
        return None

    def exact(s, sink, A, p):
        f0 = super().exact(sink, A, p)
        new = {id(I) for xs in s.F.pairs.values() for xy in xs for I in xy}

        def f(a):
            if a[0] in ('lb', 'ub') and len(a) > 2:
                return any(s.follows(sink, x) for x, y in s.F.pairs.get(a[1], ()))
            return f0(a)
        return f

    def act(s, sink):
        tgt = ('r', sink.col)
        up = sink.kind == 'max'

        def j(E, A, p, ch):
            if infinite(p):
                return None if (infinite(p) > 0) == up else 'an infinite value on the wrong side'
            if not p and s.initial(sink.col, sink.kind):
                return None
            r = cert(E, p, up, tgt, s.exact(sink, A, p))
            if not isinstance(r, tuple):
                return r
            return s.aform(E, A, sink, r[1], p)
        return j

    def aform(s, E, A, sink, vs, p):
        rs = [(v, ts) for v, ts in vs.items() if v[0] == 'r']
        xs = [(v, ts) for v, ts in vs.items() if v[0] == 'x']
        if len(rs) == 1 and rs[0][0] == ('r', sink.col) and rs[0][1] == [((), -1.0)]:
            for v, ts in xs:
                for m, c in ts:
                    su = [f for f, e in m if f[0] == 'sum']
                    co = [(f, e) for f, e in m if f[0] != 'sum']
                    if not one(c) or len(co) != 1 or co[0][1] != 1 or co[0][0][0] != 'a' or len(su) != 1:
                        return 'not the sum of coefficients times bounds: ' + s.showform(E, vs)
                    a = co[0][0]
                    if same(E, a[1], sink.col) is False:
                        return 'sums up another row'
                    if same(E, a[2], v[1]) is False:
                        return 'the bound of another column'
            return None
        if not rs and len(xs) == 1 and len(xs[0][1]) == 1:
            (v, ((m, c),)), = xs
            if len(m) == 1 and m[0][1] == 1 and m[0][0][0] in ('a', 'q') and one(abs(c)):
                a = m[0][0]
                if a[0] == 'a' and (same(E, a[1], sink.col) is False or same(E, a[2], v[1]) is False):
                    return 'the coefficient is not the one of the column in this row'
                return s.leaves(E, A, sink, a, v[1], c)
        return 'bounds another combination: ' + s.showform(E, vs)

    def leaves(s, E, A, sink, a, col, c):
        """one column's contribution is taken off or added: only where the column leaves or its coefficient or bound changes"""
        F = s.F
        if c > 0:
            return None if s.recoef(sink.col) or s.initial(sink.col, sink.kind) else 'the contribution of a column is added although no coefficient changes'
        for k in F.sinks:
            if k.kind in ('lhs', 'rhs') and k.col == sink.col:
                return None
        if s.recoef(sink.col) or any(pl[1] == sink.col and st == 1 for I, pl, st in s.cnt):
            return None
        return 'the contribution of a column that stays is taken off'

    def adds(s, m, c):
        """is the term a contribution that is added (what is taken off is in the activity already)?"""
        return c > 0 and any(f[0] in ('lb', 'ub') and len(f) == 2 for f, e in m) and any(f[0] == 'q' for f, e in m)

    def recoef(s, row):
        """does the function change coefficients of the row?"""
        F = s.F
        if not hasattr(F, '_rc'):
            F._rc = set()
            for I in F.f.instrs():
                if I.op == 'store' and I.ops[0].ty.kind == 'double':
                    pl = F.S.place(I.ops[1])
                    if pl and pl[0] == 'a':
                        F._rc.add(pl[1])
        return any(r is None or r == row or F.S.chosen(r) for r in F._rc)

    # ------------------------------------------------------------ what the stores do
    def collect(s):
        """per store of an activity: [(sink, signs, kind of change, coefficient, column, bound)]"""
        s.ks = []
        s.res = []
        for k in s.F.sinks:
            if k.kind not in ('min', 'max'):
                continue
            for A, p, r in s.F.each(k, s.act(k)):
                s.res.append((k, A, p, r))
                if p is None:
                    continue
                own = p.get(((k.place, 1),))
                if own is None:
                    if any(f[0] == 'sum' for m in p for f, e in m):
                        s.ks.append((k, A, 'all', None, None, None))
                    continue
                for m, c in p.items():
                    b = [f for f, e in m if f[0] in ('lb', 'ub')]
                    co = [f for f, e in m if f[0] in ('a', 'q')]
                    if len(b) == 1 and len(co) == 1 and len(m) == 2:
                        s.ks.append((k, A, 'new' if len(b[0]) > 2 else 'add' if c > 0 else 'off', co[0], b[0][1], b[0][0]))
                if len(p) == 1:
                    s.ks.append((k, A, 'same', None, None, None))

    def sign(s, A, a):
        x = A.get(a if a[0] == 'a' else s.F.S.key(a[2]))
        return x.m if isinstance(x, Sg) else N | P

    def akey(s, a):
        return a if a[0] == 'a' else s.F.S.key(a[2])

    def counts(s):
        """a contribution stops being counted as infinite only when it was: [(text, key, good)]"""
        out = []
        F = s.F
        for I, pl, st in s.cnt:
            m = pl[0][6:]
            if st is None:
                out += s.recount(I, pl, m)
                continue
            cs = {(a, c) for k, A, w, a, c, b in s.ks if k.col == pl[1] and a is not None}
            cs |= {(x, y) for x in s.coefs(pl[1]) for y in (x[2],)}
            txt = '%s: %s is counted %s' % (where(I.I), pl[0], 'down' if st < 0 else 'up')
            if st not in (1, -1):
                out.append((txt + ' by %d' % st, 'step', False))
                continue
            first = s.initial(pl[1], pl[0])
            if st > 0 and (not first or not cs):
                continue
            ok = False
            for a, c in cs:
                good = True
                for g, bit in ((P, 1), (N, 4)) if m == 'min' else ((P, 4), (N, 1)):
                    if I.live(F.run({s.akey(a): Sg(g), ('col_tags', c): (0, bit)})):
                        good = False
                if st > 0:
                    for g, bit in ((P, 1), (N, 4)) if m == 'min' else ((P, 4), (N, 1)):
                        good = good and any(q == pl and t == 1 and J.live(F.run({s.akey(a): Sg(g), ('col_tags', c): (bit, 0)}))
                                            and not J.live(F.run({s.akey(a): Sg(g), ('col_tags', c): (0, bit)})) for J, q, t in s.cnt)
                ok = ok or good
            if st > 0:
                out.append((txt + ' not exactly for the infinite bounds that matter', 'count', ok))
                continue
            out.append((txt + ' although the bound may be finite', 'count', ok))
            R = None
            rec = [k for k, A, w, a, c, b in s.ks if w == 'all' and k.col == pl[1] and k.kind == m]
            V = I.val
            R = F.run({('ssa', V): (0, ~0)})
            ok = any(k.live(R) and s.ahead(I.I.bb, k.I.bb, R) for k in rec)
            if ok:
                R = F.run(s.crossing(I, pl))
                ok = not s.avoids(I, [k for k in rec if k.live(R)], R)
            out.append(('%s: when the last infinite contribution goes the %simal activity is not recomputed' % (where(I.I), m), 'recompute', ok))
        return out

    def crossing(s, I, pl):
        """the count was one before the store I and is zero after it"""
        F = s.F
        A = {('ssa', I.val): (0, ~0)}
        v = F.S.res(I.val)
        for x in v.ops:
            if x.op != 'const':
                A[('ssa', x)] = (1, ~1)
        st = [I.val]
        while st:
            for u in st.pop().users:
                if u.op in ('phi', 'freeze') and u.bb not in F.S.lo and ('ssa', u) not in A:
                    A[('ssa', u)] = (0, ~0)
                    st.append(u)
        for L in F.f.instrs():
            if L.op == 'load' and L.ty.kind == 'int' and F.S.res(L) in (I.val, v):
                A[('ssa', L)] = (0, ~0)
        return A

    def avoids(s, I, rec, R):
        """is there a way from the store to the end of the pass through its loop (or the function) around every recomputation?"""
        no = {k.I.bb for k in rec}
        if I.I.bb in no:
            return False
        loops = [(len(b), h, b) for h, b in s.F.S.lo.items() if I.I.bb in b and any(x in b for x in no)]
        body = min(loops, key=lambda t: t[0])[1:] if loops else None
        seen, st = {I.I.bb}, [I.I.bb]
        while st:
            b = st.pop()
            if b.ins[-1].op == 'ret':
                return True
            for n in b.succs:
                if (b, n) not in R.edges or n in no:
                    continue
                if body and (n is body[0] or n not in body[1]):
                    return True
                if n not in seen:
                    seen.add(n)
                    st.append(n)
        return False

    def recount(s, I, pl, m):
        """a count made from scratch counts the infinite bounds that matter for the sign"""
        S, F = s.F.S, s.F
        seen, st, adds = set(), [I.val], []
        while st:
            x = st.pop()
            if x in seen or x.op == 'const':
                continue
            seen.add(x)
            if x.op in ('phi', 'select', 'freeze'):
                st += [o for o in x.ops if o.ty is not None and o.ty.kind == 'int' and o.ty.width > 1]
            elif x.op == 'add':
                c = [o for o in x.ops if o.op == 'const']
                z = [o for o in x.ops if o.op == 'zext' and o.ops[0].ty.width == 1]
                if len(c) == 1 and c[0].val == 1:
                    adds.append((x, None, None))
                    st += [o for o in x.ops if o is not c[0]]
                elif z:
                    adds.append((x, z[0].ops[0], 1))
                    st += [o for o in x.ops if o is not z[0]]
                else:
                    return []
            else:
                return []
        for n, (x, c, v) in enumerate(adds):
            u = [u for u in x.users if u.op == 'select']
            if u and (c is not None or len(x.users) != 1):
                return []
            if u:
                adds[n] = (x, u[0].ops[0], 1 if u[0].ops[1] is x else 0)
        if not adds:
            return []

        def may(R):
            return any(x.bb in R.exe and (c is None or R.bool(c) in (None, v)) for x, c, v in adds)
        cs = [a for a in s.coefs(pl[1])]
        need = ((P, 1), (N, 4)) if m == 'min' else ((P, 4), (N, 1))
        ok = False
        for a in cs:
            good = True
            for g, bit in need:
                R = F.run({a: Sg(g), ('col_tags', a[2]): (0, bit)})
                good = good and not may(R)
                R = F.run({a: Sg(g), ('col_tags', a[2]): (bit, 5 - bit)})
                good = good and may(R)
            ok = ok or good
        return [('%s: %s does not count exactly the infinite bounds that matter' % (where(I.I), pl[0]), 'recount', ok)]

    def coefs(s, row):
        """coefficients of the row the function loads"""
        F = s.F
        if not hasattr(F, '_cf'):
            F._cf = {}
            for I in F.f.instrs():
                if I.op == 'load' and I.ty.kind == 'double':
                    pl = F.S.place(I.ops[0])
                    if pl and pl[0] == 'a' and pl[1] is not None and pl[2] is not None:
                        F._cf.setdefault(pl[1], set()).add(pl)
        return F._cf.get(row, ())

    NEED = {('lb', P): 'min', ('lb', N): 'max', ('ub', P): 'max', ('ub', N): 'min'}

    def changes(s):
        """every change of a bound reaches the activities of the rows of the column"""
        out = []
        F = s.F
        if not s.ks and not s.cnt:
            return out
        for B in F.sinks:
            if B.kind not in ('lb', 'ub'):
                continue
            fix = any(B in xy for xy in F.pairs.get(B.col, ()))
            E = F.eval({}, False)
            E.top = B.val
            vals = [p for p, ch in B.alts(E)]
            inf = any(infinite(p) for p in vals)
            key = F.cut.get(B.val)
            if B.val in F.amb:
                key = (B.kind,) + key[1:]
            txt = '%s: %s' % (where(B.I), {'lb': 'a lower bound', 'ub': 'an upper bound'}[B.kind])
            if inf and not fix and len(vals) == 1:
                for g in (P, N):
                    m = s.NEED[B.kind, g]
                    ok = any(pl[0] == 'n_inf_' + m and st != -1 and s.same2(B, I, pl, g) for I, pl, st in s.cnt)
                    out.append(('%s becomes infinite but for a %s coefficient n_inf_%s does not count it' % (txt, 'positive' if g == P else 'negative', m), 'infinite', ok))
                continue
            if key is None or inf or all(p_dir.single(p) == B.place for p in vals):
                continue
            mine = [x for x in s.ks if x[2] == 'new' and x[4] == B.col and (x[5] == key[0])]
            merged = any(((f, 1),) in p for p in vals for f in [B.place]) and all(len(p) > 1 for p in vals)
            if merged:
                continue
            R0 = F.run({})
            mine = [x for x in mine if s.ahead(B.I.bb, x[0].I.bb, R0) and s.uses(x[0], B.val)]
            for g in (P, N):
                m = s.NEED[B.kind, g]
                ok = [x for x in mine if x[0].kind == m and s.sign(x[1], x[3]) & g]
                out.append(('%s changes but for a %s coefficient the %simal activity does not' % (txt, 'positive' if g == P else 'negative', m), 'change', bool(ok)))
                bit = 1 if B.kind == 'lb' else 4
                dec = False
                for k, A, w, a, c, b in ok:
                    R = F.run({s.akey(a): Sg(g), ('col_tags', c): (bit, 0)})
                    if any(pl == ('n_inf_' + m, k.col) and st == -1 and I.live(R) for I, pl, st in s.cnt):
                        dec = True
                if ok and not s.dead(B, {('col_tags', B.col): (bit, 0)}):
                    out.append(('%s becomes finite but for a %s coefficient n_inf_%s still counts it' % (txt, 'positive' if g == P else 'negative', m), 'finite', dec))
        return out

    def uses(s, k, v):
        """does the stored value depend on v?"""
        seen, st = set(), [k.val]
        while st:
            x = st.pop()
            if x is v:
                return True
            if x.op == 'const' or x in seen or len(seen) > 400:
                continue
            seen.add(x)
            st += [o for o in x.ops if o is v or o.op in ('phi', 'select', 'fadd', 'fsub', 'fmul', 'fdiv', 'call', 'fneg')]
        return False

    def same2(s, B, I, pl, g):
        """does the count follow the store, in a row of its column?"""
        F = s.F
        cs = [a for a in s.coefs(pl[1]) if same(F.eval({}, False), a[2], B.col) is not False]
        for a in cs or [None]:
            R = F.run({a: Sg(g)} if a else {})
            if I.live(R) and (s.ahead(B.I.bb, I.I.bb, R) or s.ahead(I.I.bb, B.I.bb, R)):
                return True
        return False

    def gone_cols(s):
        """a column that leaves a row leaves both activities"""
        out = []
        F = s.F
        for S in F.sinks:
            if S.kind not in ('lhs', 'rhs'):
                continue
            for A, p, r in F.each(S, s.side(S)):
                if p is None:
                    continue
                v = s.leaving(F.eval(A, True), S, p)
                if not v or v == 'inf' or len(v) != 1:
                    continue
                c, = v
                if any(f[0] in ('lhs', 'rhs') and f[1] == c for m in p for f, e in m):
                    continue
                co = [f for m in p for f, e in m if f[0] == 'a' and same(F.eval(A, True), f[2], c) is not False]
                txt = '%s: a column leaves the row' % where(S.I)
                fixed = keyname(c).startswith('fixed_cols_to_delete')
                for m in ('min', 'max'):
                    for a in co or [None]:
                        for g in (P, N) if a else (P,):
                            B0 = {**A, a: Sg(g)} if a else dict(A)
                            if a and a in A and A[a].m != g:
                                continue
                            B = {**B0, ('col_tags', c): (0, 5)}
                            R = F.run(B)
                            if not S.live(R):
                                continue
                            ok = any(k.kind == m and k.col == S.col and w == 'off' and cc == c and k.live(R) and s.near2(S, k.I, R)
                                     for k, AA, w, aa, cc, b in s.ks)
                            out.append(('%s with a %s coefficient but its contribution stays in the %simal activity' % (txt, 'positive' if g == P else 'negative', m), 'gone', ok))
                            if fixed:
                                continue
                            bit = 1 if (m == 'min') == (g == P) else 4
                            R = F.run({**B0, ('col_tags', c): (bit, 5 - bit)})
                            if S.live(R) and not s.gone(S, B0, ('col_tags', c), (bit, 5 - bit)):
                                ok = any(pl == ('n_inf_' + m, S.col) and st == -1 and I.live(R) and s.near2(S, I.I, R) for I, pl, st in s.cnt)
                                out.append(('%s with an infinite bound and a %s coefficient but n_inf_%s still counts it' % (txt, 'positive' if g == P else 'negative', m), 'goneinf', ok))
        return out

    def near2(s, S, I, R):
        return s.ahead(S.I.bb, I.bb, R) or s.ahead(I.bb, S.I.bb, R)

    def recoefs(s):
        """a coefficient that changes is replaced in both activities for every sign"""
        out = []
        fam = {}
        rows = {k.col for k, A, w, a, c, b in s.ks if a is not None and w != 'new' and (s.recoef(k.col) and (a[0] == 'q' or w == 'add') or s.initial(k.col, k.kind))}
        off = {}
        for k, A, w, a, c, b in s.ks:
            if w == 'off':
                off.setdefault(k.col, set()).add(c)
        for S in s.F.sinks:
            if S.kind in ('lhs', 'rhs'):
                for A, p, r in s.F.each(S, s.side(S)):
                    if p is None or infinite(p) or p_dir.single(p):
                        continue
                    d = dirn.padd(p, dirn.atom(S.place), -1.0)
                    if any(f[0] in ('lhs', 'rhs') and f[1] != S.col for m in d for f, e in m):
                        n = len(off.get(S.col, ()))
                        out.append(('%s: a multiple of a row is added to a row but the old coefficients of only %d of its columns leave the activity' % (where(S.I), n),
                                    'rowadd', n >= 2 and S.col in rows))
        for k, A, w, a, c, b in s.ks:
            if a is None or w == 'new' or k.col not in rows:
                continue
            for g in (P, N):
                if s.sign(A, a) & g:
                    fam.setdefault((k.col, c, w, s.akey(a)), set()).add((k.kind, g, b))
        for (r, c, w, a), got in fam.items():
            for (b, g), m in s.NEED.items():
                out.append(('%s coefficient: with a %s one its %s does not enter the %simal activity' % (
                    {'add': 'new', 'off': 'old'}[w], 'positive' if g == P else 'negative', b, m), 'coef', (m, g, b) in got))
                R = s.F.run({a: Sg(g), ('col_tags', c): (1 if b == 'lb' else 4, 0)})
                st0 = 1 if w == 'add' else -1
                R0 = s.F.run({a: Sg(g), ('col_tags', c): (0, 1 if b == 'lb' else 4)})
                ok = any(pl == ('n_inf_' + m, r) and st == st0 and I.live(R) and not I.live(R0) for I, pl, st in s.cnt)
                out.append(('%s coefficient: with a %s one its infinite %s is not counted in n_inf_%s' % (
                    {'add': 'new', 'off': 'old'}[w], 'positive' if g == P else 'negative', b, m), 'coefinf', ok))
        return out


def first_module():
    """the functions that set up the activities when a presolver is made, each with everything inlined"""
    M = vf.module('release', entries=['new_presolver'], tag='init')
    return [F for F in (p_dir.Fn(M, f) for f in M.defined()) if any(k.kind in ('min', 'max') for k in F.sinks)]


def one_fn(F, rep):
    und, n = {}, 0
    J = Act(F)
    J.collect()
    for k, A, p, r in J.res:
        n += 1
        txt = 'in %s the %simal activity stored (%s)' % (F.f.name, k.kind, where(k.I))
        if p is not None:
            txt += ' is %s' % F.eval(A, True).show(p)[:160]
        if r is None:
            rep.ok('%s: %s' % (k, F.eval(A, True).show(p)[:100]))
            for f, kk, v in J.finite(k, A, {m: c for m, c in p.items() if J.adds(m, c)}):
                rep.bad('%s:%s:finite %s' % (F.f.name, k.kind, f[0]), txt + ': %s may be infinite there (%s does not exclude it)' % (f[0], kk[0]))
        elif r.startswith('UND'):
            und[r[4:]] = und.get(r[4:], 0) + 1
        else:
            rep.bad('%s:%s:%s' % (F.f.name, k.kind, r.split(':')[0]), txt + ': ' + r)
    setup = any(J.initial(pl[1], pl[0]) for k, pl, st in J.cnt)
    for what in (J.counts,) if setup else (J.counts, J.changes, J.gone_cols, J.recoefs):
        for txt, key, ok in what():
            rep.check(ok, '%s:%s:%s' % (F.f.name, key, txt), 'in %s, %s' % (F.f.name, txt))
    return {'n': n, 'und': und}


def activities(rep):
    fs = first_module()
    rep.cov['initial activities'] = [F.f.name for F in fs]
    t = fan(rep, functions() + fs, one_fn)
    rep.cov['undecided values'] = t.get('und', {})
    rep.need('stores of activities', t['n'], 100)


ACT_RULE = ('every double stored to an activity, as a polynomial over bounds and coefficients, is a valid bound of the row (sign of '
            'every factor, linear form); the count of infinite contributions goes down only when the bound is infinite for that '
            'sign, and the activity is then recomputed when it reaches zero; every change of a bound, every column that leaves a '
            'row and every changed coefficient reaches the activity that depends on it, for either sign')
