"""Bounds, row sides and activities: every value stored is a valid bound of what it bounds (direction and linear form)."""
import os
import flow
import vf
import dirn
import p_rec
from check import fan
from absint import N, Z, P, Sg
from dirn import Places, Eval, ARun, Split, Und, cert, same, BND, UP, DOWN, INF

MAXRUN = 96


class Sink:
    """one store; where the address is chosen between several data, one sink for each with the choice"""
    __slots__ = ('I', 'place', 'val', 'ch')

    def __init__(s, I, place, ch=()):
        s.I, s.place, s.val, s.ch = I, place, I.ops[0], ch

    def live(s, R):
        if s.I.bb not in R.exe:
            return False
        for k, x in s.ch:
            if hasattr(k, 'preds'):
                if (x, k) not in R.edges:
                    return False
            elif R.bool(k) not in (None, x):
                return False
        return True

    def alts(s, E, v=None):
        return [(p, c) for p, c in E.alts(v or s.val) if all(c.get(k, x) == x for k, x in s.ch)]

    @property
    def kind(s):
        return s.place[0]

    @property
    def col(s):
        return s.place[1]

    def __repr__(s):
        return '%s at %s' % (s.kind, where(s.I))


def where(I):
    return '%s:%d' % (os.path.basename(I.loc.file), I.loc.line) if getattr(I, 'loc', None) else '?'


class Fn:
    """one driver function with every reduction inlined"""
    def __init__(s, M, f):
        s.M, s.f = M, f
        s.S = Places(M, f)
        s.runs, s.evs = {}, {}
        s.dom, s.cnd, s.inf = None, None, None
        s.sinks = []
        cut = {}
        s.amb = {}
        for I in f.instrs():
            if I.op == 'store' and I.ops[0].ty.kind == 'double':
                for pl, ch in s.places(I.ops[1]):
                    k = Sink(I, pl, ch)
                    s.sinks.append(k)
                    if pl[0] in ('lb', 'ub') and k.val.op != 'const':
                        cut.setdefault(k.val, set()).add(pl)
                        s.amb.setdefault(k.val, []).append((k, pl))
        s.cut = {}
        for v, ps in cut.items():
            if len(ps) == 1:
                s.cut[v] = next(iter(ps))
            elif len({p[1:] for p in ps}) == 1:
                s.cut[v] = ('lb',) + next(iter(ps))[1:]
        s.pairs = s.fixpairs()
        # a value that becomes the lower bound at one place and the upper bound of the same column at another
        s.amb = {v: ks for v, ks in s.amb.items() if v in s.cut and len({pl for k, pl in ks}) > 1 and
                 not any(k in xy for k, pl in ks for xy in s.pairs.get(k.col, ()))}

    def cutat(s, sink):
        """the bound such a value is, as seen from a sink: the one whose store every path to the sink passes"""
        r = []
        for v, ks in s.amb.items():
            ps = {pl for k, pl in ks if flow.dominates(s.doms(), k.I.bb, sink.I.bb)}
            if len(ps) == 1:
                r.append((v, next(iter(ps))[:2] + s.cut[v][2:]))
        return tuple(r)

    def places(s, p, depth=0):
        """[(datum, choices)] an address may be"""
        p = s.S.res(p)
        pl = s.S.place(p)
        if pl:
            return [(pl, ())]
        if p.op == 'select' and depth < 3:
            return [(q, c + ((p.ops[0], k),)) for k, o in ((1, p.ops[1]), (0, p.ops[2])) for q, c in s.places(o, depth + 1)]
        if p.op == 'phi' and p.bb not in s.S.lo and depth < 3:
            return [(q, c + ((p.bb, b),)) for o, b in p.inc for q, c in s.places(o, depth + 1)]
        return []

    def run(s, A):
        k = frozenset(A.items())
        if k not in s.runs:
            R = ARun(s.f, s.S, A)
            s.runs[k] = ARun(s.f, s.S, A, R) if R.first else R
        return s.runs[k]

    def eval(s, A, cut, sink=None):
        at = s.cutat(sink) if cut and sink is not None and s.amb else ()
        k = (frozenset(A.items()), cut, at)
        if k not in s.evs:
            s.evs[k] = E = Eval(s.M, s.S, s.run(A))
            if cut:
                E.cut = {**s.cut, **dict(at)}
        return s.evs[k]

    def doms(s):
        if s.dom is None:
            s.dom = flow.dominators(s.f)
        return s.dom

    def fixpairs(s):
        """columns both of whose bounds are set to the same value: column key -> [(sink, sink)]"""
        r = {}
        b = {}
        for k in s.sinks:
            if k.kind in ('lb', 'ub'):
                b.setdefault((k.I.bb, k.col), []).append(k)
        for (bb, c), ks in b.items():
            l = [k for k in ks if k.kind == 'lb']
            u = [k for k in ks if k.kind == 'ub']
            for x in l:
                for y in u:
                    r.setdefault(c, []).append((x, y))
        return r

    def cases(s, k, base=None, cut=None):
        """[(assumption, evaluator, value, choices)] with every sign split that the certificate asks for; f(E, p) may raise
        Split"""
        raise NotImplementedError

    def each(s, sink, judge, base=(), val=None, cut=None):
        """judge(E, A, p, ch) for every alternative under every needed split of signs; judge raises Split"""
        cut = sink.kind not in ('lb', 'ub') if cut is None else cut
        st = [dict(base)]
        n = 0
        out = []
        while st:
            A = st.pop()
            n += 1
            if n > MAXRUN:
                out.append((A, None, 'UND too many cases'))
                break
            R = s.run(A)
            if not sink.live(R):
                continue
            E = s.eval(A, cut, sink)
            E.top = sink.val
            got = []
            try:
                for p, ch in sink.alts(E, val):
                    try:
                        got.append((A, p, judge(E, A, p, ch)))
                    except Und as u:
                        got.append((A, p, 'UND ' + str(u)))
            except Split as x:
                if x.key in A:
                    out.append((A, None, 'UND sign of a factor'))
                    continue
                for g in (N, P):
                    st.append({**A, x.key: Sg(g)})
                continue
            out += got
        return out


_all = None


def functions():
    global _all
    if _all is None:
        M, vec = p_rec.writer_module()
        _all = [Fn(M, f) for f in M.defined() if 'Vec_' not in f.name]
    return _all


# ---------------------------------------------------------------- facts
def single(p):
    """the only factor of a value that is one datum, or None"""
    if len(p) == 1:
        (m, c), = p.items()
        if len(m) == 1 and m[0][1] == 1 and c == 1.0:
            return m[0][0]
    return None


def infinite(p):
    if len(p) == 1:
        (m, c), = p.items()
        if m == ((INF, 1),):
            return 1 if c > 0 else -1
    return 0


def one(c):
    """1 up to the safety margins"""
    return abs(c - 1.0) < 1e-5


def keyname(k):
    return k[1] if k and k[0] == 'ld' else ''


class Judge:
    """rules for the values stored by one function"""
    def __init__(s, F):
        s.F = F
        s.fam = {}
        s.dbl = {}

    # what is known
    def gone(s, sink, A, key, val, p=None, cut=None):
        """the sink (or this value of it) cannot happen when the datum key has the value val"""
        if key in A:
            x = A[key]
            if not (isinstance(x, tuple) and isinstance(val, tuple)):
                return True
            if x[0] & val[1] or x[1] & val[0]:
                return True
            val = (x[0] | val[0], x[1] | val[1])
        B = {**A, key: val}
        if s.dead(sink, B, p, cut):
            return True
        for c in s.conds(sink):
            if c[0][0] == 'ssa':
                if c[0] in A:
                    continue
            elif c[0] in A or c[0] == key:
                continue
            if all(s.dead(sink, {**B, c[0]: x}, p, cut) for x in c[1]):
                return True
        return False

    def dead(s, sink, B, p=None, cut=None):
        F = s.F
        if not sink.live(F.run(B)):
            return True
        if p is None:
            return False
        E = F.eval(B, sink.kind not in ('lb', 'ub') if cut is None else cut, sink)
        E.top = sink.val
        return all(dirn.pkey(q) != dirn.pkey(p) for q, ch in sink.alts(E))

    def conds(s, sink):
        """conditions to distinguish: those tested more than once on the way, and the sign of the cost"""
        F = s.F
        if F.cnd is None:
            F.cnd = []
            for I in F.f.instrs():
                if I.ty is not None and I.ty.kind == 'int' and I.ty.width == 1 and I.op in ('phi', 'icmp', 'fcmp', 'and', 'or', 'xor', 'call', 'load'):
                    u = [x for x in I.users if x.op in ('br', 'select', 'phi', 'and', 'or', 'xor')]
                    if len(u) > 1:
                        F.cnd.append((('ssa', I), (0, 1), I.bb))
            cs = {}
            for I in F.f.instrs():
                if I.op == 'load' and I.ty.kind == 'double':
                    pl = F.S.place(I.ops[0])
                    if pl and pl[0] == 'c':
                        cs.setdefault(pl, []).append(I.bb)
            for pl, bs in cs.items():
                for b in bs:
                    F.cnd.append((pl, (Sg(N), Sg(Z), Sg(P)), b))
        d = F.doms()
        seen, out = set(), []
        for k, v, b in F.cnd:
            if k not in seen and flow.dominates(d, b, sink.I.bb):
                seen.add(k)
                out.append((k, v))
        return out

    def exact(s, sink, A, p):
        F = s.F

        def f(a):
            if a[0] in ('lhs', 'rhs'):
                if keyname(a[1]).startswith('dton_rows'):
                    return True
                return s.gone(sink, A, ('row_tags', a[1]), (0, 4), p)
            if a[0] in ('lb', 'ub'):
                if keyname(a[1]).startswith('fixed_cols_to_delete'):
                    return True
                return any(s.follows(sink, x) for x, y in F.pairs.get(a[1], ()))
            return False
        return f

    def follows(s, sink, x):
        if sink is x:
            return False
        d = s.F.doms()
        return flow.dominates(d, x.I.bb, sink.I.bb)

    # bounds of columns
    def bound(s, sink):
        tgt = ('x', sink.col)
        up = sink.kind == 'ub'

        def j(E, A, p, ch):
            i = infinite(p)
            if i:
                if (i > 0) == up:
                    return None
                if any(sink in xy for xy in s.F.pairs.get(sink.col, ())):
                    return None
                return 'an infinite value on the wrong side'
            t = single(p)
            if t and t[0] in ('lb', 'ub') and same(E, t[1], sink.col) is not False:
                return None
            r = cert(E, p, up, tgt, s.exact(sink, A, p))
            if isinstance(r, tuple):
                r = s.form(E, A, sink, r[1], tgt, p)
            return r
        return j

    # sides of rows
    def side(s, sink):
        tgt = ('r', sink.col)
        up = sink.kind == 'rhs'

        def j(E, A, p, ch):
            i = infinite(p)
            if i:
                return None if (i > 0) == up else 'an infinite value on the wrong side'
            t = single(p)
            if t and t[0] in ('lhs', 'rhs') and same(E, t[1], sink.col) is not False:
                return None
            r = cert(E, p, up, tgt, s.exact(sink, A, p))
            if isinstance(r, str) and s.both(E, A, sink, p):
                r = cert(E, p, up, tgt, lambda f: f[0] in ('lb', 'ub') or s.exact(sink, A, p)(f))
            if isinstance(r, tuple):
                r = s.form(E, A, sink, r[1], tgt, p)
            return r
        return j

    def both(s, E, A, sink, p):
        """does the opposite side of the same row change by the same amount?"""
        own = dirn.atom(sink.place)
        d = dirn.pkey(dirn.padd(p, own, -1.0))
        o = 'rhs' if sink.kind == 'lhs' else 'lhs'
        for k in s.F.sinks:
            if k.kind == o and k.col == sink.col and s.near(sink, k):
                E2 = s.F.eval(A, sink.kind not in ('lb', 'ub'), sink)
                E2.top = k.val
                if any(dirn.pkey(dirn.padd(q, dirn.atom(k.place), -1.0)) == d for q, ch in k.alts(E2)):
                    return True
        return False

    def leaving(s, E, sink, p):
        """the columns whose contribution a side changes by ('inf' when it becomes infinite, None otherwise)"""
        if infinite(p):
            return 'inf'
        t = single(p)
        if t and t[0] in ('lhs', 'rhs'):
            return None
        d = dirn.padd(p, dirn.atom(sink.place), -1.0)
        return frozenset(f[1] for m in d for f, e in m if f[0] in BND and not (f[0] in ('lhs', 'rhs') and f[1] == sink.col)) or None

    def ahead(s, a, b, R):
        """block b is reached from block a without starting a loop over again"""
        d = s.F.doms()
        seen, st = {a}, [a]
        while st:
            x = st.pop()
            if x is b:
                return True
            for y in x.succs:
                if y not in seen and y in R.exe and (x, y) in R.edges and not flow.dominates(d, y, x):
                    seen.add(y)
                    st.append(y)
        return False

    def otherside(s, sink, A, p):
        """a column leaves the row: the other side, when finite, has to change too; None or the reason"""
        F = s.F
        E0 = F.eval(A, True)
        var = s.leaving(E0, sink, p)
        if var in (None, 'inf') or infinite(p):
            return None
        tag = ('row_tags', sink.col)
        o = 'rhs' if sink.kind == 'lhs' else 'lhs'
        own, oth = (1, 2) if o == 'rhs' else (2, 1)
        ks = [k for k in F.sinks if k.kind == o and k.col == sink.col]

        def good(k, E, B):
            E.top = k.val
            # a value that cannot be followed is not taken for a wrong one
            return k.live(E.R) and any(s.leaving(E, k, q) in (var, 'inf') or any(f[0] == '?' for m in q for f, e in m) for q, ch in k.alts(E))
        for ones, zeros in ((0, 3), (own, oth | 4)):
            B = {tag: (ones, zeros)} if ones else {**A, tag: (ones, zeros)}
            if ones and s.dead(sink, {**A, tag: (0, own | 4)}, p):
                continue                   # equalities only
            R = F.run(B)
            b = sink.I.bb
            if not ones and b not in R.exe:
                continue
            d = F.doms()
            while b not in R.exe:
                b = d[b]
            E = F.eval(B, True)
            if not any(good(k, E, B) and (s.ahead(b, k.I.bb, R) or s.ahead(k.I.bb, b, R)) for k in ks):
                return 'a column leaves the row but its %s side stays%s' % (
                    {'lhs': 'left', 'rhs': 'right'}[o], ' when the %s side is infinite' % {'lhs': 'left', 'rhs': 'right'}[sink.kind] if ones else '')
        return None

    def twobounds(s):
        """doubletons that pass on only one of two finite bounds: [(a store, reason)]"""
        out = []
        for (r, c, o, sg), ks in s.dbl.items():
            for a, A in ks:
                R = s.F.run({**A, ('col_tags', o): (0, 5)})
                if a.live(R) and not any(b.kind != a.kind and (s.ahead(a.I.bb, b.I.bb, R) or s.ahead(b.I.bb, a.I.bb, R)) for b, x in ks):
                    out.append((a, 'with coefficient signs %s only one of two finite bounds of the substituted column is passed on' % ''.join(SG[x] for x in sg)))
        return out

    def near(s, a, b):
        """one of two stores can follow the other"""
        F = s.F
        if not hasattr(F, '_rch'):
            F._rch = {}
        for x, y in ((a, b), (b, a)):
            if x.I.bb not in F._rch:
                F._rch[x.I.bb] = flow.reach_from([x.I.bb], lambda q: q.succs)
            if y.I.bb in F._rch[x.I.bb]:
                return True
        return False

    def form(s, E, A, sink, vs, tgt, p):
        rs = [(v, ts) for v, ts in vs.items() if v[0] == 'r']
        xs = [(v, ts) for v, ts in vs.items() if v[0] == 'x']
        if tgt[0] == 'x':
            if not rs and len(xs) == 1 and xs[0][0] != tgt and len(xs[0][1]) == 1:
                return s.merge(E, sink, xs[0][0][1], xs[0][1][0], p)
            if len(rs) == 1 and rs[0][1] and len(rs[0][1]) == 1:
                return s.solved(E, A, sink, rs[0][0], rs[0][1][0], xs, tgt, p)
            return 'bounds another combination: ' + s.showform(E, vs)
        # side of a row: columns leave
        if not rs and len(xs) == 1 and len(xs[0][1]) == 1:
            (v, ((m, c),)), = xs
            if one(-c) and len(m) == 1 and m[0][1] == 1 and m[0][0][0] in ('a', 'q'):
                a = m[0][0]
                if a[0] == 'a' and (same(E, a[1], sink.col) is False or same(E, a[2], v[1]) is False):
                    return 'the coefficient is not the one of the column in this row'
                return None
            return 'the column leaves the row with another coefficient: ' + s.showform(E, vs)
        if len(rs) == 1 and not xs and len(rs[0][1]) == 1 and rs[0][0] != tgt:
            (v, ((m, c),)), = rs
            if not (sum(e for f, e in m) == 0 and one(-c) and len(m) == 2 and all(f[0] in ('a', 'q') for f, e in m)):
                return 'a multiple of a row that is not the quotient of two coefficients: ' + s.showform(E, vs)
            if not all(s.exact(sink, A, p)(x) for x in (('lhs', v[1]), ('rhs', v[1]))):
                raise Und('is the added row an equality')
            return None
        raise Und('form')

    def merge(s, E, sink, other, t, p):
        """the bounded variable becomes the sum of two parallel columns"""
        m, c = t
        num = [f for f, e in m if e == 1]
        den = [f for f, e in m if e == -1]
        if not (len(m) == 2 and len(num) == len(den) == 1 and one(c) and num[0][0] == den[0][0] == 'a'):
            return 'the other column is scaled by something else than the quotient of their coefficients'
        if same(E, num[0][2], other) is False or same(E, den[0][2], sink.col) is False:
            return 'the quotient of the coefficients is the wrong way round'
        sg = dirn.csign(E, m, c)
        s.fam.setdefault('merge', {}).setdefault((sink.col, other), set()).add(
            (sink.kind, sg, tuple(sorted(f[0] for mm in p for f, e in mm if f[0] in ('lb', 'ub') and f != sink.place))))
        return None

    def solved(s, E, A, sink, r, rt, xs, tgt, p):
        """a row solved for the column"""
        m, c = rt
        k = dirn.mmul((), m, -1)
        if not one(c) or len(k) != 1 or k[0][1] != 1 or k[0][0][0] not in ('a', 'q'):
            return 'the row is not divided by the coefficient of the column'
        n, full, qs = 1, False, [(k[0][0], tgt)]
        for v, ts in xs:
            if v == tgt:
                if len(ts) != 1 or ts[0][0] or not one(-ts[0][1]):
                    return 'not the bounded column'
                continue
            if len(ts) != 1:
                raise Und('form')
            mm, cc = ts[0]
            q = dirn.mmul(mm, m, -1)
            su = [f for f, e in q if f[0] == 'sum']
            co = [(f, e) for f, e in q if f[0] != 'sum']
            if not one(-cc) or len(co) != 1 or co[0][1] != 1 or co[0][0][0] not in ('a', 'q') or len(su) > 1:
                return 'another column enters with a factor that is not its coefficient'
            n += 1
            full = full or bool(su)
            qs.append((co[0][0], v))
        for a, v in qs:
            if a[0] == 'a':
                if same(E, a[1], r[1]) is False:
                    return 'a coefficient of another row'
                if same(E, a[2], v[1]) is False:
                    return 'the coefficient of another column'
        if not full and n <= 2:
            ds = tuple(sorted(f[0] for mm in p for f, e in mm if f[0] in (BND if n == 1 else ('lb', 'ub'))))
            sg = tuple(dirn.csign(E, ((a, 1),), 1.0) for a, v in qs)
            s.fam.setdefault(n, set()).add((sink.kind, ds, sg))
            if n == 2:
                s.dbl.setdefault((r[1], sink.col, [v[1] for v, ts in xs if v != tgt][0], sg), []).append((sink, A))
        if not full:
            nm = keyname(r[1])
            have = 1 if nm.startswith('ston_rows') else 2 if nm.startswith('dton_rows') else None
            if have is None and s.gone(sink, A, ('row_sizes', r[1]), (n + 1, ~(n + 1))):
                have = n
            if have is None:
                if nm == '':
                    raise Und('number of entries of the row')
                return 'the row may have more than %d entries' % n
            if have != n:
                return 'the row has %d entries, %d are taken into account' % (have, n)
        if any(a[0] == 'q' for a, v in qs):
            return s.paired(E, qs)
        return None

    def paired(s, E, qs):
        """coefficients and columns that were chosen together belong together"""
        S = s.F.S
        xs = [v[1] for a, v in qs]
        col = []
        for k in xs:
            S.chosen(k)
            col.append(S.phis.get(k[1]) if k and k[0] == 'v' else None)
        for i, (a, v) in enumerate(qs):
            if a[0] != 'q' or col[i] is None:
                continue
            r = s.match(E, a[2], col[i], [x for j, x in enumerate(col) if j != i and x is not None], a[2].bb, 0)
            if r is not None:
                return r
        return None

    def match(s, E, q, x, oth, blk, depth):
        """q a chosen coefficient, x the column it multiplies, oth the other columns of the row: is it the coefficient of x?"""
        S = s.F.S
        if q.op == 'phi' and depth < 6:
            def at(y, b):
                return S.res(dict((c, o) for o, c in y.inc)[b]) if y.op == 'phi' and y.bb is q.bb else y
            for o, b in q.inc:
                if (b, q.bb) in E.R.edges:
                    r = s.match(E, S.res(o), at(x, b), [at(y, b) for y in oth], b, depth + 1)
                    if r is not None:
                        return r
            return None
        if q.op == 'select' and depth < 6:
            for i in (1, 2):
                def at(y):
                    return S.res(y.ops[i]) if y.op == 'select' and y.ops[0] is q.ops[0] else y
                r = s.match(E, S.res(q.ops[i]), at(x), [at(y) for y in oth], (blk, q.ops[0], i == 1), depth + 1)
                if r is not None:
                    return r
            return None
        al = E.alts(q) if q.op == 'load' else []
        f = single(al[0][0]) if len(al) == 1 else None
        if f and f[0] == 'a' and f[2] is not None and f[2][0] == 'ld':
            eq, ne = s.facts(blk)
            k = S.ckey(x)
            if k[0] == 'ld' and k != f[2] or (k, f[2]) in ne or any((S.ckey(y), f[2]) in eq for y in oth):
                return 'the coefficient belongs to another column'
        return None

    def facts(s, b):
        """pairs of index keys known to be equal / different in block b"""
        eq, ne = set(), set()
        S = s.F.S

        def add(c, t):
            if c.op == 'icmp' and c.pred in ('eq', 'ne') and c.ops[0].ty.kind == 'int':
                x, y = S.ckey(c.ops[0]), S.ckey(c.ops[1])
                (eq if (c.pred == 'eq') == bool(t) else ne).update(((x, y), (y, x)))
        while isinstance(b, tuple):
            b, c, t = b
            add(c, t)
        d = s.F.doms()
        while b is not None:
            t = b.preds[0].term if len(b.preds) == 1 else None
            if t is not None and t.op == 'br' and len(b.preds[0].succs) == 2 and b.preds[0].succs[0] is not b.preds[0].succs[1]:
                add(t.ops[0], b is b.preds[0].succs[0])
            n = d.get(b)
            b = None if n is b else n
        return eq, ne

    def showform(s, E, vs):
        return ', '.join('%s: %s' % (v[0], ' + '.join(E.show({m: c}) for m, c in ts)) for v, ts in vs.items())

    # finite data only
    def tested(s, f):
        """is the datum compared with infinity itself?"""
        F = s.F
        if F.inf is None:
            F.inf = set()
            for I in F.f.instrs():
                if I.op == 'fcmp':
                    c = [o for o in I.ops if o.op == 'const' and isinstance(o.val, float) and not abs(o.val) < 1e15]
                    for o in I.ops if c else ():
                        while o.op == 'call' and o.ops:
                            o = o.ops[0]
                        o = F.S.res(o)
                        if o.op == 'load':
                            F.inf.add(F.S.place(o.ops[0]))
                if I.op == 'call' and I.callee is not None and I.callee.op == 'function' and (
                        I.callee.name.startswith('llvm.is.fpclass') or 'isinf' in I.callee.name or 'finite' in I.callee.name):
                    o = F.S.res(I.ops[0])
                    if o.op == 'load':
                        F.inf.add(F.S.place(o.ops[0]))
        return f in F.inf

    def finite(s, sink, A, p):
        """data in the value that may be infinite: [(datum, reason)]"""
        out = []
        ex = s.exact(sink, A, p)
        cancel = {}
        t = single(p)
        if t and t[0] in ('lhs', 'rhs') and sink.kind in ('lhs', 'rhs') and t[1] == sink.col:
            return out
        for m, c in p.items():
            for f, e in m:
                if f[0] in BND:
                    cancel.setdefault(f, []).append((m, c))
        acts = False
        for f, ts in sorted(cancel.items(), key=lambda x: x[0][0] not in ('min', 'max')):
            if any(g[0] == 'sum' for m, c in ts for g, e in m):
                continue
            if f == sink.place and len(ts) == 1 and len(ts[0][0]) == 1:
                continue
            if f[0] in ('lhs', 'rhs'):
                if ex(f):
                    continue
                ks = [(('row_tags', f[1]), (1, 0) if f[0] == 'lhs' else (2, 0))]
            elif f[0] in ('lb', 'ub'):
                if acts or keyname(f[1]).startswith('fixed_cols_to_delete'):
                    continue
                ks = [(('col_tags', f[1]), (1, 0) if f[0] == 'lb' else (4, 0))]
            else:
                ks = [(('n_inf_' + f[0], f[1]), (n, ~n)) for n in (1, 2)]
                acts = True                # what a finite activity contains is finite
            if s.tested(f):
                continue
            for k, v in ks:
                if not s.gone(sink, A, k, v, p):
                    out.append((f, k, v))
                    break
        return out

    # a bound is replaced by a tighter one only
    def tighter(s, sink, A, p):
        """None when the bound is only replaced by a tighter one (or it was infinite), else the reason"""
        F = s.F
        up = sink.kind == 'ub'
        if any(sink in xy for xy in F.pairs.get(sink.col, ())) or infinite(p):
            return None
        own = dirn.atom(sink.place)
        if close(p, own) or p.get(((sink.place, 1),)) == 1.0 and s.F.S and all(m == ((sink.place, 1),) or any(f[0] in ('lb', 'ub') for f, e in m) for m in p):
            return None                    # a sum of columns, or unchanged
        t = single(p)
        if t and t[0] in ('lb', 'ub') and t[1] == sink.col:
            return None
        B = {**A, ('col_tags', sink.col): (0, 4 if up else 1)}
        n = 0
        if not sink.live(F.run(B)):
            return None
        E = F.eval(B, False)
        val = F.S.res(sink.val)
        for I in F.f.instrs():
            if I.op != 'fcmp' or I.bb not in E.R.exe:
                continue
            j = E.join(*I.ops) if any(F.S.res(o).op != 'const' for o in I.ops) else None
            pr = I.pred[1:] if len(I.pred) == 3 else I.pred
            if not j or pr not in ('gt', 'ge', 'lt', 'le'):
                continue
            want = dirn.padd(p, own, -1.0) if not up else dirn.padd(own, p, -1.0)       # > 0: tighter
            big = pr in ('gt', 'ge')
            for (x, y), ch in j:
                d = dirn.padd(x, y, -1.0)
                out = None
                # "not tighter" (want <= 0) decides the comparison when the rest has the right sign
                for g in (1, -1):
                    e = dirn.padd(d, want, -g)
                    if all(abs(c) <= 1e-5 or m == () and -g * c >= -1e-3 or -g * c > 0 and all(f[0] == 'abs' for f, k in m)
                           for m, c in e.items()):
                        out = int(not big) if g == 1 else int(big)
                if out is not None:
                    B[('ssa', I)] = out
                    n += 1
                    break
        if n and s.dead(sink, B):
            return None
        if not n:
            return 'the old value is not looked at'
        return 'replaces a tighter value'


def close(p, q):
    """equal up to the safety margins"""
    d = dirn.padd(p, q, -1.0)
    return all(abs(c) <= 1e-5 for m, c in d.items())


SG = {N: '-', P: '+'}
COMPLETE = {
    1: [(k, (d,), (sg,)) for k, d, sg in (('lb', 'lhs', P), ('ub', 'rhs', P), ('lb', 'rhs', N), ('ub', 'lhs', N))],
    2: [(k, (d,), (x, y)) for x in (N, P) for y in (N, P) for k, d in
        ((('ub', 'lb'), ('lb', 'ub')) if x == y else (('lb', 'lb'), ('ub', 'ub')))],
    'merge': [(k, sg, (k if sg == P else {'lb': 'ub', 'ub': 'lb'}[k],)) for k in ('lb', 'ub') for sg in (N, P)],
}
NAMES = {1: 'singleton row', 2: 'doubleton equality', 'merge': 'parallel columns'}


def srcfn(I):
    l = getattr(I, 'loc', None)
    return os.path.basename(l.file).split('.')[0] if l else '?'


def one_fn(F, rep):
    und, nfam, nst = {}, set(), 0
    J = Judge(F)
    bs = [k for k in F.sinks if k.kind in ('lb', 'ub', 'lhs', 'rhs')]
    for k in bs:
        isb = k.kind in ('lb', 'ub')
        nst += 1
        for A, p, r in F.each(k, J.bound(k) if isb else J.side(k)):
            key = '%s:%s:%s' % (F.f.name, k.kind, os.path.basename(k.I.loc.file) if k.I.loc else '')
            txt = 'in %s the value stored to %s (%s)' % (F.f.name, {'lb': 'a lower bound', 'ub': 'an upper bound', 'lhs': 'a left side', 'rhs': 'a right side'}[k.kind], where(k.I))
            if p is not None:
                txt += ' is %s' % F.eval(A, False).show(p)[:160]
            if r is None:
                rep.ok('%s: %s' % (k, F.eval(A, False).show(p)[:100]))
            elif r.startswith('UND'):
                und[r[4:]] = und.get(r[4:], 0) + 1
                continue
            else:
                rep.bad(key + ':' + r.split(':')[0], txt + ': ' + r)
                continue
            for f, kk, v in J.finite(k, A, p):
                rep.bad('%s:finite %s' % (key, f[0]), txt + ': %s may be infinite there (%s does not exclude it)' % (f[0], kk[0]))
            else:
                rep.ok()
            if not isb:
                x = J.otherside(k, A, p)
                rep.check(x is None, key + ':otherside', txt + ': %s' % x)
            if isb:
                x = J.tighter(k, A, p)
                rep.check(x is None, key + ':tighter', txt + ' and %s' % x)
    for k, x in J.twobounds():
        rep.bad('%s:%s:twobounds' % (F.f.name, k.kind), 'in %s, %s: %s' % (F.f.name, k, x))
    for n, got in J.fam.items():
        nfam.add(n)
        for g in (got.items() if n == 'merge' else [(None, got)]):
            for w in COMPLETE[n]:
                sgn = w[2] if n != 'merge' else (w[1],)
                txt = '%s: with coefficient sign(s) %s no %s is derived' % (NAMES[n], ''.join(SG[x] for x in sgn), w[0])
                rep.check(w in g[1], '%s:%s:%s' % (F.f.name, NAMES[n], w), 'in %s, %s' % (F.f.name, txt))
    return {'und': und, 'fam': {k: 1 for k in nfam}, 'n': nst}


def implied(rep):
    t = fan(rep, functions(), one_fn)
    rep.cov['undecided values'] = t.get('und', {})
    rep.need('stores of bounds and sides', t['n'], 20)
    rep.need('kinds of rows solved', len(t.get('fam', {})), 3)


IMPLIED_RULE = ('every double stored to lb/ub/lhs/rhs, as a polynomial over bounds, sides, activities and coefficients, is a bound of '
                'the right direction (sign of every factor, case split on coefficient signs) of the right linear form; every datum '
                'in it is finite on the path; a bound is only replaced by a tighter one; singleton rows, doubleton equalities and '
                'parallel columns transfer both bounds for every sign')
