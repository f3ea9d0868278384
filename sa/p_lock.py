"""L01: the locks of a column count exactly the finite row sides that resist a move."""
import itertools

import flow
import p_dir
import p_idx
import p_rec
from absint import N, P, Sg
from check import fan
from dirn import same
from p_dir import Fn, Judge, functions, keyname, where
from p_just import tags

LOCK_RULE = ('every change of an up/down lock by +-1, under every sign of the coefficient and every combination of infinite sides of the '
             'row, happens exactly for the side that resists (up: right side of a positive, left side of a negative coefficient; down: '
             'the other one), only when that side is finite (counting, deleted rows), becomes finite (+1) or becomes infinite (-1); '
             'counting and deleting treat all four combinations, and every change of a side between finite and infinite comes with '
             'the change of locks for both signs')
BIT = {'lhs': 1, 'rhs': 2}
OFF, EQ = 8, 4
SIGN = {N: 'negative', P: 'positive'}
SIDE = {'lhs': 'left', 'rhs': 'right'}


def side(kind, g):
    return 'rhs' if (g == P) == (kind == 'up') else 'lhs'


class Ch:
    """one change of a lock"""
    def __init__(s, I, place, ch, d):
        s.I, s.place, s.ch, s.d = I, place, ch, d
        s.kind, s.col = place
        s.bb = I.bb

    def live(s, R):
        if s.I.bb not in R.exe:
            return False
        for k, x in s.ch:
            if hasattr(k, 'preds'):
                if (x, k) not in R.edges:
                    return False
            elif R.bool(k) not in (None, x):
                return False
        return True


def delta(F, I):
    v = F.S.res(I.ops[0])
    if v.op == 'const':
        return 'reset' if v.val == 0 else None
    if v.op in ('add', 'sub') and v.ops[1].op == 'const':
        x = F.S.res(v.ops[0])
        c = v.ops[1].val
        c = c - (1 << 32) if c >= 1 << 31 else c
        c = c if v.op == 'add' else -c
        if x.op == 'phi' and x.bb in F.S.lo or x.op == 'load' and set(p for p, ch in F.places(x.ops[0])) == set(p for p, ch in F.places(I.ops[1])):
            return c
    return None


class Locks:
    def __init__(s, F, rep, init=False):
        s.F, s.rep, s.init = F, rep, init
        s.J = Judge(F)
        s.und = {}
        s.ch, s.reset = [], []
        s.around = {}
        for h, body in sorted(F.S.lo.items(), key=lambda x: len(x[1])):
            for b in body:
                s.around.setdefault(b, []).append((h, body))
        for I in F.f.instrs():
            if I.op == 'store' and I.ops[0].ty.kind == 'int' and I.ops[0].ty.width == 32:
                for pl, ch in F.places(I.ops[1]):
                    if pl[0] not in ('up', 'down'):
                        continue
                    d = delta(F, I)
                    if d == 'reset':
                        s.reset.append(Ch(I, pl, ch, 0))
                    elif d is None:
                        s.reset.append(Ch(I, pl, ch, None))
                        s.undecided('change of a lock')
                    else:
                        s.ch.append(Ch(I, pl, ch, d))
        s.co = {}
        for I in F.f.instrs():
            if I.op == 'load' and I.ty.kind == 'double':
                pl = F.S.place(I.ops[0])
                if pl and pl[0] == 'a' and pl[1] is not None and pl[2] is not None:
                    s.co.setdefault(pl[2], {}).setdefault(pl, []).append(I)

    def undecided(s, why):
        s.und[why] = s.und.get(why, 0) + 1

    def bad(s, key, txt):
        s.rep.bad('%s:%s' % (s.F.f.name, key), 'in %s %s' % (s.F.f.name, txt))

    def near(s, a, b, R):
        return s.J.ahead(a, b, R) or s.J.ahead(b, a, R)

    def coef(s, k):
        """the coefficient the change is for"""
        lp = s.around.get(k.bb, [(None, None)])[0]
        c = [p for p, Is in s.co.get(k.col, {}).items() if any(s.around.get(I.bb, [(0, 0)])[0][0] is lp[0] for I in Is)]
        return c[0] if len(c) == 1 else None

    def run(s):
        F = s.F
        s.facts = []                       # (change, coefficient, sign, side, type)
        for k in s.ch:
            if k.d not in (1, -1):
                s.bad('step', 'a lock changes by %d (%s)' % (k.d, where(k.I)))
                continue
            a = s.coef(k)
            if a is None:
                s.undecided('coefficient of a change')
                continue
            gs = [g for g in (N, P) if k.live(F.run({a: Sg(g)}))]
            if len(gs) == 2 and not s.signed(a):
                s.undecided('sign of the coefficient')
                continue
            for g in gs:
                s.change(k, a, g)
        s.complete()
        s.resets()
        s.loops()
        if not s.init:
            s.changed()
        return len(s.ch)

    def signed(s, a):
        """is the coefficient compared with zero?"""
        for I in s.F.f.instrs():
            if I.op == 'fcmp':
                for o in I.ops:
                    o = s.F.S.res(o)
                    if o.op == 'load' and s.F.S.place(o.ops[0]) == a:
                        return True
        return False

    def change(s, k, a, g):
        F = s.F
        z = side(k.kind, g)
        t = ('row_tags', a[1])
        b = BIT[z]
        inf = k.live(F.run({a: Sg(g), t: (b, EQ)}))
        fin = k.live(F.run({a: Sg(g), t: (0, b)}))
        txt = '%s-lock%s for a %s coefficient (%s)' % (k.kind, ' added' if k.d > 0 else ' removed', SIGN[g], where(k.I))
        if keyname(a[1]).startswith('rows_to_delete'):
            kind = 'delete'
        elif k.d > 0 and fin and not inf:
            kind = 'count'
        else:
            kind = 'side'
        if k.d < 0 and inf:
            return s.bad('infinite', 'a %s although the %s side of the row, the one that resists, may be infinite' % (txt, SIDE[z]))
        if k.d > 0 and inf and fin:
            return s.bad('counts', 'a %s whether or not the %s side of the row, the one that resists, is finite' % (txt, SIDE[z]))
        if kind in ('count', 'delete'):
            for o, bits in (('equality', (EQ, b)), ('inequality', (0, b | EQ))):
                if fin and not k.live(F.run({a: Sg(g), t: bits})):
                    return s.bad('kind', 'no %s when the row is an %s' % (txt, o))
        if kind == 'delete' and k.d > 0:
            return s.bad('delete', 'a %s although its row is deleted' % txt)
        if not inf and not fin:
            return
        R = F.run({a: Sg(g)})
        if kind == 'side':
            ok = any(s.near(k.bb, x.I.bb, R) for x in s.turns(a[1], z, k.d < 0))
            if not ok:
                return s.bad('side', 'a %s although the %s side of the row, the one that resists, does not become %s' % (
                    txt, SIDE[z], 'infinite' if k.d < 0 else 'finite'))
        s.facts.append((k, a, g, z, kind))
        s.rep.ok('%s: %s side, %s' % (txt, SIDE[z], kind))

    def turns(s, row, z, inf):
        """stores after which side z of the row is infinite (inf) / finite"""
        F = s.F
        key = (row, z, inf)
        s._t = getattr(s, '_t', {})
        if key in s._t:
            return s._t[key]
        b = BIT[z]
        out = []
        if inf:
            out = [k for k in tags(F, 'row_tags', b) if same(F.eval({}, False), k.key, row) is not False]
        else:
            for I in F.f.instrs():
                if I.op == 'store' and I.ops[0].ty.kind == 'int':
                    pl = F.S.place(I.ops[1])
                    if pl and pl[0] == 'row_tags' and same(F.eval({}, False), pl[1], row) is not False:
                        R = F.run({pl: (b, EQ)})
                        x = R.get(I.ops[0]) if I.bb in R.exe else None
                        if x is not None and x.z & b and not x.o & OFF and s.written(z, pl[1], I):
                            out.append(p_dir.Sink(I, pl))
        s._t[key] = out
        return out

    def written(s, z, row, I):
        """is side z of the row assigned along with the tag?"""
        F = s.F
        R = F.run({})
        for J in F.f.instrs():
            if J.op == 'store' and J.ops[0].ty.kind == 'double':
                for pl, ch in F.places(J.ops[1]):
                    if pl[0] == z and len(pl) == 2 and same(F.eval({}, False), pl[1], row) is not False and s.near(J.bb, I.bb, R):
                        return True
        return False

    # every change of a side has its locks, every counting loop all combinations
    def complete(s):
        F = s.F
        if not s.init:
            for z, b in BIT.items():
                for k in tags(F, 'row_tags', b):
                    t = ('row_tags', k.key)
                    if not k.live(F.run({t: (0, b)})):
                        continue
                    s.sides(k, k.key, z, True)
                done = set()
                for I in F.f.instrs():
                    if I.op == 'store' and I.ops[0].ty.kind == 'int':
                        pl = F.S.place(I.ops[1])
                        if pl and pl[0] == 'row_tags' and I not in done:
                            done.add(I)
                            for x in s.turns(pl[1], z, False):
                                if x.I is I:
                                    s.sides(x, pl[1], z, False)
        grp = {}
        for k, a, g, z, kind in s.facts:
            if kind in ('count', 'delete'):
                h = s.around.get(k.bb, [(None, None)])[0][0]
                grp.setdefault((h, a, kind), {}).setdefault((k.kind, g), k)
        for (h, a, kind), got in grp.items():
            miss = [(d, g) for d in ('up', 'down') for g in (N, P) if (d, g) not in got]
            k = next(iter(got.values()))
            s.rep.check(not miss, '%s:missing' % F.f.name, 'in %s the locks are %s without %s' % (
                F.f.name, 'counted' if kind == 'count' else 'updated for a deleted row', ', '.join(
                    'the %s-locks of %s coefficients' % (d, SIGN[g]) for d, g in miss)) + ' (%s)' % where(k.I))

    def sides(s, x, row, z, inf):
        F = s.F
        R0 = F.run({})
        for g in (N, P):
            ok = True
            for B in s.choices(x, row, z, inf):
                ok = ok and any(gg == g and zz == z and (k.d < 0) == inf and kind == 'side' and
                                same(F.eval({}, False), a[1], row) is not False and s.meets(x, k, F.run({**B, a: Sg(g)}))
                                for k, a, gg, zz, kind in s.facts)
            if not ok and s.und:
                s.undecided('side')
                continue
            s.rep.check(ok, '%s:sidelocks:%s' % (F.f.name, z), 'in %s the %s side of a row becomes %s (%s) but the locks of its %s coefficients do not change' % (
                F.f.name, SIDE[z], 'infinite' if inf else 'finite', where(x.I), SIGN[g]))

    def meets(s, x, k, R):
        return s.near(k.bb, x.I.bb, R) and not s.avoids(x.I.bb, k, R)

    def choices(s, x, row, z, inf):
        """the ways the stored tag is chosen under which the side turns"""
        F = s.F
        b = BIT[z]
        A = {('row_tags', row): (0, b) if inf else (b, EQ)}
        cs, st = [], [x.I.ops[0]]
        while st:
            v = F.S.res(st.pop())
            if v.op == 'select':
                if F.S.res(v.ops[0]) not in cs:
                    cs.append(F.S.res(v.ops[0]))
                st += v.ops[1:]
            elif v.op in ('and', 'or', 'zext', 'trunc'):
                st += [o for o in v.ops if o.op != 'const']
        out = []
        cs = [c for c in cs if c.op in ('icmp', 'fcmp')][:3]
        for vs in itertools.product((0, 1), repeat=len(cs)):
            B = {**A, **{('ssa', c): v for c, v in zip(cs, vs)}}
            R = F.run(B)
            if x.I.bb not in R.exe:
                continue
            w = R.get(x.I.ops[0])
            if w is None or not (w.z & b if inf else w.o & b):
                out.append(B)
        return out

    def avoids(s, b, k, R):
        """is there a round through block b without the loop of change k?"""
        F = s.F
        d = F.doms()
        k_ = [h for h, body in s.around.get(k.bb, ()) if b not in body]
        if not k_:
            return False
        h = k_[-1]
        # the loop header itself may be guarded by a test for an empty row: any block that leads only to it counts
        out = s.around.get(b, [(None, None)])[0][0]
        first = out or F.f.blocks[0]
        seen, st = set(), [(first, first is b)]
        while st:
            x, on = st.pop()
            if (x, on) in seen or x is h or s.guards(x, h):
                continue
            seen.add((x, on))
            if on and (not x.succs and x.ins[-1].op == 'ret'):
                return True
            for y in x.succs:
                if y not in R.exe or (x, y) not in R.edges:
                    continue
                if y is out:
                    if on:
                        return True
                    continue
                if not flow.dominates(d, y, x):
                    st.append((y, on or y is b))
        return False

    def guards(s, x, h):
        """x decides between the loop and skipping it because there is no entry"""
        if h not in s.pre(x):
            return False
        t = x.ins[-1]
        st, ok = [t.ops[0]] if t.op == 'br' and t.ops else [], False
        while st:
            c = s.F.S.res(st.pop())
            if c.op in ('select', 'and', 'or', 'xor'):
                st += c.ops
            elif c.op == 'icmp' and all(o.op != 'const' or o.val in (0, 1) for o in c.ops):
                ok = True
        return ok

    def pre(s, x):
        out = set(x.succs)
        for y in x.succs:
            if len(y.succs) == 1:
                out |= set(y.succs)
        return out

    def resets(s):
        """a recount starts from zero"""
        F = s.F
        d = F.doms()
        for k, a, g, z, kind in s.facts:
            if kind != 'count' or s.init:
                continue
            lp = s.around.get(k.bb, [(None, None)])[0][0]
            ok = any(r.place == k.place and (lp is None or flow.dominates(d, r.bb, lp)) for r in s.reset)
            s.rep.check(ok, '%s:reset' % F.f.name, 'in %s the %s-locks of a column are counted again without starting from zero (%s)' % (F.f.name, k.kind, where(k.I)))

    def always(s, a, goals, R):
        """every path from block a meets one of the goals before the function or a round of the outermost loop ends"""
        out = s.around.get(a, [(None, None)])[-1][0]
        seen, st = {a}, [a]
        while st:
            x = st.pop()
            if x in goals and x is not a:
                continue
            if not x.succs and x.ins and x.ins[-1].op == 'ret':
                return False
            for y in x.succs:
                if y is out and x is not a and len(s.around.get(a, ())) > 1:
                    return False
                if y not in seen and y in R.exe and (x, y) in R.edges:
                    seen.add(y)
                    st.append(y)
        return True

    def changed(s):
        """after a coefficient got a new value the locks of its column are counted again"""
        F = s.F
        R = F.run({})
        done = set()
        for I in F.f.instrs():
            if I.op == 'store' and I.ops[0].ty.kind == 'double' and F.S.res(I.ops[0]).op != 'load':
                for pl, ch in F.places(I.ops[1]):
                    if pl[0] != 'a' or len(pl) < 3 or I.bb not in R.exe:
                        continue
                    for kind in ('up', 'down'):
                        ok = s.always(I.bb, {r.I.bb for r in s.reset if r.kind == kind and (pl[2] is None or pl[2] == r.col or pl[2][0] != 'v' and same(F.eval({}, False), r.col, pl[2]) is not False)}, R)
                        if (where(I), kind) not in done or not ok:
                            done.add((where(I), kind))
                            s.rep.check(ok, '%s:recount' % F.f.name, 'in %s a coefficient of a column changes (%s) but its %s-locks are not counted again' % (
                                F.f.name, where(I), kind))

    def loops(s):
        """the whole row (column) is treated"""
        F = s.F
        seen = set()
        for k, a, g, z, kind in s.facts:
            for h, body in s.around.get(k.bb, ()):
                ph = [I for I in h.ins if I.op == 'phi' and I.ty.kind == 'int' and repr(F.S.key(I)) in repr(a)]
                if not ph:
                    continue
                if h in seen:
                    break
                seen.add(h)
                c = ph[0]
                for v, b in c.inc:
                    v = F.S.res(v)
                    if b in body:
                        if v.op == 'add' and F.S.res(v.ops[0]) is c and v.ops[1].op == 'const':
                            st = v.ops[1].val
                            s.rep.check(st == 1 or st >= 1 << 31 or st == -1, '%s:step' % F.f.name, 'in %s the loop over the entries advances by %d (%s)' % (F.f.name, st, where(k.I)))
                    else:
                        up = all(F.S.res(w).op == 'add' and F.S.res(w).ops[1].op == 'const' and F.S.res(w).ops[1].val == 1 for w, q in c.inc if q in body)
                        if not up:
                            s.undecided('loop')
                        elif v.op == 'const':
                            s.rep.check(v.val == 0, '%s:first' % F.f.name, 'in %s the loop that changes the locks starts at entry %d (%s)' % (F.f.name, v.val, where(k.I)))
                        elif v.op == 'add' and v.ops[1].op == 'const':
                            x = F.S.res(v.ops[0])
                            q = F.S.at(x) if x.op == 'load' else None
                            if q and q[0] in ('A.p.start', 'AT.p.start', 'A.p', 'AT.p'):
                                s.bad('first', 'the loop that changes the locks starts %d after the first entry (%s)' % (v.ops[1].val, where(k.I)))
                break


def one_fn(x, rep):
    F, init = x
    L = Locks(F, rep, init)
    n = L.run()
    kinds = {}
    for f in L.facts:
        kinds[f[4]] = kinds.get(f[4], 0) + 1
    return {'und': L.und, 'n': n, 'kinds': kinds}


def locks(rep):
    fs = functions()
    xs = [(F, False) for F in fs]
    have = {F.f.name for F in fs}
    for M, vec in p_idx.modules():
        for f in M.defined():
            if f.name not in have:
                xs.append((Fn(M, f), True))
    t = fan(rep, xs, one_fn)
    rep.cov['undecided'] = t.get('und', {})
    rep.cov['changes by kind'] = t.get('kinds', {})
    rep.need('changes of locks', t['n'], 10)
