"""O01: every reduction carries the objective along: offset and costs change by exactly what the removed column contributed."""
import dirn
import flow
import p_idx
import p_rec
import vf
from absint import N, P, Sg
from check import fan
from common import callee_name
from dirn import same
from p_dir import Judge, functions, keyname, single, where

OBJ_RULE = ('every store to the objective offset, as a polynomial over the data of the problem, adds c_k times a bound of column k, or '
            'c_k/a_ik times a side of row i; every store to a cost subtracts c_k/a_ik times a_ij of the same row, for every entry of the '
            'row, from the cost as it was before; each record of a fixed or substituted column is on the same path, under every sign of '
            'cost and value, as the update of offset (and costs) it needs, which happens once')
ONE = ((('off',), 1),)


def factors(m):
    r = {}
    for f, e in m:
        r.setdefault(f[0], []).append((f, e))
    return r


def unknown(p):
    return any(f[0] not in ('c', 'off', 'a', 'q', 'lb', 'ub', 'lhs', 'rhs') for m in p for f, e in m)


class Upd:
    """an update of the offset: column, row (None for a fixed column), the value it is fixed at or the side"""
    def __init__(s, sink, col, row, coef, val):
        s.sink, s.col, s.row, s.coef, s.val = sink, col, row, coef, val


class At:
    def __init__(s, I):
        s.I = I


class Obj:
    def __init__(s, F, rep):
        s.F, s.rep = F, rep
        s.J = Judge(F)
        s.und = {}
        s.E = F.eval({}, False)
        s.off, s.cost = [], []
        s.inner = {}
        for h, body in F.S.lo.items():
            for b in body:
                if b not in s.inner or len(body) < len(s.inner[b][1]):
                    s.inner[b] = (h, body)
        s.around = {}
        for h, body in sorted(F.S.lo.items(), key=lambda x: len(x[1])):
            for b in body:
                s.around.setdefault(b, []).append((h, body))
        s.mates = {}
        s.cs = [k for k in F.sinks if k.kind == 'c']
        s.os = [k for k in F.sinks if k.kind == 'off']
        s.app = []
        for I in F.f.instrs():
            if I.op == 'call' and (callee_name(I) or '').startswith('iVec_append') and 'array' not in callee_name(I):
                q = F.S.base(I.ops[0], [])
                if q and q[0].split('.')[-1] == 'fixed_cols_to_delete':
                    s.app.append((I, F.S.ik(I.ops[1])))

    def undecided(s, why):
        s.und[why] = s.und.get(why, 0) + 1

    def bad(s, key, txt):
        s.rep.bad('%s:%s' % (s.F.f.name, key), 'in %s %s' % (s.F.f.name, txt))

    # ---- forms
    def pair(s, a, row, col, oth=()):
        """is a (coefficient atom) the coefficient of col in row? False when it is not"""
        if a[0] == 'a':
            if same(s.E, a[1], row) is False or same(s.E, a[2], col) is False:
                return False
            return True
        c = s.phi(col)
        if c is None:
            return None
        oth = [x for x in map(s.phi, oth or s.mates.get(col, ())) if x is not None and x is not c]
        return s.J.match(s.E, a[2], c, oth, a[2].bb, 0) is None

    def phi(s, col):
        return s.F.S.byid(col[1]) if col and col[0] == 'v' else None

    def offsets(s):
        for k in s.os:
            s.E.top = k.val
            for p, ch in k.alts(s.E):
                s.offset(k, p)

    def offset(s, k, p):
        E = s.E
        txt = 'the objective offset becomes %s (%s)' % (E.show(p)[:160], where(k.I))
        if p.get(ONE) != 1.0:
            if p and single(p) is None and unknown(p) or any(f[0] in ('acc', 'sum', '?') for m in p for f, e in m):
                return s.undecided('offset')
            return s.bad('offset:old', txt + ': the contributions so far are lost')
        d = {m: c for m, c in p.items() if m != ONE}
        if unknown(d):
            return s.undecided('offset')
        if not d:
            s.off.append(Upd(k, None, None, None, {}))
            return s.rep.ok('%s: unchanged' % k)
        if len(d) != 1:
            return s.bad('offset:form', txt + ': more than one contribution')
        (m, c), = d.items()
        g = factors(m)
        cs, vs = g.pop('c', []), [x for n in ('lb', 'ub', 'lhs', 'rhs') for x in g.pop(n, [])]
        co = g.pop('a', []) + g.pop('q', [])
        if g or len(cs) != 1 or cs[0][1] != 1 or len(vs) != 1 or vs[0][1] != 1:
            return s.bad('offset:form', txt + ': not the cost of a column times its value')
        col, (v, _) = cs[0][0][1], vs[0]
        if abs(c - 1) > 1e-12:
            return s.bad('offset:sign', txt + ': the contribution enters with factor %g' % c)
        if v[0] in ('lb', 'ub'):
            if co:
                return s.bad('offset:form', txt + ': the value is scaled')
            if same(E, v[1], col) is False:
                return s.bad('offset:column', txt + ': cost and value belong to different columns')
            s.off.append(Upd(k, col, None, None, d))
            return s.rep.ok('%s: %s' % (k, E.show(p)))
        if len(co) != 1 or co[0][1] != -1:
            return s.bad('offset:form', txt + ': the side of the row is not divided by the coefficient of the column')
        a = co[0][0]
        r = s.pair(a, v[1], col)
        if r is False:
            return s.bad('offset:coefficient', txt + ': the coefficient is not the one of the column in that row')
        s.off.append(Upd(k, col, v[1], a, d))
        s.rep.ok('%s: %s' % (k, E.show(p)))

    def costs(s):
        for k in s.cs:
            s.E.top = k.val
            for p, ch in k.alts(s.E):
                s.costform(k, p)

    def costform(s, k, p):
        E = s.E
        txt = 'a cost becomes %s (%s)' % (E.show(p)[:160], where(k.I))
        own = ((k.place, 1),)
        if unknown(p) or not p:
            return s.undecided('cost')
        if p.get(own) != 1.0:
            return s.bad('cost:old', txt + ': its own value is lost')
        d = {m: c for m, c in p.items() if m != own}
        if not d:
            return s.rep.ok()
        if len(d) != 1:
            return s.bad('cost:form', txt + ': more than one contribution')
        (m, c), = d.items()
        g = factors(m)
        cs = g.pop('c', [])
        co = g.pop('a', []) + g.pop('q', [])
        if g or len(cs) != 1 or cs[0][1] != 1 or sorted(e for f, e in co) != [-1, 1]:
            return s.bad('cost:form', txt + ': not the cost of the substituted column times a quotient of two coefficients')
        if abs(c + 1) > 1e-12:
            return s.bad('cost:sign', txt + ': the contribution enters with factor %g' % c)
        num, = [f for f, e in co if e == 1]
        den, = [f for f, e in co if e == -1]
        col = cs[0][0][1]
        if num[0] == den[0] == 'a' and same(E, num[1], den[1]) is False:
            return s.bad('cost:row', txt + ': the coefficients are of different rows')
        j = k.place[1]
        s.mates.setdefault(col, set()).add(j)
        if s.pair(num, num[1] if num[0] == 'a' else None, j, (col,)) is False:
            return s.bad('cost:coefficient', txt + ': the coefficient in the numerator is not the one of the column whose cost changes')
        if s.pair(den, den[1] if den[0] == 'a' else None, col, (j,)) is False:
            return s.bad('cost:coefficient', txt + ': the coefficient in the denominator is not the one of the substituted column')
        row = den[1] if den[0] == 'a' else num[1] if num[0] == 'a' else None
        s.cost.append((k, col, row, k.place[1]))
        s.rep.ok('%s: %s' % (k, E.show(p)))

    # ---- the costs of the whole row, from the costs before
    def loads(s, v, kind, col, seen=None):
        """loads of the cost of col in a value"""
        seen = seen if seen is not None else set()
        if v in seen or v.op == 'const':
            return
        seen.add(v)
        if v.op == 'load':
            q = s.F.S.res(v)
            if q is not v:
                yield from s.loads(q, kind, col, seen)
                return
            if s.F.S.place(v.ops[0]) == (kind, col):
                yield v
            return
        for o in v.ops:
            if hasattr(o, 'op') and o.op != 'function':
                yield from s.loads(o, kind, col, seen)

    def sweep(s, k, col):
        """the loop over the entries of a row around the store of a cost: (header, body, counter)"""
        key = k.place[1]
        for h, body in s.around.get(k.I.bb, ()):
            for I in h.ins:
                if I.op == 'phi' and repr(s.F.S.key(I)) in repr(key):
                    return h, body, I
        return None

    def rows(s):
        for k, col, row, j in s.cost:
            w = s.sweep(k, col)
            if w is None:
                if row is not None and keyname(row).startswith('dton_rows') or row is None:
                    s.rep.ok('%s: the other column of a doubleton' % k)
                else:
                    s.undecided('costs of the row')
                continue
            h, body, ctr = w
            if not (j and j[0] == 'ld' and j[1] == 'A.i'):
                s.undecided('costs of the row')
                continue
            s.covers(k, col, row, h, body, ctr)
            own = s.guarded(k, col, h, body)
            if not own:
                for x, what in [(k, 'cost')] + [(u.sink, 'offset') for u in s.off if u.col == col]:
                    for L in s.loads(x.val, 'c', col):
                        late = L.bb in body or s.J.ahead(h, L.bb, s.F.run({})) and not s.J.ahead(L.bb, h, s.F.run({}))
                        if late and L is not None and s.F.S.place(L.ops[0]) != k.place:
                            s.bad('cost:late', 'the cost of the substituted column, which is updated with the rest of its row at %s, is read '
                                  'afterwards for the %s (%s)' % (where(k.I), what, where(L)))
                        else:
                            s.rep.ok()

    def guarded(s, k, col, h, body):
        """the substituted column itself is left out of the loop"""
        for b in body:
            t = b.term
            if t.op == 'br' and len(b.succs) == 2:
                c = t.ops[0]
                if c.op == 'icmp' and c.pred in ('eq', 'ne') and {s.F.S.ckey(o) for o in c.ops} >= {col}:
                    return True
        return False

    def covers(s, k, col, row, h, body, ctr):
        F = s.F
        init = [v for v, b in ctr.inc if b not in body]
        step = [v for v, b in ctr.inc if b in body]
        up = all(v.op == 'add' and v.ops[1].op == 'const' and v.ops[1].val == 1 for v in step)
        if len(init) != 1 or init[0].op != 'const' or not up:
            s.undecided('loop over the row')
        else:
            s.rep.check(init[0].val == 0, '%s:cost:first' % F.f.name, 'in %s the loop that updates the costs of a row starts at entry %s (%s)' % (
                F.f.name, init[0].val, where(k.I)))
        for v in step:
            if v.op == 'add' and v.ops[0] is ctr and v.ops[1].op == 'const':
                s.rep.check(v.ops[1].val in (1, -1, (1 << 32) - 1, (1 << 64) - 1), '%s:cost:step' % F.f.name, 'in %s the loop that updates the costs of a row advances by %s (%s)' % (
                    F.f.name, v.ops[1].val, where(k.I)))
            else:
                s.undecided('loop over the row')
        for b in body:
            t = b.term
            if t.op != 'br' or len(b.succs) != 2:
                continue
            out = [x for x in b.succs if x not in body]
            if not out:
                continue
            c = t.ops[0]
            if c.op == 'icmp':
                os = [F.S.res(o) for o in c.ops]
                for o in os:
                    if o.op in ('add', 'sub') and any(x.op == 'const' for x in o.ops):
                        x, = [x for x in o.ops if F.S.res(x).op != 'const'] or [None]
                        pl = F.S.place(F.S.res(x).ops[0]) if x is not None and F.S.res(x).op == 'load' else None
                        if pl and pl[0] == 'row_sizes':
                            s.bad('cost:last', 'the loop that updates the costs of a row ends before (or after) its last entry (%s)' % where(k.I))
        # entries passed over
        def skips(avoid):
            seen, st = set(), [h]
            while st:
                b = st.pop()
                for y in b.succs:
                    if y not in body or y in seen or y is k.I.bb or (b, y) in avoid:
                        continue
                    if y is h:
                        return True
                    seen.add(y)
                    st.append(y)
            return False
        avoid = set()
        for b in body:
            t = b.term
            if t.op == 'br' and len(b.succs) == 2 and s.harmless(t.ops[0], col):
                # the way that does not lead to the store
                for y, z in ((b.succs[0], b.succs[1]), (b.succs[1], b.succs[0])):
                    if s.leads(z, k.I.bb, body, h) and not s.leads(y, k.I.bb, body, h):
                        avoid.add((b, y))
        if k.I.bb is h:
            return
        s.rep.check(not skips(avoid), '%s:cost:skip' % F.f.name, 'in %s an entry of the row may be passed over when the costs are updated (%s)' % (
            F.f.name, where(k.I)))

    def entry(s, h, body):
        """blocks that decide about entering a loop only by its number of passes"""
        out = [h]
        for b in h.preds:
            while b not in body and len(b.succs) == 1 and len(b.preds) == 1:
                b = b.preds[0]
            t = b.term
            if b not in body and t.op == 'br' and len(b.succs) == 2 and t.ops[0].op == 'icmp' and all(
                    o.op != 'const' or o.val in (0, 1) for o in t.ops[0].ops):
                out.append(b)
        return out

    def leads(s, a, b, body, h):
        if a is b:
            return True
        seen, st = {a}, [a]
        while st:
            x = st.pop()
            for y in x.succs:
                if y is b:
                    return True
                if y in body and y is not h and y not in seen:
                    seen.add(y)
                    st.append(y)
        return False

    def harmless(s, c, col):
        S = s.F.S
        if c.op == 'icmp' and c.pred in ('eq', 'ne'):
            return col in {S.ckey(o) for o in c.ops}
        if c.op == 'fcmp':
            z = [o for o in c.ops if o.op == 'const' and o.val == 0.0]
            return len(z) == 1 and c.pred[1:] in ('eq', 'ne')
        return c.op not in ('icmp', 'fcmp')

    # ---- record and objective on the same path
    def signs(s, u):
        """all assumptions under which the contribution is not zero"""
        fs = [('c', u.col)] + [f for m in u.val for f, e in m if f[0] in ('lb', 'ub', 'lhs', 'rhs')]
        out = [{}]
        for f in fs:
            out = [{**a, f: Sg(g)} for a in out for g in (N, P)]
        return out

    def passes(s, R, h, body, frm, avoid):
        """frm is reached from the start of the loop (function) and the start of the next iteration (a return) from frm, without
        any block of avoid"""
        def reach(st, goal, nxt):
            seen = set(st)
            st = list(st)
            while st:
                b = st.pop()
                if goal(b):
                    return True
                for y in nxt(b):
                    if y not in seen and y not in avoid:
                        seen.add(y)
                        st.append(y)
            return False
        if frm in avoid:
            return False
        start = h if h is not None else s.F.f.blocks[0]
        fw = lambda b: [y for y in b.succs if (b, y) in R.edges and (body is None or y in body) and (h is None or y is not h)]
        if start in avoid and start is not h:
            return False
        if not reach([start], lambda b: b is frm, fw):
            return False
        if h is None:
            return reach([frm], lambda b: b.term.op == 'ret', fw)
        return reach([frm], lambda b: any(y is h for y in b.succs if (b, y) in R.edges), fw)

    def loop(s, a, bs):
        """the innermost loop around block a and at least one of bs"""
        for h, body in s.around.get(a, ()):
            if any(b in body for b in bs):
                return h, body
        return None, None

    def missed(s, at, A, blocks, ask):
        """block at is passed without any of the blocks, also after every useful case distinction"""
        F = s.F
        R = F.run(A)
        if at not in R.exe:
            return False
        h, body = s.loop(at, blocks)
        if not s.passes(R, h, body, at, set(blocks)):
            return False
        for c in ask:
            if c[0] in A:
                continue
            if all(at not in F.run({**A, c[0]: x}).exe or not s.passes(F.run({**A, c[0]: x}), h, body, at, set(blocks)) for x in c[1]):
                return False
        return True

    def ask(s, I):
        return s.J.conds(At(I))

    def records(s, inv):
        F = s.F
        n = 0
        recs = {}
        for r in p_rec.records(F.M, F.f):
            t = inv.get(r.T)
            if r.err or t not in ('FIXED_COL', 'SUB_COL') or not r.idx or r.idx[0][0] != 'S' or not r.val or r.val[0][0] != 'S':
                continue
            recs.setdefault((r.I, t, s.F.S.ik(r.idx[0][1])), []).append(r)
        for (I, t, col), rs in recs.items():
            n += 1
            r = rs[0]
            us = [u for u in s.off if u.col is None or same(s.E, u.col, col) is not False and (u.row is None) == (t == 'FIXED_COL')]
            lst = [a for a, c in s.app if same(s.E, c, col) is not False] if t == 'FIXED_COL' else []
            direct = [u for u in us if not (u.col and keyname(u.col).startswith('fixed_cols_to_delete'))]
            if t == 'FIXED_COL':
                bl = [u.sink.I.bb for u in direct] + [a.bb for a in lst]
                what = 'its contribution is neither added to the objective offset nor is it listed among the fixed columns'
            else:
                bl = [u.sink.I.bb for u in direct]
                what = 'the objective offset does not change with it'
            txt = 'a record says that a column is %s (%s), but ' % ('fixed' if t == 'FIXED_COL' else 'substituted', where(I))
            if s.und.get('offset') and not bl:
                s.undecided('record')
                continue
            ask = s.ask(I)
            for A in self_signs(s, r, col):
                if s.missed(I.bb, A, bl, ask):
                    s.bad('record:offset', txt + what)
                    break
            else:
                s.rep.ok('%s at %s' % (t, where(I)))
            if t == 'SUB_COL':
                ks = [k for k, c, row, j in s.cost if same(s.E, c, col) is not False]
                if s.und.get('cost') and not ks:
                    s.undecided('record')
                    continue
                cb = []
                for k in ks:
                    w = s.sweep(k, col)
                    cb += s.entry(*w[:2]) if w else [k.I.bb]
                for g in (N, P):
                    if s.missed(I.bb, {('c', col): Sg(g)}, cb, ask):
                        s.bad('record:cost', txt + 'the costs of the other columns of its row do not change with it')
                        break
                else:
                    s.rep.ok('costs with %s at %s' % (t, where(I)))
            # the same value
            for u in direct:
                if u.col != col or u.sink.I.bb is None:
                    continue
                if s.J.ahead(u.sink.I.bb, I.bb, F.run({})) or s.J.ahead(I.bb, u.sink.I.bb, F.run({})):
                    s.values(I, r.val[0][1], u, t)
        # every update has its record, and only one
        for u in s.off:
            if u.col is None:
                continue
            lst = keyname(u.col).startswith('fixed_cols_to_delete')
            for x in s.off:
                if x.sink is not u.sink and x.col == u.col and s.J.ahead(u.sink.I.bb, x.sink.I.bb, F.run({})):
                    if not self_apart(s, u, x):
                        s.bad('twice', 'the contribution of one column is added to the objective offset twice (%s, %s)' % (where(u.sink.I), where(x.sink.I)))
            if lst:
                s.listed(u)
                continue
            for a, c in s.app:
                if c == u.col and (s.J.ahead(u.sink.I.bb, a.bb, F.run({})) or s.J.ahead(a.bb, u.sink.I.bb, F.run({}))):
                    s.bad('twice', 'a column whose contribution is added to the offset at once (%s) is also listed among the fixed columns' % where(u.sink.I))
            bl = [I.bb for (I, t, col), rs in recs.items() if same(s.E, u.col, col) is not False and (t == 'FIXED_COL') == (u.row is None)]
            s.rep.check(not any(s.missed(u.sink.I.bb, A, bl, s.ask(u.sink.I)) for A in s.signs(u)), '%s:norecord' % F.f.name,
                        'in %s the offset changes (%s) for a column whose removal is not recorded' % (F.f.name, where(u.sink.I)))
        return n

    def listed(s, u):
        """the loop over the fixed columns treats every one of them"""
        F = s.F
        for h, body in s.around.get(u.sink.I.bb, ()):
            ph = [I for I in h.ins if I.op == 'phi' and repr(F.S.key(I)) in repr(u.col)]
            if ph:
                break
        else:
            return s.undecided('list of fixed columns')
        ini = [v for v, b in ph[0].inc if b not in body]
        if any(v.op == 'const' and v.val != 0 for v in ini):
            s.bad('list:first', 'the first of the fixed columns is left out (%s)' % where(u.sink.I))
        bl = [x.sink.I.bb for x in s.off if x.col == u.col]
        ask = s.ask(u.sink.I)
        for A in s.signs(u):
            R = F.run(A)
            nxt = [b for b in body if h in b.succs and (b, h) in R.edges]
            if any(s.passes(R, h, body, b, set(bl)) for b in nxt):
                if not any(all(not any(s.passes(F.run({**A, c[0]: x}), h, body, b, set(bl)) for b in nxt) for x in c[1]) for c in ask if c[0] not in A):
                    return s.bad('list:skip', 'a fixed column with a cost and a value may be passed over when the offset is updated (%s)' % where(u.sink.I))
        s.rep.ok('all fixed columns: %s' % where(u.sink.I))

    def values(s, I, v, u, t):
        """the value recorded is the one the cost is multiplied with"""
        F = s.F
        for g in (N, P):
            A = {('c', u.col): Sg(g)}
            R = F.run(A)
            if I.bb not in R.exe or not u.sink.live(R):
                continue
            E = F.eval(A, False)
            E.top = u.sink.val
            have = set()
            for p, ch in u.sink.alts(E):
                for m, c in p.items():
                    if m != ONE:
                        m = [f for f in m if f[0] != ('c', u.col) and (t == 'FIXED_COL' or f[0][0] in ('lhs', 'rhs'))]
                        have.add(s.side(u.sink, A, {tuple(m): c}))
            E.top = v
            want = [p for p, ch in E.alts(v)]
            if any(unknown(p) for p in want):
                s.undecided('value')
                continue
            want = {s.side(u.sink, A, p) for p in want if p}
            s.rep.check(want == have, '%s:record:value' % F.f.name,
                        'in %s the value recorded for the column (%s) is not the one its cost is multiplied with (%s)' % (F.f.name, where(I), where(u.sink.I)))

    def side(s, sink, A, p):
        """both sides of an equality are the same"""
        r = {}
        for m, c in p.items():
            q = []
            for f, e in m:
                if f[0] == 'lhs' and s.J.gone(sink, A, ('row_tags', f[1]), (0, 4)):
                    f = ('rhs',) + f[1:]
                q.append((f, e))
            r[tuple(sorted(q, key=repr))] = c
        return dirn.pkey(r)


def self_signs(s, r, col):
    v = r.val[0][1]
    s.E.top = v
    fs = {f for p, ch in s.E.alts(v) for m in p for f, e in m if f[0] in ('lb', 'ub', 'lhs', 'rhs')}
    out = []
    for g in (N, P):
        for h in (N, P):
            out.append({('c', col): Sg(g), **{f: Sg(h) for f in fs}})
    return out


def self_apart(s, u, x):
    """two updates that exclude each other under every sign"""
    for A in s.signs(u):
        R = s.F.run(A)
        if u.sink.live(R) and x.sink.live(R) and s.J.ahead(u.sink.I.bb, x.sink.I.bb, R):
            return False
    return True


def one_fn(F, rep):
    O = Obj(F, rep)
    O.costs()
    O.offsets()
    O.rows()
    n = O.records(_inv)
    return {'und': O.und, 'off': len(O.os), 'cost': len(O.cs), 'rec': n}


def start(rep):
    """the offset starts at zero"""
    for M, vec in p_idx.modules():
        for f in M.defined():
            if f.name != 'new_presolver':
                continue
            n = 0
            for I in f.instrs():
                if I.op == 'store' and vf.pfield(M, I.ops[1]) == ('Objective', 'offset'):
                    n += 1
                    v = I.ops[0]
                    if v.op == 'const':
                        rep.check(v.val == 0, 'start:offset', 'the objective offset of a new presolver starts at %s (%s)' % (v.val, where(I)))
            rep.cov['initial offsets'] = n


_inv = {}


def objective(rep):
    _inv.update({v: k for k, v in p_rec.types().items()})
    t = fan(rep, functions(), one_fn)
    start(rep)
    rep.cov['undecided'] = t.get('und', {})
    rep.need('stores to the offset', t['off'], 5)
    rep.need('records of removed columns', t['rec'], 5)
