"""S01: every reduction record is well formed, and postsolve undoes it once, in reverse order, from the data saved for it.
S02: every row or column that is removed leaves its record."""
import re
import build
import common
import fill
import flow
import replay
import src
import vf
from common import callee_name, fmt

LISTS = {('PostsolveInfo', 'type'): 'type', ('PostsolveInfo', 'indices'): 'idx', ('PostsolveInfo', 'vals'): 'val', ('PostsolveInfo', 'starts'): 'starts'}
NAMES = ['FIXED_COL', 'FIXED_COL_INF', 'SUB_COL', 'PARALLEL_COL', 'DELETED_ROW', 'ADDED_ROW', 'ADDED_ROWS', 'LHS_CHANGE', 'RHS_CHANGE',
         'EQ_TO_INEQ', 'BOUND_CHANGE_NO_ROW', 'BOUND_CHANGE_THE_ROW']


def types():
    c = build.constants(NAMES)
    return {n: int(c[n]) for n in NAMES}


def driver_entries():
    """reductions the presolve driver calls"""
    red = common.reductions('release')
    M = build.module('release')
    out = set()
    for f in M.defined():
        if f.file and f.file.startswith('src/core/'):
            for I in common.calls(f):
                if callee_name(I) in red:
                    out.add(callee_name(I))
    return sorted(out)


def writer_module():
    M0 = build.module('release')
    vec = {f.name for f in M0.defined() if re.search(r'Vec_append(_array)?(\.\d+)?$', f.name)}
    M = vf.module('release', entries=driver_entries(), noinline=vec, tag='rec')
    return M, vec


def strip(v):
    while v.op in ('sext', 'zext', 'trunc', 'freeze'):
        v = v.ops[0]
    return v


def listof(M, I):
    """(list, is array) a call appends to, if it is a list of the postsolve record"""
    n = callee_name(I)
    if not n or not re.search(r'Vec_append(_array)?(\.\d+)?$', n):
        return None
    p = vf.ap(M, I.ops[0])
    k = LISTS.get(p[:2]) if len(p) > 2 else None
    return (k, '_array' in n) if k else None


def at0(I):
    return (I.loc.file, I.loc.line, I.loc.col) if I.loc else I


class Rec:
    """one record along one path: type, the append calls, tokens"""
    def __init__(s, T, I):
        s.T, s.I, s.idx, s.val, s.calls = T, I, [], [], [I]
        s.start = None
        s.end = None
        s.err = None
        s.first = s.last = I


def tvals(v):
    """constants a type operand can be"""
    v = strip(v)
    if v.op == 'const':
        return {v.val & 0xffff}
    if v.op == 'select':
        return tvals(v.ops[1]) | tvals(v.ops[2])
    if v.op == 'phi':
        r = set()
        for o in v.ops:
            r |= tvals(o)
        return r
    return {None}


def balances(M, f):
    """records begun minus extents stored before each block: {block: set}"""
    delta = lambda I: {'type': 1, 'starts': -1}.get((listof(M, I) or (0,))[0], 0) if I.op == 'call' else 0
    inn = {f.blocks[0]: {0}}
    work = [f.blocks[0]]
    while work:
        b = work.pop()
        out = {max(-2, min(2, x + sum(map(delta, b.ins)))) for x in inn[b]}
        for t in b.succs:
            if not out <= inn.setdefault(t, set()):
                inn[t] |= out
                work.append(t)
    return inn, delta


def records(M, f):
    """all records (path by path) of a function; the type of a record may be appended before, between or after its entries"""
    out = []
    inner = {}
    for h, body in flow.loops(f):
        for b in body:
            if b not in inner or len(body) < len(inner[b][1]):
                inner[b] = (h, body)
    bal, delta = balances(M, f)

    def entry(J, l, bb, base):
        lp = inner.get(bb, (None, None))[0]
        return (l[0], ('A' if l[1] else 'S', J.ops[1], J.ops[2] if l[1] else None, lp if lp is not base else None, J))

    def backward(I, past):
        """entries on the way to I back to the previous record; past: the extent was stored before the type"""
        found = []
        base = inner.get(I.bb, (None, None))[0]

        visited = set()

        def walk(bb, ins, rec, end):
            ent, calls = rec
            k = (bb, len(ins), tuple(t[4] for _, t in ent), end)
            if k in visited or len(found) > 64 or len(ent) > 16:
                return
            visited.add(k)
            for J in reversed(ins):
                if J.op == 'load' and vf.pfield(M, J.ops[0]) in (('iVec', 'len'), ('dVec', 'len')):
                    calls = [J] + calls
                l = listof(M, J) if J.op == 'call' else None
                if not l:
                    continue
                if l[0] in ('type', 'starts'):
                    if past and end is None and l[0] == 'starts':
                        end = J
                        calls = [J] + calls
                        continue
                    found.append((ent, calls, end))
                    return
                ent = [entry(J, l, bb, base)] + ent
                calls = [J] + calls
            if not bb.preds:
                found.append((ent, calls, end))
            work.extend((p, p.ins, (ent, calls), end) for p in bb.preds)
        work = [(I.bb, I.bb.ins[:I.bb.ins.index(I)], ([], []), None)]
        while work:
            walk(*work.pop())
        uniq = {}
        for e, c, end in found:
            k = (tuple(t[4] for _, t in e), end)
            if k not in uniq or len(c) > len(uniq[k][1]):
                uniq[k] = (e, c, end)
        return list(uniq.values())

    for I in f.instrs():
        if I.op != 'call':
            continue
        lo = listof(M, I)
        if not lo or lo[0] != 'type':
            continue
        pre = {x + sum(map(delta, I.bb.ins[:I.bb.ins.index(I)])) for x in bal.get(I.bb, {0})}
        past = pre == {-1}
        for T in tvals(I.ops[1]):
            base = inner.get(I.bb, (None, None))[0]
            heads = backward(I, past) if pre in ({0}, {-1}) else [([], [], None)]
            n0 = len(out)

            def mk(ent, calls):
                r = Rec(T, I)
                r.idx = [t for k, t in ent if k == 'idx']
                r.val = [t for k, t in ent if k == 'val']
                r.calls = calls
                r.first = next(c for c in calls if c is I or c.op == 'call' and c in {t[4] for _, t in ent})
                out.append(r)
                return r

            def walk(bb, k, ent, calls, seen):
                if len(out) - n0 > 64:
                    return
                for J in bb.ins[k:]:
                    if J.op == 'load' and vf.pfield(M, J.ops[0]) in (('iVec', 'len'), ('dVec', 'len')):
                        calls = calls + [J]
                    if J.op != 'call':
                        continue
                    l = listof(M, J)
                    if not l:
                        n = callee_name(J)
                        if n in ('exit', 'abort', '__assert_fail'):
                            return
                        continue
                    if l[0] == 'type':
                        r = mk(ent, calls)
                        r.err = 'the next record is started at %s before its extent is stored' % fmt(J)
                        return
                    if l[0] == 'starts':
                        r = mk(ent, calls + [J])
                        r.start, r.end, r.last = J.ops[1], J, J
                        return
                    ent = ent + [entry(J, l, bb, base)]
                    calls = calls + [J]
                if bb.term.op == 'ret':
                    r = mk(ent, calls)
                    r.err = 'the function returns before the extent of the record is stored'
                    return
                for s in bb.succs:
                    if (bb, s) not in seen:
                        walk(s, 0, ent, calls, seen + [(bb, s)])
            for ent, calls, end in heads:
                if past:
                    r = mk(ent, calls + [I])
                    r.start, r.end = (end.ops[1], end) if end is not None else (None, None)
                    r.last = I
                    if end is None:
                        r.err = 'the function returns before the extent of the record is stored'
                else:
                    walk(I.bb, I.bb.ins.index(I) + 1, ent, calls + [I], [])
    return out


# ---------------------------------------------------------------- reading records
# what undoing a record does: {scenario: {solution element: terms}}; S/E are the first slot of the record / one past the last,
# S2/E2 the same for a record of a batch, I and V the integer and real slots; 'self' is the old content
FIX = 'x[I[S]] = +V[S]; z[I[S]] = +V[S+1] -V[S+2..E-1]*y[I[S+2..E-1]]'
A_, R_ = 'V[S+1..E-2]', '[S+1..E-1]'
SPEC = {
    ('FIXED_COL', 'any'): FIX,
    ('SUB_COL', 'match'): 'x[I[S]] = +V[S]/V[S+1..E-2]; z[I[S]] = +V[E-1] -V[S+1..E-2]*y[I[E-1]]',
    ('SUB_COL', 'other'): 'x[I[S]] = +V[S] -V[S+1..E-2]*x[I[S+1..E-2]]; z[I[S]] = +V[E-1]',
    ('FIXED_COL_INF', 'match'): 'x[I[S+1]] = +V[S+1] +V[S+c]/V[S+c+1..I[S+c]+S+c]; z[I[S+1]] = +0',
    ('FIXED_COL_INF', 'other'): 'x[I[S+1]] = +V[S+1] +V[S+c] -V[S+c+1..I[S+c]+S+c]*x[I[S+c+1..I[S+c]+S+c]]; z[I[S+1]] = +0',
    ('DELETED_ROW', 'any'): 'y[I[S]] = +V[S]',
    ('ADDED_ROW', 'any'): 'y[I[S]] = +self +V[S]*y[I[S+1]]',
    ('ADDED_ROWS', 'match'): '',
    ('ADDED_ROWS', 'other'): 'y[I[S]] = +self -V[S+1..E-1]*y[I[S+1..E-1]]/V[S]',
    ('EQ_TO_INEQ', 'any'): 'y[I[S]] = +self +V[S]',
    ('BOUND_CHANGE_THE_ROW', 'FIXED_COL'): FIX.replace('S', 'S2').replace('E', 'E2'),
    ('BOUND_CHANGE_THE_ROW', 'match'): 'y[I[S]] = +self +z[I[S2]]/V[S+1..E-1]; z[I[S2]] = +0',
    # (second form: the coefficient comes from a search that cannot fail, and cancels in the element-free notation)
    ('BOUND_CHANGE_THE_ROW', 'other'): ['y[I[S]] = +self +z[I[S2]]; z[I[S2]] = +0; z[I[S+1..E-1]] = +self -V[S+1..E-1]*z[I[S2]]',
                                        'y[I[S]] = +self +z[I[S2]]/V[S+1..E-1]; z[I[S2]] = +0; z[I[S+1..E-1]] = +self -z[I[S2]]'],
}
NOOP = ''
OPTIONAL0 = {'y[I[S+1]] = +0'}


def parse(t):
    out = {}
    for p in filter(None, (x.strip() for x in t.split(';'))):
        k, v = p.split(' = ')
        out[k] = set(v.split())
    return out


def shown(e):
    """effects as {element: set of term texts}; a numeric divisor stands for a coefficient that was not found"""
    out = {}
    for t, ts in e.items():
        q = set()
        for g, n, d in ts:
            d = tuple(x for x in d if not replay.isnum(x))
            q.add('%s%s%s' % ('+' if g > 0 else '-', '*'.join(n) or '1', ''.join('/' + x for x in d)))
        out[t] = q
    return out


def same(a, b):
    """terms agree; an unknown end of a range agrees with any"""
    def eq(x, y):
        if x == y:
            return True
        if '..?' not in x and '..?' not in y:
            return False
        rx = re.escape(x).replace(re.escape('..?'), r'\.\.[^\]]*(?:\[[^\]]*\][^\]]*)?')
        return re.fullmatch(rx, y) is not None
    return all(any(eq(x, y) for y in b) for x in a) and all(any(eq(x, y) for x in a) for y in b)


def lost(e):
    """a slot or element the analysis could not name"""
    return any('?' in t for t in e) or any(re.search(r'\?(?<!\.\.\?)', x) for v in e.values() for x in v)


class Replay:
    def __init__(s, rep):
        s.rep = rep
        s.R = replay.Reader()
        s.T = types()
        s.undecided = []

    def expect(s, T, label, want, got, R):
        e = shown(got)
        s.rep.cov.setdefault('formulas', {})['%s/%s' % (T, label)] = {k: sorted(v) for k, v in e.items()}
        if lost(e):
            s.undecided.append('%s/%s' % (T, label))
            return
        for w in want if isinstance(want, list) else [want]:
            w = parse(w) if isinstance(w, str) else w
            if e.keys() == w.keys() and all(same(e[k], w[k]) for k in w):
                s.rep.ok('%s/%s: %s' % (T, label, '; '.join('%s = %s' % (k, ' '.join(sorted(v))) for k, v in sorted(e.items())) or 'nothing'))
                return
        w = want[0] if isinstance(want, list) else want
        w = parse(w) if isinstance(w, str) else w
        diff = []
        for k in sorted(set(e) | set(w)):
            if k not in e or k not in w or not same(e[k], w[k]):
                diff.append('%s is set to {%s}, not {%s}' % (k, ' '.join(sorted(e[k])) if k in e else 'unchanged',
                                                            ' '.join(sorted(w[k])) if k in w else 'unchanged'))
        ws = [fmt(I) for k, I in R.where.items() for I in I][:1]
        s.rep.bad('replay:%s:%s' % (T, label), 'undoing a %s record (%s): %s   at %s' % (T, label, '; '.join(diff), ws[0] if ws else 'postsolve'))

    def stale(s, T, label):
        """a formula must use the values from before this record was undone"""
        R = s.R
        heads = {R.head} | {R.inner[I.bb][0] for I in R.nested}
        for u, ws in R.where.items():
            for w in ws:
                for L in deps(R, w):
                    t = R.token(L)
                    if t == u or t not in R.where:
                        continue
                    for st in R.where[t]:
                        if reaches(R, st, L, heads):
                            s.rep.bad('stale:%s:%s' % (T, t), 'undoing a %s record (%s): %s at %s is computed from %s after %s has already been overwritten at %s' % (
                                T, label, u, fmt(w), t, t, fmt(st)))
                            return
        s.rep.ok()

    def run(s):
        R, T, rep = s.R, s.T, s.rep
        for (n, label), want in SPEC.items():
            T2 = None
            eq = {'match': True, 'other': False}.get(label)
            rank = None
            if n == 'BOUND_CHANGE_THE_ROW':
                T2 = T['FIXED_COL'] if label == 'FIXED_COL' else T['BOUND_CHANGE_NO_ROW']
                if label != 'FIXED_COL':
                    rank = bound_rank(0, 2, 1)
            e = R.run(T[n], T2, eq=eq, rank=rank)
            s.expect(n, label, want, e, R)
            s.stale(n, label)
        s.inf()
        s.bound_change()
        s.sides()
        s.parallel()
        s.order()
        for v, (a, b) in R.badstep.items():
            rep.bad('replay:groups', 'the lists saved for a column at infinity are read with the step %s, they were written with %s   at %s' % (a, b, fmt(v)))
        rep.cov['undecided'] = s.undecided
        rep.need('replay formulas decided', rep.discharged, 30)

    def inf(s):
        """a column fixed at an infinite bound takes the extreme over its rows in the right direction"""
        R = s.R
        for flag, want in ((1, 'max'), (-1, 'min')):
            R.run(s.T['FIXED_COL_INF'], ints={'I[S]': flag}, eq=False, sentinel=False)
            got = set()
            for I in R.f.instrs():
                if I.bb in R.exe and I.bb in R.body:
                    if I.op == 'select' and I.ops[0].op == 'fcmp' and set(I.ops[0].ops) == set(I.ops[1:]):
                        c = I.ops[0]
                        gt = c.pred[-2:] in ('gt', 'ge')
                        first = c.ops[0] is I.ops[1]
                        got.add('max' if gt == first else 'min')
                    elif I.op == 'call' and re.search(r'f?(max|min)', callee_name(I) or ''):
                        got.add(re.search(r'(max|min)', callee_name(I)).group(1))
            if not got:
                s.undecided.append('FIXED_COL_INF/direction')
                continue
            s.rep.check(got == {want}, 'inf:%d' % flag, 'a column fixed at %s infinity must take the %simum over its rows, postsolve takes %s' % (
                '+' if flag > 0 else '-', want, '/'.join(sorted(got))), 'FIXED_COL_INF/%+d: %simum over its rows' % (flag, want))
        e = shown(R.run(s.T['FIXED_COL_INF'], eq=False, sentinel=True))
        s.expect('FIXED_COL_INF', 'unknown entry', 'x[I[S+1]] = +V[S+1] +V[S+c]; z[I[S+1]] = +0',
                 R.run(s.T['FIXED_COL_INF'], eq=False, sentinel=True), R)

    def bound_change(s):
        """the dual of a variable moves to the row exactly if the implied bound is active and the original other bound is not
        active with the right sign"""
        R, T = s.R, s.T
        for flag in (1, 0):
            for impl in (0, 2, -2):
                for oth in (0, 2, -2):
                    for z in (1, -1):
                        e = R.run(T['BOUND_CHANGE_THE_ROW'], T['BOUND_CHANGE_NO_ROW'], ints={'I[S2+1]': flag}, eq=True, rank=bound_rank(impl, oth, z))
                        keep = impl != 0 or (oth == 0 and (z > 0 if flag else z < 0))
                        lab = 'lower=%d implied %s other %s z%s' % (flag, 'at' if impl == 0 else 'off', 'at' if oth == 0 else 'off', '>0' if z > 0 else '<0')
                        s.expect('BOUND_CHANGE_THE_ROW', lab, NOOP if keep else SPEC[('BOUND_CHANGE_THE_ROW', 'match')], e, R)

    def sides(s):
        R, T = s.R, s.T
        for n, good in (('LHS_CHANGE', 1), ('RHS_CHANGE', -1)):
            for res in (0, 2, -2):
                for y in (1, -1):
                    e = R.run(T[n], rank=side_rank(res, y))
                    lab = 'residual %s y%s' % ('0' if res == 0 else 'off', '>0' if y > 0 else '<0')
                    move = 'y[I[S+1]] = +V[S+1]*y[I[S]]; y[I[S]] = +0'
                    want = [NOOP] if res else ([move] if y == good else ['y[I[S+1]] = +0', NOOP])
                    s.expect(n, lab, want, e, R)
                    if res == 0 and y == good:
                        s.stale(n, lab)

    def parallel(s):
        R, T = s.R, s.T
        LB, UB = build.constants(['C_TAG_LB_INF', 'C_TAG_UB_INF']).values()
        LB, UB = int(LB), int(UB)
        for tj in (0, LB, UB, LB | UB):
            for tk in (0, LB, UB, LB | UB):
                for xk in (0, -2, 2):          # merged value within the bounds of column k / below its lower / above its upper
                    e = R.run(T['PARALLEL_COL'], ints={'I[S+2]': tj, 'I[S+3]': tk}, rank=par_rank(xk))
                    b = 'V[S]' if not tj & LB else 'V[S+1]' if not tj & UB else None
                    cl = 'V[S+2]' if xk < 0 and not tk & LB else 'V[S+3]' if xk > 0 and not tk & UB else None
                    if cl:
                        w = {'x[I[S]]': {'+self', '-%s*V[S+4]' % cl}, 'x[I[S+1]]': {'+' + cl}}
                    else:
                        w = {'x[I[S]]': {'+' + b if b else '+0'}, 'x[I[S+1]]': {'+x[I[S]]/V[S+4]'} | ({'-%s/V[S+4]' % b} if b else set())}
                    e.pop('z[I[S+1]]', None)
                    s.expect('PARALLEL_COL', 'tags %d,%d x_k %+d' % (tj, tk, xk), w, e, R)
                    s.stale('PARALLEL_COL', 'tags')
        e = R.run(T['PARALLEL_COL'])
        s.expect('PARALLEL_COL', 'dual', 'z[I[S+1]] = +0 +V[S+4]*z[I[S]]', {k: v for k, v in e.items() if k[0] in 'zy'}, R)

    def order(s):
        """records are undone one by one from the last to the first"""
        R, rep = s.R, s.rep
        (st, sp, lp) = R.rec['']
        st = dict(st)
        h = R.head
        names = fill.names(R.f)
        if lp is None:
            ph = [a for a in st if a is not None]
            phi = names.get(ph[0]) if len(ph) == 1 and st[ph[0]] == 1 else None
            if phi is None or phi.op != 'phi' or phi.bb is not h:
                s.undecided.append('replay order')
                return
            c0 = st.get(None, 0)
            for w, b in phi.inc:
                l = R.lin(w)
                if b in R.body:
                    continue
                a = {k: v for k, v in (l or {}).items()}
                a[None] = a.get(None, 0) + c0
                nm = {k: names.get(k) for k in a if k is not None}
                ok = len(nm) == 1 and a.get(None) == -1 and all(v == 1 for k, v in a.items() if k is not None) and all(
                    is_typelen(R.M, v) for v in nm.values())
                rep.check(ok, 'order:first', 'replay does not start at the last record: first index is %s' % replay.form(a), 'replay starts at the last record')
            nxt = {}
            for n in s.T:
                if n == 'BOUND_CHANGE_NO_ROW':
                    continue
                for n2 in (('FIXED_COL', 'BOUND_CHANGE_NO_ROW') if n == 'BOUND_CHANGE_THE_ROW' else (None,)):
                    R.run(s.T[n], s.T.get(n2))
                    for w, b in phi.inc:
                        if b not in R.body or (b, h) not in R.edges:
                            continue
                        for v in alive(R, w):
                            nxt.setdefault(n, []).append(v)
            inner = dict(R.rec['2'][0]) if '2' in R.rec else None
            for n, vs in nxt.items():
                for v in vs:
                    v2, d = v
                    if v2 is phi:
                        rep.check(d == -1, 'order:next:%s' % n, 'after a %s record the replay continues %+d records away instead of at the one before' % (n, d))
                    elif n == 'BOUND_CHANGE_THE_ROW' and R.nested:
                        j, dj = unlin(index_value(R.nested[0]))
                        if v2 is j:
                            rep.check(d + c0 - dj == -1, 'order:batch', 'after a batch of bound changes the replay continues %+d records from the last one of the batch' % (d + c0 - dj), 'batch: continues before it')
                        else:
                            s.undecided.append('order after batch')
                    else:
                        s.undecided.append('order after %s' % n)
            s.until(phi, c0)
            s.batch(phi, c0)
        else:
            s.undecided.append('replay order')

    def until(s, phi, c0):
        """the loop processes record 0 and stops there"""
        R, rep = s.R, s.rep
        n = s.T['DELETED_ROW']
        # index being processed when the head is entered: phi + c0
        for i, more in ((0, False), (1, True)):
            outs = exits(R, phi, i - c0, n)
            rep.check(more in outs and len(outs) == 1, 'order:end:%d' % i,
                      'after record %d the replay %s' % (i, 'stops' if more else 'goes on'), 'replay ends after record 0' if not more else None)

    def batch(s, phi, c0):
        R, rep = s.R, s.rep
        if not R.nested:
            return
        (st, sp, lp) = R.rec['2']
        a, p = dict(st), dict(sp)
        ok = p == {None: -1} and fill.add(a, {phi.name: 1, None: c0 - 1}, -1) == {}
        if lp is None:
            s.undecided.append('batch order')
        else:
            rep.check(ok, 'batch:order', 'a batch of bound changes must be undone from the record just before its row record, downwards; found start %s step %s' % (
                replay.form(a), replay.form(p)), 'batch undone downwards from the record before')
        h = R.inner[R.nested[0].bb][0]
        body = dict(R.loops)[h]
        cnt = None
        for t in body:
            for I in t.ins:
                if I.op == 'icmp':
                    for x, y in (I.ops, I.ops[::-1]):
                        y2 = strip(y)
                        if y2.op == 'fptosi' and R.token(strip(y2.ops[0])) == 'V[S]':
                            cnt = (I, x, y2)
        if cnt is None:
            s.undecided.append('batch count')
            return
        res = {}
        for n2 in ('FIXED_COL', 'BOUND_CHANGE_NO_ROW'):
            for k in (1, 2):
                outs = set()
                for ph in [I for I in h.ins if I.op == 'phi' and I.ty.kind == 'int' and any(w.op == 'const' and w.val == 0 for w, b in I.inc if b not in body)]:
                    o = inner_exits(R, h, body, ph, 0, cnt[2], k, s.T['BOUND_CHANGE_THE_ROW'], s.T[n2])
                    outs.add(frozenset(o))
                res[(n2, k)] = outs
        want = {('BOUND_CHANGE_NO_ROW', 1): False, ('BOUND_CHANGE_NO_ROW', 2): True, ('FIXED_COL', 1): True, ('FIXED_COL', 2): True}
        for k, w in want.items():
            if any(frozenset({w}) == o for o in res[k]):
                rep.ok('batch count: %s with %d to go: %s' % (k[0], k[1], 'goes on' if w else 'ends'))
            elif any(frozenset({not w}) == o for o in res[k]):
                rep.bad('batch:count:%s:%d' % k, 'with %d bound changes to undo the batch %s after one %s record' % (k[1], 'ends' if w else 'goes on', k[0]))
            else:
                s.undecided.append('batch count')


def deps(R, w):
    """loads of solution elements a stored value is computed from, on the edges taken"""
    seen, st, out = set(), [w.ops[0]], []
    while st:
        v = st.pop()
        if v in seen or v.op in ('const', 'arg', 'global'):
            continue
        seen.add(v)
        if v.op == 'load':
            if R.solelem(v.ops[0]):
                out.append(v)
            continue
        if v.op == 'phi':
            st.extend(x for x, b in v.inc if (b, v.bb) in R.edges)
        else:
            st.extend(v.ops)
    return out


def reaches(R, a, b, heads):
    if a.bb is b.bb and a.bb.ins.index(a) < a.bb.ins.index(b):
        return True
    seen, st = set(), [x for x in a.bb.succs]
    while st:
        x = st.pop()
        if x in seen or x in heads or x not in R.exe:
            continue
        seen.add(x)
        if x is b.bb:
            return True
        st.extend(y for y in x.succs if (x, y) in R.edges)
    return False


def mono(d):
    """{token set: sign} of a difference, constants left out"""
    return {frozenset(n): g for g, n, e in d}


def bound_rank(impl, oth, z):
    def rank(d, absolute):
        toks = {q for g, n, e in d for q in n} | {q for g, n, e in d for q in e}
        m = mono(d)
        if toks == {'x[I[S2]]', 'V[S2]'}:
            return impl * 1.0 * (m[frozenset({'x[I[S2]]'})] if not absolute else 1)
        if toks == {'x[I[S2]]', 'V[S2+1]'}:
            return oth * 1.0 * (m[frozenset({'x[I[S2]]'})] if not absolute else 1)
        if toks == {'z[I[S2]]'} and not absolute:
            return z * 1.0 * m[frozenset({'z[I[S2]]'})]
        return None
    return rank


def side_rank(res, y):
    def rank(d, absolute):
        toks = {q for g, n, e in d for q in n}
        m = mono(d)
        if 'V[S]' in toks and len(toks) == 3:
            return res * 1.0 * (-m[frozenset({'V[S]'})] if not absolute else 1)
        if len(d) == 1:
            (g, n, e), = d
            rest = [q for q in n if q != 'V[S+1]']
            if rest == ['y[I[S]]'] and len(n) % 2 == 1 and not e:
                return y * 1.0 * g
        return None
    return rank


def par_rank(xk):
    def rank(d, absolute):
        if absolute:
            return None
        m = {(frozenset(n), frozenset(e)): g for g, n, e in d}
        v = m.get((frozenset({'x[I[S]]'}), frozenset({'V[S+4]'})))
        if v is None:
            return None
        lb, ub = (frozenset({'V[S+2]'}), frozenset()) in m, (frozenset({'V[S+3]'}), frozenset()) in m
        if lb and not ub:
            return v * (-2.0 if xk < 0 else 2.0)
        if ub and not lb:
            return v * (2.0 if xk > 0 else -2.0)
        return None
    return rank


def is_typelen(M, v):
    v = strip(v)
    if v.op != 'load':
        return False
    q = vf.ap(M, v)
    if q[:2] == ('u16Vec', 'len') and q[2][:2] == ('PostsolveInfo', 'type'):
        return True
    return False


def unlin(v):
    """(base value, constant) of value +- constants, through single-entry joins"""
    d = 0
    while True:
        v = strip(v)
        if v.op in ('add', 'sub') and v.ops[1].op == 'const':
            d += v.ops[1].val if v.op == 'add' else -v.ops[1].val
            v = v.ops[0]
        elif v.op == 'add' and v.ops[0].op == 'const':
            d += v.ops[0].val
            v = v.ops[1]
        elif v.op == 'phi' and len(v.ops) == 1:
            v = v.ops[0]
        else:
            return v, d


def index_value(I):
    """index operand of an array access"""
    p = I.ops[0]
    return p.ops[-1] if p.op == 'gep' else p


def alive(R, v, seen=()):
    """values a join can have on the edges taken"""
    b, d = unlin(v)
    if b.op == 'phi' and b not in seen and b.bb is not R.head and b.bb not in [h for h, _ in R.loops]:
        out = []
        for w, p in b.inc:
            if (p, b.bb) in R.edges:
                out += [(x, e + d) for x, e in alive(R, w, seen + (b,))]
        return out
    return [(b, d)]


def exits(R, phi, val, T):
    """set of {True: another record follows, False: loop left} when the loop variable has the given value"""
    def assume(I):
        if I is phi:
            return val & ((1 << I.ty.width) - 1)
        if I.op == 'load' and I in R.outer:
            return T & 0xffff
        if I.op == 'phi' and I.bb is R.head:
            return flow.TOP
        return None
    exe, edges, _ = flow.sccp(R.f, assume)
    return leaves(R.head, R.body, edges)


def leaves(h, body, edges):
    out = set()
    seen, st = set(), [h]
    while st:
        b = st.pop()
        if b in seen:
            continue
        seen.add(b)
        for t in b.succs:
            if (b, t) not in edges:
                continue
            if t is h:
                out.add(True)
            elif t not in body:
                out.add(False)
            else:
                st.append(t)
    return out


def inner_exits(R, h, body, ph, val, cnt, n, T, T2):
    def assume(I):
        if I is ph:
            return val & ((1 << I.ty.width) - 1)
        if I is cnt:
            return n
        if I.op == 'load' and I in R.outer:
            return T & 0xffff
        if I.op == 'load' and I in R.nested:
            return T2 & 0xffff
        return None
    exe, edges, _ = flow.sccp(R.f, assume)
    return leaves(h, body, edges)


# ---------------------------------------------------------------- writing records
LBF, UBF = 'bounds.lb', 'bounds.ub'
COLS = {'A.i', 'ston_cols.data', 'empty_cols.data', 'fixed_cols_to_delete.data', 'sub_cols_to_delete.data'}
ROWS = {'AT.i', 'dton_rows.data', 'ston_rows.data', 'empty_rows.data', 'updated_activities.data', 'rows_to_delete.data'}
BYCOL = {'obj.c', LBF, UBF, 'col_tags', 'col_sizes', 'AT.p.start', 'AT.p.end'}
BYROW = {'lhs', 'rhs', 'row_tags', 'row_sizes', 'A.p.start', 'A.p.end'}


class Writer:
    def __init__(s, rep, M, f, T):
        s.rep, s.M, s.f, s.T = rep, M, f, T
        s.S = src.Src(M, f)
        s.inv = {v: k for k, v in T.items()}
        s.und = {}
        s.infbits = int(sum(build.constants(['C_TAG_LB_INF', 'C_TAG_UB_INF']).values()))

    # three-valued: True / False / None (not decided)
    def eq(s, a, b):
        if a is None or b is None:
            return None
        if s.S.key(a) == s.S.key(b):
            return True
        x, y = s.S.res(a), s.S.res(b)
        if x.op != 'const' and y.op != 'const' and {s.kind(x), s.kind(y)} == {'ROW', 'COL'}:
            return False
        if {x.op, y.op} & {'phi', 'select'}:
            xs, ys = s.alts(x), s.alts(y)
            if not ({s.S.key(q) for q in xs} & {s.S.key(q) for q in ys}):
                if all(q.op == 'load' and s.S.at(q) for q in xs | ys):
                    return False
            return None
        if x.op == 'load' and y.op == 'load' and s.S.at(x) and s.S.at(y):
            return False
        if x.op == 'const' or y.op == 'const':
            return False if (x.op == y.op or s.S.at(x) or s.S.at(y)) else None
        return None

    def alts(s, v, seen=()):
        v = s.S.res(v)
        if v.op in ('phi', 'select') and v not in seen:
            out = set()
            for o in (v.ops if v.op == 'phi' else v.ops[1:]):
                out |= s.alts(o, seen + (v,))
            return {x for x in out if not (x.op == 'const' and (x.val == -1 or x.val is None))} or out
        return set() if v in seen else {v}

    def kind(s, v):
        """COL / ROW / None of an index value"""
        out = set()
        for x in s.alts(v):
            a = s.S.at(x)
            if a and a[0] in COLS or a and a[0].startswith('iwork_n_cols'):
                out.add('COL')
            elif a and a[0] in ROWS or a and a[0].startswith('iwork_n_rows'):
                out.add('ROW')
            else:
                for u in x.users:
                    if u.op == 'gep' or (u.op in ('sext', 'zext') and u.users):
                        for g in ([u] if u.op == 'gep' else u.users):
                            if g.op == 'gep' and len(g.ops) == 2:
                                b = s.S.base(g.ops[0], [])
                                if b and not b[1]:
                                    for fl, k in ((BYCOL, 'COL'), (BYROW, 'ROW')):
                                        if any(q == b[0] or q.startswith(b[0] + '.') for q in fl):
                                            out.add(k)
        return out.pop() if len(out) == 1 else None if not out else 'MIXED'

    def want(s, r, cond, what, key):
        n = s.inv[r.T]
        if cond is None:
            s.und[what] = s.und.get(what, 0) + 1
            return None
        return s.rep.check(cond, 'record:%s:%s:%s' % (n, key, short(r.I)), 'the %s record written at %s: %s' % (n, fmt(r.I), what),
                           '%s at %s: %s' % (n, short(r.I), key))

    def elem(s, v, names):
        """index of a value read from one of the arrays, through joins: (name set, index)"""
        out, ix = set(), []
        for x in s.alts(v):
            a = s.S.at(x)
            if not a:
                return None, None
            out.add(a[0])
            ix.append(a[1])
        return out, ix

    def isat(s, v, name, index, allow0=False):
        """v is name[index]"""
        res = []
        for x in s.alts(v):
            if allow0 and x.op == 'const' and x.val == 0:
                continue
            a = s.S.at(x)
            if not a:
                res.append(False if x.op == 'const' else None)
            elif a[0] != name or len(a[1]) != 1:
                res.append(False)
            else:
                res.append(s.eq(a[1][0], index))
        if not res:
            return None
        return None if None in res else all(res)

    def lines(s, ptr, n, owner):
        """ptr is the start of the owner's entries in the array n (A.i, A.x, AT.i, AT.x)"""
        p = s.S.res(ptr)
        if p.op not in ('gep', 'load'):
            return None
        b = s.S.base(p, [])
        if b is None or b[0].startswith('local') or len(b[1]) == 0:
            return None
        if b[0] != n:
            return False
        a = s.S.at(b[1][0])
        if not a or len(b[1]) != 1:
            return None
        if a[0] != n.split('.')[0] + '.p.start':
            return False
        return s.eq(a[1][0], owner)

    def length(s, v, m, owner):
        v = s.S.res(v)
        if v.op == 'const':
            a = s.S.at(owner)                 # rows and columns listed by their number of entries
            n = {'dton_rows.data': 2, 'ston_rows.data': 1}.get(a[0]) if a else None
            return None if n is None or m != 'A' else v.val == n
        if v.op == 'sub':
            a, b = s.S.at(v.ops[0]), s.S.at(v.ops[1])
            if a and b:
                if a[0] != m + '.p.end' or b[0] != m + '.p.start':
                    return False
                x, y = s.eq(a[1][0], owner), s.eq(b[1][0], owner)
                return None if None in (x, y) else x and y
        a = s.S.at(v)
        if a:
            if a[0] != {'A': 'row_sizes', 'AT': 'col_sizes'}[m]:
                return False
            return s.eq(a[1][0], owner)
        return None

    # ---- the record as a whole
    def shape(s, r):
        n = s.inv[r.T]
        key = '%s:%s' % (n, short(r.I))
        if r.err:
            s.rep.bad('record:open:' + key, 'the %s record started at %s: %s' % (n, fmt(r.I), r.err))
            return False
        li = [('A', t[2]) if t[0] == 'A' else ('S', None) for t in r.idx]
        lv = [('A', t[2]) if t[0] == 'A' else ('S', None) for t in r.val]
        ns = (sum(a == 'S' for a, _ in li), sum(a == 'S' for a, _ in lv))
        ai, av = [l for a, l in li if a == 'A'], [l for a, l in lv if a == 'A']
        if (r.I in s.looped or at0(r.I) in s.looped) and n != 'FIXED_COL_INF':
            s.und['list appended element by element'] = s.und.get('list appended element by element', 0) + 1
            return None
        if not s.rep.check(ns[0] == ns[1] and len(ai) == len(av), 'record:lockstep:' + key,
                           'the %s record written at %s appends %d+%d lists to the indices but %d+%d lists to the values: every later record is read '
                           'from the wrong place' % (n, fmt(r.I), ns[0], len(ai), ns[1], len(av)), '%s: indices and values advance together' % key):
            return False
        for x, y in zip(ai, av):
            s.want(r, s.eq(x, y), 'the index list and the value list it appends have different lengths', 'lengths')
        # extent
        st = s.S.res(r.start)
        q = vf.ap(s.M, st) if st.op == 'load' else ()
        ok = len(q) > 2 and q[:2] in (('iVec', 'len'), ('dVec', 'len')) and q[2][:2] in LISTS and LISTS[q[2][:2]] in ('idx', 'val')
        if not ok:
            if st.op in ('load', 'const'):
                s.rep.bad('record:extent:' + key, 'the %s record written at %s: the extent stored is not the number of indices written' % (n, fmt(r.I)))
            else:
                s.und['extent'] = s.und.get('extent', 0) + 1
            return True
        which = LISTS[q[2][:2]]
        pos = r.calls.index(st) if st in r.calls else None
        late = [c for c in r.calls[(pos + 1 if pos is not None else 0):] if c.op == 'call' and (listof(s.M, c) or ('',))[0] == which]
        s.rep.check(pos is not None and not late, 'record:extent:' + key,
                    'the %s record written at %s: the extent is read before the last index is appended' % (n, fmt(r.I)), '%s: extent read last' % key)
        return True

    # ---- contents by type
    def sc(s, l, k, frm=0):
        """k-th scalar of the list (negative: from the end)"""
        q = [t[1] for t in l if t[0] == 'S']
        return q[k] if -len(q) <= k < len(q) else None

    def arr(s, l):
        q = [t for t in l if t[0] == 'A']
        return (q[0][1], q[0][2]) if q else (None, None)

    def layout(s, r, i, v):
        n = s.inv[r.T]
        a = ''.join(t[0] for t in r.idx), ''.join(t[0] for t in r.val)
        return s.rep.check(a == (i, v), 'record:layout:%s:%s' % (n, short(r.I)),
                           'the %s record written at %s has the layout %s/%s, postsolve reads %s/%s' % (n, fmt(r.I), a[0], a[1], i, v))

    def content(s, r):
        n = s.inv[r.T]
        return getattr(s, n)(r)

    def idxkind(s, r, v, k, what):
        q = s.kind(v)
        s.want(r, None if q in (None, 'MIXED') else q == k, 'the %s saved must be a %s index' % (what, 'column' if k == 'COL' else 'row'), what)

    def FIXED_COL(s, r):
        if not s.layout(r, 'SSA', 'SSA'):
            return
        c, v, ck = s.sc(r.idx, 0), s.sc(r.val, 0), s.sc(r.val, 1)
        s.idxkind(r, c, 'COL', 'column')
        k = s.S.res(ck)
        zero = k.op == 'const' and k.val == 0 and s.costs_nothing(r, c)
        s.want(r, zero or s.isat(ck, 'obj.c', c), 'the cost saved is not the cost of the column saved', 'cost')
        s.fixed_value(r, v, c)
        (pi, li), (pv, lv) = s.arr(r.idx), s.arr(r.val)
        if s.S.res(li).op == 'const':
            return
        s.want(r, s.lines(pi, 'AT.i', c), 'the row list saved is not that of the column', 'rows')
        s.want(r, s.lines(pv, 'AT.x', c), 'the coefficients saved are not those of the column', 'coefficients')
        s.want(r, s.length(li, 'AT', c), 'the number of entries saved is not that of the column', 'length')

    def costs_nothing(s, r, c):
        """the record is only reached where the cost of the column compared equal to zero"""
        if not hasattr(s, '_dom'):
            s._dom = flow.dominators(s.f)
        chain, b = [], r.I.bb
        while b not in chain:
            chain.append(b)
            b = s._dom.get(b, b)
        for b in chain:
            for p in b.preds:
                t = p.term
                if len(b.preds) != 1 or t.op != 'br' or not t.ops or t.ops[0].op != 'fcmp':
                    continue
                cmp = t.ops[0]
                xs = [x for x in cmp.ops if s.S.res(x).op != 'const']
                ks = [x for x in cmp.ops if s.S.res(x).op == 'const']
                if len(xs) == 1 and ks and s.S.res(ks[0]).val == 0 and s.isat(xs[0], 'obj.c', c):
                    taken = b is p.succs[0]
                    if (cmp.pred in ('oeq', 'ueq') and taken) or (cmp.pred in ('une', 'one') and not taken):
                        return True
        return False

    def fixed_value(s, r, v, c):
        """a bound it is fixed at belongs to the column"""
        for x in s.alts(v):
            a = s.S.at(x)
            if a and a[0].startswith('bounds.'):
                s.want(r, s.eq(a[1][0], c), 'the value saved is a bound of another column', 'value')
        heads = s.around.get(r.I.bb, ())
        for n in (LBF, UBF):
            for st, ix in s.stores(n):
                if s.eq(ix, c) and between(r.end, st, heads):
                    k1, k2 = s.names(st.ops[0]), s.names(v)
                    if k1 and k2 and not k1 & k2:
                        s.want(r, False, 'the value saved (%s) is not the value the column is fixed at (%s, %s)' % (
                            s.S.show(v)[:60], s.S.show(st.ops[0])[:60], fmt(st)), 'value')

    def names(s, v):
        """the values joined in v, if all of them are constants, reads of the problem or sums and products of such"""
        out = set()
        for x in s.alts(v):
            if x.op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg'):
                if not all(s.names(o) for o in x.ops):
                    return None
            elif x.op != 'const' and not (x.op == 'load' and s.S.at(x)):
                return None
            out.add(s.S.key(x))
        return out

    def SUB_COL(s, r):
        if not s.layout(r, 'SAS', 'SAS'):
            return
        k, i = s.sc(r.idx, 0), s.sc(r.idx, 1)
        side, ck = s.sc(r.val, 0), s.sc(r.val, 1)
        s.idxkind(r, k, 'COL', 'column')
        s.idxkind(r, i, 'ROW', 'row')
        (pi, li), (pv, lv) = s.arr(r.idx), s.arr(r.val)
        s.want(r, s.lines(pi, 'A.i', i), 'the column list saved is not that of the row', 'columns')
        s.want(r, s.lines(pv, 'A.x', i), 'the coefficients saved are not those of the row', 'coefficients')
        s.want(r, s.length(li, 'A', i), 'the number of entries saved is not that of the row', 'length')
        res = []
        for x in s.alts(side):
            a = s.S.at(x)
            res.append(None if not a else (s.eq(a[1][0], i) if a[0] in ('lhs', 'rhs') else False))
        s.want(r, None if None in res else all(res), 'the side saved is not the side of the row it is solved from', 'side')
        zero = s.S.res(ck).op == 'const'
        if zero:
            s.want(r, s.S.res(ck).val == 0, 'the cost saved is a constant', 'cost')
            p = s.before(r)
            ok = bool(p) and all(q is not None and s.inv.get(q.T) == 'EQ_TO_INEQ' and s.eq(s.sc(q.idx, 0), i) is not False for q in p)
            s.want(r, ok, 'its cost is saved as 0, which needs the EQ_TO_INEQ record of the same row right before it', 'order')
        else:
            s.want(r, s.isat(ck, 'obj.c', k), 'the cost saved is not the cost of the column saved', 'cost')
            p = s.before(r)
            s.want(r, not any(q is not None and s.inv.get(q.T) == 'EQ_TO_INEQ' and s.eq(s.sc(q.idx, 0), i) for q in p),
                   'the cost was already moved to the dual of the row by the EQ_TO_INEQ record before it and must be saved as 0', 'order')

    def before(s, r):
        """records directly before r (None: none in this function)"""
        ends = {}
        for q in s.recs:
            if q.end is not None:
                ends.setdefault(q.last, []).append(q)
        out = []
        seen = set()
        st = [(r.first.bb, r.first.bb.ins.index(r.first))]
        while st:
            b, k = st.pop()
            hit = None
            for I in reversed(b.ins[:k]):
                if I in ends:
                    hit = I
                    break
            if hit is not None:
                out.extend(ends[hit])
                continue
            if b in seen:
                continue
            seen.add(b)
            if not b.preds:
                out.append(None)
            for p in b.preds:
                st.append((p, len(p.ins)))
        return out

    def mono(s, v, depth=0):
        """(sign, numerators, denominators) of a product / quotient; False if it is certainly something else"""
        v = s.S.res(v)
        if v.op == 'const' and isinstance(v.val, (int, float)):
            if v.val in (1, -1):
                return (int(v.val), [], [])
            return (1, [v], [])
        if depth < 8:
            if v.op == 'fneg':
                r = s.mono(v.ops[0], depth + 1)
                return (-r[0],) + r[1:] if r else r
            if v.op in ('fmul', 'fdiv'):
                x, y = s.mono(v.ops[0], depth + 1), s.mono(v.ops[1], depth + 1)
                if not x or not y:
                    return False if False in (x, y) else None
                if v.op == 'fdiv':
                    y = (y[0], y[2], y[1])
                return (x[0] * y[0], x[1] + y[1], x[2] + y[2])
            if v.op in ('fadd', 'fsub'):
                return False
        return (1, [v], [])

    def leaf(s, v):
        """'obj.c' / 'coef' / other array / 'const' / None"""
        if v.op == 'const':
            return 'const'
        n, _ = s.elem(v, None)
        if not n:
            return None
        n = {'coef' if x in ('A.x', 'AT.x') else x for x in n}
        return n.pop() if len(n) == 1 else None

    def quotient(s, v):
        """(sign, numerator, denominator) of a quotient of two values"""
        r = s.mono(v)
        if not r or len(r[1]) != 1 or len(r[2]) != 1:
            return None
        return (r[0], r[1][0], r[2][0])

    def form(s, v, num, den):
        """three-valued: v = num / den, by kind of the values read; and the two values"""
        r = s.mono(v)
        if r is False:
            return False, None
        if r is None:
            return None, None
        a, b = [s.leaf(x) for x in r[1]], [s.leaf(x) for x in r[2]]
        if None in a + b:
            return None, None
        if a != [num] or b != [den]:
            return False, None
        return True, (r[0], r[1][0], r[2][0])

    def dualval(s, r, v, k, i):
        """v = c[k] / a_ik"""
        ok, q = s.form(v, 'obj.c', 'coef')
        if not ok:
            return ok
        if q[0] != 1:
            return False
        return s.isat(q[1], 'obj.c', k) if k is not None else None

    def rowof(s, x):
        """row (column) a coefficient read from A (AT) belongs to"""
        o = [s.S.at(y) for y in s.alts(x)]
        r = set()
        for a in o:
            if not a or a[0] not in ('A.x', 'AT.x') or not a[1]:
                return None, None
            p = s.S.at(a[1][0])
            if not p or p[0] != a[0][:-1] + 'p.start':
                return None, None
            r.add((a[0], p[1][0]))
        return r.pop() if len(r) == 1 else (None, None)

    def DELETED_ROW(s, r):
        if not s.layout(r, 'S', 'S'):
            return
        i, v = s.sc(r.idx, 0), s.sc(r.val, 0)
        s.idxkind(r, i, 'ROW', 'row')
        if s.S.res(v).op == 'const':
            s.want(r, s.S.res(v).val == 0, 'the dual value of a redundant row must be 0', 'dual')
            p = [q for q in s.before(r) if q is not None and s.inv.get(q.T) in ('SUB_COL', 'ADDED_ROWS') and
                 s.eq(s.sc(q.idx, -1 if s.inv[q.T] == 'SUB_COL' else 0), i)]
            s.want(r, not p, 'the row an eliminated column was solved from is given the dual value 0, not cost / coefficient', 'dual')
            return
        p = [q for q in s.before(r)]
        ok = bool(p) and all(q is not None and s.inv.get(q.T) in ('SUB_COL', 'ADDED_ROWS') and
                             s.eq(s.sc(q.idx, -1 if s.inv[q.T] == 'SUB_COL' else 0), i) is not False for q in p)
        s.want(r, ok, 'a dual value is only known after the SUB_COL or ADDED_ROWS record of the same row, which must directly precede it', 'order')
        for q in p if ok else ():
            k = s.sc(q.idx, 0) if s.inv[q.T] == 'SUB_COL' else s.ofcol(q)
            s.want(r, s.dualval(r, v, k, i), 'the dual value saved is not cost / coefficient of the eliminated column', 'dual')

    def ofcol(s, q):
        p, l = s.arr(q.idx)
        b = s.S.base(s.S.res(p), [])
        a = s.S.at(b[1][0]) if b and b[1] else None
        return a[1][0] if a and a[0] == 'AT.p.start' else None

    def EQ_TO_INEQ(s, r):
        if not s.layout(r, 'S', 'S'):
            return
        i, v = s.sc(r.idx, 0), s.sc(r.val, 0)
        s.idxkind(r, i, 'ROW', 'row')
        for q in s.recs:
            if s.inv.get(q.T) == 'SUB_COL' and any(b is r for b in s.before(q)):
                s.want(r, s.dualval(r, v, s.sc(q.idx, 0), i), 'the dual shift saved is not cost / coefficient of the eliminated column', 'dual')

    def ADDED_ROW(s, r):
        if not s.layout(r, 'SS', 'SS'):
            return
        i, j, v = s.sc(r.idx, 0), s.sc(r.idx, 1), s.sc(r.val, 0)
        s.idxkind(r, i, 'ROW', 'first row')
        s.idxkind(r, j, 'ROW', 'second row')
        s.want(r, (not s.S.key(i) == s.S.key(j)), 'both rows are the same', 'rows differ')
        ok, q = s.form(v, 'coef', 'coef')
        s.want(r, ok, 'the multiplier is not a quotient of two coefficients', 'ratio')
        if ok:
            s.want(r, q[0] == -1, 'the multiplier must carry the minus sign: the row was subtracted', 'sign')
            for x, row, w in ((q[1], j, 'numerator is not a coefficient of the row that was changed'), (q[2], i, 'denominator is not a coefficient of the row that was subtracted')):
                m, o = s.rowof(x)
                if m == 'A.x':
                    s.want(r, s.eq(o, row), 'the ' + w, w.split()[0])

    def ADDED_ROWS(s, r):
        if not s.layout(r, 'SA', 'SA'):
            return
        i, a = s.sc(r.idx, 0), s.sc(r.val, 0)
        s.idxkind(r, i, 'ROW', 'row')
        (pi, li), (pv, lv) = s.arr(r.idx), s.arr(r.val)
        k = s.ofcol(r)
        s.want(r, s.lines(pi, 'AT.i', k) if k is not None else None, 'the row list saved is not that of the column', 'rows')
        s.want(r, s.lines(pv, 'AT.x', k) if k is not None else None, 'the coefficients saved are not those of the column', 'coefficients')
        s.want(r, s.length(li, 'AT', k) if k is not None else None, 'the number of entries saved is not that of the column', 'length')
        x = s.S.at(a)
        if x and x[0] in ('A.x', 'AT.x'):
            o = s.S.at(x[1][0])
            s.want(r, s.eq(o[1][0], i) if o and o[0] == 'A.p.start' else None, 'the pivot saved is not the coefficient of the row', 'pivot')
        else:
            s.want(r, False if x or s.S.res(a).op == 'const' else None, 'the pivot saved is not a coefficient', 'pivot')
        for q in s.recs:
            pass
        nx = s.after(r)
        s.want(r, bool(nx) and all(q is not None and s.inv.get(q.T) == 'DELETED_ROW' and s.eq(s.sc(q.idx, 0), i) is not False for q in nx),
               'the DELETED_ROW record of the same row must follow it (postsolve starts from that dual value)', 'order')

    def after(s, r):
        starts = {}
        for q in s.recs:
            starts.setdefault(q.first, []).append(q)
        out, seen = [], set()
        st = [(r.last.bb, r.last.bb.ins.index(r.last) + 1)]
        while st:
            b, k = st.pop()
            hit = None
            for I in b.ins[k:]:
                if I in starts:
                    hit = I
                    break
            if hit is not None:
                out.extend(starts[hit])
                continue
            if b in seen:
                continue
            seen.add(b)
            if b.term.op == 'ret':
                out.append(None)
            for p in b.succs:
                st.append((p, 0))
        return out

    def BOUND_CHANGE_NO_ROW(s, r):
        if not s.layout(r, 'SS', 'SS'):
            return
        j, fl = s.sc(r.idx, 0), s.S.res(s.sc(r.idx, 1))
        imp, oth = s.sc(r.val, 0), s.sc(r.val, 1)
        s.idxkind(r, j, 'COL', 'column')
        if fl.op == 'const':
            name, other = (LBF, UBF) if fl.val else (UBF, LBF)
            a = s.S.at(oth)
            if s.S.key(oth) == s.S.key(imp):
                s.want(r, False, 'the implied bound is saved as the other bound too', 'other bound')
            if a and a[0] == other:
                s.want(r, False, 'the bound saved as the other bound is the %s bound, but the flag says %s' % (other[-2:], name[-2:]), 'other bound')
            else:
                s.want(r, s.isat(oth, name, j), 'the other bound saved is not the %s bound of the column' % name[-2:], 'other bound')
            # the implied bound is what the changed bound becomes
            near = [I for I in s.stores(other) if s.eq(I[1], j) and s.S.res(I[0].ops[0]) is s.S.res(imp)]
            wrong = [I for I in s.stores(name) if s.eq(I[1], j) and s.S.res(I[0].ops[0]) is s.S.res(imp)]
            if near or wrong:
                s.want(r, bool(near), 'the implied bound saved is stored as the %s bound' % name[-2:], 'implied bound')
        else:
            s.und['flag'] = s.und.get('flag', 0) + 1

    def stores(s, name):
        """(store, index) of the stores to an array of the problem"""
        if not hasattr(s, '_st'):
            s._st = {}
            for I in s.f.instrs():
                if I.op == 'store':
                    p = s.S.res(I.ops[1])
                    pf = vf.pfield(s.M, p)
                    if pf and len(p.ops) > 1 if p.op == 'gep' else False:
                        b = s.S.res(vf.root(s.M, p)[0])
                        n = s.S.base(b, []) if b.op in ('gep', 'load') else None
                        n = (n[0] + '.' + pf[1], n[1]) if n else None
                    else:
                        n = s.S.base(p, []) if p.op == 'gep' else None
                        if n and n[0] == 'bounds':          # first member of an element
                            n = ('bounds.lb', n[1])
                    if n and len(n[1]) == 1:
                        s._st.setdefault(n[0], []).append((I, n[1][0]))
        return s._st.get(name, [])

    def cells(s, name):
        """(store, indices) into the entries of a matrix"""
        if not hasattr(s, '_ce'):
            s._ce = {}
            for I in s.f.instrs():
                if I.op == 'store':
                    p = s.S.res(I.ops[1])
                    if p.op in ('gep', 'phi', 'select'):
                        n = s.S.base(p, [])
                        if n and n[0] in ('A.i', 'A.x', 'AT.i', 'AT.x'):
                            s._ce.setdefault(n[0], []).append((I, n[1]))
        return s._ce.get(name, [])

    def BOUND_CHANGE_THE_ROW(s, r):
        if not s.layout(r, 'SA', 'SA'):
            return
        s.rowlist(r, s.sc(r.idx, 0))

    def rowlist(s, r, i):
        s.idxkind(r, i, 'ROW', 'row')
        (pi, li), (pv, lv) = s.arr(r.idx), s.arr(r.val)
        s.want(r, s.lines(pi, 'A.i', i), 'the column list saved is not that of the row', 'columns')
        s.want(r, s.lines(pv, 'A.x', i), 'the coefficients saved are not those of the row', 'coefficients')
        s.want(r, s.length(li, 'A', i), 'the number of entries saved is not that of the row', 'length')

    def LHS_CHANGE(s, r, name='lhs'):
        if not s.layout(r, 'SSA', 'SSA'):
            return
        i, j, side = s.sc(r.idx, 0), s.sc(r.idx, 1), s.sc(r.val, 0)
        s.rowlist(r, i)
        s.want(r, (not s.S.key(i) == s.S.key(j)), 'both rows are the same', 'rows differ')
        other = 'rhs' if name == 'lhs' else 'lhs'
        v = s.S.res(side)
        near = [I for I, x in s.stores(name) if s.eq(x, i) and s.S.res(I.ops[0]) is v]
        wrong = [I for I, x in s.stores(other) if s.eq(x, i) and s.S.res(I.ops[0]) is v]
        u = s.S.res(s.sc(r.val, 1))
        if near or wrong:
            s.want(r, bool(near), 'the side saved becomes the %s of the row' % other, 'side')
        elif any(s.eq(x, i) and s.S.res(I.ops[0]) is u for I, x in s.stores(name) + s.stores(other)):
            s.want(r, False, 'the new side is saved where postsolve reads the ratio', 'side')
        else:
            s.und['side stored'] = s.und.get('side stored', 0) + 1

    def RHS_CHANGE(s, r):
        return s.LHS_CHANGE(r, 'rhs')

    def PARALLEL_COL(s, r):
        if not s.layout(r, 'SSSSS', 'SSSSS'):
            return
        j, k, tj, tk = [s.sc(r.idx, q) for q in range(4)]
        v = [s.sc(r.val, q) for q in range(5)]
        s.idxkind(r, j, 'COL', 'column that stays')
        s.idxkind(r, k, 'COL', 'column that goes')
        s.want(r, (not s.S.key(j) == s.S.key(k)), 'both columns are the same', 'columns differ')
        for val, nm, c, w in ((tj, 'col_tags', j, 'tags of the column that stays'), (tk, 'col_tags', k, 'tags of the column that goes'),
                              (v[0], LBF, j, 'lower bound of the column that stays'), (v[1], UBF, j, 'upper bound of the column that stays'),
                              (v[2], LBF, k, 'lower bound of the column that goes'), (v[3], UBF, k, 'upper bound of the column that goes')):
            s.want(r, s.isat(val, nm, c), 'slot "%s" holds %s' % (w, s.S.show(val)[:80]), w)
        q = s.quotient(v[4])
        if q:
            def own(x):
                a = s.S.at(x)
                o = s.S.at(a[1][0]) if a and a[0] == 'AT.x' and a[1] else None
                return o[1][0] if o and o[0] == 'AT.p.start' else None
            n, d = own(q[1]), own(q[2])
            if n is not None and d is not None:
                x, y = s.eq(n, k), s.eq(d, j)
                s.want(r, None if None in (x, y) else (x and y and q[0] == 1), 'the ratio saved is not coefficient of the column that goes / of the one that stays', 'ratio')
                return
        s.und['ratio'] = s.und.get('ratio', 0) + 1

    def FIXED_COL_INF(s, r):
        sc = lambda l, lp: [t for t in l if (t[3] is not None) == lp]
        a = (''.join(t[0] for t in sc(r.idx, False)), ''.join(t[0] for t in sc(r.val, False)))
        n = 'FIXED_COL_INF'
        if not s.rep.check(a == ('SS', 'SS'), 'record:layout:%s:%s' % (n, short(r.I)),
                           'the %s record written at %s has the fixed part %s/%s, postsolve reads SS/SS' % (n, fmt(r.I), a[0], a[1])):
            return
        c, fl = s.sc(r.idx, 1), s.S.res(s.sc(r.idx, 0))
        nr, bd = s.sc(r.val, 0), s.sc(r.val, 1)
        s.idxkind(r, c, 'COL', 'column')
        if fl.op == 'const':
            s.want(r, s.isat(bd, LBF if fl.val > 0 else UBF, c), 'the finite bound saved is not the %s bound of the column' % ('lower' if fl.val > 0 else 'upper'), 'bound')
        x = s.S.res(nr)
        s.want(r, s.length(x.ops[0], 'AT', c) if x.op == 'sitofp' else None, 'the number of rows saved is not that of the column', 'rows')
        li, lv = sc(r.idx, True), sc(r.val, True)
        if li or lv:
            a = (''.join(t[0] for t in li), ''.join(t[0] for t in lv))
            if not s.rep.check(a[0] == a[1] and re.fullmatch('(SA)*', a[0]) is not None, 'record:group:%s:%s' % (n, short(r.I)),
                               'the %s record written at %s saves the rows as %s/%s, postsolve reads one scalar and one list per row' % (n, fmt(r.I), a[0], a[1])):
                return
            for (t1, u1, t2, u2) in zip(li[::2], li[1::2], lv[::2], lv[1::2]):
                b = s.S.base(s.S.res(u1[1]), [])
                o = s.S.at(b[1][0]) if b and b[1] else None
                row = o[1][0] if o and o[0] == 'A.p.start' else None
                s.want(r, s.eq(t1[1], u1[2]), 'the row length saved is not the number of entries saved', 'row length')
                s.want(r, s.lines(u1[1], 'A.i', row) if row is not None else None, 'the columns saved are not those of the row', 'row columns')
                s.want(r, s.lines(u2[1], 'A.x', row) if row is not None else None, 'the coefficients saved are not those of the row', 'row coefficients')
                res = []
                for q in s.alts(t2[1]):
                    a = s.S.at(q)
                    res.append(None if not a or row is None else (s.eq(a[1][0], row) if a[0] in ('lhs', 'rhs') else False))
                s.want(r, None if None in res else all(res), 'the side saved is not a side of the row', 'row side')

    # ---- values must be read before the reduction changes them
    def fresh(s, r):
        if s.inv.get(r.T) == 'BOUND_CHANGE_NO_ROW':
            return                      # the bound not changed by this transfer may well have been changed by another one
        base = s.around.get(r.I.bb, ())
        for t in r.idx + r.val:
            if t[0] == 'A':                 # the list itself
                b = s.S.base(s.S.res(t[1]), [])
                if b and b[0] in ('A.i', 'A.x', 'AT.i', 'AT.x') and len(b[1]) == 1:
                    o = s.S.at(b[1][0])
                    for st, ix in s.cells(b[0]):
                        w = s.S.at(ix[0]) if ix else None
                        if o and w and o[0] == w[0] == b[0][:-1] + 'p.start' and s.eq(o[1][0], w[1][0]) and between(st, t[4], base):
                            s.want(r, False, 'the list %s is appended after the reduction has changed it at %s' % (s.S.show(t[1]), fmt(st)), 'read late')
        for t in r.idx + r.val:
            if t[0] != 'S':
                continue
            for L in s.leaves(t[1]):
                a = s.S.at(L)
                if not a or a[0] not in ('obj.c', 'lhs', 'rhs', LBF, UBF, 'col_tags', 'row_tags') or len(a[1]) != 1:
                    continue
                for st, ix in s.stores(a[0]):
                    if a[0] == 'col_tags' and not s.touches(st, s.infbits):
                        continue
                    if st is not L and s.eq(ix, a[1][0]) and between(st, L, base):
                        s.want(r, False, '%s is read after the reduction has changed it at %s' % (s.S.show(L), fmt(st)), 'read late')
        s.rep.ok()

    def touches(s, st, mask):
        """may the store change these bits of the place it writes"""
        v = strip(st.ops[0])
        if v.op in ('or', 'and'):
            c = [strip(o) for o in v.ops]
            k = [o.val for o in c if o.op == 'const']
            l = [o for o in c if o.op == 'load' and (o.ops[0] is st.ops[1] or s.S.key(o.ops[0]) == s.S.key(st.ops[1]))]
            if k and l:
                return bool((k[0] if v.op == 'or' else ~k[0]) & mask)
        return True

    def leaves(s, v, seen=None):
        seen = set() if seen is None else seen
        v = s.S.res(v)
        if v in seen:
            return
        seen.add(v)
        if v.op == 'load':
            yield v
        elif v.op in ('phi', 'select', 'fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'sitofp', 'add', 'sub'):
            for o in v.ops:
                yield from s.leaves(o, seen)

    def looping(s):
        """places that append a list element by element"""
        s.recs = records(s.M, s.f)
        return {k for r in s.recs if s.inv.get(r.T) != 'FIXED_COL_INF' and any(t[0] == 'S' and t[3] is not None for t in r.idx + r.val) for k in (r.I, at0(r.I))}

    def run(s, looped):
        s.around = {}
        for h, body in flow.loops(s.f):
            for b in body:
                s.around.setdefault(b, set()).add(h)
        used = set()
        good = []
        s.looped = looped
        for r in s.recs:
            used |= set(r.calls)
            if r.T not in s.inv:
                s.rep.bad('record:type:' + short(r.I), 'the type of the record started at %s is %s, which postsolve does not know' % (
                    fmt(r.I), 'not a constant' if r.T is None else r.T))
                continue
            if s.shape(r):
                good.append(r)
        for I in common.calls(s.f):
            l = listof(s.M, I)
            if l and I not in used:
                s.rep.bad('record:orphan:' + short(I), 'the append to the record %s at %s belongs to no record' % (
                    {'idx': 'indices', 'val': 'values', 'starts': 'extents', 'type': 'types'}[l[0]], fmt(I)))
        for r in good:
            if r.end is not None:
                s.content(r)
                s.fresh(r)
        return s.recs


# ---------------------------------------------------------------- batches of bound changes
def isflow(v, web=()):
    """joined from constants"""
    seen, st = set(), [v]
    while st:
        x = st.pop()
        if x in seen or x.op == 'const' or x in web:
            continue
        seen.add(x)
        if x.op in ('phi', 'select', 'and', 'or', 'xor', 'zext', 'sext', 'trunc', 'freeze', 'icmp'):
            st.extend(x.ops[1:] if x.op == 'select' else x.ops)
        else:
            return False
    return True


def batches(rep, M, f, T, recs):
    """every path: bound changes (possibly mixed with fixings) are followed by the record of the row with their number,
    before any other record and before a return that is not a verdict"""
    inv = {v: k for k, v in T.items()}
    if not any(inv.get(r.T) == 'BOUND_CHANGE_NO_ROW' for r in recs):
        return 0, 0
    types_ = {}
    counts = {}
    for r in recs:
        types_.setdefault(r.I, set()).add(inv.get(r.T))
        if inv.get(r.T) == 'BOUND_CHANGE_THE_ROW' and r.val and r.val[0][0] == 'S':
            v = strip(r.val[0][1])
            counts[r.I] = strip(v.ops[0]) if v.op in ('sitofp', 'uitofp') else v
    web = set()
    st = list(counts.values())
    while st:
        v = st.pop()
        if v not in web and v.op in ('phi', 'select', 'add', 'sext', 'zext', 'trunc'):
            web.add(v)
            st.extend(v.ops[1:] if v.op == 'select' else v.ops)
    CAP = 3

    def assume(I, env, ex):
        if I in web and I.op == 'add':
            a, b = (ex.get(env, o) for o in I.ops)
            if a is not None and b is not None and a.const() is not None and b.const() is not None:
                sg = lambda x: x - (1 << I.ty.width) if x >> (I.ty.width - 1) else x
                return flow.kconst(I.ty.width, min(max(sg(a.const()) + sg(b.const()), 0), CAP))
        return None
    ex = flow.Explorer(f, assume=assume, limit=400000)
    for I in f.instrs():                      # follow what is decided by control flow, not what is read from the problem
        ex._tr[I] = I in web or (I.ty is not None and ex.trackable(I) and isflow(I, web))
    for x in f.args:
        ex._tr[x] = False
    ex.strict = True
    n = [0, 0]
    bad = {}
    okd = set()

    def on(I, env, tag, key):
        if I in types_:
            ks = types_[I]
            if 'BOUND_CHANGE_NO_ROW' in ks:
                return min(tag + 1, CAP)
            if 'BOUND_CHANGE_THE_ROW' in ks:
                v = counts.get(I)
                if v is None:
                    c = None
                elif v.op == 'const':
                    c = int(v.val)
                else:
                    c = ex.get(env, v)
                    c = c.const() if c is not None else None
                if c is None:
                    n[1] += 1
                elif min(c, CAP) != tag:
                    bad[('count', short(I))] = 'the row record written at %s says %s bound changes where %s%d %s recorded' % (
                        fmt(I), c if c < CAP else 'at least %d' % CAP, 'at least ' if tag == CAP else '', tag, 'is' if tag == 1 else 'are')
                else:
                    okd.add(I)
                return 0
            if tag and 'FIXED_COL' not in ks:
                bad[('open', short(I))] = 'a %s record is written at %s while bound changes are waiting for the record of their row' % (
                    '/'.join(str(k) for k in sorted(ks, key=str)), fmt(I))
        if I.op == 'ret' and tag:
            v = ex.get(env, I.ops[0]) if I.ops else None
            if v is not None and v.o & 2:
                okd.add(I)                       # infeasible, or unbounded or infeasible: nothing is postsolved
            elif v is not None and v.z & 2:
                bad[('ret', f.name)] = '%s returns without the record of the row for %d bound change(s) it recorded' % (f.name, tag)
            else:
                n[1] += 1
        return None
    try:
        seen = ex.run([(f.blocks[0], 0, {}, 0)], on_instr=on)
    except RuntimeError:
        return 0, 1
    for k, w in bad.items():
        rep.bad('record:batch:%s:%s' % k, w)
    rep.ok('batches of %s' % f.name, len(okd))
    return len(seen), n[1]


def short(I):
    """stable place: innermost call outside the record writers"""
    p = I.loc.full().split(' <- ') if I.loc else [I.bb.fn.name]
    p = [x for x in p if 'save_retrieval' not in x]
    fs = re.findall(r'\((\w+)', ' '.join(p))
    return '<'.join(fs[:2]) or I.bb.fn.name


def between(a, b, heads):
    """b is reached from a without passing the head of a loop over items"""
    if a.bb is b.bb and a.bb.ins.index(a) < a.bb.ins.index(b):
        return True
    seen, st = set(), list(a.bb.succs)
    while st:
        x = st.pop()
        if x in seen or x in heads:
            continue
        seen.add(x)
        if x is b.bb:
            return True
        st.extend(x.succs)
    return False


RECORD_RULE = ("Writing side, in every reduction with everything inlined: along each path a record is one type, index and value entries that "
               "advance in lockstep, and its extent read after the last entry; no entry lies outside a record; each slot is traced to the array "
               "and index it was read from and must be the data postsolve expects there, of the same row or column, read before it is changed; "
               "batches of bound changes are closed by a row record with their exact number. Reading side: the replay loop, specialised for each "
               "record type and each outcome of its comparisons, gives update formulas of the solution that must equal the specified ones.")


def saved(rep):
    M, vec = writer_module()
    T = types()
    per = {}
    und = {}
    nrec = nst = 0
    ws = [Writer(rep, M, f, T) for f in M.defined() if f.name not in vec]
    looped = set().union(*[W.looping() for W in ws])
    for W in ws:
        f = W.f
        rs = W.run(looped)
        a, b = batches(rep, M, f, T, rs)
        if b:
            und['batch'] = und.get('batch', 0) + b
        nst += a
        for r in rs:
            if r.T in W.inv:
                per.setdefault(W.inv[r.T], set()).add(short(r.I))
        nrec += len(rs)
        for k, v in W.und.items():
            und[k] = und.get(k, 0) + v
    rep.cov['record sites'] = {k: sorted(v) for k, v in sorted(per.items())}
    rep.cov['undecided slots'] = und
    rep.cov['batch states'] = nst
    rep.need('record paths', nrec, 20)
    Replay(rep).run()
