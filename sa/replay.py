"""The replay loop of postsolve as a set of update formulas: for every record type (and every outcome of the comparisons
inside it) which solution elements are written, with which sums of products of record slots and solution elements."""
import re
import build
import fill
import flow
import vf
from common import callee_name, fmt

VEC = {'indices': 'I', 'vals': 'V', 'starts': 'P', 'type': 'T'}
SOL = ('x', 'y', 'z')


def strip(v):
    while v.op in ('sext', 'zext', 'trunc', 'freeze'):
        v = v.ops[0]
    return v


def form(l):
    """canonical text of a linear form"""
    if not l:
        return '0'
    out = []
    for a in sorted((k for k in l if k is not None), key=str):
        c = l[a]
        out.append(('+' if c > 0 else '-') + ('' if abs(c) == 1 else '%d' % abs(c)) + a)
    c = l.get(None, 0)
    if c or not out:
        out.append('%+d' % c)
    s = ''.join(out)
    return s[1:] if s[0] == '+' else s


class Reader:
    def __init__(s):
        s.M = M = vf.module('release', entries=['postsolve'])
        s.f = f = M.functions['postsolve']
        s.SE = vf.scev(M, 'postsolve')
        s.loops = flow.loops(f)
        s.inner = {}
        for h, body in s.loops:
            for b in body:
                if b not in s.inner or len(body) < len(s.inner[b][1]):
                    s.inner[b] = (h, body)
        s.idx = {}
        s.vecof = {}
        tl = []
        for I in f.instrs():
            if I.op == 'load':
                k = s.vec(I)
                if k:
                    s.vecof[I] = k
                    if k == 'T':
                        tl.append(I)
        tl = [I for I in tl if I.bb in s.inner]
        if not tl:
            raise build.AnalysisError('no loop over the record types found in postsolve')
        big = {}
        for I in tl:
            h, body = max(((h, b) for h, b in s.loops if I.bb in b), key=lambda t: len(t[1]))
            big.setdefault(h, []).append(I)
        if len(big) != 1:
            raise build.AnalysisError('the record types are read in %d separate loops' % len(big))
        s.head = next(iter(big))
        s.body = dict(s.loops)[s.head]
        s.outer = [I for I in tl if s.inner[I.bb][0] is s.head]
        s.nested = [I for I in tl if s.inner[I.bb][0] is not s.head]
        s.tok = {}
        s.rec = {}
        for k, ls in (('', s.outer), ('2', s.nested)):
            r = {s.index(I) for I in ls}
            if len(r) > 1 or None in r:
                raise build.AnalysisError('record index not recognised (%s)' % ', '.join(fmt(I) for I in ls))
            if r:
                s.rec[k] = r.pop()
        s.counters = {}
        s.badstep = {}

    # ---- addresses
    def vec(s, I):
        p = I.ops[0]
        if p.op == 'gep' or p.op in ('phi', 'load'):
            a = fill.addr(s.M, s.f, s.SE, p)
            if a is not None and a.base is not None and a.base.op == 'load':
                q = vf.ap(s.M, a.base)
                if len(q) == 3 and q[1] == 'data' and len(q[2]) == 3 and q[2][0] == 'PostsolveInfo':
                    return VEC.get(q[2][1])
        return None

    def index(s, I):
        """(start, step, loop) of the element a record list access touches, in elements over raw SSA names"""
        a = fill.addr(s.M, s.f, s.SE, I.ops[0])
        z = I.ty.size
        st, sp = fill.div(a.start, z), fill.div(a.step, z)
        if st is None or sp is None:
            return None
        return (tuple(sorted(st.items(), key=str)), tuple(sorted(sp.items(), key=str)), a.loop)

    def pos(s, I):
        """'S'/'E'(/2) for a load from the list of starts"""
        i = s.index(I)
        if i is None:
            return None
        for k, r in s.rec.items():
            if i[1:] == r[1:]:
                d = fill.add(dict(i[0]), dict(r[0]), -1)
                if d == {}:
                    return 'S' + k
                if d == {None: 1}:
                    return 'E' + k
        return None

    def name(s, v):
        v = strip(v)
        if v.op == 'load':
            k = s.vecof.get(v)
            if k == 'P':
                return s.pos(v)
            if k == 'I':
                return s.token(v)
            return None
        if v.op == 'call' and callee_name(v) and callee_name(v).startswith('llvm.smax'):
            return None
        if v.op == 'phi' and v.ty.kind == 'int':
            return s.counter(v)
        return None

    def counter(s, v):
        """a position that runs through consecutive (length, elements) groups; named 'c' when each step is 1 + the length
        stored at the position"""
        if v in s.counters:
            return s.counters[v]
        s.counters[v] = 'c'
        lp = next((h for h, b in s.loops if h is v.bb), None)
        ok = lp is not None and s.inner[v.bb][0] is v.bb
        body = dict(s.loops).get(v.bb, set())
        for w, b in v.inc:
            if b not in body:
                if not (w.op == 'const' and w.val == 2):
                    l = s.lin(w)
                    ok = ok and l is not None and fill.sym(s.M, s.f, l, s.name) in ({'S': 1, None: 2},)
                    if ok:
                        s.counters[v] = 'Sc'
        def nm(w):
            w = strip(w)
            return s.slot(w, 'I') if s.vecof.get(w) == 'I' else s.name(w)
        for w, b in v.inc:
            if b in body:
                l = s.lin(w)
                l = fill.sym(s.M, s.f, l, nm) if l is not None else None
                me = s.counters[v]
                want = {me: 1, None: 1, ('I[S+c]' if me == 'c' else 'I[Sc]'): 1}
                if ok and l is not None and l != want and any(k is not None and k.startswith('I[') for k in l):
                    s.badstep[v] = (form(l), form(want))
                ok = ok and l == want
        s.counters[v] = s.counters[v] if ok else None
        return s.counters[v]

    def lin(s, v):
        """linear form over SSA names"""
        v = strip(v)
        if v.op == 'const':
            return {None: v.val} if v.kind == 'int' else None
        e = s.SE.val.get(v.name)
        if e is None or e[0] is None:
            return {v.name: 1}
        return vf.linear(e[0])

    def token(s, I):
        """name of a record slot or solution element read by a load"""
        if I in s.tok:
            return s.tok[I]
        s.tok[I] = '?'
        k = s.vecof.get(I)
        if k in ('I', 'V'):
            s.tok[I] = s.slot(I, k)
        else:
            t = s.solelem(I.ops[0])
            if t:
                s.tok[I] = t
        return s.tok[I]

    def slot(s, I, k):
        g = fill.segments(s.M, s.f, s.SE, I, I.ops[0], I.ty.size, s.name)
        if g is None:
            a = fill.addr(s.M, s.f, s.SE, I.ops[0])
            st = fill.div(a.start, I.ty.size)
            sp = fill.div(a.step, I.ty.size)
            lo = fill.sym(s.M, s.f, st, s.name) if st is not None else None
            if lo is None or sp != {None: 1}:
                return '?'
            if a.loop in s.search():
                return '%s[%s..%s]' % (k, form(lo), form({'E': 1, None: -1}))
            return '%s[%s..?]' % (k, form(lo))
        lo, hi, lp, a = g
        lo, hi = [{k: v for k, v in l.items()} for l in (lo, hi)]
        if lp is None:
            return '%s[%s]' % (k, form(lo))
        return '%s[%s..%s]' % (k, form(lo), form(hi))

    def search(s):
        """loops left only when an entry of a record's list equals an index"""
        if s._search is None:
            s._search = set()
            for h, body in s.loops:
                if h is s.head or h not in s.body:
                    continue
                ex = [b for b in body if any(x not in body for x in b.succs)]
                if ex and all(b.term.op == 'br' and len(b.term.ops) == 1 and s.entry_test(b.term.ops[0], body) for b in ex):
                    s._search.add(h.name)
        return s._search
    _search = None

    def entry_test(s, c, body):
        if c.op != 'icmp' or c.pred not in ('eq', 'ne'):
            return False
        a, b = strip(c.ops[0]), strip(c.ops[1])
        return any(s.vecof.get(q) == 'I' and q.bb in body for q in (a, b))

    def solelem(s, p):
        t = vf.target(s.M, p)
        if not t or t[:2] != ('[]', 'Solution') or t[2] not in SOL:
            return None
        if p.op == 'gep' and len(p.ops) == 2:
            i = strip(p.ops[1])
            if i.op == 'load' and s.vecof.get(i) == 'I':
                return '%s[%s]' % (t[2], s.token(i))
        return '%s[?]' % t[2]

    # ---- values
    def terms(s, v, edges, val, seen=None, me=None):
        """set of (sign, numerator tokens, denominator tokens)"""
        seen = set() if seen is None else seen
        op = v.op
        if op == 'const':
            c = v.val
            if not isinstance(c, (int, float)):
                return {(1, ('?',), ())}
            if c == 0:
                return {(1, ('0',), ())}
            return {(1 if c > 0 else -1, (() if abs(c) == 1 else ('%r' % abs(float(c)),)), ())}
        if v in seen:
            return set()
        if op == 'load':
            t = s.token(v)
            if me is not None and t == me:
                return {(1, ('self',), ())}
            return {(1, (t,), ())}
        if op in ('sitofp', 'uitofp', 'fptosi', 'sext', 'zext', 'trunc', 'freeze', 'fpext'):
            return s.terms(v.ops[0], edges, val, seen | {v}, me)
        if op == 'phi':
            out = set()
            for w, b in v.inc:
                if edges is None or (b, v.bb) in edges:
                    out |= s.terms(w, edges, val, seen | {v}, me)
            return drop0(out)
        if op == 'select':
            c = val.get(v.ops[0]) if val else None
            out = set()
            if c != 0 or c is None:
                out |= s.terms(v.ops[1], edges, val, seen | {v}, me)
            if c is None or not isinstance(c, int) or c == 0:
                out |= s.terms(v.ops[2], edges, val, seen | {v}, me)
            return out
        sub = lambda w: s.terms(w, edges, val, seen | {v}, me)
        if op == 'fneg':
            return neg(sub(v.ops[0]))
        if op in ('fadd', 'add'):
            return drop0(sub(v.ops[0]) | sub(v.ops[1]))
        if op in ('fsub', 'sub'):
            return drop0(sub(v.ops[0]) | neg(sub(v.ops[1])))
        if op in ('fmul', 'mul'):
            return mul(sub(v.ops[0]), sub(v.ops[1]))
        if op == 'fdiv':
            ds = s.alts(v.ops[1], edges)
            if len(ds) > 1 and any(d.op != 'const' for d in ds):
                ds = {d for d in ds if d.op != 'const'}      # the constant only says that nothing was found
            return set().union(*(mul(sub(v.ops[0]), inv(sub(d))) for d in ds))
        if op == 'call':
            n = callee_name(v) or ''
            if n.startswith('llvm.fmuladd') or n.startswith('llvm.fma') or n == 'fma':
                return drop0(mul(sub(v.ops[0]), sub(v.ops[1])) | sub(v.ops[2]))
            if n.startswith('llvm.fabs') or n == 'fabs':
                t = sub(v.ops[0])
                return t | neg(t)
            if n in ('fmax', 'fmin') or n.startswith(('llvm.maxnum', 'llvm.minnum')):
                return sub(v.ops[0]) | sub(v.ops[1])
        return {(1, ('?',), ())}

    def choices(s, v, edges, val, seen=()):
        """the alternatives of a value that depends on which way was taken (no loop)"""
        if v in seen:
            return set()
        if v.op == 'phi' and not any(h is v.bb for h, _ in s.loops):
            return set().union(*(s.choices(w, edges, val, seen + (v,)) for w, b in v.inc if (b, v.bb) in edges))
        if v.op == 'select':
            c = val.get(v.ops[0]) if val else None
            k = (1, 2) if not isinstance(c, int) else (1,) if c else (2,)
            return set().union(*(s.choices(v.ops[j], edges, val, seen + (v,)) for j in k))
        return {v}

    def alts(s, v, edges, seen=()):
        if v.op == 'phi' and v not in seen:
            return set().union(*(s.alts(w, edges, seen + (v,)) for w, b in v.inc if edges is None or (b, v.bb) in edges))
        return set() if v in seen else {v}

    # ---- one scenario
    def run(s, T, T2=None, ints=None, eq=None, rank=None, sentinel=False):
        """effects of one record: {solution element: set of terms}. ints: slot -> value; eq: whether the list entry equals
        the record's own index; rank(tokens) -> value of a difference (None unknown)"""
        ints = ints or {}
        memo = {}

        def assume(I):
            if I.op == 'load':
                if I in s.outer:
                    return T & 0xffff
                if I in s.nested:
                    return (T2 if T2 is not None else 0) & 0xffff
                if s.vecof.get(I) == 'I' and s.token(I) in ints:
                    return ints[s.token(I)] & ((1 << I.ty.width) - 1)
                return None
            if I.bb not in s.body:
                return None
            if I.op == 'icmp' and I.pred in ('eq', 'ne') and eq is not None and not (
                    I.bb in s.inner and s.inner[I.bb][0].name in s.search()):
                a, b = strip(I.ops[0]), strip(I.ops[1])
                if s.vecof.get(a) == 'I' and s.vecof.get(b) == 'I':
                    t = {s.token(a), s.token(b)}
                    if len(t) == 2 and sum('..' in q for q in t) == 1:
                        return int(eq if I.pred == 'eq' else not eq)
            if I.op == 'fcmp':
                if I not in memo:
                    memo[I] = s.compare(I, rank, sentinel)
                return memo[I]
            return None
        exe, edges, val = flow.sccp(s.f, assume)
        return s.effects(exe, edges, val)

    def compare(s, I, rank, sentinel):
        a, b = I.ops
        for p, q in ((a, b), (b, a)):
            if q.op == 'const' and q.val in (float('inf'), float('-inf')) and I.pred in ('oeq', 'ueq', 'one', 'une'):
                return int(sentinel == (I.pred in ('oeq', 'ueq')))
        if rank is None:
            return None
        t = drop0(s.terms(a, None, None) | neg(s.terms(b, None, None)))
        cs = [x for x in t if all(isnum(q) for q in x[1]) and not x[2]]
        d = {x for x in t if x not in cs}
        if len(cs) > 1 or not d:
            return None
        c = 0.0
        for x in cs:
            c = float(x[0])
            for q in x[1]:
                c *= float(q)
        absolute = all((-g, n, e) in d for g, n, e in d)
        r = rank(d, absolute)
        if r is None:
            return None
        x = (abs(r) if absolute and not any(isinstance(q, tuple) for q in ()) else r)
        if absolute and I is not None:
            # |q| against a tolerance: the side the absolute value is on decides the direction
            side = s.terms(a, None, None)
            x = abs(r) if any(q in d for q in side) else -abs(r)
        x = x + c
        if x == 0:
            return None
        p = I.pred[-2:]
        return {'gt': int(x > 0), 'ge': int(x > 0), 'lt': int(x < 0), 'le': int(x < 0), 'eq': 0, 'ne': 1}.get(p)

    def effects(s, exe, edges, val):
        out = {}
        where = {}
        for I in s.f.instrs():
            if I.op != 'store' or I.bb not in exe or I.bb not in s.body:
                continue
            t = s.solelem(I.ops[1])
            if not t:
                continue
            for w in s.choices(I.ops[0], edges, val):
                out.setdefault(t, set()).update(s.terms(w, edges, val, None, t))
            where.setdefault(t, []).append(I)
        res = {}
        for t, ts in out.items():
            scale = {(x[0], tuple(q for q in x[1] if q != 'self'), x[2]) for x in ts if 'self' in x[1]} - {(1, (), ())}
            inc = any(x == (1, ('self',), ()) for x in ts)
            ts = {x for x in ts if 'self' not in x[1]}
            if scale:
                ts = mul(ts, scale) if ts else {(g, n + ('self',), e) for g, n, e in scale}
            elif inc and not any(not_first(s, w) for w in where[t]):
                ts = ts | {(1, ('self',), ())}
            res[t] = {norm(x) for x in ts}
        s.exe, s.edges, s.val, s.where = exe, edges, val, where
        return res


def not_first(s, I):
    """a store whose value does not use the old content of the element"""
    seen, st = set(), [I.ops[0]]
    t = s.solelem(I.ops[1])
    while st:
        v = st.pop()
        if v in seen or v.op in ('const', 'arg'):
            continue
        seen.add(v)
        if v.op == 'load':
            if s.token(v) == t:
                return False
            continue
        st.extend(v.ops)
    return True


def isnum(q):
    return q == '0' or re.match(r'\d', q) is not None


def neg(t):
    return {(-g, n, d) for g, n, d in t}


def drop0(t):
    r = {x for x in t if '0' not in x[1]}
    return r or {(1, ('0',), ())} if t else t


def mul(a, b):
    a, b = list(a), list(b)
    r = {(g * h, tuple(sorted(n + m)), tuple(sorted(d + e))) for g, n, d in a for h, m, e in b}
    r = {x for x in r if '0' not in x[2]} or r
    return drop0(r)


def inv(t):
    if len({x for x in t if '0' not in x[1]}) > 1:
        return {(1, (), ('?',))}
    return {(g, d, n) for g, n, d in t}


def norm(x):
    g, n, d = x
    n, d = list(n), list(d)
    for q in list(n):
        if q in d and q != '?':
            n.remove(q)
            d.remove(q)
    return (g, tuple(sorted(n)), tuple(sorted(d)))


def text(ts):
    def one(x):
        return '%s%s%s' % ('+' if x[0] > 0 else '-', '*'.join(x[1]) or '1', ''.join('/' + q for q in x[2]))
    return ' '.join(sorted(one(x) for x in ts))
