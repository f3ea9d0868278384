"""Symbolic values of the inlined reductions as polynomials over the data of the problem, under an assumption about signs
and tags; direction (which side of which bound) and linear form (which combination of variables and rows is bounded)."""
import math
import absint
import flow
import src
import vf
from absint import N, Z, P, ANY, Sg
from common import callee_name

INF = ('inf',)
LIM = 24


def padd(a, b, s=1.0):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0.0) + s * c
        if r[m] == 0:
            del r[m]
    return r


def mmul(m, n, e=1):
    d = dict(m)
    for f, k in n:
        d[f] = d.get(f, 0) + e * k
        if d[f] == 0:
            del d[f]
    return tuple(sorted(d.items(), key=repr))


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            r[k] = r.get(k, 0.0) + c * d
            if r[k] == 0:
                del r[k]
    return r


def const(c):
    return {(): c} if c else {}


def atom(f):
    return {((f, 1),): 1.0}


def pkey(p):
    return tuple(sorted(((m, c) for m, c in p.items()), key=repr))


class Places(src.Src):
    """which datum of the problem an address or a loaded value is"""
    def __init__(s, M, f, loops=None):
        super().__init__(M, f)
        s.lo = {h: b for h, b in (loops if loops is not None else flow.loops(f))}
        s.pm, s.eq, s.phis = {}, None, None

    # ------------------------------------------------------------ places
    def place(s, p):
        p = s.res(p)
        if p not in s.pm:
            s.pm[p] = s._place(p)
        return s.pm[p]

    def _place(s, p):
        """('lb'|'ub'|'lhs'|'rhs'|'min'|'max'|'c'|'off'|'A'|'AT', key...) of an address, or None"""
        pf = vf.pfield(s.M, p)
        n = s.base(p, [])
        li = s.elem(p)
        if li:
            return li
        if pf and pf[0] in ('Bound', 'Activity', 'Lock'):
            b = s.res(vf.root(s.M, p)[0])
            n = s.base(b, [])
            if n is None or len(n[1]) != 1:
                return None
            return (pf[1], s.ik(n[1][0]))
        if pf and pf[0] == 'Objective' and pf[1] == 'offset':
            return ('off',)
        if n is None:
            return None
        if n[0] in ('col_tags', 'row_tags', 'row_sizes', 'col_sizes') and len(n[1]) == 1:
            return (n[0], s.ik(n[1][0]))
        if n[0] in ('lhs', 'rhs') and len(n[1]) == 1:
            return (n[0], s.ik(n[1][0]))
        if n[0] == 'obj.c' and len(n[1]) == 1:
            return ('c', s.ik(n[1][0]))
        if n[0] in ('A.x', 'AT.x'):
            return s.coef(n)
        return None

    def elem(s, p):
        """field of an element of an array of bounds or activities, however the address is put together"""
        off, var = 0, []
        while p.op == 'gep':
            cur, first = p.aty, True
            for i in p.ops[1:]:
                if first:
                    sz, nxt = cur.size, cur
                    first = False
                elif cur.kind == 'struct':
                    if i.op != 'const':
                        return None
                    off += cur.offs[i.val]
                    cur = cur.elems[i.val]
                    continue
                elif cur.kind == 'array':
                    cur = cur.elems[0]
                    sz = cur.size
                else:
                    return None
                if i.op == 'const':
                    off += i.val * sz
                else:
                    var.append((i, sz))
            p = s.res(p.ops[0])
        if p.op not in ('load', 'call'):
            return None
        n = vf.pointee(s.M, p)
        if n not in ('Bound', 'Activity', 'Lock') or len(var) != 1:
            return None
        lay = vf._layout(s.M, n)
        size = max(o + z for o, z, f in lay)
        if var[0][1] != size and not size < var[0][1] < size + 8:
            return None
        for o, z, f in lay:
            if o == off:
                return (f, s.ik(var[0][0]))
        return None

    def ik(s, v):
        return s.ckey(v)

    def coef(s, n):
        """coefficient A.x[..] / AT.x[..] -> ('a', row key, column key)"""
        mat = n[0].split('.')[0]
        r = None
        for i in n[1]:
            r = r or s.rowof(mat, i)
        # every index expression is a sum: normalise to a set of parts
        parts = []
        for i in n[1]:
            parts += s.parts(i)
        k = ('ld', mat + '.i') + tuple(sorted((s.key(q) for q in parts), key=repr))
        return ('a', r, k) if mat == 'A' else ('a', k, r)

    def eqs(s):
        """pairs of index keys the function compares"""
        if s.eq is None:
            s.eq = {frozenset((s.ckey(I.ops[0]), s.ckey(I.ops[1]))) for I in s.f.instrs()
                    if I.op == 'icmp' and I.pred in ('eq', 'ne') and I.ops[0].ty.kind == 'int'}
        return s.eq

    def ckey(s, v):
        v = s.res(v)
        if v.op == 'load':
            a = s.at(v)
            if a and a[0] in ('A.i', 'AT.i'):
                return ('ld', a[0]) + tuple(sorted((s.key(q) for i in a[1] for q in s.parts(i)), key=repr))
        return s.key(v)

    def chosen(s, k):
        """is the index picked among several values (not a loop counter)?"""
        if k[0] == 'v':
            v = s.byid(k[1])
            return v is not None and (v.bb not in s.lo or v.op == 'select')
        return False

    def byid(s, i):
        if s.phis is None:
            s.phis = {id(I): I for I in s.f.instrs() if I.op in ('phi', 'select')}
        return s.phis.get(i)

    def parts(s, i):
        i = s.unsent(s.res(i))
        if i.op == 'add':
            return s.parts(i.ops[0]) + s.parts(i.ops[1])
        return [i]

    def unsent(s, i):
        """an index found by a search, with a negative value where nothing was found"""
        if i.op == 'phi' and i.bb not in s.lo:
            o = {s.res(x) for x in i.ops if not (x.op == 'const' and (x.kind in ('undef', 'poison') or x.kind == 'int' and x.val < 0))}
            if len(o) == 1:
                return o.pop()
        return i

    def rowof(s, mat, i, depth=0, seen=None):
        i = s.res(i)
        seen = seen or set()
        if depth > 6 or i in seen:
            return None
        seen.add(i)
        if i.op == 'load':
            a = s.at(i)
            if a and a[0] in (mat + '.p.start', mat + '.p') and len(a[1]) == 1:
                return s.ik(a[1][0])
        if i.op in ('add', 'phi'):
            r = {s.rowof(mat, o, depth + 1, seen) for o in i.ops} - {None}
            if len(r) == 1:
                return r.pop()
        return None


class Eval:
    """values of one function under one abstract run"""
    def __init__(s, M, S, R):
        s.M, s.S, s.R = M, S, R
        s.memo = {}
        s.busy = set()
        s.depth = 0
        s.cut, s.top = {}, None
        s.lo = S.lo

    # ------------------------------------------------------------ values
    def alts(s, v):
        """[(polynomial, choices)]"""
        if v.op == 'const':
            if v.ty is not None and v.ty.kind in ('double', 'float') and isinstance(v.val, float):
                if math.isinf(v.val):
                    return [({((INF, 1),): 1.0 if v.val > 0 else -1.0}, {})]
                return [(const(v.val), {})]
            if v.kind in ('undef', 'poison'):
                return []
            return [(atom(('?', id(v))), {})]
        if v in s.cut and v is not s.top:
            return [(atom(s.cut[v]), {})]
        k = (v, frozenset(s.busy))
        if k in s.memo:
            return s.memo[k]
        if v in s.busy:
            return [(atom(('acc', v)), {})]
        hdr = s.header(v)
        if hdr:
            s.busy.add(v)
        else:
            s.depth += 1
        r = s.ev(v) if s.depth < 200 else s.unk(v)
        if hdr:
            s.busy.discard(v)
        else:
            s.depth -= 1
        out, seen = [], set()
        for p, ch in r:
            q = (pkey(p), tuple(sorted(((id(a), id(b)) for a, b in ch.items()))))
            if q not in seen:
                seen.add(q)
                out.append((p, ch))
        out = s.opaque(v, s.sums(out))
        s.memo[k] = out
        return out

    def header(s, v):
        return v.op == 'phi' and v.bb in s.lo

    def sums(s, out):
        """the last term of a sum belongs to the sum; the sum over nothing is a case of the sum"""
        if not any(f[0] == 'sum' for p, c in out for m in p for f, e in m):
            return out
        r = []
        for p, ch in out:
            p = dict(p)
            for m in list(p):
                su = [f for f, e in m if f[0] == 'sum']
                if su:
                    k = tuple(x for x in m if x[0][0] != 'sum')
                    if p.get(k) == p[m] and k:
                        del p[k]
            r.append((p, ch))
        full = {pkey({m: c for m, c in p.items() if not any(f[0] == 'sum' for f, e in m)}) for p, ch in r
                if any(f[0] == 'sum' for m in p for f, e in m)}
        q = [x for x in r if any(f[0] == 'sum' for m in x[0] for f, e in m) or pkey(x[0]) not in full]
        out, seen = [], set()
        for p, ch in q:
            if any(pkey(p) == pkey(o) for o, _ in out):
                out = [(o, {}) if pkey(o) == pkey(p) else (o, c) for o, c in out]
            else:
                out.append((p, ch))
        return out

    def opaque(s, v, out):
        """a choice between several coefficients is one opaque value; so is anything with too many alternatives"""
        if v.op in ('phi', 'select') and len(out) > 1:
            out = [x for x in out if not any((INF, e) in m for m in x[0] for e in (1, -1))] or out
            ks = {pkey(p) for p, c in out}
            if len(ks) == 1:
                return [(out[0][0], {})]
            fs = {f[0] for p, c in out for m in p for f, e in m}
            if fs & {'a', 'q'} and fs <= {'a', 'q', 'acc'}:
                return [(atom(('q', id(v), v)), {})]
        if len(out) > LIM and s.R.first:
            m = {}
            for p, ch in out:
                k = pkey(p)
                m[k] = (p, {a: x for a, x in ch.items() if k not in m or m[k][1].get(a) == x})
            out = list(m.values())
        if len(out) > LIM:
            return s.unk(v)
        return out

    def hasacc(s, p):
        return any(f[0] == 'acc' for m in p for f, e in m)

    def unk(s, v):
        return [(atom(('?', id(v), v)), {})]

    def join(s, *vs):
        """cross product with consistent choices"""
        out = [([], {})]
        for v in vs:
            a = s.alts(v)
            new = []
            for ps, ch in out:
                for p, c in a:
                    d = dict(ch)
                    ok = True
                    for k, x in c.items():
                        if d.setdefault(k, x) != x:
                            ok = False
                            break
                    if ok:
                        new.append((ps + [p], d))
            out = new
            if len(out) > 64:
                return None
        return out

    def ev(s, v):
        op = v.op
        if op == 'load':
            q = s.S.res(v)
            if q is not v:
                return s.alts(q)
            return s.load(v, v.ops[0])
        if op == 'phi':
            return s.phi(v)
        if op == 'select':
            c = s.R.bool(v.ops[0])
            if c is not None:
                return s.alts(v.ops[1] if c else v.ops[2])
            r = []
            for k, o in ((1, v.ops[1]), (0, v.ops[2])):
                for p, ch in s.alts(o):
                    if ch.get(v.ops[0], k) == k:
                        r.append((p, dict(ch, **{}) | {v.ops[0]: k}))
            a = [pkey(p) for p, _ in r]
            if len(r) == 2 and a[0] == a[1]:
                return [(r[0][0], {})]
            # absolute value
            if len(r) == 2 and pkey(pmul(r[0][0], const(-1.0))) == a[1] and v.ops[0].op == 'fcmp':
                if s.isabs(v):
                    return [(atom(('abs', a[0] if repr(a[0]) < repr(a[1]) else a[1])), {})]
            return r
        if op == 'fneg':
            return [(pmul(p, const(-1.0)), c) for p, c in s.alts(v.ops[0])]
        if op == 'fpext':
            return s.alts(v.ops[0])
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            j = s.join(v.ops[0], v.ops[1])
            if j is None:
                return s.unk(v)
            r = []
            for (a, b), c in j:
                if op == 'fadd':
                    p = padd(a, b)
                elif op == 'fsub':
                    p = padd(a, b, -1.0)
                elif op == 'fmul':
                    p = pmul(a, b)
                elif len(b) == 1:
                    (m, k), = b.items()
                    p = {mmul(x, m, -1): y / k for x, y in a.items()}
                else:
                    p = pmul(a, {((('inv', pkey(b)), 1),): 1.0})
                r.append((p, c))
            return r
        if op == 'call':
            n = v.callee.name if v.callee is not None and v.callee.op == 'function' else ''
            if n.startswith('llvm.fmuladd') or n.startswith('llvm.fma.'):
                j = s.join(*v.ops[:3])
                if j is None:
                    return s.unk(v)
                return [(padd(pmul(a, b), c), ch) for (a, b, c), ch in j]
            if n.startswith('llvm.fabs'):
                r = []
                for p, ch in s.alts(v.ops[0]):
                    k, q = pkey(p), pkey(pmul(p, const(-1.0)))
                    r.append((atom(('abs', k if repr(k) < repr(q) else q)), ch))
                return r
            if n.startswith(('llvm.maxnum', 'llvm.minnum')):
                return [(p, ch | {v: k}) for k in (0, 1) for p, ch in s.alts(v.ops[k])]
        return s.unk(v)

    def load(s, v, p, depth=0):
        """a loaded value; where the address is chosen between places, one alternative for each"""
        p = s.S.res(p)
        if p.op in ('phi', 'select') and depth < 4 and p.bb not in s.lo:
            r = []
            if p.op == 'phi':
                br = [(o, p.bb, b) for o, b in p.inc if (b, p.bb) in s.R.edges]
            else:
                c = s.R.bool(p.ops[0])
                br = [(o, p.ops[0], k) for o, k in ((p.ops[1], 1), (p.ops[2], 0)) if c is None or bool(c) == bool(k)]
            for o, k, x in br:
                for q, ch in s.load(v, o, depth + 1):
                    if len(br) == 1:
                        r.append((q, ch))
                    elif ch.get(k, x) == x:
                        r.append((q, ch | {k: x}))
            return r
        if p.op == 'gep' and depth < 4:
            b = s.S.res(p.ops[0])
            if b.op in ('phi', 'select') and b.bb not in s.lo and s.S.place(p) is None:
                return s.unk(v)
        pl = s.S.place(p)
        if pl and v.ty.kind == 'double':
            return [(atom(s.rk(pl) if s.R.first else pl), {})]
        return s.unk(v)

    def rk(s, k):
        return resolve(s.S, s.R, k)

    def isabs(s, v):
        c = v.ops[0]
        a, b = c.ops
        z = [o for o in (a, b) if o.op == 'const' and o.val == 0.0]
        if len(z) != 1:
            return False
        x = b if z[0] is a else a
        p = c.pred[1:]
        if z[0] is a:
            p = {'gt': 'lt', 'ge': 'le', 'lt': 'gt', 'le': 'ge'}.get(p, p)
        pos = v.ops[1] if p in ('gt', 'ge') else v.ops[2] if p in ('lt', 'le') else None
        return pos is x

    def phi(s, v):
        inc = [(o, b) for o, b in v.inc if (b, v.bb) in s.R.edges]
        body = s.lo.get(v.bb)
        if body is None or not any(b in body for o, b in inc):
            r = []
            for o, b in inc:
                for p, ch in s.alts(o):
                    if ch.get(v.bb, b) is b:
                        r.append((p, ch | {v.bb: b}) if len(inc) > 1 else (p, ch))
            ks = {pkey(p) for p, _ in r}
            if len(ks) == 1:
                return [(r[0][0], {})]
            return r
        ent = [x for o, b in inc if b not in body for x in s.alts(o)]
        backs = [x for o, b in inc if b in body for x in s.alts(o)]
        me = ('acc', v)
        out = [(p, {k: c for k, c in ch.items() if getattr(k, 'bb', k) not in body}) for p, ch in ent]
        incs, carry = [], []
        for p, ch in backs:
            co = {m: c for m, c in p.items() if any(f == me for f, e in m)}
            if not co:
                carry.append(p)
            elif list(co.items()) == [(((me, 1),), 1.0)]:
                q = {m: c for m, c in p.items() if m not in co}
                if q and pkey(q) not in {pkey(x) for x in incs}:
                    incs.append(q)
            else:
                return s.unk(v)
        if incs and carry:
            return s.unk(v)
        if incs:
            t = {}
            for i, q in enumerate(incs):
                t = padd(t, pmul(q, atom(('sum', v.bb.name, i, v))))
            out = [(padd(p, t), ch) for p, ch in out]
        for p in carry:
            out.append((p, {v.bb: 'back'}))
        return out

    # ------------------------------------------------------------ signs
    def fsign(s, f):
        """sign set of a factor"""
        k = f[0]
        if k == 'a':
            x = s.R.assume.get(f)
            return x.m if isinstance(x, Sg) else N | P
        if k == 'q':
            x = s.R.assume.get(s.S.key(f[2]))
            return x.m if isinstance(x, Sg) else N | P
        if k in ('sum', 'inf'):
            return P
        if k == 'abs':
            return P | Z
        if k == '?':
            return s.R.sign(f[2]) if len(f) > 2 else ANY
        return ANY

    def show(s, p):
        def fs(f):
            if f[0] in ('lb', 'ub', 'lhs', 'rhs', 'min', 'max', 'c'):
                return f[0]
            if f[0] == '?':
                return '?' + (s.S.show(f[2]) if len(f) > 2 else '')
            if f[0] == 'abs':
                return 'abs(..)'
            if f[0] == 'sum':
                return 'SUM'
            return f[0]
        return ' + '.join('%g' % c + ''.join('*%s%s' % (fs(f), '' if e == 1 else '^%d' % e) for f, e in m) for m, c in p.items()) or '0'


def resolve(S, R, k):
    """the key with the indices filled in that the run R leaves only one value for"""
    if k[:1] == ('v',) and len(k) == 2:
        v = S.byid(k[1])
        if v is not None and (v.bb not in S.lo or v.bb in R.first):
            if v.op == 'phi':
                o = [o for o, b in v.inc if (b, v.bb) in R.edges]
            else:
                c = R.bool(v.ops[0])
                o = v.ops[1:] if c is None else [v.ops[1] if c else v.ops[2]]
            if any(x.op == 'const' for x in o):
                return k
            m = R.__dict__.setdefault('rsv', {})
            if k not in m:
                m[k] = k
                ks = {resolve(S, R, S.ik(x)) for x in dict.fromkeys(o)}
                m[k] = ks.pop() if len(ks) == 1 else k
            return m[k]
        return k
    return tuple(resolve(S, R, x) if isinstance(x, tuple) else x for x in k)


class ARun(absint.Run):
    def __init__(s, fn, S, assume, prev=None):
        s.S, s.assume = S, assume
        s._k = {}
        s.ssa = {k[1]: v for k, v in assume.items() if k[0] == 'ssa'}
        # loops looked at in their first pass only
        s.first = {k[1] for k in assume if k[0] == 'first'}
        # a coarser run, to resolve indices with
        s.prev = prev
        super().__init__(fn, s.hk)

    def edge(s, a, b):
        if b in s.first and a in s.S.lo[b]:
            return
        super().edge(a, b)

    def hk(s, I):
        if s.ssa and I in s.ssa:
            x = s.ssa[I]
            if isinstance(x, tuple):
                m = (1 << I.ty.width) - 1
                return flow.KB(I.ty.width, x[0] & m, x[1] & m)
            return flow.kconst(1, x)
        if I.op not in ('load', 'phi', 'select'):
            return None
        if I.op == 'phi' and I.ty.kind == 'double' and s.sentinel(I):
            r = None
            for v, b in I.inc:
                if (b, I.bb) in s.edges and v.op != 'const':
                    r = absint.join(r, s.get(v))
            return absint.WAIT if r is None else r
        if not s.assume:
            return None
        k = s.S.place(I.ops[0]) if I.op == 'load' else None
        if k and k[0] in ('up', 'down') and I.ty.kind == 'int' and I.ty.width == 64:
            return s.both(I, k)
        x = s.assume.get(resolve(s.S, s.prev, k)) if k and s.prev else None
        if x is None and k:
            x = s.assume.get(k)
        if x is None and I.op == 'load':
            q = s.S.res(I)
            if q is not I and q.op == 'load':
                x = s.assume.get(s.S.place(q.ops[0]))
        if x is None:
            x = s.assume.get(s.S.key(I))
        if isinstance(x, tuple):
            m = (1 << I.ty.width) - 1
            return flow.KB(I.ty.width, x[0] & m, x[1] & m)
        return x

    def both(s, I, k):
        """both lock counts of a column loaded at once"""
        one = zero = 0
        for o, z, f in vf._layout(s.S.M, 'Lock'):
            x = s.assume.get((f,) + k[1:])
            if isinstance(x, tuple):
                m = (1 << (8 * z)) - 1
                one |= (x[0] & m) << (8 * o)
                zero |= (x[1] & m) << (8 * o)
        return flow.KB(64, one, zero) if one or zero else None

    def sentinel(s, I):
        """a coefficient found by a search, with an infinite value where nothing was found"""
        if I in s._k:
            return s._k[I]
        cs, seen, st, oth = [], {I}, [I], []
        while st:
            x = st.pop()
            for o in x.ops:
                if o.op == 'const':
                    cs.append(o)
                elif o.op == 'phi' and o not in seen:
                    seen.add(o)
                    st.append(o)
                elif o.op != 'phi':
                    oth.append(o)
        ok = bool(cs) and any(c.kind not in ('undef', 'poison') for c in cs) and all(
            c.kind in ('undef', 'poison') or isinstance(c.val, float) and math.isinf(c.val) for c in cs) and bool(oth) and \
            all((s.S.at(o) or ('',))[0] in ('A.x', 'AT.x') for o in oth)
        s._k[I] = ok
        return ok


# ---------------------------------------------------------------- certificates
DOWN, UP = ('lb', 'lhs', 'min'), ('ub', 'rhs', 'max')
BND = DOWN + UP


class Und(Exception):
    pass


class Split(Exception):
    def __init__(s, key):
        s.key = key


def csign(E, m, c):
    """sign of coefficient c times the factors m (bound atoms left out)"""
    r = P if c > 0 else N
    for f, e in m:
        if f[0] in BND:
            continue
        if f[0] in ('a', 'q'):
            x = E.fsign(f)
            if x not in (N, P):
                k = f if f[0] == 'a' else E.S.key(f[2])
                if e % 2:
                    raise Split(k)
                continue
        else:
            x = E.fsign(f)
            if e % 2 == 0:
                x = (x & Z) | (P if x & (N | P) else 0)
        r = absint.smul(r, x & ~Z if e < 0 and x & ~Z else x)
    return r


def same(E, x, y):
    """True / False / None for index keys: two different expressions that the code compares, or one that is chosen on the
    way, may be the same index"""
    if x is None or y is None:
        return None
    if x == y:
        return True
    if frozenset((x, y)) in E.S.eqs() or E.S.chosen(x) or E.S.chosen(y):
        return None
    return False


def cert(E, p, up, target, exact=lambda f: False):
    """p is a valid upper (up) / lower bound of the linear form target: ('x', column) or ('r', row). Raises Und, Split;
    returns None or the reason it is not."""
    rest = dict(p)
    form = {}

    def addf(m, c, var):
        k = mmul(m, ((var, 1),))
        form[k] = form.get(k, 0.0) + c
        if abs(form[k]) < 1e-12:
            del form[k]
    bm = {}
    for m, c in p.items():
        fs = [(f, e) for f, e in m if f[0] in BND]
        if any(f[0] in ('acc', 'inv') for f, e in m):
            raise Und('shape')
        if len(fs) > 1 or fs and fs[0][1] != 1:
            raise Und('product of bounds')
        if fs:
            co = tuple(x for x in m if x[0] is not fs[0][0])
            bm.setdefault(fs[0][0], []).append((co, c))
        else:
            if any(f[0] == '?' for f, e in m):
                raise Und('unknown value')
            if any(f[0] in ('a', 'q', 'c') for f, e in m):
                return 'a term without any bound'
            s = csign(E, m, c)
            if up and s & N or not up and s & P:
                if (INF, 1) in m:
                    return 'an infinite value of the wrong sign'
                return 'a constant that makes it too tight'
    # own contributions of an activity
    for f in [f for f in bm if f[0] in ('min', 'max')]:
        if len(bm[f]) != 1:
            continue
        g, gc = bm[f][0]
        for h in [h for h in bm if h[0] in ('lb', 'ub')]:
            for t in list(bm[h]):
                q = mmul(t[0], g, -1)
                r = -t[1] / gc
                if len(q) == 1 and q[0][1] == 1 and q[0][0][0] in ('a', 'q') and abs(r - 1) < 1e-12:
                    a = q[0][0]
                    sg = csign(E, q, 1.0)
                    own = (h[0] == 'lb') == ((sg == P) == (f[0] == 'min'))
                    if not own:
                        continue
                    if a[0] == 'a' and (same(E, a[1], f[1]) is False or same(E, a[2], h[1]) is False):
                        continue
                    bm[h].remove(t)
                    # form: activity without the column
                    addf(t[0], t[1], ('x', h[1]))
    for f, ts in bm.items():
        var = ('x', f[1]) if f[0] in ('lb', 'ub') else ('r', f[1])
        for m, c in ts:
            addf(m, c, var)
            if exact(f):
                continue
            s = csign(E, m, c)
            good = (s & ~Z) == (P if (f[0] in UP) == up else N) or s == Z
            if not good:
                if s in (N, P, N | Z, P | Z):
                    return '%s enters with the wrong sign' % f[0]
                raise Und('sign of a factor')
    # linear form
    form[((target, 1),)] = form.get(((target, 1),), 0.0) - 1.0
    form = {m: c for m, c in form.items() if abs(c) > 1e-12}
    return residual(E, form, target)


def residual(E, form, target):
    if not form:
        return None
    vs = {}
    for m, c in form.items():
        v = [f for f, e in m if f[0] in ('x', 'r')]
        vs.setdefault(v[0], []).append((tuple(x for x in m if x[0] is not v[0]), c))
    return ('form', vs)
