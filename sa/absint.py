"""Sparse conditional abstract interpretation of one function: known bits for integers, signs for floating-point numbers.
hook(I) gives the abstract value of an instruction under the assumption made (signs of coefficients and costs, tag bits,
counters zero or not); the result is what can be executed, and with which values, under that assumption."""
from collections import deque
import flow
from flow import KB, kconst, ev_int, _mask

N, Z, P = 1, 2, 4                      # negative, zero, positive
ANY = 7


class Sg:
    """set of signs"""
    __slots__ = ('m',)

    def __init__(s, m):
        s.m = m

    def __eq__(s, o):
        return isinstance(o, Sg) and o.m == s.m

    def __hash__(s):
        return s.m

    def __repr__(s):
        return 'Sg' + ''.join(c for c, b in (('-', N), ('0', Z), ('+', P)) if s.m & b)


def flip(m):
    return (m & Z) | (P if m & N else 0) | (N if m & P else 0)


def smul(a, b):
    r = 0
    for x in (N, Z, P):
        for y in (N, Z, P):
            if a & x and b & y:
                r |= Z if Z in (x, y) else P if x == y else N
    return r


def sadd(a, b):
    r = 0
    for x in (N, Z, P):
        for y in (N, Z, P):
            if a & x and b & y:
                r |= y if x == Z else x if y == Z or x == y else ANY
    return r


def fsign(v):
    return P if v > 0 else N if v < 0 else Z


def kjoin(a, b):
    return KB(a.w, a.o & b.o, a.z & b.z)


def full(v):
    return KB(v.ty.width) if v.ty is not None and v.ty.kind == 'int' else Sg(ANY) if v.ty is not None and v.ty.kind in ('double', 'float') else TOP


class Top:
    pass


TOP = Top()
WAIT = Top()                           # from a hook: no value yet


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if isinstance(a, KB) and isinstance(b, KB):
        return kjoin(a, b)
    if isinstance(a, Sg) and isinstance(b, Sg):
        return Sg(a.m | b.m)
    return TOP


def cmp_sign(p, a, b):
    """fcmp of two sign sets -> True / False / None (not a number is left out)"""
    p = p[1:] if p[0] in 'ou' and len(p) == 3 else p
    out = set()
    for x in (N, Z, P):
        for y in (N, Z, P):
            if a & x and b & y:
                if x == y and x != Z:
                    out |= {True, False}
                else:
                    r = {N: -1, Z: 0, P: 1}
                    d = r[x] - r[y]
                    out.add({'gt': d > 0, 'ge': d >= 0, 'lt': d < 0, 'le': d <= 0, 'eq': d == 0, 'ne': d != 0}.get(p))
    out = {q for q in out}
    if None in out or len(out) != 1:
        return None
    return out.pop()


class Run:
    def __init__(s, fn, hook=None):
        s.fn = fn
        s.hook = hook or (lambda I: None)
        s.val = {}
        s.exe = set()
        s.edges = set()
        s.go()

    def get(s, v):
        if v.op == 'const':
            if v.kind == 'int':
                return kconst(v.ty.width, v.val)
            if v.kind in ('fp', 'float', 'double') and isinstance(v.val, float):
                return Sg(fsign(v.val))
            if v.kind == 'null':
                return kconst(64, 0)
            return full(v)
        if v.op in ('arg', 'global', 'function'):
            return full(v)
        return s.val.get(v)

    def bool(s, v):
        """True / False / None"""
        x = s.get(v)
        if isinstance(x, KB):
            c = x.const()
            return None if c is None else bool(c)
        return None

    def sign(s, v):
        x = s.get(v)
        return x.m if isinstance(x, Sg) else ANY

    def set(s, I, n):
        if n is None:
            return
        o = s.val.get(I)
        m = join(o, n) if o is not None else n
        if o is None or not (m is o or m == o):
            s.val[I] = m
            for u in I.users:
                if u.bb in s.exe:
                    s.iw.append(u)

    def edge(s, a, b):
        if (a, b) in s.edges:
            return
        s.edges.add((a, b))
        if b not in s.exe:
            s.exe.add(b)
            s.bw.append(b)
        else:
            for I in b.ins:
                if I.op != 'phi':
                    break
                s.iw.append(I)

    def go(s):
        s.bw, s.iw = deque(), deque()
        e = s.fn.blocks[0]
        s.exe.add(e)
        s.bw.append(e)
        while s.bw or s.iw:
            while s.bw:
                for I in s.bw.popleft().ins:
                    s.visit(I)
            while s.iw and not s.bw:
                I = s.iw.popleft()
                if I.bb in s.exe:
                    s.visit(I)

    def visit(s, I):
        op = I.op
        if op == 'br':
            if not I.ops:
                return s.edge(I.bb, I.succ[0])
            if s.get(I.ops[0]) is None:
                return
            c = s.bool(I.ops[0])
            if c is not False:
                s.edge(I.bb, I.succ[0])
            if c is not True:
                s.edge(I.bb, I.succ[1])
            return
        if op == 'switch':
            x = s.get(I.ops[0])
            if x is None:
                return
            w = I.ops[0].ty.width
            c = x.const() if isinstance(x, KB) else None
            hit = False
            for k, t in I.cases:
                k &= _mask(w)
                if c is not None:
                    if k == c:
                        s.edge(I.bb, t)
                        hit = True
                elif not isinstance(x, KB) or not (x.o & ~k & _mask(w) or x.z & k):
                    s.edge(I.bb, t)
            if not hit:
                s.edge(I.bb, I.succ[0])
            return
        if I.ty is None or I.ty.kind == 'void':
            return
        f = s.hook(I)
        if f is WAIT:
            return
        if f is not None:
            return s.set(I, f)
        if op == 'phi':
            r = None
            for v, b in I.inc:
                if (b, I.bb) in s.edges:
                    r = join(r, s.get(v))
            return s.set(I, r)
        if op == 'select':
            if s.get(I.ops[0]) is None:
                return
            c = s.bool(I.ops[0])
            x, y = s.get(I.ops[1]), s.get(I.ops[2])
            return s.set(I, join(x, y) if c is None else x if c else y)
        if op in ('load', 'alloca', 'gep') or not I.ops and op != 'call':
            return s.set(I, full(I))
        a = [s.get(o) for o in I.ops]
        if op == 'call':
            return s.set(I, s.call(I, a))
        if any(x is None for x in a):
            return
        s.set(I, s.ev(I, a))

    def call(s, I, a):
        n = I.callee.name if I.callee is not None and I.callee.op == 'function' else ''
        sg = [x.m if isinstance(x, Sg) else ANY for x in a]
        if n.startswith('llvm.fmuladd') or n.startswith('llvm.fma'):
            if any(x is None for x in a[:3]):
                return None
            return Sg(sadd(smul(sg[0], sg[1]), sg[2]))
        if n.startswith('llvm.fabs') or n == 'fabs':
            if a[0] is None:
                return None
            return Sg((sg[0] & Z) | (P if sg[0] & (N | P) else 0))
        return full(I)

    def ev(s, I, a):
        op = I.op
        if I.ty.kind in ('double', 'float'):
            sg = [x.m if isinstance(x, Sg) else ANY for x in a]
            if op == 'fneg':
                return Sg(flip(sg[0]))
            if op == 'fmul':
                return Sg(smul(sg[0], sg[1]))
            if op == 'fdiv':
                return Sg(smul(sg[0], sg[1] & ~Z or ANY) if sg[1] & ~Z else ANY)
            if op == 'fadd':
                return Sg(sadd(sg[0], sg[1]))
            if op == 'fsub':
                return Sg(sadd(sg[0], flip(sg[1])))
            if op in ('uitofp', 'sitofp') and isinstance(a[0], KB):
                w = I.ops[0].ty.width
                top = 1 << (w - 1)
                neg = op == 'sitofp' and not a[0].z & top
                return Sg((0 if a[0].o else Z) | (0 if a[0].z == _mask(w) or neg and a[0].o & top else P) | (N if neg else 0))
            return full(I)
        if op == 'fcmp':
            sg = [x.m if isinstance(x, Sg) else ANY for x in a]
            c = cmp_sign(I.pred, sg[0], sg[1])
            return KB(1) if c is None else kconst(1, int(c))
        if I.ty.kind != 'int':
            return full(I)
        if op == 'bitcast' and isinstance(a[0], Sg) and I.ops[0].ty.kind == 'double':
            top = 1 << (I.ty.width - 1)
            return KB(I.ty.width, top if a[0].m == N else 0, top if a[0].m == P else 0)
        if not all(isinstance(x, KB) for x in a):
            if op == 'icmp' and all(x is TOP or isinstance(x, KB) for x in a):
                return KB(1)
            return full(I)
        w = I.ty.width
        c = ev_int(I, [x.const() for x in a])
        if c is not None:
            return kconst(w, c)
        if op == 'and':
            return KB(w, a[0].o & a[1].o, a[0].z | a[1].z)
        if op == 'or':
            return KB(w, a[0].o | a[1].o, a[0].z & a[1].z)
        if op == 'xor':
            k = (a[0].o | a[0].z) & (a[1].o | a[1].z)
            v = (a[0].o ^ a[1].o) & k
            return KB(w, v, k & ~v)
        if op in ('shl', 'lshr') and a[1].const() is not None and a[1].const() < w:
            n, m = a[1].const(), _mask(w)
            if op == 'shl':
                return KB(w, a[0].o << n & m, (a[0].z << n | _mask(n)) & m)
            return KB(w, a[0].o >> n, a[0].z >> n | m & ~(m >> n))
        if op in ('zext', 'trunc', 'freeze'):
            ow = I.ops[0].ty.width
            z = a[0].z | (_mask(w) & ~_mask(ow) if op == 'zext' else 0)
            return KB(w, a[0].o & _mask(w), z & _mask(w))
        if op == 'icmp':
            x, y = a
            if I.pred in ('eq', 'ne') and (x.o & y.z or x.z & y.o):
                return kconst(1, int(I.pred == 'ne'))
            ow = I.ops[0].ty.width if I.ops[0].ty.kind == 'int' else 64
            lo = [k.o for k in a]
            hi = [_mask(ow) & ~k.z for k in a]
            top = 1 << (ow - 1)
            p = I.pred
            if p[0] == 's' and all(k.z & top for k in a):
                p = 'u' + p[1:]
            if p in ('ugt', 'ule') and (lo[0] > hi[1] or hi[0] <= lo[1]):
                return kconst(1, int((lo[0] > hi[1]) == (p == 'ugt')))
            if p in ('ult', 'uge') and (hi[0] < lo[1] or lo[0] >= hi[1]):
                return kconst(1, int((hi[0] < lo[1]) == (p == 'ult')))
        return full(I)
