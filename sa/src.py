"""Where a value in the inlined reductions comes from: which array of the problem, at which index."""
import vf


CORE = {'col_tags', 'row_tags', 'bounds', 'row_sizes', 'col_sizes', 'activities', 'locks'}


def strip(v):
    while v.op in ('sext', 'zext', 'trunc', 'freeze'):
        v = v.ops[0]
    return v


class Src:
    def __init__(s, M, f):
        s.M, s.f = M, f
        s.st = {}
        s.memo, s.rm, s.km = {}, {}, {}
        s.inbase = set()
        for I in f.instrs():
            if I.op == 'store':
                b, off = vf.root(M, I.ops[1])
                if b.op == 'alloca' and off is not None:
                    s.st.setdefault((b, off), set()).add(I.ops[0])

    def res(s, v, depth=0):
        """through extensions and locals that hold one value"""
        r = s.rm.get(v)
        if r is not None:
            return r
        r = s._res(v, depth)
        if depth == 0:
            s.rm[v] = r
        return r

    def _res(s, v, depth):
        v = strip(v)
        if v.op == 'load' and depth < 8:
            b, off = vf.root(s.M, v.ops[0])
            if b.op == 'alloca' and off is not None:
                w = s.st.get((b, off), set())
                if len(w) == 1:
                    return s.res(next(iter(w)), depth + 1)
        if v.op == 'phi' and depth < 8:
            w = {s.res(o, depth + 1) for o in v.ops if o is not v}
            if len(w) == 1:
                return w.pop()
        return v

    def base(s, p, idx):
        """(array name, indices) of a pointer into an array"""
        p = s.res(p)
        if p in s.inbase:                       # a pointer that walks along
            return None
        s.inbase.add(p)
        try:
            return s.base1(p, idx)
        finally:
            s.inbase.discard(p)

    def base1(s, p, idx):
        if p.op == 'gep':
            if len(p.ops) == 2:
                return s.base(p.ops[0], [p.ops[1]] + idx)
            pf = vf.pfield(s.M, p)
            if pf:
                n = s.base(p.ops[0], idx)
                if n and p.ops[1].op != 'const':
                    n = (n[0], [p.ops[1]] + n[1])
                return (n[0] + '.' + pf[1], n[1]) if n else None
            return None
        if p.op == 'load':
            q = p.ops[0]
            pf = vf.pfield(s.M, q)
            if pf:
                own = s.owner(vf.root(s.M, q)[0], pf[1])
                return (own + pf[1], idx)
            n = s.base(q, idx)
            return (n[0] + '*', n[1]) if n else None
        if p.op in ('phi', 'select'):
            r = {}
            for o in (p.ops if p.op == 'phi' else p.ops[1:]):
                if o is p or o.op == 'const':
                    continue
                n = s.base(o, idx) if o.op != 'phi' else None
                r[n[0] if n else None] = n
            if len(r) == 1 and None not in r:
                return next(iter(r.values()))
        if p.op == 'call':
            w = {(vf.pfield(s.M, u.ops[1]) or ('', ''))[1] for u in vf._uses(p) if u.op == 'store'} & CORE
            if len(w) == 1:
                return (w.pop(), idx)
        if p.op == 'alloca':
            return ('local%d' % p.id, idx)
        return None

    def owner(s, b, f=None):
        """'A.' / 'AT.' / 'obj.' ... for the object a field belongs to; '' for the problem's own parts"""
        b = s.res(b)
        n = vf.pointee(s.M, b)
        if n in ('Constraints', 'State', 'Problem', 'Work') or f in CORE and n not in ('Matrix', 'Objective', 'PresolvedProblem'):
            return ''
        if b.op == 'load':
            pf = vf.pfield(s.M, b.ops[0])
            if pf:
                return pf[1] + '.'
        if n == 'Objective':
            return 'obj.'
        if b.op == 'call':
            w = {(vf.pfield(s.M, u.ops[1]) or ('', ''))[1] for u in vf._uses(b) if u.op == 'store'} & {'A', 'AT'}
            if len(w) == 1:
                return w.pop() + '.'
        return (n or '?') + '.'

    def at(s, v):
        """(array name, indices) a loaded value was read from"""
        v = s.res(v)
        if v in s.memo:
            return s.memo[v]
        s.memo[v] = None
        r = None
        if v.op == 'load':
            p = s.res(v.ops[0])
            pf = vf.pfield(s.M, p)
            b = vf.root(s.M, p)[0] if pf else None
            if pf and not (b.op == 'alloca'):
                bb = s.res(b)
                n = s.base(bb, []) if (bb.op == 'gep' or bb.op == 'phi') else None
                if n:
                    r = (n[0] + '.' + pf[1], n[1])
                elif bb.op == 'load' and vf.pointee(s.M, bb) in ('Bound', 'RowRange', 'Lock', 'Activity'):
                    n = s.base(bb, [])
                    r = (n[0] + '.' + pf[1], n[1]) if n else None
                else:
                    r = (s.owner(b, pf[1]) + pf[1], [])
            else:
                r = s.base(p, [])
        s.memo[v] = r
        return r

    def key(s, v, depth=0):
        """structural key: equal keys are equal values as long as nothing is modified in between"""
        if depth == 0:
            if v not in s.km:
                s.km[v] = s._key(v, 0)
            return s.km[v]
        return s._key(v, depth)

    def _key(s, v, depth):
        v = s.res(v)
        if v.op == 'const':
            return ('c', repr(v.val))
        if depth > 6:
            return ('v', id(v))
        if v.op == 'load':
            a = s.at(v)
            if a:
                return ('ld', a[0]) + tuple(s.key(i, depth + 1) for i in a[1])
        if v.op in ('add', 'sub', 'mul', 'fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'sitofp', 'and', 'or', 'xor'):
            return (v.op,) + tuple(s.key(o, depth + 1) for o in v.ops)
        if v.op == 'gep':
            b = s.base(v, [])
            if b:
                return ('p', b[0]) + tuple(s.key(i, depth + 1) for i in b[1])
        return ('v', id(v))

    def show(s, v, depth=0):
        v = s.res(v)
        if v.op == 'const':
            return str(v.val)
        if depth > 4:
            return '..'
        if v.op == 'load':
            a = s.at(v)
            return '%s[%s]' % (a[0], ','.join(s.show(i, depth + 1) for i in a[1])) if a else 'load?'
        if v.op == 'gep':
            b = s.base(v, [])
            return '&%s[%s]' % (b[0], ','.join(s.show(i, depth + 1) for i in b[1])) if b else 'gep?'
        if v.op in ('add', 'sub', 'mul', 'fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'sitofp', 'and', 'or', 'xor'):
            return '%s(%s)' % (v.op, ','.join(s.show(o, depth + 1) for o in v.ops))
        if v.op in ('phi', 'select'):
            os = v.ops if v.op == 'phi' else v.ops[1:]
            return '%s{%s}' % (v.op, '|'.join(sorted({s.show(o, depth + 2) for o in os})))
        return v.op + '%' + str(v.name)
