"""Element loops on value-flow IR: addresses as base + start + k*step, coverage of index ranges, per-iteration coverage."""
import flow
import vf


class Addr:
    def __repr__(s):
        return 'Addr(%s + %s + k*%s in %s)' % (s.base, s.start, s.step, s.loop)


_bn = {}


def names(f):
    if f not in _bn:
        d = {I.name: I for I in f.instrs() if I.name}
        for a in f.args:
            if getattr(a, 'name', None):
                d[a.name] = a
        _bn[f] = d
    return _bn[f]


def addr(M, f, SE, p):
    """(base value, start, step, loop) of an address; bytes"""
    bn = names(f)
    e = SE.val.get(getattr(p, 'name', None))
    if e is None:
        if p.op == 'arg' or p.op == 'load' or p.op == 'call':
            a = Addr()
            a.base, a.start, a.step, a.loop = p, {}, {}, None
            return a
        return None
    if e[0] is None:
        return None
    r = vf.addrec(e[0])
    if r is None:
        l = vf.linear(e[0])
        if l is None:
            return None
        r = (l, {None: 0}, None)
    a = Addr()
    a.base = None
    st = {}
    for q, c in r[0].items():
        if q is not None and c == 1 and q in bn and bn[q].ty.kind == 'ptr' and a.base is None:
            a.base = bn[q]
        elif c:
            st[q] = c
    a.start, a.step, a.loop = st, {q: c for q, c in r[1].items() if c}, r[2]
    return a


def div(l, k):
    if any(c % k for c in l.values()):
        return None
    return {a: c // k for a, c in l.items() if c}


def add(a, b, f=1):
    r = dict(a)
    for k, c in b.items():
        r[k] = r.get(k, 0) + f * c
    return {k: c for k, c in r.items() if c}


def sym(M, f, l, name):
    """linear form over SSA names -> over the symbols name(value) gives"""
    bn = names(f)
    out = {}
    for a, c in (l or {}).items():
        if a is None:
            out[None] = out.get(None, 0) + c
            continue
        s = name(bn[a]) if a in bn else None
        if s is None:
            return None
        out[s] = out.get(s, 0) + c
    return {a: c for a, c in out.items() if c}


def segments(M, f, SE, I, p, size, name):
    """index range [lo, hi] (linear forms over symbols, inclusive) the address p of access I runs through; None if unknown.
    returns (lo, hi, loop header name or None, Addr)"""
    a = addr(M, f, SE, p)
    if a is None or a.base is None:
        return None
    st, sp = div(a.start, size), div(a.step, size)
    if st is None or sp is None:
        return None
    lo = sym(M, f, st, name)
    if lo is None:
        return None
    if a.loop is None:
        return (lo, lo, None, a)
    bt = SE.loops.get(a.loop)
    bl = sym(M, f, vf.linear(bt), name) if bt is not None and vf.linear(bt) is not None else None
    if bl is None or not set(sp) <= {None} or sp.get(None, 0) not in (1, -1):
        return None
    s = sp.get(None, 0)
    hi = add(lo, bl, s)
    return (lo, hi, a.loop, a) if s == 1 else (hi, lo, a.loop, a)


def covers(segs, total):
    """union of segments covers 0..total-1 (linear forms)"""
    cur = {}
    rest = [(a, b) for a, b, *_ in segs]
    while rest and cur != total:
        nxt = None
        for s in rest:
            d = add(s[0], cur, -1)
            if set(d) <= {None} and d.get(None, 0) <= 0:
                nxt = s
                break
        if nxt is None:
            break
        rest.remove(nxt)
        e2 = add(nxt[1], {None: 1})
        d = add(e2, cur, -1)
        if set(d) <= {None} and d.get(None, 0) <= 0:
            continue
        cur = e2
    return cur == total


def loop_blocks(f, name):
    for h, body in flow.loops(f):
        if h.name == name:
            return h, body
    return None, None


def each_iteration(f, lname, blocks, follow=lambda br: None):
    """every iteration of the loop passes one of the blocks; follow(branch) may name the successors to take"""
    h, body = loop_blocks(f, lname)
    if h is None:
        return False
    seen, st = set(), [h]
    while st:
        b = st.pop()
        if b in seen or b in blocks:
            continue
        seen.add(b)
        t = b.term
        ss = follow(t) if t.op in ('br', 'switch') else None
        for s in (b.succs if ss is None else ss):
            if s is h:
                return False
            if s in body:
                st.append(s)
    return True


def value_under(v, leaf, depth=0):
    """integer value of an SSA expression when leaf(v) gives the value of some of its inputs"""
    r = leaf(v)
    if r is not None:
        return r
    if v.op == 'const':
        return v.val & ((1 << v.ty.width) - 1) if v.kind == 'int' else None
    if depth > 8 or v.op in ('load', 'phi', 'call', 'arg', 'alloca', 'store', 'gep', 'global'):
        return None
    a = [value_under(o, leaf, depth + 1) for o in v.ops]
    if v.op in ('sext', 'zext', 'trunc') and a[0] is not None:
        iw, ow = v.ops[0].ty.width, v.ty.width
        x = a[0]
        if v.op == 'sext' and x >> (iw - 1) & 1:
            x |= ((1 << ow) - 1) & ~((1 << iw) - 1)
        return x & ((1 << ow) - 1)
    if v.op == 'freeze':
        return a[0]
    if v.op == 'select':
        if a[0] is None:
            return None
        return a[1] if a[0] & 1 else a[2]
    try:
        return flow.ev_int(v, a)
    except (KeyError, ValueError, IndexError):
        return None


def branch_under(t, leaf):
    """successors a terminator can take under leaf"""
    if t.op == 'br' and len(t.ops) == 1:
        c = value_under(t.ops[0], leaf)
        if c is not None:
            return [t.succ[0] if c & 1 else t.succ[1]]
    return None


def ptr_cond(M, f, SE, c, dim, name):
    """truth values of a pointer comparison for dimensions 1, 2, 7"""
    if c.op != 'icmp' or c.ops[0].ty.kind != 'ptr':
        return {None}
    a = [addr(M, f, SE, o) for o in c.ops]
    if None in a or a[0].base is not a[1].base or a[0].loop or a[1].loop:
        return {None}
    d = sym(M, f, add(a[0].start, a[1].start, -1), name)
    if d is None or not set(d) <= {None, dim}:
        return {None}
    out = set()
    for n in (1, 2, 7):
        x = d.get(None, 0) + d.get(dim, 0) * n
        q = c.pred[-2:]
        out.add(int({'eq': x == 0, 'ne': x != 0, 'lt': x < 0, 'le': x <= 0, 'gt': x > 0, 'ge': x >= 0}[q]))
    return out
