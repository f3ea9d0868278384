"""CFG utilities, sparse conditional constant propagation under assumptions,
and a disjunctive known-bits propagation (abstract interpretation whose states
are program point + known bits of the small enum-like values)."""
import sys
from collections import deque

sys.setrecursionlimit(100000)


# ----------------------------------------------------------------- CFG
def rpo(fn):
    seen, out = set(), []
    st = [(fn.blocks[0], iter(fn.blocks[0].succs))]
    seen.add(fn.blocks[0])
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(s.succs)))
                break
        else:
            out.append(b)
            st.pop()
    out.reverse()
    return out


def dominators(fn):
    """immediate dominators (block->block)"""
    order = rpo(fn)
    num = {b: i for i, b in enumerate(order)}
    idom = {order[0]: order[0]}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            new = None
            for p in b.preds:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x is not y:
                            while num[x] > num[y]:
                                x = idom[x]
                            while num[y] > num[x]:
                                y = idom[y]
                        new = x
            if new is not None and idom.get(b) is not new:
                idom[b] = new
                ch = True
    return idom


def dominates(idom, a, b):
    while True:
        if a is b:
            return True
        n = idom.get(b)
        if n is None or n is b:
            return False
        b = n


def reach_from(starts, succ, stop=lambda b: False):
    seen = set(starts)
    dq = deque(starts)
    while dq:
        b = dq.popleft()
        if stop(b):
            continue
        for s in succ(b):
            if s not in seen:
                seen.add(s)
                dq.append(s)
    return seen


def returning_blocks(fn):
    """blocks from which a ret is reachable"""
    rets = [b for b in fn.blocks if b.term.op == 'ret']
    return reach_from(rets, lambda b: b.preds)


def loops(fn):
    """natural loops: list of (header, set(blocks))"""
    idom = dominators(fn)
    res = {}
    for b in rpo(fn):
        for s in b.succs:
            if dominates(idom, s, b):
                body = {s, b}
                st = [b]
                while st:
                    x = st.pop()
                    if x is s:
                        continue
                    for p in x.preds:
                        if p in idom and p not in body:
                            body.add(p)
                            st.append(p)
                res.setdefault(s, set()).update(body)
    return list(res.items())


def sccs(nodes, succ):
    idx, low, st, on, out = {}, {}, [], set(), []
    c = [0]
    for r in nodes:
        if r in idx:
            continue
        work = [(r, iter(succ(r)))]
        idx[r] = low[r] = c[0]; c[0] += 1
        st.append(r); on.add(r)
        while work:
            v, it = work[-1]
            adv = False
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = c[0]; c[0] += 1
                    st.append(w); on.add(w)
                    work.append((w, iter(succ(w))))
                    adv = True
                    break
                elif w in on:
                    low[v] = min(low[v], idx[w])
            if adv:
                continue
            work.pop()
            if work:
                low[work[-1][0]] = min(low[work[-1][0]], low[v])
            if low[v] == idx[v]:
                comp = []
                while True:
                    w = st.pop(); on.discard(w); comp.append(w)
                    if w is v or w == v:
                        break
                out.append(comp)
    return out


# ------------------------------------------------- constants: shared evaluator
def _mask(w):
    return (1 << w) - 1


def ev_int(I, a):
    """a: list of unsigned ints or None. returns unsigned int/None"""
    op = I.op
    w = I.ty.width if I.ty.kind == 'int' else 64
    if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'udiv', 'urem'):
        x, y = a
        if op == 'and' and (x == 0 or y == 0):
            return 0
        if op == 'or' and (x == _mask(w) or y == _mask(w)):
            return _mask(w)
        if op == 'mul' and (x == 0 or y == 0):
            return 0
        if x is None or y is None:
            return None
        r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y,
             'or': lambda: x | y, 'xor': lambda: x ^ y, 'shl': lambda: x << y if y < 64 else 0,
             'lshr': lambda: x >> y, 'udiv': lambda: x // y if y else None,
             'urem': lambda: x % y if y else None}[op]()
        return None if r is None else r & _mask(w)
    if op == 'icmp':
        x, y = a
        if x is None or y is None:
            return None
        ow = I.ops[0].ty.width if I.ops[0].ty.kind == 'int' else 64

        def s(v):
            return v - (1 << ow) if v >> (ow - 1) & 1 else v
        p = I.pred
        return int({'eq': x == y, 'ne': x != y, 'ugt': x > y, 'uge': x >= y, 'ult': x < y, 'ule': x <= y,
                    'sgt': s(x) > s(y), 'sge': s(x) >= s(y), 'slt': s(x) < s(y), 'sle': s(x) <= s(y)}[p])
    if op == 'zext':
        return a[0]
    if op == 'freeze':
        return a[0]
    if op == 'trunc':
        return None if a[0] is None else a[0] & _mask(w)
    if op == 'sext':
        if a[0] is None:
            return None
        ow = I.ops[0].ty.width
        v = a[0]
        if v >> (ow - 1) & 1:
            v |= _mask(w) ^ _mask(ow)
        return v
    return None


TOP = 'top'   # not constant


def sccp(fn, assume=lambda I: None):
    """Sparse conditional constant propagation.
    assume(I) -> int to force the value of an instruction.
    Returns (executable blocks, executable edges, values)."""
    val = {}
    exe = set()
    edges = set()
    bwork = deque()
    iwork = deque()

    def get(v):
        o = v.op
        if o == 'const':
            if v.kind == 'int':
                return v.val & _mask(v.ty.width)
            if v.kind == 'null':
                return 0
            return TOP
        if o == 'arg' or o in ('global', 'function'):
            return TOP
        return val.get(v)      # None = undefined yet

    def setv(I, n):
        if n is None:
            return
        o = val.get(I)
        if o == TOP and o is TOP:
            return
        if o is not None and o != n:
            n = TOP
        if o is None or (n is TOP and o is not TOP):
            val[I] = n
            for u in I.users:
                if u.bb in exe:
                    iwork.append(u)

    def edge(a, b):
        if (a, b) in edges:
            return
        edges.add((a, b))
        if b not in exe:
            exe.add(b)
            bwork.append(b)
        else:
            for I in b.ins:
                if I.op == 'phi':
                    iwork.append(I)
                else:
                    break

    def visit(I):
        op = I.op
        if op == 'br':
            if not I.ops:
                edge(I.bb, I.succ[0])
            else:
                c = get(I.ops[0])
                if c is None:
                    return
                if c is TOP:
                    edge(I.bb, I.succ[0]); edge(I.bb, I.succ[1])
                else:
                    edge(I.bb, I.succ[0] if c else I.succ[1])
            return
        if op == 'switch':
            c = get(I.ops[0])
            if c is None:
                return
            if c is TOP:
                for s in I.succ:
                    edge(I.bb, s)
            else:
                w = I.ops[0].ty.width
                for k, t in I.cases:
                    if k & _mask(w) == c:
                        edge(I.bb, t)
                        return
                edge(I.bb, I.succ[0])
            return
        if I.ty is None or I.ty.kind == 'void':
            return
        f = assume(I)
        if f is not None:
            setv(I, f)
            return
        if op == 'phi':
            r = None
            for v, b in I.inc:
                if (b, I.bb) not in edges:
                    continue
                x = get(v)
                if x is None:
                    continue
                if r is None:
                    r = x
                elif r != x or x is TOP:
                    r = TOP
            setv(I, r)
            return
        if op == 'select':
            c = get(I.ops[0])
            if c is None:
                return
            x, y = get(I.ops[1]), get(I.ops[2])
            if c is TOP:
                if x is None or y is None:
                    return
                setv(I, x if x == y and x is not TOP else TOP)
            else:
                setv(I, x if c else y)
            return
        if op in ('load', 'call', 'alloca', 'gep') or I.ty.kind not in ('int',):
            setv(I, TOP)
            return
        a = [get(o) for o in I.ops]
        if any(x is None for x in a):
            return
        r = ev_int(I, [None if x is TOP else x for x in a])
        setv(I, TOP if r is None else r)

    e = fn.blocks[0]
    exe.add(e)
    bwork.append(e)
    while bwork or iwork:
        while bwork:
            b = bwork.popleft()
            for I in b.ins:
                visit(I)
        while iwork and not bwork:
            I = iwork.popleft()
            if I.bb in exe:
                visit(I)
    return exe, edges, val


# ------------------------------------------------- liveness
def liveness(fn):
    """live-in sets per block (instructions/args), phi uses on edges"""
    use, df = {}, {}
    phiuse = {}
    for b in fn.blocks:
        u, d = set(), set()
        for I in b.ins:
            if I.op == 'phi':
                for v, p in I.inc:
                    if isinstance_i(v):
                        phiuse.setdefault((p, b), set()).add(v)
            else:
                for o in I.ops:
                    if isinstance_i(o) and o not in d:
                        u.add(o)
            d.add(I)
        use[b], df[b] = u, d
    live = {b: set(use[b]) for b in fn.blocks}
    ch = True
    order = list(reversed(rpo(fn)))
    while ch:
        ch = False
        for b in order:
            out = set()
            for s in b.succs:
                phis = set(I for I in s.ins if I.op == 'phi')
                out |= (live[s] - phis)
                out |= phiuse.get((b, s), set())
            n = use[b] | (out - df[b])
            if n != live[b]:
                live[b] = n
                ch = True
    return live, phiuse


def isinstance_i(v):
    return v.op not in ('const', 'global', 'function', 'arg')


# ------------------------------------------------- disjunctive known bits
class KB:
    """known bits: ones (known 1), zeros (known 0)"""
    __slots__ = ('w', 'o', 'z')

    def __init__(s, w, o=0, z=0):
        s.w = w; s.o = o; s.z = z

    def const(s):
        return s.o if (s.o | s.z) == _mask(s.w) else None

    def key(s):
        return (s.w, s.o, s.z)

    def __eq__(s, t):
        return isinstance(t, KB) and s.key() == t.key()

    def __hash__(s):
        return hash(s.key())

    def __repr__(s):
        return 'KB(o=%x,z=%x)' % (s.o, s.z)

    def known(s):
        return s.o | s.z


def kconst(w, v):
    v &= _mask(w)
    return KB(w, v, _mask(w) & ~v)


def kb_meet(a, b):
    """combine facts; None if contradictory"""
    o, z = a.o | b.o, a.z | b.z
    if o & z:
        return None
    return KB(a.w, o, z)


class Explorer:
    """Forward exploration of (block, known bits of tracked values).
    on_block(b, env) / on_instr hooks may record; assume(I, env)->KB|None forces values."""

    def __init__(s, fn, assume=None, track_width=8, limit=200000, extra_track=(), split=None):
        """split(I, env) -> list of KB: the path is continued once per listed value of I"""
        s.fn = fn
        s.assume = assume
        s.split = split
        s.live, s.phiuse = liveness(fn)
        s.limit = limit
        s.tw = track_width
        s.extra = set(extra_track)
        s._tr = {}
        s.strict = False

    def trackable(s, v):
        r = s._tr.get(v)
        if r is not None:
            return r
        if v.ty is None or v.ty.kind != 'int':
            r = False
        elif v in s.extra or v.ty.width <= s.tw:
            r = True
        else:
            r = s._enumlike(v)
        s._tr[v] = r
        return r

    def _enumlike(s, v):
        seen = set()
        st = [v]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == 'const':
                continue
            if x.op in ('phi',):
                st.extend(x.ops)
            elif x.op in ('select',):
                st.extend(x.ops[1:])
            elif x.op in ('zext', 'sext', 'trunc', 'or', 'and', 'freeze'):
                st.extend(x.ops)
            elif x.op in ('icmp', 'fcmp'):
                continue
            elif x.op in ('load', 'call') and x.ty.kind == 'int' and x.ty.width <= s.tw:
                continue
            else:
                return False
        return True

    def get(s, env, v):
        if v.op == 'const':
            if v.kind == 'int':
                return kconst(v.ty.width, v.val)
            return None
        return env.get(v)

    def evalI(s, I, env):
        if s.assume:
            r = s.assume(I, env, s)
            if r is not None:
                return r
        op = I.op
        if I.ty is None or I.ty.kind != 'int':
            return None
        w = I.ty.width
        if op in ('and', 'or', 'xor'):
            a, b = s.get(env, I.ops[0]), s.get(env, I.ops[1])
            if a is None and b is None:
                return None
            a = a or KB(w)
            b = b or KB(w)
            if op == 'and':
                return KB(w, a.o & b.o, a.z | b.z)
            if op == 'or':
                return KB(w, a.o | b.o, a.z & b.z)
            k = a.known() & b.known()
            return KB(w, (a.o ^ b.o) & k, ~(a.o ^ b.o) & k)
        if op in ('zext', 'trunc', 'freeze', 'sext'):
            a = s.get(env, I.ops[0])
            if op == 'zext':
                a = a or KB(I.ops[0].ty.width)
                return KB(w, a.o, a.z | (_mask(w) ^ _mask(I.ops[0].ty.width)))
            if a is None:
                return None
            if op == 'trunc':
                return KB(w, a.o & _mask(w), a.z & _mask(w))
            if op == 'freeze':
                return a
            c = a.const()
            if c is None:
                return None
            return kconst(w, ev_int(I, [c]))
        if op == 'icmp':
            if I.ops[0].ty.kind != 'int':
                return None
            a, b = s.get(env, I.ops[0]), s.get(env, I.ops[1])
            if a is None or b is None:
                return None
            if I.pred in ('eq', 'ne') and ((a.o & b.z) or (a.z & b.o)):
                return kconst(1, 0 if I.pred == 'eq' else 1)
            ca, cb = a.const(), b.const()
            if ca is None or cb is None:
                return None
            return kconst(1, ev_int(I, [ca, cb]))
        if op == 'select':
            c = s.get(env, I.ops[0])
            a, b = s.get(env, I.ops[1]), s.get(env, I.ops[2])
            if c is not None and c.const() is not None:
                return a if c.const() else b
            if a is None or b is None:
                return None
            return KB(w, a.o & b.o, a.z & b.z)
        if op in ('add', 'sub', 'mul', 'shl', 'lshr'):
            a, b = s.get(env, I.ops[0]), s.get(env, I.ops[1])
            if a is None or b is None or a.const() is None or b.const() is None:
                return None
            r = ev_int(I, [a.const(), b.const()])
            return None if r is None else kconst(w, r)
        return None

    def refine(s, env, v, kb, depth=0):
        """record that v has bits kb; push facts backwards. returns False if contradictory"""
        if v.op == 'const':
            c = s.get(env, v)
            if c is not None and kb_meet(c, kb) is None:
                return False
            return True
        old = env.get(v)
        if old is not None:
            m = kb_meet(old, kb)
            if m is None:
                return False
        else:
            m = kb
        env[v] = m
        if depth > 8 or v.op in ('arg', 'phi', 'load', 'call'):
            return True
        c = m.const()
        op = v.op
        if op == 'icmp' and c is not None and v.ops[0].ty.kind == 'int':
            eq = (v.pred == 'eq' and c == 1) or (v.pred == 'ne' and c == 0)
            ne = (v.pred == 'eq' and c == 0) or (v.pred == 'ne' and c == 1)
            a, b = s.get(env, v.ops[0]), s.get(env, v.ops[1])
            if eq:
                if b is not None and not s.refine(env, v.ops[0], b, depth + 1):
                    return False
                if a is not None and not s.refine(env, v.ops[1], a, depth + 1):
                    return False
            if ne:
                cb = b.const() if b is not None else None
                if cb is not None:
                    # one unknown bit left -> determined
                    a = a or KB(v.ops[0].ty.width)
                    unk = _mask(a.w) & ~a.known()
                    if unk and unk & (unk - 1) == 0:
                        if (a.o & ~unk) == (cb & ~unk):
                            bit = unk & ~cb
                            nb = KB(a.w, bit, unk & ~bit)
                            if not s.refine(env, v.ops[0], nb, depth + 1):
                                return False
            return True
        if op == 'xor' and c is not None:
            for x, y in ((0, 1), (1, 0)):
                k = s.get(env, v.ops[y])
                if k is not None and k.const() is not None:
                    if not s.refine(env, v.ops[x], kconst(m.w, c ^ k.const()), depth + 1):
                        return False
            return True
        if op == 'and':
            if m.o:
                for x in v.ops:
                    if not s.refine(env, x, KB(m.w, m.o, 0), depth + 1):
                        return False
            for x, y in ((0, 1), (1, 0)):
                k = s.get(env, v.ops[y])
                if k is not None and (k.o & m.z):
                    if not s.refine(env, v.ops[x], KB(m.w, 0, k.o & m.z), depth + 1):
                        return False
            return True
        if op == 'or':
            if m.z:
                for x in v.ops:
                    if not s.refine(env, x, KB(m.w, 0, m.z), depth + 1):
                        return False
            return True
        if op == 'select' and v.ty.width == 1 and c is not None:
            a, b = v.ops[1], v.ops[2]
            if c == 1 and b.op == 'const' and b.kind == 'int' and b.val == 0:
                return s.refine(env, v.ops[0], kconst(1, 1), depth + 1) and s.refine(env, a, kconst(1, 1), depth + 1)
            if c == 0 and a.op == 'const' and a.kind == 'int' and a.val:
                return s.refine(env, v.ops[0], kconst(1, 0), depth + 1) and s.refine(env, b, kconst(1, 0), depth + 1)
            return True
        if op in ('zext', 'trunc', 'freeze'):
            w = v.ops[0].ty.width
            if op == 'trunc':
                return s.refine(env, v.ops[0], KB(w, m.o, m.z), depth + 1)
            return s.refine(env, v.ops[0], KB(w, m.o & _mask(w), m.z & _mask(w)), depth + 1)
        return True

    def run(s, starts, on_instr=None, on_edge=None, follow=None):
        """starts: list of (block, index, env, tag). on_instr(I, env, tag) may return
        'stop' to cut the path, or a new tag object. Returns states list and edges."""
        seen = {}
        work = deque()
        parent = {}

        def norm(b, env):
            lv = s.live[b]
            return {k: v for k, v in env.items()
                    if (k.op == 'arg' or k in lv or k in s.extra or (k.op == 'phi' and k.bb is b)) and v is not None
                    and v.known() and (not s.strict or s.trackable(k))}

        def push(b, idx, env, tag, par):
            env = norm(b, env) if idx == 0 else env
            key = (b, idx, frozenset((id(k), v.key()) for k, v in env.items()), tag)
            if par is not None:
                s.sedges.append((par, key))
            if key in seen:
                return
            seen[key] = env
            parent[key] = par
            work.append((b, idx, env, tag, key))
            if len(seen) > s.limit:
                raise RuntimeError('state limit in %s' % s.fn.name)
        s.sedges = []
        s.parent = parent
        for b, i, env, tag in starts:
            push(b, i, dict(env), tag, None)
        while work:
            b, idx, env, tag, key = work.popleft()
            env = dict(env)
            stop = False
            nosplit = ()
            for pos, I in enumerate(b.ins[idx:], idx):
                if I.op == 'phi':
                    continue
                if s.split is not None and I.op == 'call' and pos not in nosplit:
                    alts = s.split(I, env)
                    if alts is not None:
                        for a in alts:
                            e2 = dict(env)
                            e2[I] = a
                            r = on_instr(I, e2, tag, key) if on_instr else None
                            if r == 'stop':
                                continue
                            push(b, pos + 1, e2, tag if r is None else r, key)
                        stop = True
                        break
                if s.split is not None and I.op == 'select' and I.ty.kind == 'int' and I.ty.width > 1 and s.trackable(I):
                    c = s.get(env, I.ops[0])
                    if (c is None or c.const() is None) and s.get(env, I.ops[1]) != s.get(env, I.ops[2]):
                        for val in (1, 0):
                            e2 = dict(env)
                            if not s.refine(e2, I.ops[0], kconst(1, val)):
                                continue
                            x = s.get(e2, I.ops[2 - val])
                            if x is not None and x.known():
                                e2[I] = x
                            else:
                                e2.pop(I, None)
                            push(b, pos + 1, e2, tag, key)
                        stop = True
                        break
                if I.op not in ('br', 'switch', 'ret', 'unreachable', 'store') and I.ty.kind == 'int':
                    r = s.evalI(I, env)
                    if r is not None and r.known() and s.trackable(I):
                        env[I] = r
                    else:
                        env.pop(I, None)
                if on_instr:
                    q = on_instr(I, env, tag, key)
                    if q == 'stop':
                        stop = True
                        break
                    if q is not None:
                        tag = q
            if stop:
                continue
            t = b.term
            outs = []
            if t.op == 'br':
                if not t.ops:
                    outs = [(t.succ[0], env)]
                else:
                    c = s.get(env, t.ops[0])
                    cc = c.const() if c is not None else None
                    for k, val in ((0, 1), (1, 0)):
                        if cc is not None and cc != val:
                            continue
                        e2 = dict(env)
                        if s.refine(e2, t.ops[0], kconst(1, val)):
                            outs.append((t.succ[k], e2))
            elif t.op == 'switch':
                c = s.get(env, t.ops[0])
                cc = c.const() if c is not None else None
                w = t.ops[0].ty.width
                hit = False
                for k, tb in t.cases:
                    if cc is not None and (k & _mask(w)) != cc:
                        continue
                    e2 = dict(env)
                    if s.refine(e2, t.ops[0], kconst(w, k)):
                        outs.append((tb, e2))
                        if cc is not None:
                            hit = True
                if not hit:
                    outs.append((t.succ[0], dict(env)))
            for nb, e in outs:
                if follow and not follow(b, nb, e, tag):
                    continue
                e2 = {k: v for k, v in e.items()}
                newphi = {}
                for I in nb.ins:
                    if I.op != 'phi':
                        break
                    for v, p in I.inc:
                        if p is b:
                            if s.trackable(I):
                                newphi[I] = s.get(e, v)
                            break
                for k, v in newphi.items():
                    if v is not None and v.known():
                        e2[k] = v
                    else:
                        e2.pop(k, None)
                # values (re)defined in nb are stale
                for I in nb.ins:
                    if I.op != 'phi':
                        e2.pop(I, None)
                push(nb, 0, e2, tag, key)
        return seen


def trace(ex, key):
    """list of blocks on the exploration path leading to a state"""
    out = []
    while key is not None:
        out.append(key[0])
        key = ex.parent.get(key)
    out.reverse()
    return out
