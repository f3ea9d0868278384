"""Disjunctive abstract interpretation of pointers and heap objects.

State = program point + abstract values of the live SSA values + abstract heap.  Values: pointer to (object, offset),
null, known small integer, function, uninitialised, stale (into a block moved by realloc), unknown.  An object is one
allocation site (or argument, local, global) with a status (live / freed), a default content (uninitialised / zero /
unknown) and its pointer-sized members by byte offset.  Scalars are unknown, so states that differ only in numbers
merge; numbers stored in memory are never tracked.  Paths split on the outcome of allocation only as told by
`fails`."""
import build
import flow
import common
from common import callee_name, fmt

T = ('T',)
N = ('N',)
U = ('U',)

ALLOC = {'malloc', 'calloc', 'realloc', 'aligned_alloc', 'reallocarray'}
PURE = common.OUTPUT_OK | {'printf', 'fprintf', 'puts', 'putchar', 'fputs', 'fputc', 'fflush', 'fwrite', 'putc', 'vprintf', 'perror'}


def extreme(I):
    """'max' or 'min' where a select picks the larger or smaller of the two values it compares"""
    c = I.ops[0]
    if c.op != 'icmp' or {x for x in c.ops} != {x for x in I.ops[1:]} or c.pred in ('eq', 'ne'):
        return None
    gt = c.pred[1:] in ('gt', 'ge')
    return 'max' if gt == (c.ops[0] is I.ops[1]) else 'min'


class Obj:
    """immutable object state"""
    __slots__ = ('status', 'default', 'fields', '_h')

    def __init__(s, status, default, fields):
        s.status = status; s.default = default; s.fields = fields
        s._h = hash((status, default, frozenset(fields.items())))

    def __hash__(s):
        return s._h

    def __eq__(s, o):
        return s is o or isinstance(o, Obj) and (s._h == o._h and s.status == o.status and s.default == o.default and s.fields == o.fields)

    def get(s, off):
        return s.fields.get(off, s.default)

    def set(s, off, v):
        d = dict(s.fields)
        d[off] = v
        return Obj(s.status, s.default, d)

    def with_status(s, st):
        return Obj(st, s.default, s.fields)


class Limit(Exception):
    pass


class Interp:
    def __init__(s, M, limit=400000, on_event=None, fails=frozenset(), persist=False, opaque=None, on_call=None):
        s.M = M
        s.limit = limit
        s.steps = 0
        s.viol = {}
        s.fails = fails
        s.persist = persist
        s.live = {}
        s.num = {}
        s.hdr = {}
        s._walks = {}
        s.opaque = opaque or {}
        s.on_call = on_call
        s.nalloc = set(); s.nfree = set(); s.nderef = set(); s.nunknown = set()
        s.blocks = set()
        s.memo = {}
        s.sites = {}
        s.failtext = ''
        s.ctxs = {}
        s._alloc = None
        s.objstack = {}
        s.mv = []
        s.mvmemo = {}
        s.stack = []
        s.moved = set()
        s.objinstr = {}

    # ---- naming
    def oid(s, I, kind='A'):
        k = (kind, I.bb.fn.name, I.id, s.ctx() if kind == 'A' else 0)
        s.objinstr[k] = I
        s.objstack.setdefault(k, list(s.stack))
        return k

    def ctx(s):
        k = tuple((c.bb.fn.name, c.id) for c in s.stack)
        return s.ctxs.setdefault(k, len(s.ctxs))

    def allocating(s):
        if s._alloc is None:
            g = common.callgraph(s.M)
            s._alloc = set()
            ch = True
            while ch:
                ch = False
                for f, cs in g.items():
                    if f not in s._alloc and any(n in ('malloc', 'calloc', 'aligned_alloc', 'realloc') and n != 'realloc'
                                                 or n in s._alloc for n, _ in cs):
                        s._alloc.add(f)
                        ch = True
        return s._alloc

    def oname(s, o):
        I = s.objinstr.get(o)
        if o[0] == 'A' and I is not None:
            return 'block allocated at %s' % ' <- '.join([str(I.loc)] + [str(c.loc) for c in reversed(s.objstack[o])])
        if o[0] == 'L':
            return 'local variable'
        if o[0] == 'arg':
            return 'argument %d of %s' % (o[2], o[1])
        return str(o)

    def report(s, kind, I, text, heapfail=None):
        l = I.loc
        key = '%s|%s|%s' % (kind, l.file if l else '?', l.fn if l else I.bb.fn.name)
        why = ''
        if heapfail:
            f = heapfail
            why = ' when %s fails' % s.failtext
        chain = ''.join(' <- %s' % c.loc for c in reversed(s.stack))
        s.viol.setdefault(key, '%s at %s%s%s' % (text, fmt(I), chain, why))

    # ---- values
    def val(s, st, v):
        o = v.op
        if o == 'const':
            if v.kind == 'int':
                return ('I', v.val)
            if v.kind == 'null':
                return N
            if v.kind == 'expr' and v.cop == 'gep':
                b = s.val(st, v.ops[0])
                if b[0] == 'P':
                    off = s.constoff(v.idx, v.ops[1:])
                    return ('P', b[1], off if b[2] is None or off is None else b[2] + off)
            if v.kind == 'undef':
                return U
            return T
        if o == 'function':
            return ('F', v.name)
        if o == 'global':
            return ('P', ('G', v.name), 0)
        return st[0].get(v, T)

    def constoff(s, ty, idx):
        off = 0
        cur = ty
        for k, i in enumerate(idx):
            if i.op != 'const' or i.kind != 'int':
                return None
            if k == 0:
                off += i.val * (ty.size or 0)
            elif cur.kind == 'struct':
                off += cur.offs[i.val]
                cur = cur.elems[i.val]
            elif cur.kind == 'array':
                cur = cur.elems[0]
                off += i.val * cur.size
            else:
                return None
        return off

    def gep(s, st, I):
        b = s.val(st, I.ops[0])
        if b[0] in ('S', 'N', 'U', 'T', 'F'):
            return b
        if b[0] != 'P':
            return T
        if b[2] is None:
            return b
        off = s.constoff(I.aty, I.ops[1:])
        if s.record is not None and b[1][0] == 'arg':
            s.note(I, (b, tuple(s.val(st, o) for o in I.ops[1:])))
        if off is None:
            return ('P', b[1], None)
        return ('P', b[1], b[2] + off)

    # ---- memory
    def check_deref(s, st, I, p, what):
        s.nderef.add(I)
        if p[0] == 'N':
            s.report('null', I, '%s through a null pointer' % what, st[2])
            return False
        if p[0] == 'U':
            s.report('uninit', I, '%s through an uninitialised pointer' % what, st[2])
            return False
        if p[0] == 'S':
            s.report('stale', I, '%s through a pointer into a %s that realloc may have moved' % (what, s.oname(p[1])), st[2])
            return False
        if p[0] == 'P':
            ob = st[1].get(p[1])
            if ob is not None and ob.status == 'freed':
                s.report('uaf', I, '%s of a %s after it was freed' % (what, s.oname(p[1])), st[2])
                return False
        return True

    def load(s, st, I):
        p = s.val(st, I.ops[0])
        if not s.check_deref(st, I, p, 'read'):
            return None
        s.note(I, (p,))
        if p[0] != 'P' or p[2] is None:
            return T
        ob = st[1].get(p[1])
        if ob is None:
            if p[1][0] == 'G':
                return s.gload(p[1], p[2], I)
            return T
        if I.ty.kind != 'ptr':
            v = ob.get(p[2])
            return v if v[0] == 'Y' else T
        return ob.get(p[2])

    def gload(s, o, off, I):
        g = s.M.globals.get(o[1])
        return T

    on_store = None
    peel = True      # keep the first values of a loop apart from the later ones
    record = None

    def note(s, I, vals):
        if s.record is not None:
            s.record.setdefault(I, set()).add(vals)

    def store(s, st, I, p, v, ty):
        if not s.check_deref(st, I, p, 'write'):
            return False
        s.note(I, (p,))
        if p[0] != 'P' or p[2] is None:
            if v[0] == 'P' and v[1] in st[1] and v[1][0] == 'A':
                # the only reference may now be somewhere this analysis does not follow
                st[1][v[1]] = st[1][v[1]].with_status('escaped')
            return True
        ob = st[1].get(p[1])
        if ob is None:
            if v[0] == 'P' and v[1] in st[1] and v[1][0] == 'A':
                st[1][v[1]] = st[1][v[1]].with_status('escaped')
            return True
        if ty.kind != 'ptr' and v[0] != 'Y':
            if p[2] not in ob.fields:
                return True
            v = T
        st[1][p[1]] = ob.set(p[2], v)
        return True

    def retarget(s, st, obj):
        """pointers into obj become stale"""
        for k, v in list(st[0].items()):
            if v[0] == 'P' and v[1] == obj:
                st[0][k] = ('S', obj)
        for o, ob in list(st[1].items()):
            for f, v in ob.fields.items():
                if v[0] == 'P' and v[1] == obj:
                    ob = ob.set(f, ('S', obj))
            st[1][o] = ob

    def walks(s, P):
        """a loop's phi that is advanced by pointer arithmetic each time round"""
        r = s._walks.get(P)
        if r is None:
            seen, todo, r = set(), [(v, False) for v, _ in P.inc], False
            while todo and not r:
                v, g = todo.pop()
                if v is P:
                    r = g
                    continue
                if (v, g) in seen or v.op not in ('phi', 'gep', 'select', 'bitcast', 'freeze'):
                    continue
                seen.add((v, g))
                if v.op == 'gep':
                    todo.append((v.ops[0], True))
                elif v.op == 'phi':
                    todo += [(x, g) for x, _ in v.inc]
                else:
                    todo += [(x, g) for x in v.ops]
            s._walks[P] = r
        return r

    # ---- run
    def run(s, fn, args, heap, fail=None, depth=0):
        """explore fn from one entry state; returns list of (return value, heap, fail)"""
        if depth > 30:
            raise Limit('call depth')
        mk = (fn, tuple(args), frozenset(heap.items()), fail, s.ctx() if fn.name in s.allocating() else 0)
        r = s.memo.get(mk)
        if r is not None:
            if s.mv:
                s.mv[-1] |= s.mvmemo[mk]
            return r
        s.mv.append(set())
        entry = set(heap)
        if fn not in s.live:
            s.live[fn] = flow.liveness(fn)
            s.hdr[fn] = {h: set(bd) for h, bd in flow.loops(fn)}
        live, _ = s.live[fn]
        hdr = s.hdr[fn]
        env = {}
        for a, v in zip(fn.args, args):
            env[a] = v
        seen = set()
        work = []
        outs = {}

        def push(b, idx, env, heap, fail):
            if idx == 0:
                lv = live[b]
                env = {k: v for k, v in env.items() if (k.op == 'arg' or k in lv or (k.op == 'phi' and k.bb is b))
                       and v is not T}
            key = (b, idx, frozenset((id(k), v) for k, v in env.items()),
                   frozenset(heap.items()), fail)
            if key in seen:
                return
            seen.add(key)
            s.steps += 1
            if s.steps > s.limit:
                raise Limit('state limit in %s' % fn.name)
            work.append((b, idx, env, heap, fail))
            if s.dbg is not None:
                s.dbg[b].append((env, heap))
        push(fn.blocks[0], 0, env, heap, fail)
        while work:
            b, idx, env, heap, fail = work.pop()
            st = [dict(env), dict(heap), fail]
            s.blocks.add(b)
            dead = False
            for pos in range(idx, len(b.ins)):
                I = b.ins[pos]
                op = I.op
                if op == 'phi':
                    continue
                if op in ('br', 'switch', 'ret', 'unreachable'):
                    break
                if op == 'call':
                    r = s.call(st, I, depth)
                    if r is None:
                        dead = True
                        break
                    if isinstance(r, list):
                        for v, h, fl in r:
                            e2 = dict(st[0])
                            if I.ty.kind != 'void':
                                e2[I] = v
                            # realloc may have retargeted environment values
                            if isinstance(h, tuple):
                                e2, h = h[0], h[1]
                                e2 = dict(e2)
                                if I.ty.kind != 'void':
                                    e2[I] = v
                            push(b, pos + 1, e2, h, fl)
                        dead = True
                        break
                    if I.ty.kind != 'void':
                        st[0][I] = r
                    continue
                if op == 'store':
                    if not s.store(st, I, s.val(st, I.ops[1]), s.val(st, I.ops[0]), I.ops[0].ty):
                        dead = True
                        break
                    continue
                if op == 'load':
                    r = s.load(st, I)
                    if r is None:
                        dead = True
                        break
                    st[0][I] = r
                    continue
                if op == 'select' and I.ty.kind == 'ptr':
                    c = s.val(st, I.ops[0])
                    a = [s.val(st, o) for o in I.ops[1:]]
                    if c[0] not in 'IU' and a[0] != a[1]:
                        # one state per outcome, as for a branch
                        for k in (0, 1):
                            e2 = dict(st[0])
                            s.assume(e2, I.ops[0], 1 - k)
                            e2[I] = a[k]
                            push(b, pos + 1, e2, st[1], st[2])
                        dead = True
                        break
                st[0][I] = s.evalI(st, I, fn)
            if dead:
                continue
            t = b.term
            if t.op == 'ret':
                rv = s.val(st, t.ops[0]) if t.ops else T
                h = {k: v for k, v in st[1].items() if not (k[0] == 'L' and k[1] == fn.name)}
                s.gc(h, rv, entry)
                outs[(rv, frozenset(h.items()), st[2])] = (rv, h, st[2], t)
                continue
            if t.op == 'unreachable':
                continue
            if t.op == 'br':
                if not t.ops:
                    su = [(t.succ[0], None)]
                else:
                    c = s.val(st, t.ops[0])
                    if c[0] == 'U':
                        s.report('uninit', t, 'branch on an uninitialised value', st[2])
                        continue
                    if c[0] == 'I':
                        su = [(t.succ[0] if c[1] & 1 else t.succ[1], None)]
                    else:
                        su = [(t.succ[0], (t.ops[0], 1)), (t.succ[1], (t.ops[0], 0))]
            else:
                c = s.val(st, t.ops[0])
                su = None
                if c[0] == 'I':
                    w = t.ops[0].ty.width
                    su = [(t.succ[0], None)]
                    for k, tb in t.cases:
                        if (k - c[1]) & ((1 << w) - 1) == 0:
                            su = [(tb, None)]
                            break
                else:
                    su = [(x, None) for x in set(t.succ)]
            for nb, fact in su:
                e = st[0]
                if fact:
                    e = dict(e)
                    s.assume(e, fact[0], fact[1])
                new = {}
                for P in nb.ins:
                    if P.op != 'phi':
                        break
                    for v, p in P.inc:
                        if p is b:
                            x = s.val([e, None, None], v)
                            back = nb in hdr and (not s.peel or b in hdr[nb])
                            if back and x[0] in 'IY':
                                x = T
                            elif back and x[0] == 'P' and x[2] is not None and s.walks(P):
                                x = ('P', x[1], None)
                            new[P] = x
                            break
                e2 = dict(e)
                e2.update(new)
                push(nb, 0, e2, st[1], st[2])
        s.memo[mk] = list(outs.values())
        m = s.mv.pop()
        s.mvmemo[mk] = m
        if s.mv:
            s.mv[-1] |= m
        return s.memo[mk]

    def gc(s, h, rv, entry):
        dead = [o for o, ob in h.items() if ob.status == 'freed' and o not in entry]
        if dead:
            refd = {v[1] for ob in h.values() for v in ob.fields.values() if v[0] in 'PS'}
            if rv[0] in 'PS':
                refd.add(rv[1])
            for o in dead:
                if o not in refd:
                    del h[o]
        return h

    def assume(s, env, c, val):
        """branch fact on an undecided condition: remember the condition itself (and null-ness is already known)"""
        env[c] = ('I', val)
        if c.op in ('xor', 'freeze') and c.ops[0].op not in ('const',):
            if c.op == 'freeze':
                env[c.ops[0]] = ('I', val)

    def evalI(s, st, I, fn):
        op = I.op
        if op == 'gep':
            return s.gep(st, I)
        if op == 'alloca':
            o = s.oid(I, 'L')
            if o not in st[1]:
                st[1][o] = Obj('live', U, {})
            return ('P', o, 0)
        if op in ('bitcast', 'freeze', 'addrspacecast'):
            return s.val(st, I.ops[0])
        if op == 'ptrtoint' or op == 'inttoptr':
            return s.val(st, I.ops[0])
        if op == 'select':
            c = s.val(st, I.ops[0])
            a, b = s.val(st, I.ops[1]), s.val(st, I.ops[2])
            if c[0] == 'I':
                return a if c[1] & 1 else b
            if a == b:
                return a
            k = extreme(I)
            if k and a[0] in 'YI' and b[0] in 'YI':
                return ('W', k, (a, b))
            return T
        if op == 'icmp':
            a, b = s.val(st, I.ops[0]), s.val(st, I.ops[1])
            s.note(I, (a, b))
            if a[0] in ('P', 'F', 'S') and b == N or b[0] in ('P', 'F', 'S') and a == N:
                if I.pred in ('eq', 'ne'):
                    return ('I', int(I.pred == 'ne'))
                return T
            if a == N and b == N:
                return ('I', int(I.pred in ('eq', 'uge', 'ule', 'sge', 'sle')))
            if (a == U and b == N) or (b == U and a == N):
                return U
            if a[0] == 'I' and b[0] == 'I' and I.ops[0].ty.kind == 'int':
                m = (1 << I.ops[0].ty.width) - 1
                r = flow.ev_int(I, [a[1] & m, b[1] & m])
                return T if r is None else ('I', r)
            return T
        if op in ('and', 'or', 'xor', 'zext', 'sext', 'trunc', 'add', 'sub', 'mul', 'shl') and I.ty.kind == 'int':
            vs = [s.val(st, o) for o in I.ops]
            if op in ('and', 'or') and I.ty.width == 1:
                for x in vs:
                    if x == ('I', 0) and op == 'and':
                        return x
                    if x[0] == 'I' and x[1] & 1 and op == 'or':
                        return ('I', 1)
            if any(x[0] == 'W' for x in vs):
                return s.extremes(op, vs)
            if any(x[0] == 'Y' for x in vs):
                return s.affine(op, vs)
            if all(x[0] == 'I' for x in vs):
                r = flow.ev_int(I, [x[1] & ((1 << o.ty.width) - 1) for x, o in zip(vs, I.ops)])
                return T if r is None else ('I', r)
            return T
        return T

    def extremes(s, op, vs):
        """the same arithmetic on both candidates of a maximum or minimum"""
        w = [x for x in vs if x[0] == 'W']
        if len(w) > 1 or any(x[0] not in 'WI' for x in vs) or op not in ('zext', 'sext', 'trunc', 'add', 'mul', 'shl'):
            return T
        out = []
        for a in w[0][2]:
            xs = [a if x[0] == 'W' else x for x in vs]
            r = s.affine(op, xs)
            if r[0] != 'Y':
                return T
            out.append(r)
        return ('W', w[0][1], tuple(out))

    def affine(s, op, vs):
        """linear arithmetic on the symbolic sizes: ('Y', ((name, multiplier), ...), addend)"""
        if op in ('zext', 'sext', 'trunc'):
            return vs[0]
        a, b = vs

        def lin(v):
            if v[0] == 'I':
                return {}, v[1]
            return (dict(v[1]), v[2]) if v[0] == 'Y' else None
        x, y = lin(a), lin(b)
        if x is None or y is None:
            return T

        def sg(k):
            return k - (1 << 64) if k >= 1 << 63 else k
        if op in ('add', 'sub'):
            f = 1 if op == 'add' else -1
            d = dict(x[0])
            for n, c in y[0].items():
                d[n] = d.get(n, 0) + f * c
            r = d, sg(x[1]) + f * sg(y[1])
        elif op == 'mul' and (not x[0] or not y[0]):
            k, z = (sg(x[1]), y) if not x[0] else (sg(y[1]), x)
            r = {n: c * k for n, c in z[0].items()}, sg(z[1]) * k
        elif op == 'shl' and not y[0]:
            r = {n: c << y[1] for n, c in x[0].items()}, sg(x[1]) << y[1]
        else:
            return T
        return ('Y', tuple(sorted((n, c) for n, c in r[0].items() if c)), r[1])

    def failing(s, I, fail):
        if s.persist and fail is not None:
            return True
        if fail is not None:
            return False
        k = s.site(I)
        s.sites.setdefault(k, (I, list(s.stack)))
        return k in s.fails and fail is None

    def site(s, I):
        return (I.bb.fn.name, I.id) + tuple((c.bb.fn.name, c.id) for c in s.stack)

    def call(s, st, I, depth):
        n = callee_name(I)
        if s.on_call:
            r = s.on_call(s, st, I, n, depth)
            if r is not NotImplemented:
                return r
        if n is None:
            cv = s.val(st, I.callee) if I.callee is not None and I.callee.op not in ('const',) else T
            if cv[0] == 'F':
                n = cv[1]
            else:
                return T
        f = s.M.functions.get(n)
        if f is not None and not f.is_decl:
            if n in s.opaque:
                return s.opaque[n](s, st, I)
            s.stack.append(I)
            s.mv.append(set())
            rs = s.run(f, [s.val(st, o) for o in I.ops], st[1], st[2], depth + 1)
            m = s.mv.pop()
            s.stack.pop()
            if s.mv:
                s.mv[-1] |= m
            env = st[0]
            if m:
                env = {k: (('S', v[1]) if v[0] == 'P' and v[1] in m else v) for k, v in env.items()}
            return [(rv, (env, h), fl) for rv, h, fl, _ in rs]
        if n in ('malloc', 'calloc', 'aligned_alloc'):
            s.nalloc.add(I)
            if s.failing(I, st[2]):
                return [(N, dict(st[1]), st[2] or I)]
            o = s.oid(I)
            ob = st[1].get(o)
            if ob is not None and ob.status == 'live' and not s.referenced(st, o):
                s.report('leak', I, 'the %s is no longer referenced and has not been freed' % s.oname(o), st[2])
            elif ob is not None and ob.status == 'live':
                # a second live block of the same site (loop): merge into a summary
                st[1][o] = Obj('live', T, {})
                return ('P', o, 0)
            st[1][o] = Obj('live', N if n == 'calloc' else U, {})
            if n == 'calloc':
                st[1][o] = Obj('live', N, {})
            return ('P', o, 0)
        if n == 'realloc':
            s.nalloc.add(I)
            p = s.val(st, I.ops[0])
            if s.failing(I, st[2]):
                return [(N, dict(st[1]), st[2] or I)]
            if p[0] in ('U', 'S'):
                s.report('free', I, 'realloc of an uninitialised or moved pointer', st[2])
                return None
            if p[0] == 'P':
                ob = st[1].get(p[1])
                if ob is not None and ob.status == 'freed':
                    s.report('uaf', I, 'realloc of a freed %s' % s.oname(p[1]), st[2])
                    return None
                if p[2] != 0:
                    s.report('free', I, 'realloc of a pointer that is not the start of a block', st[2])
                    return None
                s.moved.add(I)
                s.mv[-1].add(p[1])
                e2, h2 = dict(st[0]), dict(st[1])
                s2 = [e2, h2, st[2]]
                s.retarget(s2, p[1])
                outs = [(('P', p[1], 0), (s2[0], s2[1]), st[2])]
                if s.fork_realloc:
                    outs.append((N, (dict(st[0]), dict(st[1])), st[2]))
                return outs
            if p == N:
                o = s.oid(I)
                st[1][o] = Obj('live', U, {})
                return ('P', o, 0)
            return T
        if n == 'free':
            s.nfree.add(I)
            return s.free(st, I, s.val(st, I.ops[0]))
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove') or n in ('memcpy', 'memmove'):
            d, sr = s.val(st, I.ops[0]), s.val(st, I.ops[1])
            ln = s.val(st, I.ops[2])
            if ln[0] == 'I' and ln[1] == 0:
                return d
            if not s.check_deref(st, I, d, 'copy') or not s.check_deref(st, I, sr, 'copy'):
                return None
            s.note(I, (d, sr, ln))
            if d[0] == 'P' and d[1] in st[1]:
                ob = st[1][d[1]]
                if ln[0] == 'I' and d[2] is not None and sr[0] == 'P' and sr[2] is not None:
                    so = st[1].get(sr[1])
                    fs = {k: v for k, v in ob.fields.items() if not d[2] <= k < d[2] + ln[1]}
                    if so is not None:
                        for k in range(0, ln[1], 8):
                            fs[d[2] + k] = so.get(sr[2] + k)
                    else:
                        for k in range(0, ln[1], 8):
                            fs[d[2] + k] = s.gconst(sr, k)
                    st[1][d[1]] = Obj(ob.status, ob.default, fs)
                elif ln[0] == 'I' and d[2] is not None:
                    fs = dict(ob.fields)
                    for k in range(0, ln[1], 8):
                        fs[d[2] + k] = T
                    st[1][d[1]] = Obj(ob.status, ob.default, fs)
                elif ob.fields or (sr[0] == 'P' and sr[1] in st[1] and st[1][sr[1]].fields):
                    st[1][d[1]] = Obj(ob.status, T, {})
            return d
        if n.startswith('llvm.memset') or n == 'memset':
            d = s.val(st, I.ops[0])
            ln = s.val(st, I.ops[2])
            if not s.check_deref(st, I, d, 'write'):
                return None
            s.note(I, (d, ln))
            if d[0] == 'P' and d[1] in st[1]:
                ob = st[1][d[1]]
                z = s.val(st, I.ops[1]) == ('I', 0)
                if ln[0] == 'I' and d[2] is not None:
                    fs = dict(ob.fields)
                    for k in range(0, ln[1], 8):
                        fs[d[2] + k] = N if z else T
                    st[1][d[1]] = Obj(ob.status, ob.default, fs)
                elif ob.fields and not (z and ob.default == N):
                    st[1][d[1]] = Obj(ob.status, T, {})
            return d
        if n == 'pthread_create':
            return s.thread(st, I, depth)
        if n in ('exit', 'abort', '__assert_fail', '_exit', '_Exit', 'quick_exit'):
            return None
        if n == 'qsort':
            p = s.val(st, I.ops[0])
            if not s.check_deref(st, I, p, 'sort'):
                return None
            return T
        # out-parameters
        for o in I.ops:
            v = s.val(st, o)
            if v[0] == 'P' and v[1] in st[1] and v[1][0] == 'L' and not n.startswith('llvm.'):
                ob = st[1][v[1]]
                if ob.fields:
                    st[1][v[1]] = Obj(ob.status, T, {})
        return T

    dbg = None
    fork_realloc = False
    thread_fails = False

    def thread(s, st, I, depth):
        p = s.val(st, I.ops[0])
        fnv = s.val(st, I.ops[2])
        outs = []
        if s.failing(I, st[2]):
            return [(('I', 11), dict(st[1]), st[2] or I)]
        if p[0] == 'P' and p[1] in st[1]:
            ob = st[1][p[1]]
            if ob.fields:
                st[1][p[1]] = Obj(ob.status, T, {})
        if fnv[0] != 'F':
            raise build.AnalysisError('thread function of %s is not a known function' % fmt(I))
        f = s.M.functions[fnv[1]]
        s.stack.append(I)
        rs = s.run(f, [s.val(st, I.ops[3])], st[1], st[2], depth + 1)
        s.stack.pop()
        for rv, h, fl, _ in rs:
            outs.append((('I', 0), h, fl))
        return outs

    def gconst(s, sr, k):
        g = s.M.globals.get(sr[1][1]) if sr[1][0] == 'G' else None
        if g is None or g.init is None:
            return T
        if g.init.kind == 'zero':
            return N
        if g.init.kind == 'agg' and g.vty.kind == 'struct':
            for o, off in zip(g.init.ops, g.vty.offs):
                if off == sr[2] + k:
                    if o.kind == 'null' or (o.kind == 'int' and o.val == 0):
                        return N
        return T

    def referenced(s, st, obj):
        for v in st[0].values():
            if v[0] in 'PS' and v[1] == obj:
                return True
        for ob in st[1].values():
            for v in ob.fields.values():
                if v[0] in 'PS' and v[1] == obj:
                    return True
        return False

    def free(s, st, I, p):
        if p == N:
            return T
        if p == U:
            s.report('uninit', I, 'free of an uninitialised pointer', st[2])
            return None
        if p[0] == 'S':
            s.report('stale', I, 'free of a pointer that realloc may have moved', st[2])
            return None
        if p[0] == 'P':
            if p[1][0] != 'A':
                s.report('free', I, 'free of memory that was not allocated: %s' % s.oname(p[1]), st[2])
                return None
            if p[2] != 0:
                s.report('free', I, 'free of a pointer that is not the start of a block', st[2])
                return None
            ob = st[1].get(p[1])
            if ob is not None and ob.status == 'freed':
                s.report('double', I, 'second free of the %s' % s.oname(p[1]), st[2])
                return None
            if ob is not None:
                st[1][p[1]] = ob.with_status('freed')
            return T
        s.nunknown.add(I)
        return T

    def leaks(s, heap):
        return [o for o, ob in heap.items() if o[0] == 'A' and ob.status == 'live']
