"""N01: new_presolver takes the problem in as it is."""
import math

import flow
import p_idx
import vf
from p_dir import Fn, functions, where
from src import strip

IN_RULE = ('the arrays of the problem object are filled from the matching caller array, element by element at the same index and over the '
           'full count; for every class of the sides and bounds of a row or column exactly the matching tags are set on every path; the '
           'transpose pairs every value with its row at one slot that is then advanced; row and column sizes are the lengths of their ranges')
ARG = {'x': 0, 'i': 1, 'p': 2, 'lhs': 6, 'rhs': 7, 'lb': 8, 'ub': 9, 'c': 10}
NAME = ['Ax', 'Ai', 'Ap', 'm', 'n', 'nnz', 'lhs', 'rhs', 'lbs', 'ubs', 'c', 'stgs']
COUNT = {'x': 5, 'i': 5, 'lhs': 3, 'rhs': 3, 'c': 4, 'lb': 4, 'ub': 4, 'row_tags': 3, 'col_tags': 4}
SIZE = {'x': 8, 'i': 4, 'lhs': 8, 'rhs': 8, 'c': 8}
INF = math.inf
ROWS = [((l, r), (1 if l == -INF else 0) | (2 if r == INF else 0) | (4 if l == r else 0)) for l, r in (
    (-INF, 3.0), (-INF, -3.0), (-INF, INF), (1.0, 1.0), (-2.0, -2.0), (0.0, 0.0), (1.0, 3.0), (-2.0, 0.0), (1.0, INF), (-2.0, INF), (-1e30, 1e30))]
COLS = [((l, u), (1 if l == -INF else 0) | (4 if u == INF else 0)) for l, u in (
    (-INF, 3.0), (-INF, -3.0), (-INF, INF), (0.0, 0.0), (0.0, INF), (1.0, 3.0), (-2.0, INF), (-1e30, 1e30))]


class Env:
    """what the pointers of one function point to"""
    def __init__(s, M, f, main=None):
        s.M, s.f, s.main = M, f, main
        s.F = Fn(M, f)
        s.args = {a: k for k, a in enumerate(f.args)} if hasattr(f, 'args') else {}
        s.cells = {}
        s.memo = {}
        s.ords = {}
        for n, I in enumerate(f.instrs()):
            s.ords[I] = n
            if I.op == 'store':
                b, off = vf.root(M, I.ops[1])
                if off is not None:
                    s.cells.setdefault(off, []).append((b, I))

    def obj(s, v, depth=0):
        """allocation, argument or cell a pointer (or count) comes from"""
        v = strip(v)
        if v in s.memo:
            return s.memo[v]
        s.memo[v] = None
        r = s._obj(v, depth)
        s.memo[v] = r
        return r

    def _obj(s, v, depth):
        if depth > 12:
            return None
        if v.op == 'arg':
            return ('ctx',) if s.main else ('arg', s.argno(v))
        if v.op in ('call', 'alloca'):
            return v
        if v.op in ('phi', 'select'):
            w = {s.obj(o, depth + 1) for o in (v.ops if v.op == 'phi' else v.ops[1:]) if o is not v and not (o.op == 'const' and o.val in (0, None))}
            return w.pop() if len(w) == 1 else None
        if v.op == 'load':
            b, off = vf.root(s.M, v.ops[0])
            o = s.obj(b, depth + 1)
            if o is None or off is None:
                return None
            return s.cell(o, off, depth)
        return None

    def cell(s, o, off, depth=0):
        """what is stored in a field"""
        if o == ('ctx',):
            r = s.main.cell(s.main.local, off)
            return r if r is not None else ('cell', off)
        w = set()
        for b, I in s.cells.get(off, ()):
            if (b is o or s.obj(b, depth + 1) == o) and not (I.ops[0].op == 'const' and I.ops[0].val in (0, None)):
                w.add(s.obj(I.ops[0], depth + 1))
        if o is getattr(s, 'local', None) and not w:
            return ('cell', off)
        if not w and s.main:
            return s.main.cell(o, off)
        return w.pop() if len(w) == 1 else None

    def argno(s, v):
        return s.f.args.index(v) if v in s.f.args else None

    def idx(s, v):
        """(value, constant) of an index"""
        v = strip(v)
        c = 0
        cut = False
        while v.op in ('add', 'sub', 'and') and v.ops[1].op == 'const':
            k = v.ops[1].val
            if v.op == 'and':
                if k != 0xffffffff:
                    break
                cut = True
            else:
                k = k - (1 << v.ty.width) if k >= 1 << v.ty.width - 1 else k
                c += k if v.op == 'add' else -k
            v = strip(v.ops[0])
        if cut:
            c = (c + (1 << 31)) % (1 << 32) - (1 << 31)
        if v.op == 'const':
            return (None, v.val + c)
        if v.op == 'load':
            o = s.obj(v)
            if isinstance(o, tuple) and o[0] == 'arg':
                return (o, c)
            e = s.elem(v.ops[0])
            if e:
                return (('ld',) + e, c)
            return (o if o is not None else v, c)
        if v.op == 'arg':
            return (s.obj(v), c)
        return (v, c)

    def elem(s, p):
        """(object, index, byte offset within the element)"""
        off = 0
        st = []
        while p.op == 'gep':
            st.append(p)
            p = p.ops[0]
        o = s.obj(p)
        if o is None:
            return None
        i = (None, 0)
        for g in st:
            cur = g.aty
            ops = g.ops[1:]
            if cur.kind == 'int' and cur.width == 8 and ops[0].op == 'const':
                off += ops[0].val
            else:
                j = s.idx(ops[0])
                if j != (None, 0):
                    if i != (None, 0):
                        if j[0] is None:
                            i = (i[0], i[1] + j[1])
                        elif i[0] is None:
                            i = (j[0], j[1] + i[1])
                        else:
                            return None
                    else:
                        i = j
                k = ops[1:]
                if k:
                    if cur.kind != 'struct' or len(k) > 1 or k[0].op != 'const':
                        return None
                    off += cur.offs[k[0].val]
        return o, i, off

    def loop(s, v):
        for h, body in s.F.S.lo.items():
            if v.op == 'phi' and v.bb is h:
                return h, body
        return None

    def count(s, v):
        """(object, factor) of a size in bytes"""
        v = strip(v)
        if v.op == 'add' and v.ops[1].op == 'const' and v.ops[1].val and s.count(v.ops[0]):
            return s.count(v.ops[0]) + (v.ops[1].val,)
        if v.op in ('mul', 'shl') and strip(v.ops[0]).op in ('add', 'sub'):
            x = s.idx(v.ops[0])
            if isinstance(x[0], tuple) and x[0][0] == 'arg' and x[1]:
                return x[0], 0
        if v.op == 'mul' and v.ops[1].op == 'const':
            return s.obj(v.ops[0]), v.ops[1].val
        if v.op == 'shl' and v.ops[1].op == 'const':
            return s.obj(v.ops[0]), 1 << v.ops[1].val
        return None

    def rounds(s, I, h, body, at):
        """(object, constant): how often block `at` is passed in the loop over I from its first value, None when not understood"""
        out = set()
        d = s.F.doms()
        for b in body:
            t = b.ins[-1]
            if all(y in body for y in b.succs):
                continue
            if t.op != 'br' or not t.ops:
                return None
            c = strip(t.ops[0])
            if c.op != 'icmp':
                return None
            x, y = (s.idx(o) for o in c.ops)
            p = c.pred
            if y[0] is I:
                x, y = y, x
                p = p.translate(str.maketrans('lg', 'gl'))
            if x[0] is not I:
                return None
            if b.succs[0] not in body:
                p = {'eq': 'ne', 'ne': 'eq'}.get(p) or p[:-2] + {'lt': 'ge', 'le': 'gt', 'gt': 'le', 'ge': 'lt'}[p[-2:]]
            if p[-2:] not in ('lt', 'le', 'ne'):
                return None
            after = b is not h and (b is at or not flow.dominates(d, b, at)) or b is h is at
            out.add((y[0], y[1] - x[1] + (p[-2:] == 'le') + after))
        return out.pop() if len(out) == 1 else None


def callee(I):
    n = getattr(I, 'callee', None)
    n = n if isinstance(n, str) else getattr(n, 'name', None)
    return n or ''


class Intake:
    def __init__(s, E, role, rep, und):
        s.E, s.role, s.rep, s.und = E, role, rep, und
        s.F = E.F
        s.n = 0

    def bad(s, key, txt):
        s.rep.bad('%s:%s' % (s.E.f.name, key), 'in %s %s' % (s.E.f.name, txt))

    def undecided(s, why):
        s.und[why] = s.und.get(why, 0) + 1

    def what(s, e):
        """name of the array an element belongs to"""
        if e is None:
            return None
        r = s.role.get(e[0])
        if r == 'bounds':
            return {0: 'lb', 8: 'ub'}.get(e[2])
        return r

    def run(s):
        E = s.E
        got = set()
        for I in E.f.instrs():
            if I.op == 'call' and callee(I).startswith('llvm.mem') and 'set' not in callee(I) or I.op == 'call' and callee(I) in ('memcpy', 'memmove'):
                d, q = E.elem(I.ops[0]), E.elem(I.ops[1])
                r = s.what(d)
                if r in ('x', 'i', 'lhs', 'rhs', 'c') and q:
                    s.copy(I, r, d, q)
                    got.add(r)
            elif I.op == 'store':
                e = E.elem(I.ops[1])
                r = s.what(e)
                if r in ARG:
                    if s.element(I, r, e):
                        got.add(r)
                elif r in ('AT.x', 'AT.i'):
                    s.slot(I, r, e)
                elif r in ('row_sizes', 'col_sizes'):
                    s.length(I, r, e)
        for t, cs in (('row_tags', ROWS), ('col_tags', COLS)):
            s.tags(t, cs)
        return got

    def copy(s, I, r, d, q):
        E = s.E
        s.n += 1
        a = ARG[r]
        if q[0] != ('arg', a):
            if q[0] in s.role or isinstance(q[0], tuple) and q[0][0] == 'arg':
                s.bad('source:' + r, 'the %s of the problem are copied from %s (%s)' % (r, NAME[q[0][1]] if isinstance(q[0], tuple) else s.role[q[0]], where(I)))
            else:
                s.undecided('source of a copy')
            return
        c = E.count(I.ops[2])
        ok = d[1] == q[1] == (None, 0) and d[2] == q[2] == 0
        s.rep.check(ok, '%s:shift:%s' % (E.f.name, r), 'in %s the copy of %s does not start at the first element (%s)' % (E.f.name, NAME[a], where(I)))
        if c is None or c[0] is None:
            s.undecided('length of a copy')
        else:
            s.rep.check(c == (('arg', COUNT[r]), SIZE[r]), '%s:length:%s' % (E.f.name, r), 'in %s the copy of %s does not have %s elements of %d bytes (%s)' % (
                E.f.name, NAME[a], NAME[COUNT[r]], SIZE[r], where(I)))

    def element(s, I, r, e):
        E = s.E
        v = strip(I.ops[0])
        s.n += 1
        if r == 'p':
            return s.range(I, e, v)
        if v.op == 'const':
            if isinstance(v.val, float) and math.isinf(v.val) and r in ('lhs', 'rhs', 'lb', 'ub'):
                cs, i = (ROWS, 0 if r == 'lhs' else 1) if r in ('lhs', 'rhs') else (COLS, 0 if r == 'lb' else 1)
                for c, t in cs:
                    R = s.assume(e[1], c, r in ('lhs', 'rhs'))
                    if I.bb in R.exe and c[i] != v.val:
                        return s.bad('changed:' + r, 'a finite element of %s is replaced by an infinite one (%s)' % (NAME[ARG[r]], where(I)))
                s.rep.ok('%s made infinite only when it is' % r)
                return False
            return s.bad('changed:' + r, 'an element of %s is replaced by a constant (%s)' % (NAME[ARG[r]], where(I)))
        if v.op in ('phi', 'select') and r in ('lhs', 'rhs', 'lb', 'ub'):
            return s.chosen(I, r, e, v)
        if v.op != 'load':
            if v.op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg'):
                s.bad('changed:' + r, 'a value computed from the elements is stored instead of the element of %s (%s)' % (NAME[ARG[r]], where(I)))
            else:
                s.undecided('element ' + v.op)
            return False
        q = E.elem(v.ops[0])
        if q is None:
            s.undecided('source of an element')
            return False
        if q[0] != ('arg', ARG[r]):
            if s.what(q) == r and q[1] == e[1]:
                return False
            if s.what(q) in ARG or isinstance(q[0], tuple) and q[0][0] == 'arg':
                s.bad('source:' + r, 'an element of the %s of the problem is taken from %s (%s)' % (
                    r, NAME[q[0][1]] if isinstance(q[0], tuple) else s.what(q), where(I)))
            else:
                s.undecided('source of an element')
            return False
        s.rep.check(q[1] == e[1], '%s:index:%s' % (E.f.name, r), 'in %s an element of %s is stored at another index (%s)' % (E.f.name, NAME[ARG[r]], where(I)))
        s.whole(I, e[1], r)
        return True

    def chosen(s, I, r, e, v):
        """the element that is stored in each class"""
        cs, i = (ROWS, 0 if r == 'lhs' else 1) if r in ('lhs', 'rhs') else (COLS, 0 if r == 'lb' else 1)
        for c, t in cs:
            R = s.assume(e[1], c, r in ('lhs', 'rhs'))
            st, seen, leaf = [v], set(), set()
            while st:
                x = strip(st.pop())
                if x in seen:
                    continue
                seen.add(x)
                if x.op == 'select':
                    b = R.bool(s.F.S.res(x.ops[0]))
                    st += [x.ops[1], x.ops[2]] if b is None else [x.ops[1 if b else 2]]
                elif x.op == 'phi':
                    st += [o for o, p in x.inc if (p, x.bb) in R.edges]
                else:
                    leaf.add(x)
            for x in leaf:
                if x.op == 'const' and x.val == c[i]:
                    continue
                q = s.E.elem(x.ops[0]) if x.op == 'load' else None
                if q and q[1] == e[1] and (q[0] == ('arg', ARG[r]) or s.what(q) == r):
                    continue
                if x.op == 'const' and len(leaf) == 1:
                    s.bad('changed:' + r, 'with %g, %g another number than the element of %s is stored (%s)' % (c + (NAME[ARG[r]], where(I))))
                else:
                    s.undecided('chosen element')
                return False
        s.rep.ok('element of %s in every class' % r)
        s.whole(I, e[1], r)
        return True

    def whole(s, I, i, r):
        """the loop runs over all elements"""
        E = s.E
        if i[0] is None or not hasattr(i[0], 'op') or i[1] != 0:
            return s.undecided('loop')
        l = E.loop(i[0])
        if not l:
            return s.undecided('loop')
        h, body = l
        ok, first = True, None
        for v, b in i[0].inc:
            j = E.idx(v)
            if b in body:
                ok = ok and j == (i[0], 1)
            else:
                first = j
        end = E.rounds(i[0], h, body, I.bb)
        if not ok or not end:
            return s.undecided('loop')
        s.rep.check(first == (None, 0), '%s:first:%s' % (E.f.name, r), 'in %s the loop over %s does not start at the first element (%s)' % (E.f.name, r, where(I)))
        o, c = end
        if isinstance(o, tuple) and o[0] == 'arg':
            s.rep.check((o, c) == (('arg', COUNT[r]), 0), '%s:last:%s' % (E.f.name, r),
                        'in %s the loop over %s does not end after %s elements (%s)' % (E.f.name, r, NAME[COUNT[r]], where(I)))
        else:
            s.undecided('end of a loop')
        s.must(I, h, body, r)

    def must(s, I, h, body, r):
        """every round passes the store"""
        if I.bb is h or not s.skip(h, body, {I.bb}, None):
            return s.rep.ok('every element of %s' % r)
        s.bad('skips:' + r, 'not every element of %s is taken over (%s)' % (r, where(I)))

    def skip(s, h, body, goals, R):
        seen, st = {h}, [h]
        if h in goals:
            return False
        while st:
            x = st.pop()
            for y in x.succs:
                if R and (y not in R.exe or (x, y) not in R.edges):
                    continue
                if y is h:
                    return True
                if y in body and y not in seen and y not in goals:
                    seen.add(y)
                    st.append(y)
        return False

    def range(s, I, e, v):
        E = s.E
        q = E.elem(v.ops[0]) if v.op == 'load' else None
        if not q or q[0] != ('arg', 2):
            s.undecided('row range')
            return False
        end = e[2] == 4
        d = (q[1][0], q[1][1] - e[1][1]) if q[1][0] == e[1][0] else None
        ok = d is not None and d[1] == (1 if end else 0) or q[1] == e[1] == (('arg', 3), 0)
        s.rep.check(ok, '%s:range' % E.f.name, 'in %s the %s of a row is not taken from its own place in Ap (%s)' % (E.f.name, 'end' if end else 'start', where(I)))
        if e[1][0] != ('arg', 3):
            s.rows(I, e[1])
        return True

    def rows(s, I, i):
        COUNT['p'] = 3
        s.whole(I, i, 'p')

    def assume(s, i, c, rows):
        """the run in which the datum at index i has the class"""
        E = s.E
        B = {}
        names = ('lhs', 'rhs') if rows else ('lb', 'ub')

        def val(v):
            v = strip(v)
            if v.op == 'const':
                return v.val if isinstance(v.val, float) else None
            if v.op == 'load':
                e = E.elem(v.ops[0])
                if e and e[1] == i:
                    for n, x in zip(names, c):
                        if e[0] == ('arg', ARG[n]) or s.what(e) == n:
                            return x
            if v.op == 'call' and 'fabs' in callee(v):
                x = val(v.ops[0])
                return None if x is None else abs(x)
            if v.op in ('phi', 'select'):
                xs = [o for o in map(val, v.ops if v.op == 'phi' else v.ops[1:])]
                ys = {x for x in xs if x is not None and abs(x) != INF} or set(xs)
                return ys.pop() if len(ys) == 1 and None not in xs else None
            if v.op == 'fneg':
                x = val(v.ops[0])
                return None if x is None else -x
            return None
        for I in E.f.instrs():
            if I.op == 'fcmp':
                x, y = val(I.ops[0]), val(I.ops[1])
                if x is not None and y is not None:
                    p = I.pred[1:] if len(I.pred) == 3 else I.pred
                    r = {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}.get(p)
                    if r is not None:
                        B[('ssa', I)] = int(r)
            elif I.op == 'call' and 'is.fpclass' in callee(I):
                x = val(I.ops[0])
                if x is not None and I.ops[1].op == 'const':
                    bit = 4 if x == -INF else 512 if x == INF else 8 if x < 0 else 256 if x > 0 else 64
                    B[('ssa', I)] = int(bool(I.ops[1].val & bit))
        return s.F.run(B)

    def tags(s, t, cs):
        E = s.E
        st = {}
        for I in E.f.instrs():
            if I.op == 'store' and I.ops[0].ty.kind == 'int':
                e = E.elem(I.ops[1])
                if s.what(e) == t:
                    st.setdefault(e[1], []).append(I)
        for i, Is in st.items():
            l = E.loop(i[0]) if hasattr(i[0], 'op') else None
            if not l or i[1]:
                s.undecided('tags')
                continue
            h, body = l
            s.n += 1
            s.bounds(i, h, body, t, Is[0])
            for c, want in cs:
                R = s.assume(i, c, t == 'row_tags')
                ons = {}
                for I in Is:
                    if I.bb not in R.exe:
                        continue
                    x = R.get(I.ops[0])
                    for b in (1, 2, 4):
                        if x is not None and x.o & b:
                            ons.setdefault(b, []).append(I)
                names = 'sides' if t == 'row_tags' else 'bounds'
                for b in (1, 2, 4) if t == 'row_tags' else (1, 4):
                    txt = {('row_tags', 1): 'left side infinite', ('row_tags', 2): 'right side infinite', ('row_tags', 4): 'equality',
                           ('col_tags', 1): 'lower bound infinite', ('col_tags', 4): 'upper bound infinite'}[(t, b)]
                    g = ons.get(b, [])
                    if want & b:
                        ok = g and not s.skip(h, body, {I.bb for I in g}, R)
                        s.rep.check(ok, '%s:tag:%s' % (E.f.name, t), 'in %s with %s %g, %g the tag "%s" is not set (%s)' % (
                            E.f.name, names, c[0], c[1], txt, where(Is[0])))
                    else:
                        s.rep.check(not g, '%s:tag:%s' % (E.f.name, t), 'in %s with %s %g, %g the tag "%s" is set (%s)' % (
                            E.f.name, names, c[0], c[1], txt, where((g or Is)[0])))

    def bounds(s, i, h, body, t, I):
        E = s.E
        first, ok = None, True
        for v, b in i[0].inc:
            if b in body:
                ok = ok and E.idx(v) == (i[0], 1)
            else:
                first = E.idx(v)
        end = E.rounds(i[0], h, body, I.bb)
        if not ok or not end:
            return s.undecided('loop over tags')
        s.rep.check(first == (None, 0), '%s:first:%s' % (E.f.name, t), 'in %s the loop that sets the tags does not start at the first (%s)' % (E.f.name, where(I)))
        o, c = end
        if isinstance(o, tuple) and o[0] == 'arg':
            s.rep.check((o, c) == (('arg', COUNT[t]), 0), '%s:last:%s' % (E.f.name, t), 'in %s the loop that sets the tags does not end after %s of them (%s)' % (
                E.f.name, NAME[COUNT[t]], where(I)))
        else:
            s.undecided('end of a loop over tags')

    def slot(s, I, r, e):
        """one entry of the transpose"""
        E = s.E
        s.n += 1
        pos = e[1]
        v = strip(I.ops[0])
        if pos[1] or not (isinstance(pos[0], tuple) and pos[0][0] == 'ld'):
            return s.undecided('slot')
        cnt, col = pos[0][1], pos[0][2]
        if not (isinstance(col[0], tuple) and col[0][0] == 'ld' and s.role.get(col[0][1]) == 'i') or col[1]:
            return s.undecided('column of a slot')
        j = col[0][2]
        if r == 'AT.x':
            q = E.elem(v.ops[0]) if v.op == 'load' else None
            if not q or s.role.get(q[0]) != 'x':
                return s.undecided('value of a slot')
            s.rep.check(q[1] == j, '%s:slot:x' % E.f.name, 'in %s the value of another entry is put into the column (%s)' % (E.f.name, where(I)))
        else:
            jl = E.loop(j[0]) if hasattr(j[0], 'op') else None
            if not jl:
                return s.undecided('row of a slot')
            init = [E.idx(x) for x, b in j[0].inc if b not in jl[1]]
            if len(init) != 1 or not (isinstance(init[0][0], tuple) and init[0][0][0] == 'ld' and s.role.get(init[0][0][1]) == 'p'):
                return s.undecided('row of a slot')
            s.rep.check(init[0][0][2] == E.idx(v) and init[0][1] == 0 and init[0][0][3] == 0, '%s:slot:i' % E.f.name,
                        'in %s another row than that of the entry is recorded (%s)' % (E.f.name, where(I)))
        inc = []
        for J in E.f.instrs():
            if J.op == 'store':
                d = E.elem(J.ops[1])
                if d and d[0] == cnt and d[1] == col and s.same_loop(J, I):
                    inc.append((J, E.idx(J.ops[0])))
        ok = len(inc) == 1 and inc[0][1] == (pos[0], 1)
        s.rep.check(ok, '%s:slot:next' % E.f.name, 'in %s the slot of a column is not advanced by one after an entry (%s)' % (E.f.name, where(I)))
        if ok:
            J = inc[0][0]
            ld = s.slotload(I.ops[1])
            ok = ld is None or J.bb is not ld.bb or E.ords[ld] < E.ords[J]
            s.rep.check(ok, '%s:slot:order' % E.f.name, 'in %s value and row of an entry go to different slots: the slot is advanced in between (%s)' % (E.f.name, where(I)))
            s.rep.check(J.bb is I.bb or not s.skip(*[x for x in E.F.S.lo.items() if I.bb in x[1]][0], {J.bb}, None) or len(E.F.S.lo) > 0 and flow.dominates(E.F.doms(), J.bb, I.bb) or
                        flow.dominates(E.F.doms(), I.bb, J.bb), '%s:slot:path' % E.f.name, 'in %s the slot is not advanced on every path (%s)' % (E.f.name, where(I)))

    def slotload(s, p):
        while p.op == 'gep':
            v = strip(p.ops[1])
            if v.op == 'load':
                return v
            p = p.ops[0]
        return None

    def same_loop(s, a, b):
        for h, body in sorted(s.E.F.S.lo.items(), key=lambda x: len(x[1])):
            if a.bb in body or b.bb in body:
                return a.bb in body and b.bb in body
        return True

    def length(s, I, r, e):
        E = s.E
        v = strip(I.ops[0])
        s.n += 1
        want = 'p' if r == 'row_sizes' else 'AT.p'
        if v.op != 'sub':
            return s.undecided('size')
        x, y = (E.elem(strip(o).ops[0]) if strip(o).op == 'load' else None for o in v.ops)
        if not x or not y:
            return s.undecided('size')
        ok = s.role.get(x[0]) == s.role.get(y[0]) == want and (x[2], y[2]) == (4, 0) and x[1] == y[1] == e[1]
        ok = ok or s.role.get(x[0]) == s.role.get(y[0]) == want and x[2] == y[2] == 0 and r == 'row_sizes' and y[1] == e[1] and x[1] == (e[1][0], e[1][1] + 1)
        s.rep.check(ok, '%s:size:%s' % (E.f.name, r), 'in %s a size is not end minus start of its own range (%s)' % (E.f.name, where(I)))


FIELDS = {('Constraints', 'lhs'): 'lhs', ('Constraints', 'rhs'): 'rhs', ('Constraints', 'bounds'): 'bounds', ('Constraints', 'row_tags'): 'row_tags',
          ('Constraints', 'col_tags'): 'col_tags', ('Objective', 'c'): 'c', ('State', 'row_sizes'): 'row_sizes', ('State', 'col_sizes'): 'col_sizes'}


def intake(rep):
    und = {}
    n = 0
    mods = [(M, f) for M, vec in p_idx.modules() for f in M.defined()]
    new = [(M, f) for M, f in mods if f.name == 'new_presolver']
    rep.need('new_presolver', len(new), 1)
    if not new:
        return
    M, f = new[0]
    E = Env(M, f)
    # the struct handed to the helper thread
    start = None
    for I in f.instrs():
        if I.op == 'call' and len(I.ops) == 4 and I.ops[3].op == 'alloca' and strip(I.ops[2]).op not in ('const', 'arg'):
            E.local = I.ops[3]
            start = str(I.ops[2]).lstrip('@')
    role = {}
    mats = {}
    for I in f.instrs():
        if I.op != 'store':
            continue
        pf = vf.pfield(M, I.ops[1])
        if pf in FIELDS:
            o = E.obj(I.ops[0])
            if o is not None:
                role[o] = FIELDS[pf]
        if pf in (('Constraints', 'A'), ('Constraints', 'AT')):
            o = E.obj(I.ops[0])
            if o is not None:
                mats[o] = pf[1]
    for I in f.instrs():
        if I.op == 'store':
            pf = vf.pfield(M, I.ops[1])
            if pf and pf[0] == 'Matrix' and pf[1] in ('x', 'i', 'p'):
                m = mats.get(E.obj(vf.root(M, I.ops[1])[0]))
                o = E.obj(I.ops[0])
                if m and o is not None:
                    role[o] = ('' if m == 'A' else 'AT.') + pf[1]
    X = Intake(E, role, rep, und)
    got = X.run()
    n += X.n
    for M2, g in mods:
        if M2 is M and g is not f and g.name == start:
            T = Env(M2, g, E)
            r2 = dict(role)
            for off, xs in T.cells.items():
                for b, I in xs:
                    if T.obj(b) == ('ctx',) and I.ops[0].op != 'const':
                        o = T.obj(I.ops[0])
                        c = E.cell(E.local, off)
                        if o is not None and c in role:
                            r2[o] = role[c]
            Y = Intake(T, r2, rep, und)
            got |= Y.run()
            n += Y.n
    rep.cov['undecided'] = und
    rep.cov['arrays'] = sorted(got)
    rep.need('stores and copies', n, 10)
