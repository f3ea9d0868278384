"""I01: row numbers, column numbers and matrix positions are never confused (index-kind inference by unification)"""
import re
import build
import common
import flow
import p_rec
import src
import vf
from common import callee_name, fmt

IDX_RULE = ("type inference over index kinds (row, column, position in A, position in A'): kinds enter at elements of A.i, A'.i, "
            "row ranges, row/column lists and maps, spread through loop counters, joins and constant offsets by unification, and "
            "every array access, list append, element store, equality test and loop bound in the inlined library must agree")
ROW, COL, PA, PT = 'row number', 'column number', "position in A", "position in A'"
IDX = {'lhs': ROW, 'rhs': ROW, 'row_tags': ROW, 'row_sizes': ROW, 'activities': ROW, 'A.p': ROW, 'mappings.rows': ROW,
       'postsolve_info.row_map': ROW, 'sol.y': ROW, 'reduced_prob.lhs': ROW, 'reduced_prob.rhs': ROW, 'reduced_prob.Ap': ROW,
       'col_tags': COL, 'col_sizes': COL, 'bounds': COL, 'col_locks': COL, 'obj.c': COL, 'AT.p': COL, 'mappings.cols': COL,
       'postsolve_info.col_map': COL, 'sol.x': COL, 'sol.z': COL, 'reduced_prob.lbs': COL, 'reduced_prob.ubs': COL,
       'reduced_prob.c': COL, 'A.x': PA, 'A.i': PA, 'AT.x': PT, 'AT.i': PT}
ELEM = {'A.i': COL, 'AT.i': ROW, 'A.p.start': PA, 'A.p.end': PA, 'AT.p.start': PT, 'AT.p.end': PT, 'mappings.rows': ROW,
        'mappings.cols': COL, 'postsolve_info.row_map': ROW, 'postsolve_info.col_map': COL}
LIST = {'ston_rows': ROW, 'dton_rows': ROW, 'empty_rows': ROW, 'updated_activities': ROW, 'rows_to_delete': ROW,
        'ston_cols': COL, 'empty_cols': COL, 'fixed_cols_to_delete': COL, 'sub_cols_to_delete': COL}
for _l, _k in LIST.items():
    ELEM[_l + '.data'] = _k
SIZE = {'m': ROW, 'n': COL, 'A.m': ROW, 'A.n': COL, 'AT.m': COL, 'AT.n': ROW, 'sol.dim_x': COL, 'sol.dim_y': ROW,
        'reduced_prob.m': ROW, 'reduced_prob.n': COL, 'stats.n_rows_original': ROW, 'stats.n_cols_original': COL,
        'stats.n_rows_reduced': ROW, 'stats.n_cols_reduced': COL}
ARGS = {'new_presolver': {0: ('A.x',), 1: ('A.i',), 2: ('Ap',), 6: ('lhs',), 7: ('rhs',), 8: ('lbs',), 9: ('ubs',), 10: ('obj.c',)}}
SIZEARG = {'new_presolver': {3: ROW, 4: COL}}
ARGS['postsolve'] = {1: ('sol.x',), 2: ('sol.y',), 3: ('sol.z',)}
IDX.update({'Ap': ROW, 'lbs': COL, 'ubs': COL, 'locks': COL, 'ParallelInitData.rhs_copy': ROW, 'ParallelInitData.lhs_copy': ROW,
            'ParallelInitData.lbs': COL, 'ParallelInitData.ubs': COL, 'ParallelInitData.row_tags': ROW,
            'ParallelInitData.bounds': COL, 'reduced_prob.Ai': PA, 'reduced_prob.Ax': PA})
ELEM.update({'Ap': PA, 'A.p': PA, 'AT.p': PT})


class Kinds(src.Src):
    def __init__(s, M, f, vec):
        super().__init__(M, f)
        s.vec = vec
        s.par = {}
        s.hdr = {h for h, _ in flow.loops(f)}
        s.facts = {}            # class root -> {kind: witness}
        s.sized = {}            # class root -> set of size kinds it is compared with
        s.joins = []
        s.acc = 0

    # ---- arrays
    def owner(s, b, f=None):
        b = s.res(b)
        n = vf.pointee(s.M, b)
        if n == 'Matrix' and b.op != 'load':
            w = {(vf.pfield(s.M, u.ops[1]) or ('', ''))[1] for u in vf._uses(b) if u.op == 'store'} & {'A', 'AT'}
            return w.pop() + '.' if len(w) == 1 else '?.'
        return super().owner(b, f)

    def array(s, p):
        q = s.res(p)
        if q.op == 'arg' and s.f.name in ARGS and q.idx in ARGS[s.f.name]:
            return ARGS[s.f.name][q.idx][0], []
        if q.op == 'gep' and len(q.ops) == 2:
            n = s.array(q.ops[0])
            return (n[0], n[1] + [q.ops[1]]) if n else None
        return s.base(p, [])

    def where(s, p):
        """(array, indices) of an element address"""
        n = s.array(p)
        if not n or '?' in n[0]:
            return None
        a, idx = n
        a = a.replace('prob.constraints.', '').replace('constraints.', '').replace('state.', '').replace('work.', '')
        return a, idx

    def idxkind(s, a):
        if a in IDX:
            return IDX[a]
        b = a.rsplit('.', 1)[0]
        return IDX.get(b) if b in ('bounds', 'activities', 'col_locks', 'locks', 'A.p', 'AT.p') else None

    # ---- classes
    def node(s, v):
        v = s.res(v)
        while v.op in ('add', 'sub') and v.ops[1].op == 'const' or v.op in ('sext', 'zext', 'trunc', 'freeze'):
            v = s.res(v.ops[0])
        return v

    def find(s, v):
        v = s.node(v)
        r = v
        while s.par.get(r, r) is not r:
            r = s.par[r]
        while v is not r:
            s.par[v], v = r, s.par.get(v, v)
        return r

    def union(s, a, b):
        a, b = s.find(a), s.find(b)
        if a is not b:
            s.par[a] = b

    def fact(s, v, k, I, why):
        if s.node(v).op == 'const':
            return
        s.todo.append((v, k, I, why))

    def sizekind(s, v):
        v = s.res(v)
        while v.op in ('add', 'sub', 'mul', 'shl') and v.ops[1].op == 'const' or v.op in ('sext', 'zext', 'trunc'):
            v = s.res(v.ops[0])
        if v.op in ('add', 'sub'):
            ks = [s.sizekind(o) for o in v.ops]
            return ks[0] if ks[0] and not ks[1] else None
        if v.op == 'arg':
            return SIZEARG.get(s.f.name, {}).get(v.idx)
        if v.op != 'load':
            return None
        pf = vf.pfield(s.M, v.ops[0])
        if not pf or pf[0] not in ('Matrix', 'Constraints', 'Solution', 'PresolvedProblem', 'PresolveStats'):
            return None
        return s.sizefield(v.ops[0])

    def sizefield(s, p):
        pf = vf.pfield(s.M, p)
        if not pf or pf[0] not in ('Matrix', 'Constraints', 'Solution', 'PresolvedProblem', 'PresolveStats'):
            return None
        if pf[0] == 'Constraints':
            return SIZE.get(pf[1])
        r = vf.root(s.M, p)[0]
        own = {'Solution': 'sol.', 'PresolvedProblem': 'reduced_prob.', 'PresolveStats': 'stats.'}.get(pf[0]) or s.owner(r, pf[1])
        return SIZE.get(own + pf[1])

    def field(s, p):
        """kind of the array a pointer field holds"""
        pf = vf.pfield(s.M, p)
        if not pf:
            return None
        own = {'Solution': 'sol.', 'PresolvedProblem': 'reduced_prob.', 'Mapping': 'mappings.', 'Objective': 'obj.'}.get(pf[0])
        if own is None:
            own = s.owner(vf.root(s.M, p)[0], pf[1]) if pf[0] == 'Matrix' else '' if pf[0] in ('Constraints', 'State') else None
        return (own + pf[1], s.idxkind(own + pf[1])) if own is not None else None

    def count(s, v):
        """kind of the number of elements a block is allocated with"""
        v = s.res(v)
        if v.op != 'call' or callee_name(v) not in ('malloc', 'calloc', 'realloc'):
            return None
        ks = {s.sizekind(o) for o in v.ops if o.ty is not None and o.ty.kind == 'int'} - {None}
        return ks.pop() if len(ks) == 1 else None

    def extents(s):
        """[(instruction, array, its kind, kind of the count)] for allocations, clears, copies, stored sizes and entries past the end"""
        out, n = [], 0
        what = {ROW: 'number of rows', COL: 'number of columns'}
        for I in s.f.instrs():
            if I.op == 'store':
                if I.ops[0].ty.kind == 'ptr':
                    fk = s.field(I.ops[1])
                    k = s.count(I.ops[0])
                    if fk and fk[1] in (ROW, COL) and k:
                        n += 1
                        if k != fk[1]:
                            out.append((I, '%s is allocated with the %s' % (fk[0], what[k])))
                elif I.ops[0].ty.kind == 'int':
                    k, v = s.sizefield(I.ops[1]), s.sizekind(I.ops[0])
                    if k and v:
                        n += 1
                        if k != v:
                            out.append((I, 'the %s is stored as the %s' % (what[v], what[k])))
            if I.op in ('load', 'store'):
                w = s.where(I.ops[0] if I.op == 'load' else I.ops[1])
                if w and len(w[1]) == 1 and s.idxkind(w[0]) in (ROW, COL):
                    k = s.sizekind(w[1][0])
                    if k:
                        n += 1
                        if k != s.idxkind(w[0]):
                            out.append((I, '%s is accessed at the %s' % (w[0], what[k])))
            if I.op == 'call' and re.match(r'(llvm\.)?mem(cpy|set|move)', callee_name(I) or ''):
                k = s.sizekind(I.ops[2])
                for o in I.ops[:1 if 'set' in callee_name(I) else 2]:
                    w = s.where(o)
                    if k and w and not w[1] and s.idxkind(w[0]) in (ROW, COL):
                        n += 1
                        if k != s.idxkind(w[0]):
                            out.append((I, '%s is copied or cleared over the %s' % (w[0], what[k])))
        return out, n

    def collect(s):
        s.todo = []
        s.cmps = []
        s.scr = {}
        for I in s.f.instrs():
            if I.op == 'phi' and I.ty.kind == 'int':
                if I.bb in s.hdr:
                    for o in I.ops:
                        if o.op != 'const':
                            s.union(I, o)
                else:
                    s.joins.append(I)
            elif I.op == 'select' and I.ty.kind == 'int' and I.ty.width > 1:
                s.joins.append(I)
        for I in s.f.instrs():
            if I.op in ('load', 'store'):
                p = I.ops[0] if I.op == 'load' else I.ops[1]
                w = s.where(p)
                if not w:
                    continue
                a, idx = w
                k = s.idxkind(a)
                idx = [i for i in idx if s.node(i).op != 'const']
                if k and len(idx) == 1 and k in (ROW, COL):
                    s.acc += 1
                    s.fact(idx[0], k, I, 'indexes %s' % a)
                elif k and idx:
                    s.acc += 1
                    s.cmps.append((I, a, k, idx))
                e = ELEM.get(a)
                if not e and not k and re.match(r'iwork', a) and (I if I.op == 'load' else I.ops[0]).ty.kind == 'int':
                    s.scr.setdefault(a, []).append((I, I if I.op == 'load' else I.ops[0]))
                if e:
                    v = I if I.op == 'load' else I.ops[0]
                    if v.ty.kind == 'int':
                        s.fact(v, e, I, ('is an element of %s' if I.op == 'load' else 'is stored into %s') % a)
            elif I.op == 'call' and callee_name(I) in s.vec and len(I.ops) == 2:
                p = vf.ap(s.M, I.ops[0])
                if p[:1] == ('State',) and p[1] in LIST:
                    s.fact(I.ops[1], LIST[p[1]], I, 'is appended to %s' % p[1])
            if I.op == 'store' and I.ops[0].ty.kind == 'int':
                k = s.sizefield(I.ops[1])
                if k and s.sizekind(I.ops[0]) is None and s.node(I.ops[0]).op in ('phi', 'select'):
                    s.sized.setdefault(s.node(I.ops[0]), []).append((k, I))
            if I.op == 'icmp' and I.ops[0].ty.kind == 'int':
                ks = [s.sizekind(o) for o in I.ops]
                for a, b in ((0, 1), (1, 0)):
                    if ks[a] and not ks[b] and s.node(I.ops[b]).op != 'const' and I.pred not in ('eq',):
                        s.sized.setdefault(s.node(I.ops[b]), []).append((ks[a], I))

    def solve(s):
        """[(kind1, witness1, kind2, witness2)]"""
        bad = []
        cls = {}
        for v, k, I, why in s.todo:
            cls.setdefault(s.find(v), {}).setdefault(k, (I, why))
        # through joins: demanded kinds flow to the operands, and a kind all operands share flows out
        ch = True
        while ch:
            ch = False
            for J in s.joins:
                r = s.find(J)
                os = [s.find(o) for o in (J.ops if J.op == 'phi' else J.ops[1:]) if s.node(o).op != 'const']
                for k, w in list(cls.get(r, {}).items()):
                    for o in os:
                        if k not in cls.setdefault(o, {}):
                            cls[o][k] = w
                            ch = True
                ks = [cls.get(o, {}) for o in os]
                if ks and all(ks):
                    for k in set.intersection(*[set(x) for x in ks]):
                        if k not in cls.setdefault(r, {}):
                            cls[r][k] = ks[0][k]
                            ch = True
        szs = {}
        for v, l in s.sized.items():
            szs.setdefault(s.find(v), []).extend(l)
        for r, ks in cls.items():
            if len(ks) > 1:
                if {k for k, _ in szs.get(r, [])} >= {ROW, COL}:
                    continue                      # one counter over rows and columns, told apart by its bounds
                a, b = sorted(ks.items(), key=lambda x: x[0])[:2]
                bad.append((a[0], a[1], b[0], b[1]))
        for r, l in szs.items():
            ks = cls.get(r, {})
            if len(ks) == 1 and ({ROW, COL} & set(ks)):
                (k, w), = ks.items()
                if k in {x for x, _ in l}:
                    continue
                for sk, I in l:
                    bad.append((k, w, {ROW: 'number of rows', COL: 'number of columns'}[sk], (I, 'is compared with the')))
        n = 0
        for I, a, k, idx in s.cmps:
            for i in idx:
                for q in s.terms(i):
                    for c, w in cls.get(s.find(q), {}).items():
                        n += 1
                        if c != k:
                            bad.append((c, w, k, (I, 'takes part in the index of %s' % a)))
        for I in s.f.instrs():
            if I.op == 'icmp' and I.pred in ('eq', 'ne') and I.ops[0].ty.kind == 'int':
                a, b = (cls.get(s.find(o), {}) if s.node(o).op != 'const' else {} for o in I.ops)
                if len(a) == len(b) == 1 and set(a) != set(b):
                    (ka, wa), (kb, wb) = list(a.items())[0], list(b.items())[0]
                    bad.append((ka, (I, 'is compared for equality here'), kb, wb))
        # a scratch array whose entries are only ever used as one kind is filled with that kind
        for a, l in s.scr.items():
            use = {}
            for I, v in l:
                if I.op == 'load':
                    for k, w in cls.get(s.find(v), {}).items():
                        use.setdefault(k, w)
            if len(use) != 1 or not set(use) & {ROW, COL}:
                continue
            (k, w), = use.items()
            for I, v in l:
                if I.op == 'store' and s.node(v).op != 'const':
                    r = s.find(v)
                    n += 1
                    for c, x in cls.get(r, {}).items():
                        if c != k:
                            bad.append((c, (I, 'is stored into %s' % a), k, w))
                    sk = {x for x, _ in szs.get(r, [])}
                    if len(sk) == 1 and not sk & {k}:
                        bad.append(({ROW: 'number of rows', COL: 'number of columns'}[sk.pop()], (I, 'bounds what is stored into %s' % a), k, w))
        s.cls = cls
        return bad, n

    def terms(s, v, d=0):
        v = s.res(v)
        if v.op in ('sext', 'zext', 'trunc', 'freeze'):
            return s.terms(v.ops[0], d)
        if v.op == 'add' and d < 4:
            return [q for o in v.ops if o.op != 'const' for q in s.terms(o, d + 1)]
        return [v]


def modules():
    M, vec = p_rec.writer_module()
    yield M, vec
    nl = set(common.reductions('release')) | vec
    yield vf.module('release', entries=['new_presolver', 'run_presolver', 'postsolve'], noinline=nl, tag='idx'), vec


def kinds(rep):
    tot = cl = sz = 0
    per = {}
    for M, vec in modules():
        red = common.reductions('release')
        for f in M.defined():
            if 'Vec_' in f.name or f.name in per:
                continue
            K = Kinds(M, f, vec)
            K.collect()
            bad, n = K.solve()
            for ka, (ia, wa), kb, (ib, wb) in bad:
                rep.bad('%s|%s|%s' % (f.name, ka, kb), 'in %s one value is used as a %s (%s at %s) and as a %s (%s at %s)' % (
                    f.name, ka, wa, fmt(ia), kb, wb, fmt(ib)))
            ext, m = K.extents()
            for I, why in ext:
                rep.bad('%s|extent|%s' % (f.name, why), 'in %s %s at %s' % (f.name, why, fmt(I)))
            sz += m
            rep.ok('%s: %d sizes' % (f.name, m), n=m)
            per[f.name] = K.acc
            tot += K.acc
            cl += len(K.cls)
            rep.ok('%s: %d accesses, %d index classes' % (f.name, K.acc, len(K.cls)), n=K.acc)
    rep.cov['index classes'] = cl
    rep.cov['functions'] = per
    rep.need('typed array accesses', tot, 400)
    rep.need('typed sizes', sz, 20)
