"""Value flow on optimised IR: LLVM's own redundancy elimination (early-cse, gvn, licm, indvars) brings every function to
a canonical form in which equal values are one SSA value; on top of it access paths for loads, scalar evolution of loop
indices (LLVM's analysis, read from its printer) and transitive modification sets per struct field."""
import re
import subprocess
import build
import common
from common import callee_name

PIPE = ('function(sroa,simplifycfg,early-cse<memssa>,loop-simplify,loop-rotate,loop-mssa(licm),gvn<no-pre;no-load-pre>,'
        'loop-mssa(licm),indvars,simplifycfg,early-cse<memssa>,instnamer)')


def module(config='release', entries=None, noinline=(), inline=True, tag=''):
    return build.module(config, inline=inline, entries=entries, noinline=noinline, passes=PIPE, tag='vf' + tag)


# ---------------------------------------------------------------- types of pointers
# Redundancy elimination merges address computations of different structs with equal offsets, so the struct named in an
# address computation is not to be trusted: the type of the base pointer decides, the byte offset gives the field.
_pt = {}
_pfc = {}


def _layout(M, n):
    """struct name -> [(offset, size, field)]"""
    fs = M.info.fields.get(n)
    return [(o, z, f) for f, (o, z) in zip(fs, M.info.foffs[n])] if fs else None


def pointee(M, v, depth=0):
    k = (id(M), v)
    if k in _pt:
        return _pt[k]
    _pt[k] = None
    r = None
    if depth < 10:
        op = v.op
        if op == 'gep':
            if len(v.ops) == 2:
                r = pointee(M, v.ops[0], depth + 1) or build.struct_base(v.aty)
        elif op == 'load':
            pf = pfield(M, v.ops[0])
            if pf:
                fs = M.info.fields.get(pf[0], [])
                if pf[1] in fs:
                    r = common._struct_of_ctype(M, M.info.ftypes[pf[0]][fs.index(pf[1])])
        elif op in ('phi', 'select'):
            for o in (v.ops if op == 'phi' else v.ops[1:]):
                if o.op != 'const':
                    r = pointee(M, o, depth + 1)
                    if r:
                        break
        else:
            r = common.pointee(M, v)
        if r is None and op == 'arg':
            w = {build.struct_base(u.aty) for u in v.users if u.op == 'gep' and u.ops[0] is v and len(u.ops) > 2 and u.aty.kind == 'struct'}
            if len(w) == 1:
                r = w.pop()
        if r is None and op == 'call':
            for u in _uses(v):
                if u.op == 'ret' and r is None:
                    sg = M.info.sigs.get(u.bb.fn.name)
                    r = common._struct_of_ctype(M, sg[0]) if sg else None
                if u.op == 'store':
                    pf = pfield(M, u.ops[1])
                    if pf:
                        fs = M.info.fields.get(pf[0], [])
                        if pf[1] in fs:
                            r = common._struct_of_ctype(M, M.info.ftypes[pf[0]][fs.index(pf[1])])
    _pt[k] = r
    return r


def _uses(v):
    """users of a value as it is, through joins; stores only where it is the value stored"""
    out, seen, st = [], {v}, [v]
    while st:
        x = st.pop()
        for u in x.users:
            if u.op in ('phi', 'select') and u not in seen:
                seen.add(u)
                st.append(u)
            elif u.op != 'store' or u.ops[0] is x:
                out.append(u)
    return out


def root(M, p):
    """(base pointer, constant byte offset or None) of a field address"""
    off = 0
    while p.op == 'gep' and len(p.ops) > 2:
        o = _constoff(p)
        off = None if o is None or off is None else off + o
        p = p.ops[0]
    if p.op == 'gep' and len(p.ops) == 2 and p.aty.kind == 'int' and p.aty.width == 8 and p.ops[1].op == 'const':
        b, o = root(M, p.ops[0])
        return b, (None if o is None or off is None else o + off + p.ops[1].val)
    return p, off


def _constoff(p):
    off = 0
    cur = p.aty
    for k, i in enumerate(p.ops[1:]):
        if i.op != 'const':
            return None
        if k == 0:
            off += i.val * (cur.size or 0)
        elif cur.kind == 'struct':
            off += cur.offs[i.val]
            cur = cur.elems[i.val]
        elif cur.kind == 'array':
            cur = cur.elems[0]
            off += i.val * cur.size
        else:
            return None
    return off


def pfield(M, v):
    """(struct, field) if v is the address of a struct field"""
    k = (id(M), v)
    if k in _pfc:
        return _pfc[k]
    _pfc[k] = None
    r = None
    if v.op != 'const':
        b, off = root(M, v)
        n = pointee(M, b)
        if n is None and b is not v:
            r = common.ptr_field(M, v)
        elif n is not None and off is not None:
            for o, sz, f in _layout(M, n) or ():
                if o <= off < o + max(sz, 1):
                    r = (n, f)
    _pfc[k] = r
    return r


# ---------------------------------------------------------------- access paths
def ap(M, v, depth=0):
    """access path of a pointer or loaded value: ('arg', i) | (struct, field, base path) | ('call', name, id) | ..."""
    if depth > 12:
        return ('?',)
    if v.op == 'arg':
        return ('arg', v.idx)
    if v.op == 'load':
        pf = pfield(M, v.ops[0])
        if pf:
            return (pf[0], pf[1], ap(M, root(M, v.ops[0])[0], depth + 1))
        return ('*', ap(M, v.ops[0], depth + 1))
    if v.op == 'gep':
        pf = pfield(M, v)
        if pf and len(v.ops) > 2:
            return ('&', pf[0], pf[1], ap(M, v.ops[0], depth + 1))
        return ('[]', ap(M, v.ops[0], depth + 1))
    if v.op == 'call':
        return ('call', callee_name(v) or '?', v.id)
    if v.op == 'const':
        return ('const', repr(v.val))
    if v.op == 'global':
        return ('global', v.name)
    return (v.op, v.id if hasattr(v, 'id') else 0)


def path(p):
    """readable form"""
    if p[0] == 'arg':
        return 'arg%d' % p[1]
    if p[0] in ('*', '[]'):
        return '%s%s' % (path(p[1]), p[0])
    if p[0] == '&':
        return '&%s->%s' % (path(p[3]), p[2])
    if p[0] in ('call', 'const', 'global', '?') or len(p) < 3:
        return ' '.join(str(x) for x in p[:2])
    return '%s->%s' % (path(p[2]), p[1])


# ---------------------------------------------------------------- modification sets
def modsets(M):
    """function -> set of (struct, field) it may store to, transitively; stores to array elements are ('[]', struct, field)
    of the array when known, ('?', '?') otherwise; stores to the function's own locals are left out"""
    own = {}
    for f in M.defined():
        s = set()
        for I in f.instrs():
            if I.op == 'store':
                t = target(M, I.ops[1])
                if t:
                    s.add(t)
            elif I.op == 'call':
                n = callee_name(I)
                if n and (n.startswith('llvm.memcpy') or n.startswith('llvm.memmove') or n.startswith('llvm.memset')
                          or n in ('memcpy', 'memmove', 'memset')):
                    t = target(M, I.ops[0])
                    if t:
                        s.add(t)
        own[f.name] = s
    g = common.callgraph(M)
    out = {n: set(s) for n, s in own.items()}
    ch = True
    while ch:
        ch = False
        for n in out:
            for c, _ in g.get(n, ()):
                if c in out and not out[c] <= out[n]:
                    out[n] |= out[c]
                    ch = True
    return out


def target(M, p, depth=0):
    """what a store through p modifies"""
    if depth > 10:
        return ('?', '?')
    if p.op == 'alloca':
        return None
    pf = pfield(M, p)
    if pf:
        r = root(M, p)[0]
        if r.op == 'alloca':
            return None
        return pf
    if p.op == 'gep':
        b = p.ops[0]
        r = elem(M, b, depth + 1)
        return r
    return elem(M, p, depth + 1)


def elem(M, b, depth=0, seen=()):
    """element of the array b points to"""
    if depth > 10:
        return ('?', '?')
    if b.op == 'alloca':
        return None
    if b.op == 'load':
        pf = pfield(M, b.ops[0])
        if pf:
            return ('[]',) + pf
    if b.op == 'gep':
        if len(b.ops) > 2:
            pf = pfield(M, b)
            return ('&',) + pf if pf else ('?', '?')
        return elem(M, b.ops[0], depth + 1, seen)
    if b.op == 'arg':
        return ('arg', b.fn.name, b.idx)
    if b.op == 'call':
        for u in _uses(b):
            if u.op == 'store':
                pf = pfield(M, u.ops[1])
                if pf:
                    return ('[]',) + pf
    if b.op in ('phi', 'select'):
        if b in seen:
            return None
        rs = {elem(M, o, depth + 1, seen + (b,)) for o in (b.ops if b.op == 'phi' else b.ops[1:]) if o.op != 'const' and o is not b}
        rs.discard(None)
        if len(rs) == 1:
            return rs.pop()
    return ('?', '?')


# ---------------------------------------------------------------- scalar evolution
class Scev:
    def __init__(s):
        s.val = {}      # instr name -> (expr tree, exit expr tree or None)
        s.loops = {}    # header block name -> backedge-taken count tree or None


_cache = {}
TOK = re.compile(r'\s*(?:(<[^<>]*(?:<[^<>]*>)?[^<>]*>)|(%[\w.$-]+|@[\w.$-]+)|(-?\d+)|([a-z]+[0-9]*|/u|\+|\*|[(){},]|[a-z_]+))')


def _parse(t):
    """expression tree from LLVM's scalar evolution printer"""
    toks = []
    i = 0
    t = t.strip()
    while i < len(t):
        m = re.match(r'\s*(<%[\w.$-]+>|<[a-zA-Z<>]+?>(?![\w])|%[\w.$-]+|@[\w.$-]+|-?\d+|/u|\*\*\*COULDNOTCOMPUTE\*\*\*|'
                     r'[a-z_]+\d*|[(){},+*])', t[i:])
        if not m:
            return None
        toks.append(m.group(1))
        i += m.end()
    pos = [0]

    def peek():
        return toks[pos[0]] if pos[0] < len(toks) else None

    def take():
        pos[0] += 1
        return toks[pos[0] - 1]

    def flags():
        while peek() and peek().startswith('<') and not peek().startswith('<%'):
            take()

    def prim():
        x = take()
        if x == '(':
            if peek() in ('sext', 'zext', 'trunc', 'ptrtoint'):
                op = take()
                take()
                e = prim()
                while peek() != ')':
                    take()
                take()
                flags()
                return (op, e)
            e = [prim()]
            op = None
            while peek() != ')':
                op = take()
                e.append(prim())
            take()
            flags()
            return (op,) + tuple(e) if op else e[0]
        if x == '{':
            e = [prim()]
            while peek() != '}':
                take()      # ,
                take()      # +
                take()      # ,
                e.append(prim())
            take()
            flags()
            lp = take()
            return ('rec', tuple(e), lp[2:-1])
        if re.match(r'-?\d+$', x):
            return ('c', int(x))
        if x[0] == '%':
            r = ('v', x[1:])
            flags()
            return r
        return ('s', x)
    try:
        return prim()
    except (IndexError, TypeError):
        return None


def scev(M, fname):
    """scalar evolution of one function"""
    if (M.path, fname) in _cache:
        return _cache[(M.path, fname)]
    one = M.path + '.' + fname + '.ll'
    build.run([build._tool('llvm-extract'), '-S', '-func=' + fname, M.path, '-o', one])
    p = subprocess.run([build.OPT, '-disable-output', '-passes=print<scalar-evolution>', one],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode:
        raise build.AnalysisError('scalar evolution: ' + p.stderr[-300:])
    out = {}
    cur = None
    last = None
    for l in p.stderr.splitlines():
        m = re.match(r"Classifying expressions for: @(\S+)", l)
        if m:
            cur = out.setdefault(m.group(1), Scev())
            continue
        if l.startswith('Determining') or cur is None:
            continue
        m = re.match(r'\s+%([\w.$-]+) = ', l)
        if m:
            last = m.group(1)
            continue
        m = re.match(r'\s+-->\s+(.*?)\s+U: ', l)
        if m and last:
            e = _parse(m.group(1).replace(')<nuw>', ')').replace(')<nsw>', ')'))
            x = re.search(r'Exits: (.*?)\s+LoopDispositions', l)
            cur.val[last] = (e, _parse(x.group(1)) if x and '<<Unknown>>' not in x.group(1) else None)
            last = None
            continue
        m = re.match(r'Loop %([\w.$-]+): backedge-taken count is (.*)$', l)
        if m:
            cur.loops[m.group(1)] = _parse(m.group(2)) if 'COULDNOT' not in m.group(2) else None
    _cache[(M.path, fname)] = out.get(fname, Scev())
    return _cache[(M.path, fname)]


def linear(e):
    """linear form {atom: coefficient} (atom None: constant) of a loop-invariant tree; extensions are transparent"""
    if e is None:
        return None
    k = e[0]
    if k == 'c':
        return {None: e[1]}
    if k == 'v':
        return {e[1]: 1}
    if k in ('sext', 'zext', 'trunc', 'ptrtoint'):
        return linear(e[1])
    if k == '+':
        r = {}
        for x in e[1:]:
            l = linear(x)
            if l is None:
                return None
            for a, c in l.items():
                r[a] = r.get(a, 0) + c
        return {a: c for a, c in r.items() if c or a is None}
    if k == '/u' and len(e) == 3 and e[2][0] == 'c' and e[2][1] > 0:
        l = linear(e[1])
        if l is None or any(c % e[2][1] for c in l.values()):
            return None
        return {a: c // e[2][1] for a, c in l.items()}
    if k == '*':
        r = {None: 1}
        for x in e[1:]:
            l = linear(x)
            if l is None:
                return None
            if set(r) <= {None}:
                c = r.get(None, 0)
                r = {a: q * c for a, q in l.items()}
            elif set(l) <= {None}:
                c = l.get(None, 0)
                r = {a: q * c for a, q in r.items()}
            else:
                return None
        return r
    return None


def addrec(e):
    """(start linear form, step linear form, loop header) of an affine recurrence, sums included"""
    if e is None:
        return None
    if e[0] == 'rec' and len(e[1]) == 2:
        a, b = linear(e[1][0]), linear(e[1][1])
        return None if a is None or b is None else (a, b, e[2])
    if e[0] in ('sext', 'zext', 'trunc'):
        return addrec(e[1])
    if e[0] == '+':
        rec = [x for x in e[1:] if _hasrec(x)]
        if len(rec) != 1:
            return None
        r = addrec(rec[0])
        if r is None:
            return None
        s = dict(r[0])
        for x in e[1:]:
            if x is rec[0]:
                continue
            l = linear(x)
            if l is None:
                return None
            for a, c in l.items():
                s[a] = s.get(a, 0) + c
        return (s, r[1], r[2])
    if e[0] == '*':
        rec = [x for x in e[1:] if _hasrec(x)]
        rest = [x for x in e[1:] if not _hasrec(x)]
        if len(rec) != 1:
            return None
        r = addrec(rec[0])
        l = linear(('*',) + tuple(rest)) if rest else {None: 1}
        if r is None or l is None or not set(l) <= {None}:
            return None
        c = l.get(None, 0)
        return ({a: q * c for a, q in r[0].items()}, {a: q * c for a, q in r[1].items()}, r[2])
    return None


def _hasrec(e):
    if not isinstance(e, tuple):
        return False
    if e[0] == 'rec':
        return True
    return any(_hasrec(x) for x in e[1:] if isinstance(x, tuple))
