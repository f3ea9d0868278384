import build
import flow
import re

OUTPUT_OK = {'malloc', 'calloc', 'realloc', 'free', 'memcpy', 'memmove', 'memset', 'qsort', 'clock_gettime',
             'pthread_create', 'pthread_join', 'exit', 'abort', 'fabs', 'sqrt', 'pow', 'floor', 'ceil', 'fmax',
             'fmin', 'memcmp', 'bsearch', 'log', 'exp', 'round', 'lround', 'time', 'clock', 'isinf', '__isinf',
             'nextafter', 'frexp', 'ldexp', 'modf', 'fmod', 'log2', 'log10', 'cbrt', 'strlen', 'strcmp', 'strncmp',
             'strcpy', 'strncpy', 'snprintf', 'pthread_mutex_lock', 'pthread_mutex_unlock', 'aligned_alloc',
             'posix_memalign', 'qsort_r', 'trunc', 'rint', 'nearbyint', 'fma', 'abs', 'labs', 'hypot', 'copysign',
             '__assert_fail', 'posix_fadvise', 'nanosleep', 'sched_yield', 'pthread_self', 'memchr', 'isnan', '__isnan',
             'isfinite', '__finite', '__signbit', '__fpclassify', 'ldiv', 'div', 'llabs', 'llround', 'lrint', 'truncf'}


def callee_name(I):
    c = I.callee
    if c is not None and c.op == 'function':
        return c.name
    if c is not None and c.op == 'const' and c.kind == 'expr':
        for o in c.ops:
            if o.op == 'function':
                return o.name
    return None


def calls(fn):
    for I in fn.instrs():
        if I.op == 'call':
            yield I


def reductions(config='release'):
    """external functions defined under src/explorers"""
    M = build.module(config)
    return {f.name for f in M.defined() if f.linkage == 0 and f.file and f.file.startswith('src/explorers/')}


def main_module(config='release', rewrite=None, tag=''):
    """everything inlined into the API functions except the reductions"""
    red = reductions(config)
    return build.module(config, inline=True, noinline=red, rewrite=rewrite, tag=tag), red


def funcs_taken(M):
    """functions whose address is taken by an instruction or global (indirectly callable)"""
    out = {}
    for f in M.defined():
        for I in f.instrs():
            for o in I.ops:
                for g in _fn_consts(o):
                    out.setdefault(f.name, set()).add(g)
    return out


def _fn_consts(o, depth=0):
    if o is None:
        return []
    if o.op == 'function':
        return [o.name]
    if o.op == 'const' and o.ops and depth < 4:
        r = []
        for x in o.ops:
            r += _fn_consts(x, depth + 1)
        return r
    return []


def callgraph(M, blocks=None):
    """fn -> set of (callee, instr); function addresses passed/stored count as calls"""
    g = {}
    for f in M.defined():
        s = []
        for b in f.blocks:
            if blocks and f.name in blocks and b not in blocks[f.name]:
                continue
            for I in b.ins:
                if I.op == 'call':
                    n = callee_name(I)
                    if n:
                        s.append((n, I))
                for o in I.ops:
                    for n in _fn_consts(o):
                        s.append((n, I))
                if I.op == 'phi':
                    pass
        g[f.name] = s
    return g


def reachable(g, roots):
    seen = set()
    st = [r for r in roots if r in g]
    seen.update(st)
    par = {}
    while st:
        f = st.pop()
        for n, I in g.get(f, ()):
            if n not in seen:
                seen.add(n)
                par[n] = (f, I)
                st.append(n)
    return seen, par


def chain(par, n):
    out = [n]
    while n in par:
        f, I = par[n]
        out.append('%s@%s' % (f, I.loc))
        n = f
    return ' <- '.join(out)


def _struct_of_ctype(M, t):
    """'const Settings *' -> 'Settings' when that is a known struct"""
    if not t:
        return None
    t = t.replace('const', ' ').strip()
    if t.count('*') != 1:
        return None
    n = t.replace('*', '').strip()
    return n if n in M.info.fields else None


def pointee(M, v, depth=0):
    """struct type a pointer value points to (from debug-info types of fields, arguments, calls)"""
    if depth > 6:
        return None
    op = v.op
    if op == 'gep':
        if len(v.ops) == 2:
            return build.struct_base(v.aty)
        pf = ptr_field(M, v, True)
        return None
    if op == 'load':
        pf = ptr_field(M, v.ops[0])
        if pf:
            fs = M.info.fields.get(pf[0], [])
            if pf[1] in fs:
                return _struct_of_ctype(M, M.info.ftypes[pf[0]][fs.index(pf[1])])
        return None
    if op == 'arg':
        sig = M.info.sigs.get(v.fn.name)
        if sig and len(sig[1]) == len(v.fn.args) and v.idx < len(sig[1]):
            return _struct_of_ctype(M, sig[1][v.idx])
        return None
    if op == 'call':
        n = callee_name(v)
        sig = M.info.sigs.get(n) if n else None
        return _struct_of_ctype(M, sig[0]) if sig else None
    if op in ('phi', 'select'):
        os = v.ops if op == 'phi' else v.ops[1:]
        for o in os:
            if o.op != 'const':
                r = pointee(M, o, depth + 1)
                if r:
                    return r
        return None
    if op == 'alloca':
        return build.struct_base(v.aty)
    return None


def first_scalar_field(M, n):
    return M.info.fields[n][0] if M.info.fields.get(n) else None


_pf = {}


def ptr_field(M, v, nofirst=False):
    """(struct, field) if v is the address of a struct field, else None. A pointer to a struct used directly is
    the address of its first member."""
    k = (id(M), v, nofirst)
    if k in _pf:
        return _pf[k]
    _pf[k] = None
    r = _ptr_field(M, v, nofirst)
    _pf[k] = r
    return r


def _ptr_field(M, v, nofirst):
    if v.op == 'gep' and v.aty.kind == 'int' and v.aty.size == 1 and len(v.ops) == 2 and v.ops[1].op == 'const':
        # a member by its byte offset (the compiler split a copy of the struct)
        n = pointee(M, v.ops[0])
        for t in M.structs.values() if n else ():
            if build.struct_base(t) == n and v.ops[1].val in t.offs:
                return (n, build.field_name(M, t, t.offs.index(v.ops[1].val)))
        return None
    if v.op == 'gep':
        st = path = None
        cur = v.aty
        for k, i in enumerate(v.ops[1:]):
            if k == 0:
                continue
            if cur.kind == 'struct':
                st, path = build.struct_base(cur), build.field_name(M, cur, i.val)
                cur = cur.elems[i.val]
            elif cur.kind == 'array':
                cur = cur.elems[0]
        if st is not None:
            return (st, path)
    if nofirst or v.op == 'const':
        return None
    n = pointee(M, v)
    if n:
        f = first_scalar_field(M, n)
        if f:
            return (n, f)
    return None


def fmt(I):
    return I.loc.full() if I.loc else I.bb.fn.name
