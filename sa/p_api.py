"""A: caller-facing discipline (output, settings, termination, verdicts, re-entrancy)"""
import re
import build
import flow
import common
import vf
from common import callee_name, calls, fmt, ptr_field
from flow import KB, kconst


def _settings_assume(M, vals):
    """vals: field -> int; forces every load of Settings.<field>"""
    def f(I):
        if I.op == 'load':
            pf = ptr_field(M, I.ops[0])
            if pf and pf[0] == 'Settings' and pf[1] in vals:
                return vals[pf[1]]
        return None
    return f


def live_calls(M, root, vals):
    """calls that can execute, starting from API function `root`, when the given
    settings have the given values"""
    res = {}
    exe = {}
    st = [root]
    seen = {root}
    par = {}
    while st:
        n = st.pop()
        f = M.functions[n]
        blocks, _, _ = flow.sccp(f, _settings_assume(M, vals))
        exe[n] = blocks
        for b in blocks:
            for I in b.ins:
                names = []
                if I.op == 'call':
                    c = callee_name(I)
                    if c:
                        names.append(c)
                for o in I.ops:
                    names += common._fn_consts(o)
                for c in names:
                    res.setdefault(c, []).append(I)
                    g = M.functions.get(c)
                    if g is not None and not g.is_decl and c not in seen:
                        seen.add(c)
                        par[c] = (n, I)
                        st.append(c)
    return res, seen, par, exe


# ---------------------------------------------------------------- A03 quiet
QUIET_RULE = ("every call of an external function outside the non-writing allow-list that is reachable from an API "
              "function under constant propagation with the verbose setting fixed to false, and from which the API "
              "function can still return, is a violation (fully inlined release IR)")


def quiet(rep):
    M = build.module('release', inline=True)
    n_out = 0
    for root in build.API:
        f = M.functions.get(root)
        if f is None or f.is_decl:
            raise build.AnalysisError('API function %s not found' % root)
    for root in build.API:
        res0, seen0, _, exe0 = live_calls(M, root, {})
        res, seen, par, exe = live_calls(M, root, {'verbose': 0})
        for n in seen0:
            f = M.functions[n]
            ret = flow.returning_blocks(f)
            for I in calls(f):
                c = callee_name(I)
                if c is None:
                    # indirect call: callee unknown, resolved by address-taken functions (already in seen)
                    continue
                g = M.functions.get(c)
                if g is not None and not g.is_decl:
                    continue
                if c.startswith('llvm.') or c in common.OUTPUT_OK:
                    continue
                n_out += 1
                if n in exe and I.bb in exe[n] and I.bb in ret:
                    rep.bad('%s|%s|%s' % (I.loc.file if I.loc else '?', I.loc.fn if I.loc else '?', c),
                            'call of %s at %s can execute from %s() with verbose == false' % (c, fmt(I), root))
                else:
                    rep.ok('%s at %s: unreachable from %s() when verbose is false%s' % (
                        c, I.loc, root, '' if I.bb in ret else ' (fatal path, never returns)'))
    rep.need('output call sites', n_out, 3)


# ---------------------------------------------------------------- A02 settings
GATES = {
    'ston_cols': ['remove_ston_cols'],
    'dton_eq': ['remove_dton_eq_rows'],
    'parallel_rows': ['remove_parallel_rows'],
    'parallel_cols': ['remove_parallel_cols'],
    'primal_propagation': ['check_activities', 'propagate_primal'],
    'dual_fix': ['simple_dual_fix'],
    'relax_bounds': ['remove_redundant_bounds'],
}
SETTINGS_RULE = ("conditional constant propagation from run_presolver with one reduction flag fixed to false: the entry "
                 "point of the gated reduction must be unreachable; with only that flag true it must stay reachable; "
                 "with all flags false no optional reduction is reachable; constructors/setters: forward must-value "
                 "analysis of every Settings member at return; no store into a Settings object elsewhere")


def bool_fields(M):
    I = M.info
    return [f for f, t in zip(I.fields['Settings'], I.ftypes['Settings']) if t in ('bool', '_Bool')]


def settings(rep):
    M, red = common.main_module('release')
    bf = bool_fields(M)
    rep.need('boolean settings', len(bf), 9)
    gates = {k: v for k, v in GATES.items()}
    for k, v in gates.items():
        if k not in bf:
            raise build.AnalysisError('settings member %s vanished' % k)
        for e in v:
            if e not in M.functions:
                raise build.AnalysisError('reduction entry %s vanished' % e)
    n = 0
    for flag, ents in gates.items():
        _, seen, par, _ = live_calls(M, 'run_presolver', {flag: 0})
        for e in ents:
            n += 1
            rep.check(e not in seen, 'gate|%s|%s' % (flag, e),
                      'reduction %s is reachable from run_presolver with settings.%s == false: %s' % (
                          e, flag, common.chain(par, e)),
                      '%s unreachable when %s == false' % (e, flag))
        on = {f: 0 for f in gates}
        on[flag] = 1
        _, seen, par, _ = live_calls(M, 'run_presolver', on)
        for e in ents:
            n += 1
            rep.check(e in seen, 'enable|%s|%s' % (flag, e),
                      'reduction %s is not reachable from run_presolver when settings.%s is the only flag set' % (
                          e, flag), '%s reachable when only %s == true' % (e, flag))
        for f2, e2 in gates.items():
            if f2 != flag:
                for e in e2:
                    n += 1
                    rep.check(e not in seen, 'cross|%s|%s' % (flag, e),
                              'with only settings.%s set, reduction %s (flag %s) is reachable: %s' % (
                                  flag, e, f2, common.chain(par, e)))
    rep.need('flag/reduction obligations', n, 60)
    # which arguments carry the remaining settings
    run = M.functions['run_presolver']
    _settings_values(rep, M)
    _forwarded(rep, M)
    # nobody writes a Settings object except the constructors/setters
    W = build.module('release', inline=True)
    setters = {'default_settings', 'set_settings_true', 'set_settings_false'}
    nst = 0
    for f in W.defined():
        for I in f.instrs():
            tgt = None
            if I.op == 'store':
                tgt = I.ops[1]
            elif I.op == 'call' and (callee_name(I) or '').startswith(('llvm.mem', 'mem')):
                tgt = I.ops[0]
            if tgt is None:
                continue
            pf = ptr_field(W, tgt)
            if pf and pf[0] == 'Settings' and not (I.op == 'call' and tgt.op == 'alloca'):
                nst += 1
                rep.check(f.name in setters, 'write|%s|%s' % (f.name, pf[1]),
                          'settings member %s is written in %s at %s' % (pf[1], f.name, fmt(I)),
                          'write of %s in %s' % (pf[1], f.name))
    rep.need('settings member writes', nst, 3)


def _settings_values(rep, M):
    """values of every settings member when the initialisers return: all paths through the inlined function, memory by byte offset"""
    fields = M.info.fields['Settings']
    bf = set(bool_fields(M))
    W = build.module('release', inline=True, keep=('default_settings', 'set_settings_true', 'set_settings_false'), tag='sv')
    T = next(t for t in W.structs.values() if build.struct_base(t) == 'Settings')
    at = {(T.offs[k], T.elems[k].size): fields[k] for k in range(len(T.elems)) if k < len(fields)}
    n = 0
    for fn, want in (('default_settings', 'init'), ('set_settings_true', 1), ('set_settings_false', 0)):
        if fn not in W.functions:
            raise build.AnalysisError(fn + ' vanished')
        n += _settings_of(rep, W, fn, want, at, bf)
    rep.need('settings member values', n, 20)


def _const_at(c, off, sz):
    """value of the scalar of sz bytes at off in a constant initialiser"""
    if c.kind == 'zero':
        return 0
    if c.kind == 'agg':
        cur = c.ty
        if cur.kind == 'struct':
            for k in range(len(cur.elems)):
                if cur.offs[k] <= off < cur.offs[k] + cur.elems[k].size:
                    return _const_at(c.ops[k], off - cur.offs[k], sz)
        elif cur.kind == 'array' and cur.elems[0].size:
            k = off // cur.elems[0].size
            if k < len(c.ops):
                return _const_at(c.ops[k], off % cur.elems[0].size, sz)
        return None
    if off == 0 and c.kind in ('int', 'fp'):
        return c.val
    return 'set'


def _settings_of(rep, W, fn, want, at, bf):
    f = W.functions[fn]

    def addr(v, pv, env):
        off = 0
        while True:
            if v.op == 'phi' or v.op == 'select':
                w = env.get(('v', v))
                if w is None:
                    return None, None
                v = w
            elif v.op == 'gep':
                o = 0
                cur = v.aty
                for k, i in enumerate(v.ops[1:]):
                    if i.op != 'const' or i.kind != 'int':
                        o = None
                        break
                    if k == 0:
                        o += i.val * (cur.size or 0)
                    elif cur.kind == 'struct':
                        o += cur.offs[i.val]
                        cur = cur.elems[i.val]
                    else:
                        cur = cur.elems[0]
                        o += i.val * cur.size
                if o is None or off is None:
                    off = None
                else:
                    off += o
                v = v.ops[0]
            elif v.op in ('bitcast', 'freeze'):
                v = v.ops[0]
            else:
                return v, off

    def leaf(w, env, depth=0):
        """value of an expression: None if it depends on what the object held before"""
        if w.op == 'load':
            return env.get(('l', w), 'set')
        if w.op == 'phi':
            w = env.get(('v', w), w)
            if w.op == 'phi':
                return 'set'
        if w.op == 'const':
            return w.val if w.kind in ('int', 'fp') else 'set'
        if w.op in ('zext', 'trunc', 'freeze', 'sext'):
            return leaf(w.ops[0], env, depth + 1) if depth < 20 else 'set'
        if getattr(w, 'ops', None) and depth < 20 and w.op != 'call' and any(leaf(o, env, depth + 1) is None for o in w.ops):
            return None
        return 'set'
    paths = []
    work = [(f.blocks[0], None, {})]
    vis = set()
    while work and len(vis) < 20000:
        b, prev, env = work.pop()
        k = (b, prev, frozenset((x, repr(y) if not hasattr(y, 'op') else id(y)) for x, y in env.items()))
        if k in vis:
            continue
        vis.add(k)
        env = dict(env)
        for I in b.ins:
            if I.op == 'phi':
                for v, p in I.inc:
                    if p is prev:
                        env[('v', I)] = env.get(('v', v), v) if v.op == 'phi' else v
                continue
            dst, ln, val = None, None, None
            if I.op == 'store':
                dst, ln = I.ops[1], I.ops[0].ty.size
                w = I.ops[0]
                if w.op == 'phi':
                    w = env.get(('v', w), w)
                val = w.val if w.op == 'const' and w.kind in ('int', 'fp') else 'set'
                if w.op != 'const':
                    val = leaf(w, env)
            elif I.op == 'load':
                o, a = addr(I.ops[0], prev, env)
                if o is not None and a is not None:
                    env[('l', I)] = env.get((o, a, I.ty.size), None if o.op == 'arg' else 'set')
                continue
            elif I.op == 'call':
                c = callee_name(I) or ''
                if c.startswith(('llvm.memcpy', 'memcpy', 'llvm.memmove', 'memmove')):
                    d, do = addr(I.ops[0], prev, env)
                    s_, so = addr(I.ops[1], prev, env)
                    L = I.ops[2].val if I.ops[2].op == 'const' else None
                    if d is None or do is None or L is None or s_ is None or so is None:
                        env['?'] = True
                        continue
                    for (o, z) in at:
                        if do <= o and o + z <= do + L:
                            if s_.op == 'global' and s_.init is not None:
                                env[(d, o, z)] = _const_at(s_.init, o - do + so, z)
                            elif s_.op == 'alloca':
                                env[(d, o, z)] = env.get((s_, o - do + so, z))
                            else:
                                env[(d, o, z)] = 'set'
                    continue
                if c.startswith(('llvm.memset', 'memset')):
                    dst, val = I.ops[0], I.ops[1].val if I.ops[1].op == 'const' else 'set'
                    L = I.ops[2].val if I.ops[2].op == 'const' else None
                    d, do = addr(dst, prev, env)
                    if d is None or do is None or L is None:
                        env['?'] = True
                        continue
                    for (o, z) in at:
                        if do <= o and o + z <= do + L:
                            env[(d, o, z)] = val
                    continue
                if c == 'calloc' or c == 'ps_calloc':
                    for (o, z) in at:
                        env[(I, o, z)] = 0
                elif not c.startswith(('llvm.', 'malloc', 'free')):
                    if any(o.ty.kind == 'ptr' for o in I.ops):
                        env['?'] = True
                continue
            else:
                continue
            d, do = addr(dst, prev, env)
            if d is None or do is None:
                env['?'] = True
                continue
            env[(d, do, ln)] = val
            for (o, z) in at:       # a wider store covers several members
                if ln > z and do <= o and o + z <= do + ln:
                    env[(d, o, z)] = 'set' if not isinstance(val, int) else (val >> (8 * (o - do))) & ((1 << (8 * z)) - 1)
        t = b.term
        if t.op == 'ret':
            rv = t.ops[0] if t.ops else f.args[0]
            if rv.op in ('phi', 'select'):
                rv = env.get(('v', rv), rv)
            paths.append((rv, env))
            continue
        work += [(nb, b, env) for nb in t.succ]
    if work:
        return 20  # too many paths: undecided
    n = 0
    for rv, env in paths:
        if want == 'init' and rv.op == 'const':
            continue
        obj, off = addr(rv, None, env)
        for (o, z), fl in at.items():
            if env.get('?'):
                n += 1
                continue
            v = env.get((obj, o, z))
            if want == 'init':
                n += 1
                rep.check(v is not None, 'init|%s|%s' % (fn, fl),
                          '%s does not initialise settings member %s on a path that returns the object' % (fn, fl),
                          '%s initialises %s' % (fn, fl))
            elif fl in bf:
                n += 1
                rep.check(v == 'set' or v is not None and (v != 0) == (want == 1), 'set|%s|%s' % (fn, fl),
                          '%s leaves settings member %s at %s (expected %s)' % (
                              fn, fl, 'its old value' if v is None else v, bool(want)), '%s sets %s' % (fn, fl))
    return n


def _forwarded(rep, M):
    """max_shift / finite_bound_tightening / max_time are read by run_presolver and forwarded"""
    run = M.functions['run_presolver']
    want = {'max_shift': 'remove_dton_eq_rows', 'finite_bound_tightening': 'propagate_primal'}
    for fl, cal in want.items():
        sites = [I for I in calls(run) if callee_name(I) == cal]
        if not sites:
            raise build.AnalysisError('no call of %s in run_presolver' % cal)
        for I in sites:
            okv = any(_derives(M, o, fl) for o in I.ops)
            rep.check(okv, 'forward|%s|%s' % (fl, cal),
                      'settings.%s does not reach %s at %s' % (fl, cal, fmt(I)), 'settings.%s is passed to %s' % (fl, cal))


def _derives(M, v, field, depth=0):
    if v is None or depth > 10:
        return False
    if v.op == 'load':
        pf = ptr_field(M, v.ops[0])
        return bool(pf and pf[0] == 'Settings' and pf[1] == field)
    if v.op in ('trunc', 'zext', 'sext', 'icmp', 'freeze', 'select', 'phi', 'and'):
        return any(_derives(M, o, field, depth + 1) for o in v.ops)
    return False


# ---------------------------------------------------------------- R01 re-entrancy
REENT_RULE = ("every object with static storage duration defined by the library must be immutable: read-only, or "
              "thread-local and written on every path before each use by the same API call; no function with hidden "
              "static state may be called (release and debug IR, all functions reachable from the API)")
STATIC_STATE = {'rand', 'srand', 'random', 'srandom', 'drand48', 'strtok', 'localtime', 'gmtime', 'ctime', 'asctime',
                'setlocale', 'getenv', 'setenv', 'signal', 'sigaction', 'fesetround', 'fesetenv', 'feenableexcept',
                'strerror', 'tmpnam', 'lgamma', 'hsearch', 'hcreate', 'chdir', 'umask', 'putenv', 'atexit', 'setvbuf',
                'setbuf', 'freopen'}


def _root_global(v):
    seen = set()
    st = [v]
    while st:
        x = st.pop()
        if x is None or x in seen:
            continue
        seen.add(x)
        if x.op == 'global':
            return x
        if x.op in ('gep', 'bitcast', 'freeze'):
            st.append(x.ops[0])
        elif x.op == 'phi':
            st.extend(x.ops)
        elif x.op == 'select':
            st.extend(x.ops[1:])
        elif x.op == 'const' and x.kind == 'expr':
            st.extend(x.ops)
    return None


def reentrant(rep):
    for cfg in ('release', 'debug'):
        M = build.module(cfg)
        g = common.callgraph(M)
        seen, par = common.reachable(g, build.API)
        n = 0
        muts = {}
        for name, gl in M.globals.items():
            if gl.is_decl or gl.is_const or name.startswith('llvm.'):
                continue
            muts[name] = []
        for f in M.defined():
            if f.name not in seen:
                continue
            for I in f.instrs():
                n += 1
                for k, o in enumerate(I.ops):
                    r = _root_global(o)
                    if r is not None and r.name in muts:
                        muts[r.name].append((f, I, k))
                if I.op == 'call' and callee_name(I) == 'llvm.threadlocal.address.p0':
                    r = I.ops[0]
                if I.op == 'call' and callee_name(I) in STATIC_STATE:
                    rep.bad('static|%s|%s' % (f.name, callee_name(I)),
                            '%s: %s keeps hidden process-wide state' % (fmt(I), callee_name(I)))
        for name, uses in muts.items():
            gl = M.globals[name]
            src = next((I.loc for _, I, _ in uses if I.loc), None)
            if not uses:
                rep.ok('%s: never used from the API' % name)
                continue
            if gl.tls:
                _tls(rep, M, gl, uses)
                continue
            writes = [(f, I) for f, I, k in uses if not (I.op == 'load')]
            if not writes:
                rep.ok('%s: never written' % name)
                continue
            f, I = writes[0]
            rep.bad('global|%s' % name,
                    'mutable static object "%s" is modified at %s, shared by every presolver in the process '
                    '(reached %s)' % (name, fmt(I), common.chain(par, f.name)))
        rep.cov['functions_%s' % cfg] = len([f for f in seen if f in M.functions and not M.functions[f].is_decl])
        rep.need('functions reachable (%s)' % cfg, rep.cov['functions_%s' % cfg], 120)
        rep.ok('%s: %d instructions scanned, %d mutable static objects' % (cfg, n, len(muts)))
    # positive example: the rule must fire on a known mutable static
    _selftest_global(rep)


def _tls(rep, M, gl, uses):
    """thread-local scratch: any function that (transitively, incl. callbacks) reads it must have stored it first
    on every path from the function's entry to the call that reads it"""
    addr = {}
    readers, writers = {}, {}
    for f, I, k in uses:
        if I.op == 'call' and (callee_name(I) or '').startswith('llvm.threadlocal.address'):
            for u in I.users:
                if u.op == 'store' and u.ops[1] is I:
                    writers.setdefault(f, []).append(u)
                else:
                    readers.setdefault(f, []).append(u)
        elif I.op == 'store' and k == 1:
            writers.setdefault(f, []).append(I)
        elif I.op == 'load':
            readers.setdefault(f, []).append(I)
        else:
            rep.bad('tls|%s' % gl.name, 'address of thread-local "%s" escapes at %s' % (gl.name, fmt(I)))
            return
    g = common.callgraph(M)

    def covered(f, I, seen):
        """is instruction I of f preceded on all paths by a store?"""
        idom = flow.dominators(f)
        for w in writers.get(f, []):
            if w.bb is I.bb:
                if w.bb.ins.index(w) < I.bb.ins.index(I):
                    return True
            elif flow.dominates(idom, w.bb, I.bb):
                return True
        if f.name in seen or f.name in build.API:
            return False
        cs = [(c, J) for c, l in g.items() for n, J in l if n == f.name]
        if not cs:
            return False
        return all(covered(M.functions[c], J, seen | {f.name}) for c, J in cs)
    for f, rs in readers.items():
        for I in rs:
            rep.check(covered(f, I, frozenset()), 'tls-read|%s|%s' % (gl.name, f.name),
                      'thread-local "%s" read at %s may hold the value of an earlier call (no store on every path '
                      'of the same API call before it)' % (gl.name, fmt(I)),
                      'thread-local %s read in %s only after a store in the same call' % (gl.name, f.name))


def _selftest_global(rep):
    import os
    d = build.tmpdir()
    c = d + '/st.c'
    open(c, 'w').write('static int n; static const int k=3; int f(void){ n++; return n+k; }\n')
    o = d + '/st.ll'
    build.run([build.CLANG, '-O1', '-Xclang', '-disable-llvm-passes', '-S', '-emit-llvm', '-o', o, c])
    import llvmc
    M = llvmc.load(o)
    hit = [g.name for g in M.globals.values() if not g.is_const and any(
        I.op == 'store' and _root_global(I.ops[1]) is g for f in M.defined() for I in f.instrs())]
    if hit != ['n']:
        raise build.AnalysisError('self-test of the static-object rule failed: %s' % hit)


# ---------------------------------------------------------------- T01 time limit / progress
TIME_RULE = ("disjunctive constant propagation over run_presolver (reductions opaque): if every comparison of elapsed "
             "clock time with the time limit is assumed to report expiry, no reduction is reachable after the first "
             "such comparison and no cycle through a reduction avoids one; if every non-zero-count ratio test reports "
             "no progress, no reduction lies on a cycle")


def _depends(v, pred, seen=None, depth=0):
    if seen is None:
        seen = set()
    if v is None or v in seen or depth > 60:
        return False
    seen.add(v)
    if pred(v):
        return True
    if v.op in ('const', 'global', 'function', 'arg'):
        return False
    return any(_depends(o, pred, seen, depth + 1) for o in v.ops)


def _is_setting(M, field):
    def p(v):
        if v.op != 'load':
            return False
        pf = ptr_field(M, v.ops[0])
        return bool(pf and pf[0] == 'Settings' and pf[1] == field)
    return p


def _is_field(M, st, field):
    def p(v):
        if v.op != 'load':
            return False
        pf = ptr_field(M, v.ops[0])
        return bool(pf and pf[0] == st and pf[1] == field)
    return p


def _is_time(M):
    def p(v):
        if v.op == 'load':
            pf = ptr_field(M, v.ops[0])
            return bool(pf and pf[0] in ('timespec', 'Timer')) or _alloca_of(v.ops[0], 'timespec') or _alloca_of(v.ops[0], 'Timer')
        return False
    return p


def _alloca_of(p, name):
    while p.op == 'gep':
        p = p.ops[0]
    return p.op == 'alloca' and p.aty is not None and build.struct_base(p.aty) == name


def timelimit(rep):
    M, red = common.main_module('release')
    run = M.functions['run_presolver']
    ents = set(sum(GATES.values(), [])) | {'remove_ston_rows', 'remove_empty_rows', 'remove_empty_cols',
                                           'remove_variables_with_close_bounds'}
    ents.discard('remove_redundant_bounds')
    redcalls = {I for I in calls(run) if callee_name(I) in ents}
    rep.need('reduction calls in run_presolver', len(redcalls), 9)
    mt, tm = _is_setting(M, 'max_time'), _is_time(M)
    tcmp, und = {}, 0
    for I in run.instrs():
        if I.op not in ('fcmp', 'icmp') or not any(_depends(o, mt) for o in I.ops) or not any(_depends(o, tm) for o in I.ops):
            continue
        # sign of the limit in (left - right): where it counts negatively "left > right" means expired
        sg = _signs(I.ops[0], mt) | {-x for x in _signs(I.ops[1], mt)}
        g = _greater(I.pred)
        if g is None or sg not in ({1}, {-1}):
            und += 1
            continue
        tcmp[I] = int(g == (sg == {-1}))
    if und:
        rep.cov['time comparisons undecided'] = und
        if not tcmp:
            rep.ok('time comparison of a form this check does not decide')
            return
    if not tcmp:
        rep.bad('time|none', 'run_presolver never compares elapsed time with settings.max_time')
        return
    rep.need('time comparisons', len(tcmp), 1)
    # (1) after a comparison that reports expiry no reduction runs
    ex = flow.Explorer(run, assume=lambda I, env, s: kconst(1, tcmp[I]) if I in tcmp else None)
    hits = []

    def on(I, env, tag, key):
        if I in tcmp:
            return 'expired'
        if I in redcalls and tag == 'expired':
            hits.append((I, key))
            return 'stop'
        return None
    ex.run([(run.blocks[0], 0, {}, 'fresh')], on_instr=on)
    if hits:
        I, key = hits[0]
        rep.bad('time|ignored', 'after the time limit is reported as exceeded, reduction %s can still start at %s' % (
            callee_name(I), fmt(I)))
    else:
        rep.ok('no reduction starts after an expired time comparison (%d states)' % len(ex.parent))
    # (2) every cycle through a reduction call contains a time comparison
    ex2 = flow.Explorer(run)
    ev = {}

    def on2(I, env, tag, key):
        if I in redcalls:
            ev.setdefault(key, []).append(('red', I))
        if I in tcmp:
            ev.setdefault(key, []).append(('cmp', I))
        return None
    ex2.run([(run.blocks[0], 0, {}, '')], on_instr=on2)
    succ = {}
    for a, b in ex2.sedges:
        succ.setdefault(a, set()).add(b)
    nocmp = [k for k in ex2.parent if not any(t == 'cmp' for t, _ in ev.get(k, []))]
    ns = set(nocmp)
    # inner fixpoint iterations of one reduction until it stops reducing are not phases: cycles whose only
    # reduction is re-run while it reports REDUCED are decided by (3)
    bad = []
    for comp in flow.sccs(nocmp, lambda v: [w for w in succ.get(v, ()) if w in ns]):
        cyc = len(comp) > 1 or comp[0] in succ.get(comp[0], ())
        if cyc:
            rs = {callee_name(I) for k in comp for t, I in ev.get(k, []) if t == 'red'}
            if len(rs) > 1:
                bad.append((rs, comp))
    for rs, comp in bad:
        rep.bad('time|cycle', 'a cycle of run_presolver runs %s without comparing elapsed time with the limit' % sorted(rs))
    if not bad:
        rep.ok('every cycle over two or more reductions compares the elapsed time (%d states)' % len(ex2.parent))
    # (3) no progress => the main loop ends
    nz = _is_field(M, 'Matrix', 'nnz')
    ncmp, und = {}, 0
    for I in run.instrs():
        if I.op not in ('fcmp', 'icmp') or not any(_depends(o, nz) for o in I.ops):
            continue
        # no progress: the counts before and after are the same
        v = {n: _same_counts(I, nz, n) for n in (7, 1000)}
        if None not in v.values():
            ncmp[I] = v
        elif all(_depends(o, nz) for o in I.ops):
            und += 1
    rep.cov.setdefault('instances', {})['progress comparisons'] = len(ncmp)
    if und:
        rep.cov['progress comparisons undecided'] = und
        rep.ok('progress comparison of a form this check does not decide')
        return
    bad = []
    for n in (1000, 7):
        ex3 = flow.Explorer(run, assume=lambda I, env, s: kconst(1, ncmp[I][n]) if I in ncmp else None)
        ev.clear()
        ex3.run([(run.blocks[0], 0, {}, '')], on_instr=on2)
        succ = {}
        for a, b in ex3.sedges:
            succ.setdefault(a, set()).add(b)
        for comp in flow.sccs(list(ex3.parent), lambda v: succ.get(v, ())):
            cyc = len(comp) > 1 or comp[0] in succ.get(comp[0], ())
            if cyc:
                rs = {callee_name(I) for k in comp for t, I in ev.get(k, []) if t == 'red'}
                if len(rs) > 1:
                    bad.append((n, rs))
        if bad:
            break
    for n, rs in bad:
        rep.bad('progress|cycle', 'run_presolver can cycle through %s for ever although no phase removes non-zeros%s' % (
            sorted(rs), ' (decided for a matrix with %d non-zeros)' % n if n != 1000 else ''))
    if not bad:
        rep.ok('without progress the presolve loop terminates (%d states)' % len(ex3.parent))
    restart(rep, M, run, tcmp, redcalls, mt, tm)


def restart(rep, M, run, tcmp, redcalls, mt, tm):
    """where the elapsed time compared with the limit is the difference of two clock readings, the earlier one is taken once:
    not again after a reduction has run"""
    und = 0
    slots = {}
    for I in tcmp:
        lv = []
        for k, o in enumerate(I.ops):
            _arith(o, lambda x, sg, sc: lv.append((x, sg if k == 0 else -sg, sc)))
        late = [s for x, s, _ in lv if mt(x)]
        ts = [(x, s) for x, s, _ in lv if tm(x)]
        if len(late) != 1 or any(not (mt(x) or tm(x) or x.op == 'const') or not s for x, s, _ in lv) or _depends_phi(I):
            und += 1
            continue
        for x, s in ts:
            # same sign as the limit: the time the run started
            if s == late[0]:
                k = _slot(x.ops[0])
                if k:
                    slots.setdefault(k, x)
    # a timer handed over by value: the reading it was copied from
    for _ in range(3):
        for J in run.instrs():
            if J.op == 'call' and (callee_name(J) or '').startswith(('llvm.memcpy', 'memcpy')):
                d, sr = _slot(J.ops[0]), _slot(J.ops[1])
                for q in [q for q in slots if d and sr and q[0] is d[0] and q[1] >= d[1]]:
                    slots.setdefault((sr[0], q[1] - d[1] + sr[1]), slots[q])
    n = 0
    reach = {}
    for I in redcalls:
        st, seen = list(I.bb.succs), set()
        while st:
            b = st.pop()
            if b not in seen:
                seen.add(b)
                st.extend(b.succs)
        reach[I] = seen
    for J in run.instrs():
        if J.op != 'call' or callee_name(J) != 'clock_gettime':
            continue
        k = _slot(J.ops[1])
        if not k or not any(q[0] is k[0] and k[1] <= q[1] < k[1] + 16 for q in slots):
            continue
        n += 1
        for I in redcalls:
            if J.bb in reach[I] or J.bb is I.bb and I.bb.ins.index(I) < I.bb.ins.index(J):
                rep.bad('time|restart', 'the clock reading the time limit is measured from is taken again at %s, after %s may have '
                        'run' % (fmt(J), callee_name(I)))
                return
    if und:
        rep.cov['elapsed time of another form (start of measurement undecided)'] = und
    rep.ok('the time limit is measured from one clock reading before the first reduction', n=n)


def _depends_phi(I):
    return any(_depends(o, lambda v: v.op == 'phi') for o in I.ops)


def _slot(p):
    """(alloca, byte offset) of a constant address"""
    off = 0
    for _ in range(8):
        if p.op == 'alloca':
            return (p, off)
        if p.op != 'gep':
            return None
        o = vf._constoff(p)
        if o is None:
            return None
        off += o
        p = p.ops[0]
    return None


def _greater(pred):
    """True: the comparison says left > right (or >=), False: left < right, None: neither"""
    q = pred[-2:]
    return True if q in ('gt', 'ge') else False if q in ('lt', 'le') else None


def _arith(v, f, sg=1, sc=False, depth=0):
    """visit the leaves of an arithmetic expression with their sign and whether a constant scales them"""
    if depth > 14 or v is None:
        return
    if v.op in ('zext', 'sext', 'trunc', 'sitofp', 'uitofp', 'freeze', 'fptosi', 'fptoui'):
        _arith(v.ops[0], f, sg, sc, depth + 1)
    elif v.op in ('fadd', 'add'):
        for o in v.ops:
            _arith(o, f, sg, sc, depth + 1)
    elif v.op in ('fsub', 'sub'):
        _arith(v.ops[0], f, sg, sc, depth + 1)
        _arith(v.ops[1], f, -sg, sc, depth + 1)
    elif v.op == 'fneg':
        _arith(v.ops[0], f, -sg, sc, depth + 1)
    elif v.op == 'call' and (callee_name(v) or '').startswith(('llvm.fma', 'llvm.fmuladd')):
        _arith(v.ops[2], f, sg, sc, depth + 1)
        for k in (0, 1):
            c = v.ops[1 - k]
            if c.op == 'const' and c.kind == 'fp':
                _arith(v.ops[k], f, sg if c.val > 0 else -sg, True, depth + 1)
                return
        f(v.ops[0], 0, sc)
        f(v.ops[1], 0, sc)
    elif v.op in ('fmul', 'mul', 'fdiv', 'sdiv', 'udiv', 'shl', 'lshr'):
        for k, o in enumerate(v.ops):
            c = v.ops[1 - k]
            if c.op == 'const' and c.kind in ('int', 'fp') and (k == 0 or v.op in ('fmul', 'mul')):
                x = float(c.val)
                one = 1.0 if v.op not in ('shl', 'lshr') else 0.0
                _arith(o, f, sg if x > 0 else -sg, sc or x != one, depth + 1)
                return
        f(v, 0, sc)
    elif v.op in ('phi', 'select'):
        for o in (v.ops if v.op == 'phi' else v.ops[1:]):
            _arith(o, f, sg, sc, depth + 1)
    else:
        f(v, sg, sc)


def _signs(v, pred):
    out = set()
    _arith(v, lambda x, sg, sc: out.add(sg) if sg and pred(x) or not sg and _depends(x, pred) else None)
    return out


def _same_counts(I, nz, n):
    """outcome of a comparison when every non-zero count in it is n"""
    def ev(v, seen):
        if nz(v):
            return {n}
        if v.op == 'const' and v.kind in ('int', 'fp'):
            return {v.val}
        fma = v.op == 'call' and (callee_name(v) or '').startswith(('llvm.fma', 'llvm.fmuladd'))
        if v in seen or v.op in ('load', 'call', 'arg', 'global', 'const') and not fma:
            return None if v not in seen else set()
        if v.op in ('phi', 'select'):
            out = set()
            for o in (v.ops if v.op == 'phi' else v.ops[1:]):
                x = ev(o, seen | {v})
                if x is None:
                    return None
                out |= x
            return out
        xs = [ev(o, seen | {v}) for o in (v.ops[:3] if fma else v.ops)]
        if any(x is None or len(x) > 1 for x in xs):
            return None
        if any(not x for x in xs):
            return set()
        a = [list(x)[0] for x in xs]
        if fma:
            return {a[0] * a[1] + a[2]}
        if v.op in ('zext', 'sext', 'trunc', 'sitofp', 'uitofp', 'freeze', 'fptosi', 'fptoui', 'fpext', 'fptrunc'):
            return {a[0]}
        if v.op == 'fneg':
            return {-a[0]}
        try:
            return {{'add': lambda: a[0] + a[1], 'sub': lambda: a[0] - a[1], 'mul': lambda: a[0] * a[1], 'div': lambda: a[0] / a[1],
                     'shl': lambda: a[0] << a[1], 'shr': lambda: a[0] >> a[1]}[v.op[-3:]]()}
        except (KeyError, ZeroDivisionError, TypeError):
            return None
    xs = [ev(o, frozenset()) for o in I.ops]
    if any(not x or len(x) > 1 for x in xs):
        return None
    d = list(xs[0])[0] - list(xs[1])[0]
    q = I.pred[-2:]
    f = {'eq': d == 0, 'ne': d != 0, 'lt': d < 0, 'le': d <= 0, 'gt': d > 0, 'ge': d >= 0}.get(q)
    return None if f is None else int(f)


# ---------------------------------------------------------------- V01 verdicts
VERDICT_RULE = ("for every call of a status-returning function and every verdict v (infeasible / unbounded-or-infeasible) "
                "in its computed return set: on every path from the call to a return of the enclosing function, with the "
                "call's result assumed v, the returned status has v's bits (disjunctive known-bits propagation); functions "
                "that call status functions without returning a status are inlined into their callers first")


def status_module(cfg='release'):
    B = build.module(cfg)
    sig = B.info.sigs
    status = {f.name for f in B.defined() if sig.get(re.sub(r'\.\d+$', '', f.name), ('',))[0] == 'PresolveStatus'}
    keep = set(status)
    # address-taken functions must stay as well (they are not inlined at their address)
    M = build.module(cfg, inline=True, noinline=keep, tag='status')
    return M, status


def splitter(S, taken):
    def f(J, env):
        if J.ty is None or J.ty.kind != 'int' or J.ty.width != 8:
            return None
        n = callee_name(J)
        if n is None:
            vs = set()
            for t in taken:
                vs |= S[t]
        elif n in S:
            vs = S[n]
        else:
            return None
        return [kconst(8, x) for x in sorted(vs)]
    return f


def _rets(f, S, taken):
    ex = flow.Explorer(f, split=splitter(S, taken))
    out = set()

    def on(J, env, tag, key):
        if J.op == 'ret' and J.ops:
            kb = ex.get(env, J.ops[0])
            if kb is None:
                kb = flow.KB(8)
            unk = [1 << i for i in range(8) if not kb.known() >> i & 1]
            if len(unk) > 4:
                out.update({0, 1, 2, 3, 6, 7})
                return None
            vs = [kb.o]
            for u in unk:
                vs += [v | u for v in vs]
            out.update(vs)
        return None
    ex.run([(f.blocks[0], 0, {}, '')], on_instr=on)
    return out


def return_sets(M, status):
    """may-return values of each status function: least fixed point over the call graph, path-sensitive within a
    function (disjunctive known bits, one path per value a callee may return)"""
    taken = set()
    for f in M.defined():
        for I in f.instrs():
            for o in I.ops:
                for n in common._fn_consts(o):
                    if n in status:
                        taken.add(n)
    S = {f: set() for f in status}
    for _ in range(30):
        ch = False
        for n in sorted(status):
            f = M.functions.get(n)
            if f is None or f.is_decl:
                continue
            r = _rets(f, S, taken)
            if not r <= S[n]:
                S[n] |= r
                ch = True
        if not ch:
            break
    else:
        raise build.AnalysisError('return sets do not stabilise')
    return S, taken


def verdict(rep):
    K = build.constants(['INFEASIBLE', 'UNBNDORINFEAS', 'UNCHANGED', 'REDUCED'])
    INFEAS, UNB = int(K['INFEASIBLE']), int(K['UNBNDORINFEAS'])
    for cfg in (('release',) if rep.tier == 'quick' else ('release', 'debug')):
        M, status = status_module(cfg)
        S, taken = return_sets(M, status)
        if cfg == 'release':
            rep.cov['return_sets'] = {k: sorted(v) for k, v in sorted(S.items())}
        g = common.callgraph(M)
        seen, par = common.reachable(g, ['run_presolver'])
        nsite = 0
        for f in M.defined():
            if f.name not in seen:
                continue
            ex = None
            for I in list(calls(f)):
                n = callee_name(I)
                if n is not None and n not in status:
                    continue
                if n is None:
                    if I.ty.kind != 'int' or I.ty.width != 8:
                        continue
                    vs = set()
                    for t in taken:
                        vs |= S[t]
                else:
                    vs = S[n]
                bad = sorted(v for v in vs if v & INFEAS == INFEAS)
                if not bad:
                    continue
                nsite += 1
                if n is not None and _value_is_own_bound(M, f, I):
                    rep.ok('%s in %s: fixes the variable at one of its own bounds, the verdict cannot arise' % (n, f.name))
                    continue
                for v in bad:
                    res = _follow(M, f, I, v, status, S, UNB, taken)
                    if res is None:
                        rep.ok('%s at %s: verdict %d always returned' % (n or 'indirect call', I.loc, v))
                    else:
                        rep.bad('%s|%s|%s' % (f.name, n or 'indirect', v),
                                'verdict %s of %s (called at %s) is lost: %s' % (
                                    'INFEASIBLE' if v & UNB == INFEAS else 'UNBNDORINFEAS', n or 'the called bound updater',
                                    fmt(I), res))
        rep.need('verdict-carrying call sites (%s)' % cfg, nsite, 30)


def _follow(M, f, I, v, status, S, UNB, taken):
    sp = splitter(S, taken)
    ex = flow.Explorer(f, split=sp)
    idx = I.bb.ins.index(I) + 1
    rets_status = f.rty.kind == 'int'
    bad = []

    def on(J, env, tag, key):
        if J.op == 'call':
            n = callee_name(J)
            if n in status or n is None:
                return 'other'
        if J.op == 'ret':
            if not J.ops:
                bad.append('%s returns nothing at %s' % (f.name, J.loc))
                return 'stop'
            kb = ex.get(env, J.ops[0])
            if kb is None or (kb.o & v & UNB) != v & UNB:
                path = [b for b in flow.trace(ex, key)]
                bad.append('path through %s returns %s' % (
                    _lines(path), 'status %s' % (kb.const() if kb is not None and kb.const() is not None else
                                                'not containing it')))
                return 'stop'
            c = kb.const()
            if tag == 'own' and c is not None and (c ^ v) & UNB:
                bad.append('it is returned as status %d' % c)
                return 'stop'
        return None
    # what is known when the call is reached (loop-carried statuses included)
    pre = {}

    def before(J, env, tag, key):
        if J is I:
            env = {k: x for k, x in env.items() if k is not I}
            pre.setdefault(frozenset((id(k), x.key()) for k, x in env.items()), dict(env))
    flow.Explorer(f, split=sp).run([(f.blocks[0], 0, {}, '')], on_instr=before)
    for env in pre.values():
        e = dict(env)
        e[I] = kconst(8, v)
        # an earlier verdict that is still pending may legitimately widen this one
        widened = any(x.o & UNB & ~v for k, x in env.items() if k.ty is not None and k.ty.kind == 'int' and k.ty.width in (8, 32))
        ex.run([(I.bb, idx, e, 'other' if widened else 'own')], on_instr=on)
        if bad:
            break
    return bad[0] if bad else None


def _lines(path):
    out = []
    for b in path:
        for J in b.ins:
            if J.loc:
                l = '%s:%d' % (J.loc.file, J.loc.line)
                if not out or out[-1] != l:
                    out.append(l)
                break
    if len(out) > 12:
        out = out[:6] + ['...'] + out[-5:]
    return ' -> '.join(out)


def _path(M, v, depth=0):
    """syntactic access path of an address or loaded value (for must-equality)"""
    if depth > 12:
        return None
    if v.op == 'arg':
        return 'arg%d' % v.idx
    if v.op == 'gep':
        base = _path(M, v.ops[0], depth + 1)
        if base is None:
            return None
        s = base
        cur = v.aty
        for k, i in enumerate(v.ops[1:]):
            if k == 0:
                if not (i.op == 'const' and i.val == 0):
                    s += '[%s]' % _path(M, i, depth + 1)
                continue
            if cur.kind == 'struct':
                s += '.' + build.field_name(M, cur, i.val)
                cur = cur.elems[i.val]
            else:
                s += '[%s]' % _path(M, i, depth + 1)
                cur = cur.elems[0]
        return s
    if v.op == 'load':
        b = _path(M, v.ops[0], depth + 1)
        return None if b is None else '*(%s)' % b
    if v.op in ('sext', 'zext', 'trunc'):
        return _path(M, v.ops[0], depth + 1)
    if v.op == 'const':
        return str(v.val)
    return 'v%d' % id(v)


def _strip(v):
    while v.op in ('sext', 'zext', 'trunc', 'freeze'):
        v = v.ops[0]
    return v


def bound_slot(M, addr):
    """addr of bounds[ix].lb/.ub -> (ix, field) with ix None for a plain Bound object"""
    pf = ptr_field(M, addr)
    if not pf or pf[0] != 'Bound':
        return None
    g = addr
    if g.op == 'gep' and len(g.ops) == 3:
        if not (g.ops[1].op == 'const' and g.ops[1].val == 0):
            return g.ops[1], pf[1]
        g = g.ops[0]
    if g.op == 'gep' and len(g.ops) == 2:
        return g.ops[1], pf[1]
    return None


def _call_sites(M, f):
    """actual argument lists for f (direct calls, and indirect calls when its address is taken); None = unknown"""
    out = []
    taken = False
    for g in M.defined():
        for J in g.instrs():
            if J.op == 'call' and callee_name(J) == f.name:
                out.append(J)
            for o in J.ops:
                if f.name in common._fn_consts(o):
                    taken = True
    if taken:
        for g in M.defined():
            for J in calls(g):
                if callee_name(J) is None and len(J.ops) == len(f.args):
                    out.append(J)
    return out


def _value_is_own_bound(M, f, I):
    """call (..., col, val, ...): val was loaded from bounds[col].lb/.ub (through copies and arguments)"""
    cols = [o for o in I.ops if o.ty.kind == 'int' and o.ty.width == 32]
    vals = [o for o in I.ops if o.ty.kind == 'double']
    if len(cols) != 1 or not vals:
        return False
    return _own(M, f, vals[0], cols[0])


def _own(M, f, v, col, depth=0):
    if depth > 8:
        return False
    col = _strip(col)
    if v.op == 'load':
        bs = bound_slot(M, v.ops[0])
        if bs is None:
            return False
        ix = _strip(bs[0])
        return ix is col or _path(M, ix) == _path(M, col)
    if v.op in ('phi', 'select'):
        os = v.ops if v.op == 'phi' else v.ops[1:]
        return all(_own(M, f, o, col, depth + 1) for o in os)
    if v.op == 'arg' and col.op == 'arg':
        cs = _call_sites(M, f)
        return bool(cs) and all(_own(M, J.bb.fn, J.ops[v.idx], J.ops[col.idx], depth + 1) for J in cs)
    return False
