"""Front end: /repo's current sources -> LLVM IR (clang 18), several build
configurations, optional whole-tree inlining, struct field names, signatures
and constant values.  Nothing here runs code of the repository."""
import bisect
import glob
import os
import re
import subprocess
import sys
import tempfile
import atexit
import shutil
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import llvmc

REPO = os.environ.get('PSLP_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = next((c for c in ('/usr/bin/clang-18', '/usr/lib/llvm-18/bin/clang', '/usr/bin/clang')
              if os.path.exists(c)), 'clang')


def _tool(n):
    for c in ('/usr/lib/llvm-18/bin/' + n, '/usr/bin/%s-18' % n, '/usr/bin/' + n):
        if os.path.exists(c):
            return c
    return n


OPT, LINK = _tool('opt'), _tool('llvm-link')
INCS = ['include/PSLP', 'include/core', 'include/data_structures', 'include/explorers']
BASE = ['-std=c99', '-D_POSIX_C_SOURCE=200809L', '-DPSLP_VERSION="0.0.6"']
CONFIG = {
    'release': ['-DNDEBUG'],
    'debug': ['-DDEBUGGER_ENABLED'],
    'testing': ['-DDEBUGGER_ENABLED', '-DTESTING'],
}
API = ['default_settings', 'set_settings_true', 'set_settings_false', 'free_settings',
       'new_presolver', 'run_presolver', 'postsolve', 'free_presolver']

_tmp = None


class AnalysisError(Exception):
    """the sources cannot be analysed (build failure, vanished anchor)"""


def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix='pslp_sa_')
        atexit.register(shutil.rmtree, _tmp, True)
    return _tmp


def sources(config):
    fs = sorted(glob.glob(REPO + '/src/core/*.c') + glob.glob(REPO + '/src/explorers/*.c'))
    if config == 'release':
        fs = [f for f in fs if os.path.basename(f) != 'Debugger.c']
    if not fs:
        raise AnalysisError('no sources under %s/src' % REPO)
    return fs


def incs():
    return ['-I%s/%s' % (REPO, i) for i in INCS]


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if r.returncode:
        raise AnalysisError('%s failed:\n%s' % (' '.join(cmd[:3]), r.stderr.decode('utf8', 'replace')[-3000:]))
    return r.stdout


_raw = {}


def raw(config):
    """linked, unoptimised textual IR with debug info"""
    if config in _raw:
        return _raw[config]
    d = tmpdir()
    outs = []

    def one(f):
        o = '%s/%s_%s_%s.ll' % (d, config, os.path.basename(os.path.dirname(f)), os.path.basename(f)[:-2])
        run([CLANG] + BASE + CONFIG[config] + incs() +
            ['-w', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-builtin-printf', '-g', '-S', '-emit-llvm', '-o', o, f])
        return o
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(one, sources(config)))
    full = '%s/%s_all.ll' % (d, config)
    run([LINK, '-S', '-o', full] + outs)
    _raw[config] = full
    return full


def _strip_dbg(text):
    return re.sub(r'^\s*(?:tail )?call void @llvm\.(?:dbg|lifetime)\..*\n', '', text, flags=re.M)


_mods = {}


def module(config='release', inline=False, passes='function(sroa,simplifycfg)', keep=(), rewrite=None, tag='',
           entries=None, noinline=()):
    """Module for a configuration.
    inline: force inlining of every defined function (except those in `noinline`)
    rewrite: function(text)->text applied before optimisation."""
    key = (config, inline, passes, tuple(sorted(keep)), tag, tuple(entries or ()), tuple(sorted(noinline)))
    if key in _mods:
        return _mods[key]
    text = _strip_dbg(open(raw(config)).read())
    if rewrite:
        text = rewrite(text)
    if inline:
        # attribute groups used by definitions get alwaysinline
        used = set(re.findall(r'^define .*?\) (?:local_unnamed_addr )?(#\d+)', text, flags=re.M))
        nxt = 90000
        newattr = []

        def fix(m):
            nonlocal nxt
            line = m.group(0)
            name = re.search(r'@"?([\w.$]+)"?\(', line).group(1)
            if name in noinline:
                return re.sub(r'(#\d+)', r'\1 noinline', line, count=1) if '#' in line else line
            return re.sub(r'\) (local_unnamed_addr )?(#\d+)', r') \1\2 alwaysinline', line, count=1)
        text = re.sub(r'^define .*$', fix, text, flags=re.M)
        text = re.sub(r'^(attributes #\d+ = \{.*?)\bnoinline\b', r'\1', text, flags=re.M)
    d = tmpdir()
    n = len(_mods)
    src = '%s/m%d.ll' % (d, n)
    open(src, 'w').write(text)
    out = '%s/m%d.out.ll' % (d, n)
    pl = passes
    if inline:
        keepapi = ','.join(entries if entries is not None else API)
        pl = 'function(sroa),always-inline,internalize,globaldce,' + passes
        cmd = [OPT, '-S', '-internalize-public-api-list=' + keepapi, '-passes=' + pl, src, '-o', out]
    else:
        cmd = [OPT, '-S', '-passes=' + pl, src, '-o', out]
    run(cmd)
    M = llvmc.load(out, repo_root=REPO)
    M.config = config
    M.path = out
    annotate(M, config)
    _mods[key] = M
    return M


class Info:
    pass


_info = {}


def info(config='release'):
    """struct fields, signatures, function line ranges from debug info"""
    if config in _info:
        return _info[config]
    text = open(raw(config)).read()
    md = {}
    for m in re.finditer(r'^!(\d+) = (?:distinct )?(.*)$', text, flags=re.M):
        md[m.group(1)] = m.group(2)

    def attr(s, k):
        m = re.search(r'\b%s: (?:"([^"]*)"|!(\d+)|([\w|-]+))' % k, s)
        if not m:
            return None
        return m.group(1) if m.group(1) is not None else (m.group(2) or m.group(3))

    def elems(i):
        return re.findall(r'!(\d+)|\b(null)\b', md.get(i, ''))

    def tname(i, depth=0):
        if i is None or i == 'null':
            return 'void'
        s = md.get(i, '')
        if s.startswith('!DIBasicType'):
            return attr(s, 'name')
        if s.startswith('!DICompositeType'):
            return attr(s, 'name') or '(anon)'
        if s.startswith('!DISubroutineType'):
            return 'func'
        if s.startswith('!DIDerivedType'):
            tag = attr(s, 'tag')
            b = attr(s, 'baseType')
            if tag == 'DW_TAG_pointer_type':
                return tname(b) + ' *'
            if tag == 'DW_TAG_const_type':
                t = tname(b)
                return ('const ' + t) if not t.endswith('*') else t + ' const'
            if tag == 'DW_TAG_restrict_type' or tag == 'DW_TAG_volatile_type':
                return tname(b)
            if tag == 'DW_TAG_typedef':
                return attr(s, 'name')
        return '?'
    I = Info()
    I.fields = {}
    I.ftypes = {}
    I.foffs = {}
    typedef_of = {}
    for i, s in md.items():
        if s.startswith('!DIDerivedType') and 'DW_TAG_typedef' in s:
            typedef_of.setdefault(attr(s, 'baseType'), attr(s, 'name'))
    for i, s in md.items():
        if s.startswith('!DICompositeType') and 'DW_TAG_structure_type' in s and 'DIFlagFwdDecl' not in s:
            n = attr(s, 'name') or typedef_of.get(i)
            if not n:
                continue
            fs, ts, os_ = [], [], []
            for e, _ in elems(attr(s, 'elements') or ''):
                q = md.get(e, '')
                if 'DW_TAG_member' in q:
                    fs.append(attr(q, 'name'))
                    ts.append(tname(attr(q, 'baseType')))
                    os_.append((int(attr(q, 'offset') or 0) // 8, int(attr(q, 'size') or 0) // 8))
            I.fields[n] = fs
            I.ftypes[n] = ts
            I.foffs[n] = os_
    I.sigs = {}
    I.fnlines = {}
    files = {}
    for i, s in md.items():
        if s.startswith('!DIFile'):
            fn, dr = attr(s, 'filename'), attr(s, 'directory')
            if fn and not fn.startswith('/'):
                fn = os.path.normpath(os.path.join(dr or '', fn))
            if fn and fn.startswith(REPO):
                fn = fn[len(REPO):].lstrip('/')
            files[i] = fn
    for i, s in md.items():
        if s.startswith('!DISubprogram') and 'DISPFlagDefinition' in s:
            n = attr(s, 'name')
            t = md.get(attr(s, 'type') or '', '')
            ts = attr(t, 'types')
            lst = []
            if ts:
                for a, b in re.findall(r'!(\d+)|\b(null)\b', md.get(ts, '').split('{', 1)[-1]):
                    lst.append(tname(a or None))
            f = files.get(attr(s, 'file'))
            I.sigs.setdefault(n, (lst[0] if lst else 'void', lst[1:]))
            I.fnlines.setdefault(f, []).append((int(attr(s, 'line') or 0), n))
    for f in I.fnlines:
        I.fnlines[f] = sorted(set(I.fnlines[f]))
    I.enums = {}
    for m in re.finditer(r'!DIEnumerator\(name: "(\w+)", value: (-?\d+)', text):
        I.enums[m.group(1)] = int(m.group(2))
    _info[config] = I
    return I


def fn_at(I, f, line):
    l = I.fnlines.get(f)
    if not l:
        return None
    k = bisect.bisect_right(l, (line, '\xff')) - 1
    return l[k][1] if k >= 0 else None


def annotate(M, config):
    I = info(config)
    M.info = I
    seen = set()
    for f in M.defined():
        for i in f.instrs():
            l = i.loc
            while l is not None and id(l) not in seen:
                seen.add(id(l))
                l.fn = fn_at(I, l.file, l.line)
                l = l.inl


def field_name(M, ty, idx):
    n = ty.name
    if n is None:
        return str(idx)
    n = re.sub(r'^(struct|union)\.', '', n)
    n = re.sub(r'\.\d+$', '', n)
    fs = M.info.fields.get(n)
    if fs and idx < len(fs):
        return fs[idx]
    return str(idx)


def struct_base(ty):
    if ty is None or ty.kind != 'struct' or not ty.name:
        return None
    return re.sub(r'\.\d+$', '', re.sub(r'^(struct|union)\.', '', ty.name))


_probe = {}


def constants(names, config='release', headers=None):
    """compile-time values of enumerators/macros, read from IR initialisers"""
    headers = headers or ['PSLP_status.h', 'Tags.h', 'Numerics.h', 'glbopts.h', 'Postsolver.h', 'Activity.h',
                          'PSLP_API.h']
    d = tmpdir()
    c = '%s/probe.c' % d
    with open(c, 'w') as f:
        for h in headers:
            f.write('#include "%s"\n' % h)
        for k, n in enumerate(names):
            f.write('const double vtp_%d = (double)(%s);\n' % (k, n))
    o = c[:-2] + '.ll'
    run([CLANG] + BASE + CONFIG[config] + incs() + ['-w', '-O0', '-S', '-emit-llvm', '-o', o, c])
    M = llvmc.load(o)
    return {n: M.globals['vtp_%d' % k].init.val for k, n in enumerate(names)}
