"""behaviour-preserving edits: every check must stay quiet.  refactor.py [label-substring...] [--checks=A,B]"""
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, V + '/sa')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry  # noqa: E402
from refactor_edits import E  # noqa: E402
import refactor_edits2  # noqa: E402,F401


def one(label, edits, checks):
    t = tempfile.mkdtemp(prefix='rf.')
    try:
        r = t + '/repo'
        os.mkdir(r)
        for d in ('include', 'src'):
            shutil.copytree('/repo/' + d, r + '/' + d)
        fs = set()
        for f, a, b in edits:
            s = open(r + '/' + f).read()
            if a not in s:
                return '%s: EDIT NOT FOUND %r' % (label, a[:60])
            open(r + '/' + f, 'w').write(s.replace(a, b, 1))
            fs.add(f)
        for f in fs:
            c = [f] if f.endswith('.c') else []
            for x in c:
                p = subprocess.run(['gcc', '-std=gnu99', '-D_GNU_SOURCE', '-DPSLP_VERSION="x"', '-c', '-o', '/dev/null', '-I', 'include', '-I', 'include/PSLP', '-I', 'include/core',
                                    '-I', 'include/explorers', '-I', 'include/data_structures', x], cwd=r, capture_output=True, text=True)
                if p.returncode:
                    return '%s: DOES NOT COMPILE %s' % (label, p.stderr[:400])
        out = []
        for i in checks:
            try:
                p = subprocess.run([sys.executable, V + '/sa/run.py', i, 'quick'], capture_output=True, text=True, timeout=1500,
                                   env=dict(os.environ, PSLP_REPO=r, SA_EVIDENCE=t + '/ev'))
            except subprocess.TimeoutExpired:
                out.append(i + ' TIMEOUT')
                continue
            if p.returncode:
                L = [l for l in p.stdout.splitlines() if not l.startswith('VIOLATION') and l.startswith('  ')]
                out.append('%s rc=%d %s' % (i, p.returncode, (' // '.join(L) or p.stderr[-300:])[:400]))
        return '%s %s: %s' % ('ok ' if not out else 'BAD', label, ' || '.join(out))
    finally:
        shutil.rmtree(t)


def main():
    checks = list(registry.TABLE)
    sel = []
    for a in sys.argv[1:]:
        if a.startswith('--checks='):
            checks = a[9:].split(',')
        elif a == '--fast':
            checks = [c for c in checks if c not in ('V04', 'D02', 'B01', 'K02')]
        else:
            sel.append(a)
    todo = [e for e in E if not sel or any(x in e[0] for x in sel)]
    with ThreadPoolExecutor(4) as ex:
        for o in ex.map(lambda e: one(e[0], e[1], checks), todo):
            print(o, flush=True)


main()
