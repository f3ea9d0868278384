"""trials for a check: edits given as (label, expect, [(file, old, new)]); expect 'V' (violation) or 'Q' (quiet)."""
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(pid, label, expect, edits):
    t = tempfile.mkdtemp(prefix='try.')
    try:
        r = t + '/repo'
        os.mkdir(r)
        for d in ('include', 'src'):
            shutil.copytree('/repo/' + d, r + '/' + d)
        for f, a, b in edits:
            s = open(r + '/' + f).read()
            if a not in s:
                return '%s: %s EDIT NOT FOUND' % (pid, label)
            open(r + '/' + f, 'w').write(s.replace(a, b, 1))
        p = subprocess.run([sys.executable, V + '/sa/run.py', pid, 'quick'], capture_output=True, text=True,
                           env=dict(os.environ, PSLP_REPO=r, SA_EVIDENCE=t + '/ev'))
        got = {0: 'Q', 1: 'V'}.get(p.returncode, 'ERR')
        L = [l for l in p.stdout.splitlines() if not l.startswith(('VIOLATION', pid))]
        return '%s %-4s %s %s: %s' % ('ok  ' if got == expect else 'BAD ', got, pid, label, (' // '.join(L) or p.stderr[-300:])[:300] if got != 'Q' else '')
    finally:
        shutil.rmtree(t)


def run(pid, trials):
    with ThreadPoolExecutor(6) as ex:
        for o in ex.map(lambda t: one(pid, *t), trials):
            print(o, flush=True)
