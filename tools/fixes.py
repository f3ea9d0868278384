"""which check reports each repaired defect again when its repair is taken back: fixes.py [commit...]"""
import os
import shutil
import subprocess
import sys
import tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/sa')
import registry  # noqa: E402


def git(*a, **k):
    return subprocess.run(('git', '-C', '/repo') + a, capture_output=True, text=True, **k).stdout


cs = sys.argv[1:] or [l.split()[0] for l in git('log', '--format=%h %s').splitlines() if l.split(' ', 1)[1].startswith('fix:')]
for c in cs:
    t = tempfile.mkdtemp(prefix='fix.')
    try:
        r = t + '/repo'
        os.mkdir(r)
        for d in ('include', 'src'):
            shutil.copytree('/repo/' + d, r + '/' + d)
        p = subprocess.run(['patch', '-R', '-p1', '-s', '--no-backup-if-mismatch'], cwd=r, input=git('show', c), text=True, capture_output=True)
        got = []
        ps = [(i, subprocess.Popen([sys.executable, V + '/sa/run.py', i, 'quick'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                                   env=dict(os.environ, PSLP_REPO=r, SA_EVIDENCE='%s/ev%s' % (t, i)))) for i in registry.TABLE]
        for i, q in ps:
            o = q.communicate()[0]
            if q.returncode == 1:
                got.append(i + ': ' + ([l for l in o.splitlines() if l.startswith('  ')] or ['?'])[0].strip()[:140])
            elif q.returncode:
                got.append(i + ' ERROR')
        print(c, 'PATCH FAILED' if p.returncode else '', git('log', '-1', '--format=%s', c).strip()[:80])
        for g in got:
            print('     ', g, flush=True)
    finally:
        shutil.rmtree(t)
