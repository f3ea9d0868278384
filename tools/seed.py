#!/usr/bin/env python3
"""tools/seed.py DIR: verify /verif/seeded/<DIR> (patch applies to HEAD, builds, stable tests pass, demo 0/nonzero) in a
scratch copy, then run the checks against it (PSLP_REPO=scratch).   tools/seed.py --all"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(c, cwd=None, env=None, t=900):
    p = subprocess.run(c, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=t)
    return p.returncode, p.stdout + p.stderr


def verify(d, full=True):
    sd = os.path.join(V, 'seeded', d)
    meta = json.load(open(sd + '/meta.json'))
    tmp = tempfile.mkdtemp(prefix='seed.')
    r = os.path.join(tmp, 'repo')
    out = [d, meta['property']]
    try:
        sh('git -C /repo archive HEAD | tar x -C %s --one-top-level=repo' % tmp)
        if full:
            rc, o = sh('bash %s/demo.sh' % sd, cwd=r)
            out.append('demo-clean=%d' % rc)
            if rc:
                print(o[-1500:])
        rc, o = sh('git init -q . ; git apply %s/patch.diff' % sd, cwd=r)
        if rc:
            out.append('PATCH FAILS ' + o[-300:])
            return out
        if full:
            rc, o = sh('bash %s/demo.sh' % sd, cwd=r)
            out.append('demo-bug=%d' % rc)
            rc, o = sh('cmake -S . -B b -G Ninja -DCMAKE_BUILD_TYPE=Debug -DPSLP_BUILD_TESTING=ON '
                       '-DCMAKE_PROJECT_PSLP_INCLUDE=/opt/vp/harness/each_test.cmake >/dev/null && ninja -C b all test_cpp', cwd=r,
                       env=dict(os.environ, CC='gcc', CXX='g++'))
            if rc:
                out.append('BUILD FAILS ' + o[-800:])
            rc, o = sh('VP_RESULTS=each.txt timeout 300 ./all_tests_each; ./all_tests && ./test_cpp', cwd=r + '/b')
            o = open(r + '/b/each.txt').read() if os.path.exists(r + '/b/each.txt') else ''
            fails = [l for l in o.splitlines() if 'PASS' not in l]
            out.append('tests rc=%d fail=%s' % (rc, fails[:4]))
        rc, o = sh('python3 sa/run.py %s quick' % meta['property'], cwd=V, env=dict(os.environ, PSLP_REPO=r, SA_EVIDENCE=tmp))
        out.append('CHECK rc=%d %s' % (rc, 'CAUGHT' if rc == 1 else 'missed'))
        if rc == 1:
            out.append('\n      '.join(o.splitlines()[1:4])[:600])
        elif rc:
            out.append(o[-400:])
        return out
    finally:
        shutil.rmtree(tmp)


if __name__ == '__main__':
    full = '--check' not in sys.argv
    a = [x for x in sys.argv[1:] if not x.startswith('--')]
    if '--all' in sys.argv:
        a = sorted(os.listdir(V + '/seeded'))
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(6) as ex:
        for o in ex.map(lambda d: verify(d, full), a):
            print(' | '.join(o), flush=True)
