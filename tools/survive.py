#!/usr/bin/env python3
"""tools/survive.py NAME: which of the bugs in tools/trials/NAME.py pass the existing tests (scratch copies)"""
import importlib.util
import os
import shutil
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
from seed import sh


def one(t):
    label, exp, edits = t
    if exp != 'V':
        return None
    tmp = tempfile.mkdtemp(prefix='sv.')
    r = tmp + '/repo'
    try:
        sh('git -C /repo archive HEAD | tar x -C %s --one-top-level=repo' % tmp)
        for f, a, b in edits:
            s = open(r + '/' + f).read()
            if a not in s:
                return label + ': EDIT NOT FOUND'
            open(r + '/' + f, 'w').write(s.replace(a, b, 1))
        rc, o = sh('cmake -S . -B b -G Ninja -DCMAKE_BUILD_TYPE=Debug -DPSLP_BUILD_TESTING=ON '
                   '-DCMAKE_PROJECT_PSLP_INCLUDE=/opt/vp/harness/each_test.cmake >/dev/null && ninja -C b -j2 all test_cpp', cwd=r,
                   env=dict(os.environ, CC='gcc', CXX='g++'))
        if rc:
            return label + ': BUILD FAILS ' + o[-300:]
        rc, o = sh('VP_RESULTS=each.txt timeout 300 ./all_tests_each', cwd=r + '/b')
        o = open(r + '/b/each.txt').read() if os.path.exists(r + '/b/each.txt') else ''
        n = sum('PASS' not in l for l in o.splitlines())
        return '%s: %s' % (label, 'SURVIVES' if not n and o else '%d tests fail' % n)
    finally:
        shutil.rmtree(tmp)


class Stop(Exception):
    pass


trials = []
import trial
trial.run = lambda pid, ts: trials.extend(ts)
sys.argv = [sys.argv[0], sys.argv[1]]
src = open(V + '/tools/trials/%s.py' % sys.argv[1]).read()
exec(compile(src, V + '/tools/trials/x.py', 'exec'), {'__name__': '__main__', '__file__': V + '/tools/trials/x.py'})
with ThreadPoolExecutor(5) as ex:
    for o in ex.map(one, trials):
        if o:
            print(o, flush=True)
