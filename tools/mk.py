#!/usr/bin/env python3
"""tools/mk.py NAME PROPERTY 'needs' 'what' file old new [file old new ...] with demo.c text on stdin: writes seeded/NAME"""
import json
import os
import subprocess
import sys
import tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# cwd: /repo. Compiles the library sources with the demo program and runs it.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
src=$(ls src/core/*.c src/explorers/*.c | grep -v Debugger.c)
gcc -std=c99 -D_POSIX_C_SOURCE=200809L -DPSLP_VERSION='"demo"' -DNDEBUG -O1 -g -w FLAGS -Iinclude -Iinclude/PSLP -Iinclude/core \\
    -Iinclude/data_structures -Iinclude/explorers $src "$here/demo.c" -o "$t/demo" -lm -lpthread || exit 2
cd "$t" && timeout 120 ./demo
'''


def make(name, prop, needs, what, edits, demo, flags='', sh=None):
    d = os.path.join(V, 'seeded', name)
    os.makedirs(d, exist_ok=True)
    diff = ''
    byf = {}
    for f, a, b in edits:
        s = byf.get(f) or open('/repo/' + f).read()
        assert s.count(a) == 1, (name, f, a, s.count(a))
        byf[f] = s.replace(a, b)
    for f, s in byf.items():
        with tempfile.NamedTemporaryFile('w', delete=False) as t:
            t.write(s)
        p = subprocess.run(['diff', '-u', '--label', 'a/' + f, '--label', 'b/' + f, '/repo/' + f, t.name], capture_output=True, text=True)
        diff += p.stdout
        os.unlink(t.name)
    open(d + '/patch.diff', 'w').write(diff)
    if demo is not None:
        open(d + '/demo.c', 'w').write(demo)
    open(d + '/demo.sh', 'w').write(sh if sh else DEMO.replace('FLAGS', flags))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + '/meta.json', 'w'), indent=1)
