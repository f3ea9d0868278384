#!/usr/bin/env python3
"""setup_cmd: checks that the toolchain the analyses need is present and works offline."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import build

M = build.module('release')
n = len(list(M.defined()))
print('release IR of /repo: %d functions' % n)
sys.exit(0 if n > 50 else 1)
