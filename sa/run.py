#!/usr/bin/env python3
"""python3 sa/run.py <PROPERTY> [quick|thorough]"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import check
import registry

if __name__ == '__main__':
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    fn, rule = registry.get(pid)
    sys.exit(check.main(pid, tier, fn, rule))
