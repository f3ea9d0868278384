"""seeds shown by tools/planted.c (random problems around a known optimal point); the edits are those of the trials"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import trial
from mk import V, make

DEMO = open(V + '/tools/planted.c').read()


def edits(prop, label):
    got = []
    old = trial.run
    trial.run = lambda pid, ts: got.extend(ts)
    f = V + '/tools/trials/%s.py' % prop
    try:
        exec(compile(open(f).read(), f, 'exec'), {'__name__': '__main__', '__file__': f})
    finally:
        trial.run = old
    es, = [e for l, x, e in got if l == label]
    out = {}
    for p, a, b in es:
        s = out.get(p) or open('/repo/' + p).read()
        assert a in s
        out[p] = s.replace(a, b, 1)
    return [(p, open('/repo/' + p).read(), s) for p, s in out.items()]


def seed(name, label, needs, what):
    prop = name[:3]
    make(name, prop, needs, what, edits(prop, label), DEMO)


seed('N01-free-row', 'row else', 'a row that is free on both sides', 'the left side of a free row is not marked infinite')
seed('L01-long-row-closed', 'ston 523 len', 'an inequality closed by a singleton column whose row has at most two other entries, then a dual-fix of one of them',
     'the locks of a short row do not see that its right side became finite')
seed('L01-parallel-lhs', 'pr inf', 'a left side tightened from infinite by a parallel row with positive coefficients',
     'down-locks are removed where they have to be added')
seed('O01-no-offset', 'sub no off', 'a column substituted with an equality of two entries and a right side that is not zero',
     'the constant part of the substitution is missing in the offset')
seed('O01-empty-skip', 'empty skip', 'an empty column with negative cost that goes to its upper bound', 'its contribution is missing in the offset')
seed('D02-active-side', 'ston active', 'a singleton column in an inequality whose cost pushes the row to its other side', 'the wrong side becomes active')
seed('D02-dual-fix-tag', 'sdf inf tag', 'a column without locks whose bound on the side of its cost is infinite', 'it is taken for bounded (or the reverse)')
seed('V04-gondzio', 'gondzio tag', 'a row with one infinite contribution from another column than the one whose bound is examined',
     'a bound is taken for implied by a row whose activity is infinite')
seed('B01-ston-mirror', 'ston neg not mirrored', 'a singleton row with two different finite sides and a negative coefficient', 'the new bounds are not mirrored')
seed('B01-margin', 'prop margin wrong way', 'a propagated bound that is not an integer and that is tight at the optimum', 'the safety margin cuts into the feasible set')
seed('K02-no-recompute', 'no recompute', 'the last infinite contribution to an activity of a row disappears and the activity is used afterwards',
     'the activity stays what it was')
seed('K02-dton-bounds', 'dton bounds of other', 'a doubleton substitution that changes rows whose two columns have different bounds',
     'activities are updated with the bounds of the other column')
