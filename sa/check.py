"""Check driver: known findings, evidence, VIOLATION / KNOWN-FINDING lines."""
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build

VERIF = build.VERIF


class Report:
    def __init__(s, pid, tier):
        s.pid = pid; s.tier = tier
        s.obligations = 0; s.discharged = 0
        s.viol = []          # (key, text)
        s.samples = []
        s.cov = {}
        s.assumptions = []
        s.minimum = {}       # name -> (count, min)

    def ok(s, what=None, n=1):
        s.obligations += n; s.discharged += n
        if what and len(s.samples) < 12:
            s.samples.append(what)

    def bad(s, key, text):
        """key: stable identification of the failing construct"""
        s.obligations += 1
        if all(k != key for k, _ in s.viol):
            s.viol.append((key, text))

    def check(s, cond, key, text, what=None):
        if cond:
            s.ok(what)
        else:
            s.bad(key, text)
        return cond

    def need(s, name, count, least):
        """anchor guard: the rule must have matched at least `least` instances"""
        s.minimum[name] = (count, least)
        s.cov.setdefault('instances', {})[name] = count


_job = None


def _one(i):
    xs, fn, pid, tier = _job
    r = Report(pid, tier)
    try:
        c = fn(xs[i], r) or {}
    except build.AnalysisError as e:
        return 'AE', str(e)
    except Exception:
        return 'EX', traceback.format_exc()
    return r.obligations, r.discharged, r.viol, r.samples, c


def fan(rep, xs, fn):
    """fn(x, report) -> {name: count or {name: count}} for every x in processes of their own; returns the summed counts"""
    global _job
    import multiprocessing as mp
    _job = (xs, fn, rep.pid, rep.tier)
    tot = {}
    with mp.get_context('fork').Pool(min(8, os.cpu_count() or 1)) as p:
        rs = p.map(_one, range(len(xs)), chunksize=1)
    for r in rs:
        if r[0] == 'AE':
            raise build.AnalysisError(r[1])
        if r[0] == 'EX':
            raise RuntimeError(r[1])
        o, d, v, sm, c = r
        rep.obligations += o - len(v)
        rep.discharged += d
        rep.samples += sm[:3]
        for k, t in v:
            rep.bad(k, t)
        for k, n in c.items():
            if isinstance(n, dict):
                for a, b in n.items():
                    tot.setdefault(k, {})[a] = tot.get(k, {}).get(a, 0) + b
            else:
                tot[k] = tot.get(k, 0) + n
    return tot


def findings():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get('findings', [])


def main(pid, tier, fn, rule):
    t0 = time.time()
    rep = Report(pid, tier)
    try:
        fn(rep)
    except build.AnalysisError as e:
        print('ANALYSIS-ERROR property=%s %s' % (pid, e))
        return 3
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-ERROR property=%s internal error' % pid)
        return 4
    known = [f for f in findings() if f.get('property') == pid]
    kk = {f['key']: f for f in known}
    new = [(k, t) for k, t in rep.viol if k not in kk]
    old = [(k, t) for k, t in rep.viol if k in kk]
    for n, (c, l) in rep.minimum.items():
        if c < l and not new:
            print('ANALYSIS-ERROR property=%s anchor "%s": %d instances, at least %d expected' % (pid, n, c, l))
            return 3
    for k, t in old:
        print('KNOWN-FINDING: property=%s %s' % (pid, kk[k].get('what', t)))
    cov = dict(rep.cov)
    cov.update(obligations=rep.obligations, discharged=rep.discharged, explanation=rule, rule=rule,
               checker_cmd='python3 sa/run.py %s %s' % (pid, tier),
               trusted_base=['clang 18 front end and LLVM 18 sroa/simplifycfg/always-inline', 'sa/*.py'],
               samples=rep.samples[:12] or ['(none)'],
               known_findings=[k for k, _ in old])
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other',
              coverage=cov, assumptions=rep.assumptions, wall_s=round(time.time() - t0, 2), violations=len(new))
    evd = os.environ.get('SA_EVIDENCE') or os.path.join(VERIF, 'evidence')
    os.makedirs(evd, exist_ok=True)
    path = os.path.join(evd, pid + '.json')
    with open(path, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s: %d obligations, %d discharged, %d known, %d violations (%.1fs) %s' % (
        pid, rep.obligations, rep.discharged, len(old), len(new), time.time() - t0,
        json.dumps(rep.cov.get('instances', {}))))
    if new:
        rp = os.path.join(evd, pid + '.violations.txt')
        with open(rp, 'w') as f:
            f.write('rule: %s\n\n' % rule)
            for k, t in new:
                f.write('[%s]\n%s\n\n' % (k, t))
        for k, t in new[:20]:
            print('  %s: %s' % (k, t.replace('\n', '\n      ')))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0
