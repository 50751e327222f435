#!/usr/bin/env python3
"""check.py <property id>: decides one property from /repo's current source.

Exit 0: every obligation was discharged.  Exit 1 and a VIOLATION line: some obligation failed (each listed with the
function, the path condition and the construct).  Exit 2: the source does not build or the analysis gives no answer.
"""
import json, os, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from engine import build
from rules.base import World, Report, Inconclusive
from rules import all as R

LEVEL = 'other'


def known():
    out = {}
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property='):
                pid, _, rest = l[len('finding: property='):].partition(' ')
                out.setdefault(pid, []).append(rest)
    return out


def worlds(pid):
    cfg = R.CONFIGS.get(pid, {})
    return [(n, R.world(n)) for n in (['main'] if cfg.get('main', True) else []) + list(cfg.get('extra', ()))]


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    rep = Report(pid)
    status = None
    ws = []
    try:
        ws = worlds(pid)
        R.run(pid, rep, ws)
    except build.BuildError as e:
        status = 'the tree cannot be analysed: %s' % e
    except Inconclusive as e:
        status = 'no answer: %s' % e
    kn = known().get(pid, [])
    fresh, listed = [], []
    for v in rep.v.values():
        (listed if any(k == v.key() for k in kn) else fresh).append(v)
    fns, paths, entries, opaque, sites = {}, 0, {}, set(), set()
    for x in [x for _, x in ws if x]:
        for i in x.interps:
            for k in i.analysed:
                fns[k] = 1
            opaque |= set(i.unknown)
            sites |= i.sites
        for e, rows in x._rows.items():
            if rows is not None:
                entries[e] = entries.get(e, 0) + len(rows)
                paths += len(rows)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': LEVEL,
        'coverage': {
            'explanation': 'static analysis: abstract interpretation of the type-checked MIR of /repo, every path of '
                           'every listed function; each obligation is one rule decided on one abstract path or declaration',
            'obligations': rep.obl, 'discharged': rep.ok,
            'functions_analysed': len(fns), 'abstract_paths': entries,
            'call_sites': len(sites), 'rules': rep.kinds, 'callees_without_model': len(opaque),
            'samples': rep.samples or [k for k in list(rep.kinds)[:6]],
            'exhaustive': status is None,
        },
        'assumptions': R.ASSUMPTIONS + R.EXTRA_ASSUMPTIONS.get(pid, []),
        'wall_s': round(time.time() - t0, 2), 'violations': len(fresh),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    for v in listed:
        print('KNOWN-FINDING: property=%s %s' % (pid, v.key()))
    if fresh:
        rp = os.path.join('evidence', pid + '.violations.txt')
        with open(os.path.join(HERE, rp), 'w') as f:
            for v in fresh:
                f.write('%s: %s\n  rule: %s\n  %s\n  path: %s\n\n' % (pid, v.where, v.rule, v.detail, v.path))
        for v in fresh[:12]:
            print('%s: %s: %s | %s' % (pid, v.where, v.rule, v.detail[:300].replace('\n', ' ')))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if status:
        print('%s: %s' % (pid, status))
        return 2
    if rep.obl == 0:
        print(pid + ': no obligation was generated')
        return 2
    print('%s: %d obligations discharged over %d abstract paths in %.1f s' % (pid, rep.ok, paths, time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
