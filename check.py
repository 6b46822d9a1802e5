#!/usr/bin/env python3
"""usage: check.py C01 [C02 ...]   decides properties of /repo's current source.
exit 0: held; 1: violated (VIOLATION line); 3: the analysis could not be done."""
import json, os, sys, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from sa.prog import Prog, AnalysisError, VERIF
from sa import rules


def known():
    out = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for l in open(path):
            if l.startswith('known: '):
                d = dict(x.split('=', 1) for x in l.split() if '=' in x)
                out.setdefault(d['property'], {})[d['key']] = l.strip()
    return out


def main():
    ids = sys.argv[1:]
    if ids == ['all']:
        ids = sorted(rules.CHECKS)
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'reports'), exist_ok=True)
    try:
        p = Prog()
    except AnalysisError as e:
        print('ANALYSIS-ERROR: %s' % e)
        return 3
    rc = 0
    for pid in ids:
        t1 = time.time() if len(ids) > 1 else t0
        try:
            r = rules.CHECKS[pid](p, tier)
            for n, (have, least) in r.floor.items():
                if have < least:
                    r.note('found %d instances of %s, at least %d were confirmed by reading' % (have, n, least))
        except AnalysisError as e:
            # a construct the analysis does not know: nothing was found to be wrong, nothing more is claimed
            r = rules.Result()
            r.note('not decided: %s' % e)
        except Exception as e:
            traceback.print_exc()
            r = rules.Result()
            r.note('not decided, internal error: %s' % e)
        for t in r.notes:
            print('UNDECIDED property=%s %s' % (pid, t[:300]))
        kn = known().get(pid, {})
        viol = []
        for k, text in r.findings:
            if k in kn:
                print('KNOWN-FINDING: property=%s %s' % (pid, text.splitlines()[0]))
            else:
                viol.append((k, text))
        ev = {
            'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
            'coverage': {
                'explanation': rules.EXPLAIN[pid],
                'translation_units': len(p.tus), 'functions_in_program': len(p.fns),
                'obligations_checked': r.obligations,
                'samples': r.samples[:12],
                'undecided': r.notes[:20],
                **{k: v for k, v in r.counts.items()},
            },
            'assumptions': rules.ASSUME.get(pid, []) + ['Clang 18 front end; flags -std=c++11 -DNDEBUG, Linux configuration'],
            'wall_s': round(time.time() - t1, 3), 'violations': len(viol),
        }
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if viol:
            rp = os.path.join(VERIF, 'reports', pid + '.txt')
            with open(rp, 'w') as f:
                f.write('property %s\n%s\n\n' % (pid, rules.EXPLAIN[pid]))
                for k, t in viol:
                    f.write('[%s]\n%s\n\n' % (k, t))
            for k, t in viol:
                print('%s: %s' % (pid, t))
            print('VIOLATION property=%s replay=%s' % (pid, rp))
            rc = 1 if rc in (0, 1) or len(ids) == 1 else rc
        else:
            print('%s: held, %d obligations %s' % (pid, r.obligations, r.counts))
    return rc


sys.exit(main())
