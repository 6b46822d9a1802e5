#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks and the list of properties."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa import rules
NA = {
    'C27': 'Bounded delivery time quantifies over kernel scheduling, the poll timeout and the load of the listeners; no static argument over this source bounds it. The structural parts (every event read is handled, a batch end flushes pending moves, no lock held while waiting) are decided in C26, C09 and C03.',
    'C28': 'Whether two looks at a file differ depends on the time resolution of the file system and on when polls fall between writes: run-time quantities. The structural part (all compared attributes, exact difference) is decided in C15 and C21.',
    'C29': 'The Windows, macOS and BSD backends cannot be parsed here (no SDK headers), so their resolved program is not available to analyse.',
    'C30': 'A round trip over all valid text is a statement about computed values of encoding loops, not about the shape of the code; no sound static argument in reach decides it.',
}
PENDING = {}
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in rules.CHECKS:
        checks.append({'property': i, 'quick_cmd': 'VERIF_TIER=quick python3 check.py ' + i,
                       'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + i,
                       'technique': rules.TECH.get(i, 'static analysis of the resolved program'), 'level': 'other',
                       'level_note': rules.EXPLAIN[i] + (' Assumes: ' + '; '.join(rules.ASSUME[i]) + '.' if rules.ASSUME[i] else '')})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'not yet decided by a check here')})
m = {'version': 1, 'setup_cmd': 'bash tool/build.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'All checks parse the current source of /repo on every run (Clang front end), no hooks in /repo.'}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
