#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered analyses and NOTES below."""
import json, subprocess, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
subprocess.check_call([root + '/check.sh', 'build'])
have = {}
for l in subprocess.check_output([root + '/bin/aptverif', '-list'], text=True).splitlines():
    i, t, n = l.split('\t')
    have[i] = (t, n)
NA = json.load(open(root + '/tools/not_applicable.json'))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in have:
        t, n = have[i]
        checks.append({'property': i, 'quick_cmd': './check.sh ' + i, 'thorough_cmd': 'VERIF_TIER=thorough ./check.sh ' + i,
                       'technique': t, 'level': 'other', 'level_note': n})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no analysis for this property has been built yet')})
json.dump({'version': 1, 'setup_cmd': './check.sh build', 'checks': checks, 'not_applicable': na,
           'notes': 'All checks are one static analyser (analyzer/), which loads, type-checks and lowers the non-test source of /repo on every run; see DESIGN.md.'},
          open(root + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
print(len(checks), 'checks,', len(na), 'not applicable')
