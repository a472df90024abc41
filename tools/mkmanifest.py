#!/usr/bin/env python3
"""Regenerate MANIFEST.json from registry.py and properties.jsonl."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from registry import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd='python3 run.py %s quick' % i,
                           thorough_cmd='python3 run.py %s thorough' % i,
                           evidence_file='evidence/%s.json' % i,
                           technique=c.get('technique', 'runtime monitor with reference-model oracle'),
                           level='exploration', level_note=c.get('note', 'Held on every execution observed; see DESIGN.md.')))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, 'Check not built yet.')))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
         notes='No hooks are needed in /repo: every monitor observes the public API or program output of instrumented builds.')
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
