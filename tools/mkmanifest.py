#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks and the property list."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.path.insert(0, HERE)
from checks import registry  # noqa: E402

NA = registry.NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in registry.CHECKS:
        fn, technique, *rest = registry.CHECKS[i]
        checks.append(dict(property=i, quick_cmd=f'python3 /verif/check.py {i} quick', thorough_cmd=f'python3 /verif/check.py {i} thorough',
                           evidence_file=f'/verif/evidence/{i}.json', technique=technique, level='proof',
                           level_note=rest[0] if rest else registry.NOTE))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check registered yet')))
m = dict(version=1, setup_cmd='bash /verif/setup.sh', checks=checks, not_applicable=na, notes=registry.NOTES)
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')
