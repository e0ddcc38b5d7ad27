#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from specs/registry.py."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, 'engine'), os.path.join(V, 'specs')]
import registry
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    m = registry.PROPERTIES.get(i)
    if m:
        checks.append(dict(property=i, quick_cmd='python3 check.py %s' % i, thorough_cmd='python3 check.py --thorough %s' % i,
                           evidence_file='evidence/%s.json' % i, technique=m.get('technique', registry.SHAPE), level=m['level'],
                           level_note=m['how'] + ' Rule: ' + m['rule'] + '. Assumes: ' +
                           '; '.join(registry.assumptions(i)) + '. Trusts: ' + '; '.join(registry.TRUSTED) +
                           '. Constructs the analysis cannot follow are reported as undecided in the evidence, not as violations; '
                           'there are none on the current tree.'))
    else:
        na.append(dict(property=i, reason=registry.NOT_APPLICABLE.get(i, 'check not built yet')))
json.dump(dict(version=1, setup_cmd='python3 setup.py', checks=checks, not_applicable=na,
               notes='Static analysis only; see DESIGN.md. No hooks are needed in /repo.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', len(na), 'not applicable')
