#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the claims below and properties.jsonl."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(H + '/tools/claims.py').read(), ns)
CL, NA = ns['CLAIMS'], ns['NOT_APPLICABLE']
props = [json.loads(l)['id'] for l in open(H + '/properties.jsonl')]
checks, na = [], []
for p in props:
    if p in CL:
        t, note = CL[p]
        checks.append(dict(property=p, quick_cmd='python3 check.py ' + p, thorough_cmd='python3 check.py ' + p,
                           evidence_file='evidence/%s.json' % p, technique=t, level='other', level_note=note))
    else:
        na.append(dict(property=p, reason=NA.get(p, 'No static check for it has been built yet.')))
json.dump(dict(version=1, setup_cmd='bash tools/setup.sh', checks=checks, not_applicable=na,
               notes='No hooks: the checks analyse /repo as it is.'), open(H + '/MANIFEST.json', 'w'), indent=1)
