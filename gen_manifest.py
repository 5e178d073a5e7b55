#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json
import checks
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': []}
if getattr(checks, 'HOOKS', None):
    m['hooks'] = checks.HOOKS
for p in props:
    i = p['id']
    if i in checks.CHECKS:
        m['checks'].append({
            'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
            'evidence_file': 'evidence/%s.json' % i, 'technique': checks.TECHNIQUE[i][0], 'level': 'model_checking', 'level_note': checks.TECHNIQUE[i][1]})
    else:
        m['not_applicable'].append({'property': i, 'reason': checks.NOT_APPLICABLE.get(i, 'its check is not built yet')})
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
