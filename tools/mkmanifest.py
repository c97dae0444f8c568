#!/usr/bin/env python3
"""Writes MANIFEST.json from the property modules that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'), encoding='utf-8')]
NOTES = json.load(open(os.path.join(V, 'tools', 'notes.json'), encoding='utf-8'))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'harness', 'props', i.lower() + '.py')):
        checks.append(dict(property=i, quick_cmd='python3 bin/check %s quick' % i,
                           thorough_cmd='python3 bin/check %s thorough' % i,
                           evidence_file='evidence/%s.json' % i,
                           technique='TLA+ specification model-checked with TLC; recorded executions of the real code '
                                     'validated against it by TLC (trace validation), specification behaviours replayed',
                           level='model_checking', level_note=NOTES.get(i, NOTES['default'])))
    else:
        na.append(dict(property=i, reason='check not built yet'))
json.dump(dict(version=1, setup_cmd='python3 bin/setup', checks=checks, not_applicable=na),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
