#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the job table."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'run'))
import jobs as J

props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in J.CLAIMED:
        cmd = 'python3 run/check.py ' + i
        checks.append({'property': i, 'quick_cmd': cmd, 'thorough_cmd': cmd,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': J.TECHNIQUE.get(i, J.TECHNIQUE['*']),
                       'level': J.LEVEL.get(i, 'model_checking'),
                       'level_note': J.NOTE.get(i, J.NOTE['*'])})
    else:
        na.append({'property': i, 'reason': J.NOT_APPLICABLE.get(i, 'not built yet')})
m = {'version': 1, 'setup_cmd': 'bash tools/setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: everything is observed through the public API. The library commits are fix: commits only; see known_findings.txt.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
