#!/usr/bin/env python3
"""measure.py <tier> <seed> [ids]: run the checks one after the other and print what each run measured, as a table."""
import json, os, subprocess, sys, time
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(root, 'run'))
import jobs
tier, seed, ids = sys.argv[1], sys.argv[2], sys.argv[3:] or sorted(jobs.CLAIMED)
print('| id | exit | wall s | model states | transitions | traces | calls judged | distinct calls |')
print('|---|---|---|---|---|---|---|---|')
for p in ids:
    t = time.time()
    r = subprocess.run([sys.executable, os.path.join(root, 'run/check.py'), p], env=dict(os.environ, VERIF_TIER=tier, VERIF_SEED=seed),
                       capture_output=True, text=True)
    e = json.load(open(os.path.join(root, 'evidence', p + '.json')))['coverage']
    print('| %s | %d | %d | %d | %d | %d | %d | %d |' % (p, r.returncode, time.time() - t, e['states'], e['transitions'],
          e['traces_validated_against_impl'], e['events_judged'], e['distinct_calls']), flush=True)
    if r.returncode:
        print(r.stdout[-1500:], file=sys.stderr, flush=True)
