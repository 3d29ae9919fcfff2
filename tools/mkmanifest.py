"""Write MANIFEST.json: a check per property that has proofs or run-time contracts"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
notes = json.load(open(V + '/tools/levels.json'))
checks, na = [], []
for p in props:
    i = p['id']; n = notes.get(i)
    if n is None:
        na.append(dict(property=i, reason='no check built yet')); continue
    if 'reason' in n:
        na.append(dict(property=i, reason=n['reason'])); continue
    checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i,
        evidence_file='evidence/%s.json' % i, technique=n['technique'], level=n['level'], level_note=n['note']))
json.dump(dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
   notes='No hooks in /repo. See DESIGN.md.'), open(V + '/MANIFEST.json', 'w'), indent=1)
