#!/usr/bin/env python3
import json, subprocess
meta = json.load(open('/verif/harness/meta.json'))
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
hooks = subprocess.run(['git','-C','/repo','log','--format=%H %s'],capture_output=True,text=True).stdout.splitlines()
src = [l.split(' ',1)[0] for l in hooks if l.split(' ',1)[1].startswith('verif:')]
checks=[]; na=[]
for p in props:
    i=p['id']
    if i in meta:
        m=dict(meta['_default'],**meta[i])
        checks.append(dict(property=i, quick_cmd='./check.py %s quick'%i, thorough_cmd='./check.py %s thorough'%i,
            evidence_file='evidence/%s.json'%i, technique=m['technique'], level=m['level'], level_note=m['note']))
    else:
        na.append(dict(property=i, reason='check not built yet'))
json.dump(dict(version=1, setup_cmd='./check.py --build', hooks=dict(guard='Go build tag "verif"', enable='-tags verif', source_commits=src),
    checks=checks, not_applicable=na,
    notes='All checks: check.py compiles /verif/harness against /repo (replace directive), runs the enumeration in 8 shard processes, re-runs any counterexample to confirm it and writes evidence.'),
    open('/verif/MANIFEST.json','w'), indent=1)
