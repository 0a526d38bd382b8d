#!/usr/bin/env python3
"""known-findings.json: fixed entries from FIXED below (commit hashes looked up by subject), known ones from KNOWN."""
import json, subprocess
LOG = dict((l.split(' ',1)[1], l.split(' ',1)[0]) for l in subprocess.run(['git','-C','/repo','log','--format=%h %s'],capture_output=True,text=True).stdout.splitlines())
FIXED = json.load(open('/verif/tools/fixed.json'))
KNOWN = json.load(open('/verif/tools/known.json'))
out=[]
for prop, subj, what in FIXED:
    h = LOG[subj]
    out.append(dict(property=prop, status='fixed', commit=h, what=what, line='fixed: property=%s %s %s'%(prop,h,what)))
missing=[s for s in LOG if s.startswith('fix:') and s not in [f[1] for f in FIXED]]
assert not missing, missing
out += KNOWN
json.dump(out, open('/verif/known-findings.json','w'), indent=1)
