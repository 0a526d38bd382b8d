#!/usr/bin/env python3
"""Writes DESIGN.md from harness/meta.json, properties.jsonl, tools/fixed.json and seeded/*/meta.json."""
import json, os, glob
D='/verif/'
props=[json.loads(l) for l in open(D+'properties.jsonl')]
meta=json.load(open(D+'harness/meta.json'))
fixed=json.load(open(D+'tools/fixed.json'))
known=json.load(open(D+'tools/known.json'))
out=[]
w=out.append
w(open(D+'tools/design_intro.md').read().rstrip())
extra=json.load(open(D+'tools/design_extra.json'))
w('\n## The properties\n')
w('Bounds are the quick tier\'s; the thorough tier deepens each by one to three events (the evidence files list the exact bounds of the last run). "Tests" says why ordinary tests cannot settle it. Cost is the quick tier\'s wall time on 8 cores.\n')
for p in props:
    i=p['id']; x=extra.get(i,{})
    w('### %s %s\n'%(i,p['title']))
    w('- **Enumerated:** %s.'%meta[i]['note'].rstrip('.'))
    if x.get('oracle'): w('- **Oracle:** %s'%x['oracle'])
    if x.get('bounds'): w('- **Bounds and cost:** %s'%x['bounds'])
    w('- **Tests:** '+p['why_tests_cant'])
    if x.get('limits'): w('- **Not covered:** %s'%x['limits'])
    b=[s for s in sorted(glob.glob(D+'seeded/*/meta.json')) if json.load(open(s))['property']==i]
    if b: w('- **Planted bugs caught:** %s'%', '.join('`%s`'%os.path.basename(os.path.dirname(s)) for s in b))
    n=[f for f in fixed if f[0]==i]
    if n: w('- **Defects found and repaired:** %d (below)'%len(n))
    w('')
w('## Planted bugs\n')
w('Each is under `seeded/`, with a demonstration over real sockets which shares no code with the harness. All are caught by the quick check of their property.\n')
w('| bug | property | needs | breaks | caught by |\n|---|---|---|---|---|')
for s in sorted(glob.glob(D+'seeded/*/meta.json')):
    m=json.load(open(s)); i=os.path.basename(os.path.dirname(s))
    w('| %s | %s | %s | %s | %s quick |'%(i,m['property'],m['needs'],m['what_it_breaks'],m['property']))
w('\nBeyond these, several hundred single-edit mutants of the code behind each property were run against its check '
  '("campaigns": a list of `(file, old, new)` edits, each built against the harness in a scratch copy). Those that survived were '
  'either shown to be equivalent or outside the property, or led to new event kinds in the models.\n')
w('## Defects found in soju\n')
w('%d, each repaired by one unguarded `fix:` commit in /repo (the same list, with commits, is in `known-findings.json`). No known finding is left unrepaired%s.\n'%(len(fixed),'' if not known else ' except those listed there'))
for f in fixed: w('- %s, `%s`: %s'%(f[0],f[1],f[2]))
w('')
w(open(D+'tools/design_outro.md').read().rstrip())
open(D+'DESIGN.md','w').write('\n'.join(out)+'\n')
