#!/usr/bin/env python3
# Writes MANIFEST.json from contracts/90_properties.spec and properties.jsonl.
import json,re,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props={json.loads(l)['id']:json.loads(l) for l in open(V+'/properties.jsonl')}
spec={}
cur=None
for l in open(V+'/contracts/90_properties.spec'):
    m=re.match(r'property (C\d+):',l)
    if m: cur=spec.setdefault(m.group(1),{}); continue
    m=re.match(r'\s+(\w+)\s*=\s*(.*)',l)
    if m and cur is not None: cur[m.group(1)]=m.group(2).strip()
na=json.load(open(V+'/tools/not_applicable.json'))
checks=[]
for p in sorted(props):
    if p not in spec: continue
    s=spec[p]
    tech='deductive verification of the real Go code against contracts (own condition generator over go/ssa, z3 and cvc5)'
    if s.get('only')=='bounded': tech='bounded search with an oracle'
    elif int(s.get('bounded','0'))>0: tech+='; bounded search for the parts named in the note'
    note=s.get('note','Every obligation generated from the functions that the roots reach is discharged for all inputs and iterations. Trusted: the condition generator, go/ssa, the solvers, the axioms of contracts/10_theory.spec, the contracts of external functions, and the assumptions listed in the evidence. Builds: the default build; where listed, the kernel of the buddy build as well (quick), and the whole of both builds (thorough). Functions without contract (DESIGN.md) are covered by the bounded search only.')
    checks.append({'property':p,'quick_cmd':'sh tools/check.sh %s quick'%p,'thorough_cmd':'sh tools/check.sh %s thorough'%p,'technique':tech,'level':s.get('level','proof'),'level_note':note})
m={'version':1,'setup_cmd':'sh tools/check.sh build','checks':checks,'not_applicable':[{'property':p,'reason':na.get(p,'no check yet')} for p in sorted(props) if p not in spec],
'notes':'No hooks: the contracts live in /verif/contracts and apply to the sources of /repo as they are. Repairs of defects are the fix: commits in /repo, listed in known_findings.txt.'}
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1)
