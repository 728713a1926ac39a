#!/usr/bin/env python3
# regenerates MANIFEST.json from properties.jsonl and tools/claims.json
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
cl=json.load(open(V+'/tools/claims.json'))
m={"version":1,"setup_cmd":"./setup.sh","checks":[],"not_applicable":[]}
for p in props:
    i=p['id']
    if i in cl['claimed']:
        c=cl['claimed'][i]
        d={"property":i,"quick_cmd":"./check.sh %s quick"%i,"thorough_cmd":"./check.sh %s thorough"%i,
           "technique":"contract-based deductive verification of the Go source (weakest-precondition obligations by gover, discharged by z3/cvc5)","level":"proof","level_note":c}
        m['checks'].append(d)
    else:
        m['not_applicable'].append({"property":i,"reason":cl['not_applicable'].get(i,"not covered by a check yet")})
m['notes']="No hooks in /repo: contracts live in /verif/specs and are matched to the source by function and loop ordinal; the verifier reads /repo's working tree on every run."
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1)
open(V+'/MANIFEST.json','a').write('\n')
print(len(m['checks']),'claimed',len(m['not_applicable']),'not')
