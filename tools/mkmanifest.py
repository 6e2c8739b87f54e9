#!/usr/bin/env python3
# Generates /verif/MANIFEST.json.  A property is claimed when it has contracts and is listed in CLAIM.
import json
TRUST='Trusts govc (the generator in /verif/govc), z3/cvc5, go/ssa and the listed dependency models; machine integers are exact bit vectors; termination is not proved; strings and slices up to 2^40 bytes.'
T='contract-based deductive verification of the current source (govc: SSA to SMT, per-function contracts), failing inputs found by running the code'
CLAIM=json.load(open('/verif/tools/claims.json'))
ids=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
NA={'C33':'Liveness under fairness of an external chain: it speaks about infinite histories of a system outside the code, and no pre/postcondition, invariant or lemma over terminating functions expresses it; the safety half is C18.'}
checks=[];na=[]
for i in ids:
    if i in CLAIM:
        checks.append(dict(property=i,quick_cmd='python3 check.py %s quick'%i,thorough_cmd='python3 check.py %s thorough'%i,
          technique=T,level=CLAIM[i].get('level','proof'),level_note=CLAIM[i]['note']+' '+TRUST))
    else:
        na.append(dict(property=i,reason=NA.get(i,'Contracts for this property are not finished yet, so it is not claimed.')))
json.dump(dict(version=1,setup_cmd='./setup.sh',checks=checks,not_applicable=na,hooks=dict(guard='none',enable='no hooks: contracts and harnesses are added by overlay, /repo is not instrumented',source_commits=[])),open('/verif/MANIFEST.json','w'),indent=1)
print(len(checks),len(na))
