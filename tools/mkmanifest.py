#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from contracts/props.py and tools/na.py."""
import json, os, sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V+'/contracts'); sys.path.insert(0,V+'/tools')
from props import PROPS
from na import NA
TECH={'proof':'contract-based deductive verification: VCs generated from the LLVM IR of the real code and discharged by z3/cvc5; the same contracts run natively as a labelled bounded stand-in',
 'exploration':'contracts on the real code; function-level obligations discharged by z3/cvc5 where within reach, the property itself by a labelled bounded run of the executable contracts'}
ck=[]
for pid in sorted(PROPS):
    P=PROPS[pid]
    ck.append(dict(property=pid,quick_cmd='python3-vt check.py %s'%pid,thorough_cmd='python3-vt check.py %s --thorough'%pid,evidence_file='evidence/%s.json'%pid,
      technique=P.get('technique',TECH[P['level']]),level=P['level'],level_note=P.get('note','Obligations discharged for all inputs of the stated domains; floats as reals; trusted: the VC generator, clang front end, solvers, library contracts listed in the evidence.')))
json.dump(dict(version=1,setup_cmd='true',checks=ck,not_applicable=[dict(property=k,reason=v) for k,v in sorted(NA.items()) if k not in PROPS]),open(V+'/MANIFEST.json','w'),indent=1)
ids=[json.loads(l)['id'] for l in open(V+'/properties.jsonl')]
miss=[i for i in ids if i not in PROPS and i not in NA]
if miss: print('no check and no reason:',miss)
