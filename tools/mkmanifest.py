import json,os,re
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(here+'/properties.jsonl')]
claimed=open(here+'/tools/claimed.txt').read().split()
na=dict()
cur=None
for l in open(here+'/tools/not_applicable.txt'):
    l=l.strip()
    if l: k,v=l.split(' ',1); na[k]=v
note="Every obligation generated from the current Go sources of the functions listed in the evidence is discharged by z3 or cvc5, for all inputs, states and iteration orders, with loop invariants and no bound. Trusted: the condition generator and its models of math/big, maps, slices and strings; the assumed contracts and axioms listed in the evidence; signed 64-bit arithmetic is treated as mathematical. On a failed obligation a search on the real code looks for a failing input; it never decides that a property holds."
checks=[dict(property=p['id'],quick_cmd='bash check.sh '+p['id'],thorough_cmd='VERIF_TIER=thorough bash check.sh '+p['id'],technique='contract-based deductive verification of the Go sources (own VC generator, z3/cvc5)',level='proof',level_note=note) for p in props if p['id'] in claimed]
json.dump(dict(version=1,setup_cmd='true',checks=checks,
  not_applicable=[dict(property=p['id'],reason=na.get(p['id'],'contracts for this property are not written yet')) for p in props if p['id'] not in claimed],
  notes='One command per property: bash check.sh <id>. See DESIGN.md.'),open(here+'/MANIFEST.json','w'),indent=1)
