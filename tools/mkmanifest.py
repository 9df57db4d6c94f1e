#!/usr/bin/env python3
# generates /verif/MANIFEST.json: a property is claimed when a contract lists it and it is not in NA
import json,os,re,glob
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
claimed={}
for f in glob.glob(V+'/contracts/*.spec'):
    for l in open(f):
        m=re.match(r'\s*props\s+(.*)',l)
        if m:
            for p in m.group(1).split(): claimed[p]=claimed.get(p,0)+1
        m=re.match(r'guard \[([^\]]*)\]',l)
        if m:
            for p in m.group(1).split(): claimed[p]=claimed.get(p,0)+1
notes=json.load(open(V+'/tools/notes.json')) if os.path.exists(V+'/tools/notes.json') else {}
na=notes.get('_na',{})
checks=[];nas=[]
for p in props:
    i=p['id']
    if i in claimed and i not in na:
        checks.append({"property":i,"quick_cmd":"bash check.sh "+i,"thorough_cmd":"VERIF_TIER=thorough bash check.sh "+i,
          "evidence_file":"evidence/%s.json"%i,
          "technique":"contract-based deductive verification of the real Go code (govc: SSA symbolic execution against function contracts, obligations discharged by z3/cvc5), counterexamples replayed on the compiled code",
          "level":"proof",
          "level_note":notes.get(i,"Every obligation generated from the current source of the functions under contract is discharged for all inputs and iterations.")+" Trusted: the govc VC generator, golang.org/x/tools/go/ssa, the solvers, and the library models and assumptions the evidence lists. A seeded bounded run of the compiled code accompanies the proof to produce concrete failing inputs; it is never counted as proved."})
    else:
        nas.append({"property":i,"reason":na.get(i,"no contract for it yet: not claimed")})
m={"version":1,"setup_cmd":"bash build.sh","checks":checks,"not_applicable":nas,
 "notes":"See DESIGN.md. No hooks in /repo: contracts live in /verif/contracts and are matched to the functions of the current source by name and arity."}
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1)
print(len(checks),"claimed",len(nas),"not claimed")
