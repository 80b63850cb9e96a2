#!/usr/bin/env python3
# Adds the fix commits of /repo to known_findings.json: known_fixed.py PROP HASH WHAT
import json,sys
p='/verif/known_findings.json'
k=json.load(open(p)); prop,h,what=sys.argv[1:4]
k=[e for e in k if e['id']!='fixed-'+h]
k.append(dict(property=prop,id='fixed-'+h,what='fixed: property=%s %s %s'%(prop,h,what),status='fixed',commit=h))
json.dump(k,open(p,'w'),indent=1)
