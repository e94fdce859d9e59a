#!/usr/bin/env python3
# fixed.py PROP ID COMMIT TEXT: adds an entry for a repaired defect (used while developing, never by a check)
import sys,json,re
p='/verif/known-findings.json'
s=open(p).read().rstrip()
assert s.endswith(']}')
e={"property":sys.argv[1],"id":"fixed-"+sys.argv[2],"fixed":"fixed: property=%s %s %s"%(sys.argv[1],sys.argv[3],sys.argv[4])}
s=s[:-2].rstrip()+',\n '+json.dumps(e)+'\n]}\n'
json.loads(s)
open(p,'w').write(s)
