"""Adds a fixed: line: setknown.py C06 'text of commit subject' 'what failed'"""
import json,subprocess,sys
prop,sub,what=sys.argv[1:4]
log=subprocess.run("git -C /repo log --format='%h %s'",shell=True,capture_output=True,text=True).stdout.splitlines()
h=next(l.split()[0] for l in log if sub in l)
p='/verif/known_findings.json'
k=json.load(open(p))
k['fixed'].append("fixed: property=%s %s %s"%(prop,h,what))
json.dump(k,open(p,'w'),indent=1)
