"""Try a change: mut.py FILE OLD NEW ID... ; prints what each check says, and undoes the change."""
import subprocess,sys
f,old,new,*ids=sys.argv[1:]
p='/repo/'+f
s=open(p).read()
assert s.count(old)>=1,"text not found"
open(p,'w').write(s.replace(old,new,1))
try:
    for i in ids:
        r=subprocess.run(['/verif/bin/check',i],capture_output=True,text=True)
        l=[x for x in r.stdout.splitlines() if x.startswith(('VIOLATION','OK','KNOWN'))] or (r.stdout+r.stderr).splitlines()[-3:]
        print(i,r.returncode,l[:2])
finally:
    open(p,'w').write(s)
