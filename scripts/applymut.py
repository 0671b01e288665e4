import sys,glob
CASES={}
def bug(n,p,*e): CASES[n]=e
ok=bug
for f in sorted(glob.glob('/verif/scripts/mutants/*.py')): exec(open(f).read())
import os
os.system('rm -rf /tmp/wt; cp -a /repo /tmp/wt')
for f,a,b in CASES[sys.argv[1]]:
    s=open('/tmp/wt/'+f).read()
    s = s+b if a is None else s.replace(a,b)
    open('/tmp/wt/'+f,'w').write(s)
