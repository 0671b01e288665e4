import sys
def rep(f,a,b,n=1):
    s=open(f).read()
    assert s.count(a)>=1,(f,a)
    if n==1: assert s.count(a)==1,(f,a,s.count(a))
    open(f,'w').write(s.replace(a,b))
