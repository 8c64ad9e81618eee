import sys
def rep(f, a, b, n=1):
    p='/tmp/sl/repo/src/'+f; s=open(p).read()
    assert s.count(a)>=1, (f,a)
    if n: assert s.count(a)==n, (s.count(a), a)
    open(p,'w').write(s.replace(a,b))
