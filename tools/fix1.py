import re
def sub(f, pairs):
    s=open('/repo/'+f).read()
    for a,b,*n in pairs:
        n=n[0] if n else 1
        assert s.count(a)==n,(f,a,s.count(a))
        s=s.replace(a,b)
    open('/repo/'+f,'w').write(s)
import sys
exec(sys.stdin.read())
