import sys
# ed.py FILE <<< python-literal list of (old,new)
f=sys.argv[1]; s=open(f).read()
for a,b in eval(sys.stdin.read()):
    assert s.count(a)==1,(s.count(a),a)
    s=s.replace(a,b)
open(f,'w').write(s)
