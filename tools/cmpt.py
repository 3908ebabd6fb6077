import json,sys
b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open(sys.argv[1]))
st=b.get('stable') or b.get('tests') or b
def f(x):
    return x
print({k:(len(v) if hasattr(v,'__len__') else v) for k,v in b.items()})
p=t.get('passed',t)
print({k:(len(v) if hasattr(v,'__len__') else v) for k,v in t.items()})
bs=set(b.get('stable') or b.get('passed') or [])
ps=set(t.get('passed') or [])
print('missing',bs-ps)
