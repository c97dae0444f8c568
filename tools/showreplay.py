import json,sys
d=json.load(open('/verif/evidence/replay/%s.json'%sys.argv[1]))
print(d['clause']); print(json.dumps(d['scenario'],ensure_ascii=False)[:3000])
ev=d['trace']['ev']; k=d['event']
for i in ([k-1,k] if k else [0] if k is not None else []): print(i,json.dumps(ev[i],ensure_ascii=False)[:3000])
print(d['trace'].get('abort'), d['trace'].get('tb'))
