import json,sys
for p in sys.argv[1:]:
    j=json.load(open(f'/verif/evidence/{p}.json'))
    h=j['coverage']['harnesses']
    it=h.items() if isinstance(h,dict) else enumerate(h)
    l=[(x.get('wall_s',0),k,x.get('paths'),x.get('queries')) for k,x in it]
    for x in sorted(l,reverse=True)[:10]: print(p,*x)
