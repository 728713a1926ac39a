import json,sys
# addprop.py ID 'level note' ['json options for props.json']
i,n=sys.argv[1],sys.argv[2]
o=json.loads(sys.argv[3]) if len(sys.argv)>3 else {}
p=json.load(open('/verif/checks/props.json')); e=p.setdefault(i,{}); e["driver"]=True; e.update(o)
json.dump(p,open('/verif/checks/props.json','w'),indent=1)
c=json.load(open('/verif/tools/claims.json')); c["claimed"][i]=n; c["not_applicable"].pop(i,None)
json.dump(c,open('/verif/tools/claims.json','w'),indent=1)
