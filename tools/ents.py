import json,sys
for p in sys.argv[1:]:
    d=json.load(open('/verif/evidence/%s.json'%p))
    for e in d['coverage']['entries']: print(p,e['entry'],'paths',e['paths'],'q',e['queries'],'wall',e['wall_s'])
