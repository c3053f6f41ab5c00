import json,sys
for c in sys.argv[1:]:
    d=json.load(open('/verif/evidence/%s.json'%c))
    for k,v in d['coverage']['clauses'].items(): print(c,k,v['instances'])
