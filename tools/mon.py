import json,sys
for c in sys.argv[1:]:
    e=json.load(open('/verif/evidence/%s.json'%c)); print(c,e['seed'],e['wall_s'],e['coverage']['observed'])
    for k,v in e['coverage']['monitors'].items(): print('   ',k,v['evaluations'],v['violations'],v.get('worst_fraction_of_tolerance'))
