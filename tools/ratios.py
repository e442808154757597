import json,sys
for c in sys.argv[1:]:
    d=json.load(open('evidence/%s.json'%c))
    print(c,d['wall_s'],'s')
    for x in d['coverage']['sub_properties']:
        print('   %-22s %10d  %.4g'%(x['name'],x['cases'],x.get('worst_error_over_bound',0)), ' '.join('%s:%d'%i for i in x['labels'].items()))
