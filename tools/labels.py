import json, sys
for p in sys.argv[1:]:
    d = json.load(open(f'/verif/evidence/{p}.json'))['coverage']
    print(p, d['per_sub_check'])
    for k, v in d['labels'].items():
        print('   ', k, v)
