"""Shows the records of the last replay file of a property: showrej.py CNN [n]"""
import json, sys
for x in json.load(open('/verif/build/replay/%s.json' % sys.argv[1]))[:int(sys.argv[2]) if len(sys.argv) > 2 else 1]:
    print(x['clauses'])
    r = x['record']
    for k, v in r.items():
        if k != 'in':
            print('  ', k, json.dumps(v)[:600])
    for k, v in r['in'].items():
        print('   in.', k, json.dumps(v)[:600])
