#!/usr/bin/env python3
import json,sys
e=json.load(open('%s/%s.json'%(__import__('os').environ.get('SA_EVID','/verif/evidence'),sys.argv[1])))
def f(o):
    if isinstance(o,dict):
        if 'undecided' in o and isinstance(o['undecided'],list):
            for x in o['undecided']: print(x['rule'],'|',x['construct'],'|',str(x['why'])[:int(sys.argv[2]) if len(sys.argv)>2 else 160])
        for v in o.values(): f(v)
f(e)
