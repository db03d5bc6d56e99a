import json,sys
for d in json.load(open(sys.argv[1] if len(sys.argv)>1 else '/tmp/o.json')):
    print(d['driver'],d['secs'],d.get('crash',''))
    for ph in ('p1','p2'):
        p=d.get(ph)
        if not p: continue
        for o in p['obs']:
            if o['open'] or o['violation']: print('  ',ph,o['id'],o['proved'],o['open'],[w[:300] for w in o['why'][:6]],'VIOL' if o['violation'] else '', (o['violation'] or '')[:600])
        for f in p['fails']: print('  ',ph,'FAIL',f[:600])
        for f in p['taints']: print('  ',ph,'TAINT',f[:300])
