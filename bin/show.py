#!/usr/bin/env python3
import json,sys
R=json.load(open(sys.argv[1] if len(sys.argv)>1 else '/tmp/o.json'))
for s in R['scenarios']:
    tot={}
    for l,d in s['obligations'].items():
        for h,n in d.items(): tot[h]=tot.get(h,0)+n
    print('%-28s paths=%d inf=%d rst=%d to=%d unk=%d inc=%s q=%d t=%.1f %s'%(s['name'],s['paths'],s['infeasible'],s['restarts'],s['timeouts'],s['unknown_branches'],s['incomplete'],s['queries'],s['solver_s'],tot))
    for l,d in s['obligations'].items():
        if d.get('failed') or d.get('undecided'): print('     ',l,d)
    if s['lost'] or s['external']: print('      lost',s['lost'],'ext',list(s['external'])[:8])
    if s['reach']: print('      reach',s['reach'])
for c in R['candidates'][:6]: print('cand',c[:250])
