#!/usr/bin/env python3
"""replays the candidates of an adhoc run natively: nat.py harness.cpp [/tmp/o.json]"""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
R = json.load(open(sys.argv[2] if len(sys.argv) > 2 else '/tmp/o.json'))
nat = B.build_native([sys.argv[1]], name='adhoc')
seen = {}
for c in R['candidates']:
    head, inputs = c.split(' | ', 1)
    scen, kind, label = head.split(' ', 2)
    if seen.get((scen, label), 0) >= 3: continue
    seen[(scen, label)] = seen.get((scen, label), 0) + 1
    open('/tmp/cand.txt', 'w').write(scen + '\n' + inputs + '\n')
    q = subprocess.run([nat, '/tmp/cand.txt'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=90)
    print(scen, label, '->', [l for l in q.stdout.decode().split('\n') if l.startswith('FAIL')][:3] or 'ok', inputs[:100])
