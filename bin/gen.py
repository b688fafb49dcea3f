#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from index.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from index import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sorted(set(PROPS) | set(NOT_APPLICABLE))
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for i in ids:
        p = PROPS.get(i) or NOT_APPLICABLE[i]
        assert len(p['title']) <= 80, i
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'observe_at': p['observe'], 'hook_needed': None}
        if p.get('state'):
            a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
        f.write(json.dumps({'id': i, 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['qtext']},
                            'why_tests_cant': p['why'], 'anchors': a}) + '\n')
checks = []
for i in ids:
    if i in NOT_APPLICABLE:
        continue
    p = PROPS[i]
    checks.append({'property': i, 'quick_cmd': 'python3 bin/check.py %s quick' % i, 'thorough_cmd': 'python3 bin/check.py %s thorough' % i,
                   'technique': p.get('technique', 'symbolic execution of the real code (LLVM IR) with z3 deciding every branch and assertion'),
                   'level': 'other',
                   'level_note': 'Bounded symbolic verdict for all values within: %s.  Real arithmetic instead of floating point; counterexamples are replayed natively before being reported.  %s' % (p['bounds'], p.get('note', ''))})
m = {'version': 1, 'setup_cmd': 'python3 bin/build.py --engine',
     'hooks': {'guard': 'none', 'enable': 'no hooks: the checks compile the unmodified sources of /repo'},
     'checks': checks,
     'not_applicable': [{'property': i, 'reason': NOT_APPLICABLE[i]['reason']} for i in sorted(NOT_APPLICABLE)],
     'notes': 'Known findings and repaired defects are in known_findings.json; the engine is described in DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)

d = open(os.path.join(V, 'bin', 'DESIGN.in.md')).read()
t = ''
for i in ids:
    if i in NOT_APPLICABLE:
        t += '- **%s %s**: not claimed. %s\n' % (i, NOT_APPLICABLE[i]['title'], NOT_APPLICABLE[i]['reason'])
        continue
    p = PROPS[i]
    t += '- **%s %s** (`harness/%s`).  %s  *Bounds:* %s.%s  *Beyond the tests:* %s\n' % (i, p['title'], '`, `harness/'.join(p['harness']), p['explain'], p['bounds'], ('  *Note:* ' + p['note']) if p.get('note') else '', p['why'])
d = d.replace('@PROPERTIES@', t)
k = json.load(open(os.path.join(V, 'known_findings.json')))
f = ''.join('- %s (%s, recorded): %s\n' % (x['id'], x['property'], x['what']) for x in k['findings'])
f += ''.join('- %s\n' % x for x in k['fixed'])
d = d.replace('@FINDINGS@', f)
b = ''
rf = os.path.join(V, 'tools', 'results.json')
R = json.load(open(rf)) if os.path.exists(rf) else {}
for n in sorted(os.listdir(os.path.join(V, 'seeded'))):
    mj = os.path.join(V, 'seeded', n, 'meta.json')
    if os.path.exists(mj):
        m = json.load(open(mj))
        b += '- `%s` (%s): %s  Needs: %s.  %s\n' % (n, m['property'], m['what_it_breaks'] + '.', m['needs'], R.get(n, 'not run'))
d = d.replace('@BUGS@', b)
open(os.path.join(V, 'DESIGN.md'), 'w').write(d)
