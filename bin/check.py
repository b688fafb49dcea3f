#!/usr/bin/env python3
"""check.py <property> <quick|thorough>: decide one property on /repo's current tree."""
import json, os, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from index import PROPS

def demangle(names):
    if not names:
        return []
    r = subprocess.run(['c++filt'], input='\n'.join(names), text=True, stdout=subprocess.PIPE)
    return sorted(set(x for x in r.stdout.split('\n') if x))

def known_findings(pid):
    p = os.path.join(B.VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)).get('findings', []) if f['property'] == pid]

def explore(pid, tier, P, harn, cmd, res_path, scratch, known):
    r = subprocess.run(cmd, cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode or not os.path.exists(res_path):
        print('ENGINE-FAILED property=%s rc=%d\n%s' % (pid, r.returncode, r.stdout[-3000:]))
        sys.exit(2)
    R = json.load(open(res_path))
    # candidates -> native replay
    violations, known_hit, unconfirmed = [], {}, []
    if R['candidates']:
        nat = B.build_native(harn, name=pid)
        rdir = os.path.join(B.VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        seen = {}
        env = dict(os.environ)
        if tier == 'thorough':
            env['SYM_THOROUGH'] = '1'
        for n, c in enumerate(R['candidates']):
            head, inputs = c.split(' | ', 1)
            scen, kind, label = head.split(' ', 2)
            label = label.strip()
            if seen.get((scen, label)) == 'confirmed':
                continue
            rp = os.path.join(rdir, '%s_%d.txt' % (pid, n))
            with open(rp, 'w') as f:
                f.write(scen + '\n' + inputs + '\n')
            try:
                q = subprocess.run([nat, rp], cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=90, env=env)
                out = q.stdout.decode(errors='replace')
            except subprocess.TimeoutExpired:
                out = 'FAIL hang: no result within 90 s\n'
            fails = [l[5:] for l in out.split('\n') if l.startswith('FAIL ')]
            if not fails:
                seen.setdefault((scen, label), 'unconfirmed')
                unconfirmed.append({'scenario': scen, 'label': label, 'inputs': inputs[:400]})
                os.unlink(rp)
                continue
            seen[(scen, label)] = 'confirmed'
            new = []
            for fl in fails:
                lab = fl.split(': ')[0] if ': ' in fl else fl
                full = fl
                hit = None
                for k in known:
                    if k['scenario'] == scen and full.startswith(k['label']):
                        hit = k
                if hit:
                    known_hit[hit['id']] = hit
                else:
                    new.append(full)
            if new:
                violations.append({'scenario': scen, 'label': label, 'failures': new[:10], 'replay': rp, 'inputs': inputs[:2000]})
    return R, violations, known_hit, unconfirmed

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    P = PROPS[pid]
    t0 = time.time()
    os.makedirs(os.path.join(B.VERIF, 'evidence'), exist_ok=True)
    os.makedirs(B.OUT, exist_ok=True)
    evp = os.path.join(B.VERIF, 'evidence', pid + '.json')
    harn = list(P['harness'])
    if tier == 'thorough':
        harn += [h for h in P.get('thorough_harness', []) if h not in harn]
    res_path = os.path.join(B.OUT, pid + '_result.json')
    try:
        exe = B.build_symbolic(harn, name=pid)
    except B.BuildError as e:
        print('BUILD-FAILED property=%s' % pid)
        print(str(e)[-4000:])
        sys.exit(2)
    t_build = time.time() - t0
    budget = P.get('budget', 240) if tier == 'quick' else P.get('thorough_budget', 2400)
    cmd = [exe, '--out', res_path, '--budget', str(budget), '--seed', str(seed)]
    if tier == 'thorough':
        cmd += ['--thorough', '--ob-timeout', '120000', '--branch-timeout', '20000', '--path-time', '900']
    scratch = os.path.join(B.OUT, 'scratch_' + pid)
    os.makedirs(scratch, exist_ok=True)
    known = known_findings(pid)
    # once something fails, exploration goes on only for a while; if nothing of it is confirmed, all is explored
    for extra in ([['--linger', '25'], []] if tier == 'quick' else [[]]):
        R, violations, known_hit, unconfirmed = explore(pid, tier, P, harn, cmd + extra, res_path, scratch, known)
        if violations or not R['candidates'] or not any(s['incomplete'] or s['timeouts'] for s in R['scenarios']):
            break
    sc = R['scenarios']
    tot = lambda k: sum(s[k] for s in sc)
    how = {}
    undecided = []
    for s in sc:
        for lab, d in s['obligations'].items():
            for h, n in d.items():
                how[h] = how.get(h, 0) + n
                if h == 'undecided':
                    undecided.append({'scenario': s['name'], 'label': lab, 'count': n})
    nobl = sum(how.values())
    done = nobl - how.get('undecided', 0) - how.get('failed', 0)
    gaps = [{'scenario': s['name'], 'timeouts': s['timeouts'], 'incomplete': s['incomplete'], 'unknown_branches': s['unknown_branches'], 'truncated': s['truncated']}
            for s in sc if s['timeouts'] or s['incomplete'] or s['truncated'] or s['unknown_branches']]
    funcs = [f for f in demangle(R['functions']) if not f.startswith(('sym::', 'hc::', 'void sym::'))]
    lost = {}
    ext = {}
    for s in sc:
        for k, v in s['lost'].items():
            lost[k] = lost.get(k, 0) + v
        for k, v in s['external'].items():
            ext[k] = ext.get(k, 0) + v
    reach = {}
    for s in sc:
        for k, v in s['reach'].items():
            reach[s['name'] + ':' + k] = v
    xc = [sum(s['xcheck'][i] for s in sc) for i in range(3)]
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': P.get('level', 'other'),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
        'assumptions': P.get('assumptions', []) + [
            'floating-point arithmetic is modelled as exact real arithmetic (rounding, overflow and NaN are outside the claim)',
            'values handed to code outside the encoding (iostreams, OpenCV, libm) are the concrete witness of the path'],
        'coverage': {
            'explanation': P['explain'],
            'bounds': P.get('bounds', ''),
            'functions_encoded': funcs[:400],
            'scenarios': [s['name'] for s in sc],
            'paths': tot('paths'), 'feasible_paths': tot('feasible'), 'infeasible_paths': tot('infeasible'), 'path_decisions': tot('decisions'),
            'obligations': nobl, 'obligations_discharged': done, 'obligations_by_method': how,
            'obligations_undecided': undecided[:50],
            'exploration_gaps': gaps,
            'smt_queries': tot('queries'), 'smt_sat': tot('sat'), 'smt_unsat': tot('unsat'), 'smt_unknown': tot('unknown'),
            'solver_s': round(tot('solver_s'), 2), 'build_s': round(t_build, 1),
            'raw_smt_crosscheck_of_normal_forms': {'confirmed': xc[0], 'contradicted': xc[1], 'inconclusive': xc[2]},
            'symbolic_inputs_max': max([s['max_vars'] for s in sc] or [0]),
            'reached': reach,
            'external_calls_on_witness_values': demangle(list(ext))[:40],
            'lost_shadow_events': lost,
            'unconfirmed_candidates': unconfirmed[:20],
            'known_findings': sorted(known_hit),
            'violating': violations[:20],
        },
    }
    json.dump(ev, open(evp, 'w'), indent=1)
    for k in known_hit.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    print('%s %s: %d paths, %d obligations (%d discharged, %d undecided), %d SMT queries, %.1f s solver, %.1f s total' % (
        pid, tier, tot('paths'), nobl, done, how.get('undecided', 0), tot('queries'), tot('solver_s'), time.time() - t0))
    if undecided:
        print('undecided: ' + '; '.join('%s/%s' % (u['scenario'], u['label']) for u in undecided[:8]))
    if gaps:
        print('gaps: ' + json.dumps(gaps[:6]))
    if unconfirmed:
        print('unconfirmed candidates: ' + '; '.join('%s/%s' % (u['scenario'], u['label']) for u in unconfirmed[:8]))
    if violations:
        for v in violations[:12]:
            print('  %s: %s' % (v['scenario'], '; '.join(v['failures'][:4])))
            print('  inputs: %s' % v['inputs'][:500])
            print('VIOLATION property=%s replay=%s' % (pid, v['replay']))
        sys.exit(1)
    sys.exit(0)

if __name__ == '__main__':
    main()
