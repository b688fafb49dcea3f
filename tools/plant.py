#!/usr/bin/env python3
"""Generate and validate the planted bugs of seeded/ (development tool; no check uses it).
plant.py gen            write seeded/<id>/ from bugs.py (patches are made in a scratch copy of /repo's HEAD)
plant.py run [ids...]   apply each to /repo, build, test, run the demo and the check, revert"""
import json, os, subprocess, sys, tempfile, shutil, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bugs import BUGS, PRELUDE
V = '/verif'
DEMO = '''#!/bin/bash
# builds demo.cpp against the libraries of the built tree and runs it in a scratch directory
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
libs=""
for n in core imgproc features2d calib3d objdetect video highgui imgcodecs flann aruco; do
  ls /usr/lib/*/libopencv_$n.so >/dev/null 2>&1 && libs="$libs -lopencv_$n"
done
g++ -std=c++17 -O0 -w -I"$repo/src" -isystem /usr/include/opencv4 "$here/demo.cpp" -o "$d/demo" \\
  -Wl,--start-group "$repo"/_build/libSIM_LIB.a "$repo"/_build/libEKF_LIB.a "$repo"/_build/libSIM_INF.a "$repo"/_build/libEKF_UTL.a -Wl,--end-group $libs || exit 2
cd "$d" && ./demo
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def gen(ids):
    for i in ids:
        b = BUGS[i]
        d = os.path.join(V, 'seeded', i)
        os.makedirs(d, exist_ok=True)
        w = tempfile.mkdtemp(prefix='plant')
        sh('git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x' % (w, w))
        for f, old, new in b['edits']:
            p = os.path.join(w, f)
            s = open(p).read()
            assert s.count(old) == 1, (i, f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git -C %s diff' % w).stdout
        shutil.rmtree(w)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.cpp', 'w').write(PRELUDE + b['demo'])
        open(d + '/demo.sh', 'w').write(DEMO)
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
def tests():
    r = sh('bash /opt/vp/build.sh')
    if r.returncode:
        return 'BUILD FAILED ' + r.stdout[-1500:]
    sh('bash /opt/vp/test.sh /tmp/plant_t.json')
    base = json.load(open('/opt/vp/BASELINE.json')); t = json.load(open('/tmp/plant_t.json'))
    def names(x):
        for k in ('stable_passing', 'passed', 'stable', 'pass', 'passing'):
            if k in x:
                return set(x[k])
        raise SystemExit('keys ' + str(x.keys()))
    miss = names(base) - names(t)
    return 'ok' if not miss else 'TESTS FAIL %s' % sorted(miss)
def run(ids, check=True):
    clean = {}
    assert not sh('git -C /repo status --porcelain').stdout.strip()
    print('clean tree:', tests(), flush=True)
    for i in ids:
        clean[i] = sh('bash %s/seeded/%s/demo.sh' % (V, i), cwd='/repo').returncode
    for i in ids:
        a = sh('git -C /repo apply %s/seeded/%s/patch.diff' % (V, i))
        try:
            if a.returncode:
                print(i, 'does not apply', a.stdout); continue
            t = tests()
            r = sh('bash %s/seeded/%s/demo.sh' % (V, i), cwd='/repo')
            c = ''
            if check:
                t0 = time.time()
                q = sh('python3 bin/check.py %s quick' % BUGS[i]['property'], cwd=V)
                c = 'check rc=%d %.0fs %s' % (q.returncode, time.time() - t0, 'CAUGHT' if q.returncode == 1 and 'VIOLATION property=%s ' % BUGS[i]['property'] in q.stdout else 'MISSED: ' + q.stdout[-600:])
            if check:
                rf = V + '/tools/results.json'
                R = json.load(open(rf)) if os.path.exists(rf) else {}
                R[i] = ('Caught by %s (quick).' if 'CAUGHT' in c else 'Missed by %s.') % BUGS[i]['property']
                json.dump(R, open(rf, 'w'), indent=1, sort_keys=True)
            print(i, BUGS[i]['property'], 'tests', t, '| demo clean=%d bug=%d' % (clean[i], r.returncode), r.stdout[-200:].strip().replace('\n', ' / '), '|', c, flush=True)
        finally:
            sh('git -C /repo checkout -- .')
    print('restored:', tests(), flush=True)
if __name__ == '__main__':
    ids = sys.argv[2:] or sorted(BUGS)
    if sys.argv[1] == 'gen':
        gen(ids)
    else:
        gen(ids); run(ids)
