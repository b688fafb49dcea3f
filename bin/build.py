#!/usr/bin/env python3
"""Build the symbolic engine, the instrumented project sources and the native replay programs."""
import concurrent.futures as cf
import hashlib, os, re, subprocess, sys, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('EKF_REPO', '/repo')
OUT = os.path.join(VERIF, 'build')
Z3 = '/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3'
CACHE = os.path.join(OUT, 'cache')

class BuildError(Exception):
    pass

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError(' '.join(cmd) + '\n' + r.stdout[-6000:])
    return r.stdout

def upstream():
    txt = re.sub(r'#[^\n]*', '', open(os.path.join(REPO, 'CMakeLists.txt')).read())
    files = []
    for name in ('SIM_INF_SRCS', 'EKF_UTL_SRCS', 'EKF_SRCS', 'SIM_SRCS'):
        m = re.search(r'set\(\s*%s\s+([^)]*)\)' % name, txt)
        if not m:
            raise BuildError('no set(%s) in CMakeLists.txt' % name)
        for f in m.group(1).split():
            if f not in files:
                files.append(f)
    m = re.search(r'set\(CMAKE_CXX_STANDARD ([0-9]+)\)', txt)
    return files, (m.group(1) if m else '14')

_cv = None
def cvflags():
    global _cv
    if _cv is None:
        inc = '/usr/include/opencv4'
        _cv = ['-isystem', inc] if os.path.isdir(inc) else []
    return _cv

def cvlibs(names=('core', 'imgproc', 'features2d', 'calib3d', 'objdetect', 'video', 'highgui', 'imgcodecs', 'flann', 'aruco')):
    r = []
    for n in names:
        if glob.glob('/usr/lib/*/libopencv_%s.so' % n):
            r.append('-lopencv_' + n)
    return r

def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b'\0')
    return h.hexdigest()[:24]

def read(p):
    with open(p, 'rb') as f:
        return f.read()

def headers_digest():
    h = hashlib.sha256()
    for root, _, fs in sorted(os.walk(os.path.join(REPO, 'src'))):
        for f in sorted(fs):
            if f.endswith(('.hpp', '.h')):
                p = os.path.join(root, f)
                h.update(p.encode()); h.update(read(p))
    return h.hexdigest()

def cached(key, ext, build):
    os.makedirs(CACHE, exist_ok=True)
    p = os.path.join(CACHE, key + ext)
    if not os.path.exists(p):
        tmp = p + '.%d.tmp' % os.getpid()
        build(tmp)
        os.rename(tmp, p)
    return p

CLANG_FLAGS = ['-O1', '-DEIGEN_DONT_VECTORIZE', '-fno-vectorize', '-fno-slp-vectorize', '-ffp-contract=off',
               '-fno-math-errno', '-D_GLIBCXX_ASSERTIONS', '-fPIC', '-w', '-fno-strict-aliasing', '-fno-builtin-printf']

def engine_jobs():
    """[(name, thunk)] building the pass and the runtime objects"""
    eng = os.path.join(VERIF, 'engine')
    common = b''.join(read(f) for f in sorted(glob.glob(eng + '/rt/*.h') + glob.glob(eng + '/include/*')))
    def pas():
        src = eng + '/pass/SymPass.cpp'
        def b(o):
            fl = sh(['llvm-config-18', '--cxxflags']).split()
            sh(['clang++-18', '-shared', '-fPIC', '-O1'] + fl + ['-std=c++17', '-w', src, '-o', o])
        return cached(digest('pass', read(src), read(eng + '/rt/ops.h')), '.so', b)
    def rt(n):
        src = eng + '/rt/%s.cpp' % n
        def b(o):
            sh(['g++', '-std=c++17', '-O2', '-fPIC', '-w', '-c', src, '-I', Z3 + '/include', '-o', o])
        return lambda: cached(digest('rtpic', read(src), common), '.o', b)
    def rep():
        src = eng + '/replay/replay.cpp'
        def b(o):
            sh(['g++', '-std=c++17', '-O1', '-w', '-c', src, '-o', o])
        return cached(digest('rep', read(src), common), '.o', b)
    return pas, [rt('rt'), rt('expr'), rt('solver')], rep

def sym_obj(src, std, passso, hd, extra=(), harness=False):
    fl = ['clang++-18', '-std=c++' + ('17' if harness else std)] + CLANG_FLAGS + ['-fpass-plugin=' + passso, '-I', REPO + '/src',
          '-I', VERIF + '/engine/include', '-I', VERIF + '/harness'] + cvflags() + list(extra)
    hh = b''
    if harness:
        fl += ['-fno-access-control', '-DSYM_BUILD=1']
        hh = b''.join(read(f) for f in sorted(glob.glob(VERIF + '/harness/*.hpp') + glob.glob(VERIF + '/engine/include/*')))
    key = digest('sym', fl, read(src), hd, hh)
    return cached(key, '.o', lambda o: sh(fl + ['-c', src, '-o', o]))

def nat_obj(src, std, hd, harness=False):
    fl = ['g++', '-std=c++' + ('17' if harness else std), '-O1', '-w', '-D_GLIBCXX_ASSERTIONS', '-I', REPO + '/src',
          '-I', VERIF + '/engine/include', '-I', VERIF + '/harness'] + cvflags()
    hh = b''
    if harness:
        fl += ['-fno-access-control']
        hh = b''.join(read(f) for f in sorted(glob.glob(VERIF + '/harness/*.hpp') + glob.glob(VERIF + '/engine/include/*')))
    key = digest('nat', fl, read(src), hd, hh)
    return cached(key, '.o', lambda o: sh(fl + ['-c', src, '-o', o]))

def build_symbolic(harnesses, exclude=(), name='h'):
    """compile everything for the symbolic binary; returns the path of the executable"""
    files, std = upstream()
    hd = headers_digest()
    pas, rts, _ = engine_jobs()
    with cf.ThreadPoolExecutor(8) as ex:
        fr = [ex.submit(r) for r in rts]
        passso = pas()
        fh = [ex.submit(sym_obj, os.path.join(VERIF, 'harness', h), std, passso, hd, (), True) for h in harnesses]
        order = sorted(files, key=lambda f: -os.path.getsize(os.path.join(REPO, f)) if os.path.exists(os.path.join(REPO, f)) else 0)
        fo = [ex.submit(sym_obj, os.path.join(REPO, f), std, passso, hd) for f in order if f not in exclude]
        objs = [f.result() for f in fr + fh + fo]
    exe = os.path.join(OUT, name + '_sym')
    nrt = len(rts)
    # the runtime is a shared library: its uses of the C++ library must not resolve to instrumented instantiations
    rtso = cached(digest('rtso2', *objs[:nrt]), '.so', lambda o: sh(['g++', '-shared', '-o', o] + objs[:nrt] + ['-Wl,-Bsymbolic', '-L', Z3 + '/lib', '-lz3', '-Wl,-rpath,' + Z3 + '/lib', '-lgmpxx', '-lgmp']))
    src = os.path.join(VERIF, 'engine/rt/main.c')
    mo = cached(digest('main', read(src)), '.o', lambda o: sh(['gcc', '-O1', '-fPIC', '-c', src, '-o', o]))
    vs = os.path.join(OUT, 'local.map')
    with open(vs + '.%d' % os.getpid(), 'w') as f:
        f.write('{ local: *; };\n')
    os.rename(vs + '.%d' % os.getpid(), vs)
    sh(['clang++-18', '-o', exe, mo] + objs[nrt:] + [rtso, '-Wl,--allow-multiple-definition', '-Wl,--version-script=' + vs] + cvlibs())
    return exe

def build_native(harnesses, exclude=(), name='h'):
    files, std = upstream()
    hd = headers_digest()
    _, _, rep = engine_jobs()
    with cf.ThreadPoolExecutor(8) as ex:
        fr = [ex.submit(rep)]
        fr += [ex.submit(nat_obj, os.path.join(VERIF, 'harness', h), std, hd, True) for h in harnesses]
        order = sorted(files, key=lambda f: -os.path.getsize(os.path.join(REPO, f)))
        fr += [ex.submit(nat_obj, os.path.join(REPO, f), std, hd) for f in order if f not in exclude]
        objs = [f.result() for f in fr]
    exe = os.path.join(OUT, name + '_nat')
    sh(['g++', '-o', exe] + objs + ['-Wl,--allow-multiple-definition'] + cvlibs())
    return exe

if __name__ == '__main__':
    if sys.argv[1:] == ['--engine']:
        p, r, n = engine_jobs()
        with cf.ThreadPoolExecutor(5) as ex:
            for f in [ex.submit(x) for x in [p, n] + r]:
                print(f.result())
    else:
        print(build_symbolic(sys.argv[1:], name='adhoc'))
