"""Compiles /repo's current sources and the harnesses to LLVM bitcode and links
what one property needs.  Bitcode is cached by the content of every file it was
built from; verdicts never are."""
import concurrent.futures as cf, hashlib, json, os, re, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
B = os.environ.get('VP_BUILD', os.path.join(V, 'build'))
CACHE = os.path.join(B, 'bc')
SSX = os.path.join(B, 'ssx')
CXX = 'clang++'
FLAGS = ['-std=c++17', '-fno-pic', '-fno-pie', '-O1', '-g0', '-fno-exceptions', '-fno-vectorize', '-fno-slp-vectorize', '-ffp-contract=off',
         '-fno-strict-aliasing', '-DEIGEN_DONT_VECTORIZE', '-DEIGEN_NO_CPUID', '-DCERES_STATIC_DEFINE',
         '-DCERES_RESTRICT_SCHUR_SPECIALIZATION', '-I' + V + '/rt', '-I' + V + '/h', '-I' + V + '/gen', '-I' + V + '/shim',
         '-I' + REPO + '/include', '-I' + REPO + '/internal', '-isystem', '/usr/include/eigen3', '-w', '-include', V + '/rt/vp_std.h']
RTFLAGS = ['-std=c++17', '-fno-pic', '-fno-pie', '-O1', '-g0', '-fno-exceptions', '-fno-builtin', '-fno-access-control', '-w', '-I' + V + '/rt']
JOBS = os.cpu_count() or 8
SKIP = re.compile(r'(_test|_benchmark|_test_utils|_test_util)\.cc$|cuda|gmock|test_util|numeric_diff_test|evaluator_test_utils|fake_bundle|bundle_adjustment_test|c_api\.cc$|suitesparse|accelerate|eigensparse_metis')

_hashes = {}
def fhash(p):
    h = _hashes.get(p)
    if h is None:
        try:
            with open(p, 'rb') as f: h = hashlib.sha256(f.read()).hexdigest()[:24]
        except OSError: h = 'none'
        _hashes[p] = h
    return h

def sources():
    d = os.path.join(REPO, 'internal/ceres')
    out = [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith('.cc') and not SKIP.search(f)]
    g = os.path.join(d, 'generated')
    out += [os.path.join(g, f) for f in sorted(os.listdir(g)) if f.endswith('_d_d_d.cc')]
    return out

def name_of(src):
    return re.sub(r'[^A-Za-z0-9_]', '_', os.path.relpath(src, '/'))

class CompileError(Exception): pass

def compile_tu(src, flags=None, extra=()):
    """returns (path of bitcode, path of its symbol list)"""
    flags = (FLAGS if flags is None else flags) + list(extra)
    cmdkey = hashlib.sha256(' '.join(flags).encode()).hexdigest()[:12]
    man = os.path.join(CACHE, name_of(src) + '.' + cmdkey + '.json')
    try:
        entries = json.load(open(man))
    except Exception: entries = []
    for e in entries:
        if all(fhash(p) == h for p, h in e['deps']) and os.path.exists(e['bc']) and os.path.exists(e['sym']):
            return e['bc'], e['sym']
    os.makedirs(CACHE, exist_ok=True)
    fd, tmp = tempfile.mkstemp(suffix='.bc', dir=CACHE); os.close(fd)
    r = subprocess.run([CXX] + flags + ['-emit-llvm', '-c', src, '-o', tmp, '-MMD', '-MF', tmp + '.d'], capture_output=True, text=True)
    if r.returncode:
        for p in (tmp, tmp + '.d'):
            if os.path.exists(p): os.unlink(p)
        raise CompileError(src + '\n' + r.stderr[-4000:])
    deps = re.sub(r'\\\n', ' ', open(tmp + '.d').read()).split(':', 1)[1].split()
    deps = [os.path.abspath(p) for p in deps]
    deps = sorted({p for p in deps if not p.startswith('/usr/')})
    dh = [[p, fhash(p)] for p in deps]
    with open(tmp, 'rb') as f: key = hashlib.sha256(f.read()).hexdigest()[:20]
    bc = os.path.join(CACHE, name_of(src) + '.' + key + '.bc'); sym = bc[:-3] + '.sym'
    nm = subprocess.run(['llvm-nm-18', '-P', tmp], capture_output=True, text=True).stdout
    with open(tmp + '.s', 'w') as f: f.write(nm)
    os.replace(tmp, bc); os.replace(tmp + '.s', sym); os.unlink(tmp + '.d')
    try: entries = json.load(open(man))
    except Exception: entries = []
    entries = ([{'deps': dh, 'bc': bc, 'sym': sym}] + [e for e in entries if e['bc'] != bc])[:4]
    fd, t = tempfile.mkstemp(suffix='.json', dir=CACHE)
    with os.fdopen(fd, 'w') as f: json.dump(entries, f)
    os.replace(t, man)
    return bc, sym

def symbols(sym):
    strong, weak, und = set(), set(), set()
    for l in open(sym):
        p = l.split()
        if len(p) < 2: continue
        if p[1] == 'U': und.add(p[0])
        elif p[1] in 'TDBRC': strong.add(p[0])
        elif p[1] in 'WVwv':
            weak.add(p[0])
    return strong, weak, und

def compile_all(srcs):
    res, err = {}, {}
    with cf.ThreadPoolExecutor(JOBS) as ex:
        fut = {ex.submit(compile_tu, s): s for s in srcs}
        for f in cf.as_completed(fut):
            try: res[fut[f]] = f.result()
            except CompileError as e: err[fut[f]] = str(e)
    return res, err

def link(harness, extra_srcs=(), log=None):
    """bitcode of the harness and of every library source it reaches; returns
    (path without runtime, path with runtime, list of sources)"""
    import time
    t0 = time.time()
    with cf.ThreadPoolExecutor(JOBS) as ex:
        hf = ex.submit(compile_tu, harness)
        rf = ex.submit(compile_tu, os.path.join(V, 'rt/rt.cc'), RTFLAGS)
        allres, err = compile_all(sources() + list(extra_srcs))
        h, rt = hf.result(), rf.result()
    t1 = time.time()
    defs = {}; syms = {}
    for s, (bc, sy) in allres.items():
        syms[s] = symbols(sy)
        for d in syms[s][0]: defs[d] = s
    for s in sorted(allres):   # explicit template instantiations
        for d in syms[s][1]: defs.setdefault(d, s)
    need, seen, todo = [], set(), [symbols(h[1])]
    done = set(todo[0][0])   # what the harness itself defines stands in for the library
    while todo:
        st, wk, un = todo.pop()
        for u in un:
            if u in done: continue
            done.add(u)
            s = defs.get(u)
            if s and s not in seen:
                seen.add(s); need.append(s); todo.append(syms[s])
    missing = [e for s, e in err.items()]
    files = [h[0]] + [allres[s][0] for s in sorted(need)]
    entries = sorted(symbols(h[1])[0])
    key = hashlib.sha256(('\n'.join(files) + rt[0] + 'v4').encode()).hexdigest()[:20]
    base = os.path.join(B, 'link', os.path.basename(harness)[:-3] + '.' + key)
    os.makedirs(os.path.dirname(base), exist_ok=True)
    a, f = base + '.bc', base + '.full.bc'
    if not os.path.exists(f):
        for o in os.listdir(os.path.dirname(base)):
            if o.startswith(os.path.basename(harness)[:-3] + '.'):
                try: os.unlink(os.path.join(os.path.dirname(base), o))
                except OSError: pass
        t = base + '.tmp%d' % os.getpid()
        keep = [e for e in entries]
        subprocess.run(['llvm-link-18', '-o', t + '0'] + files, check=True)
        subprocess.run(['opt-18', '-passes=internalize,globaldce', '-internalize-public-api-list=' + ','.join(keep), t + '0', '-o', t + '1'], check=True)
        subprocess.run(['llvm-link-18', '-o', t + '2', t + '1', rt[0]], check=True)
        os.unlink(t + '0'); os.replace(t + '1', a); os.replace(t + '2', f)
    if log is not None: log.update(compile_s=round(t1 - t0, 2), link_s=round(time.time() - t1, 2), sources=[os.path.relpath(s, REPO) for s in sorted(need)], not_compiled=missing)
    return a, f

def native(bc):
    """the harness and the code it reaches, compiled for the machine; '' if that fails"""
    e = bc[:-3] + '.native'
    if os.path.exists(e): return e
    t = e + '.tmp%d' % os.getpid()
    r = subprocess.run([CXX, '-O1', '-no-pie', '-rdynamic', '-w', '-std=c++17', '-I' + V + '/rt', bc, os.path.join(V, 'rt/native.cc'), '-o', t, '-lpthread', '-ldl'], capture_output=True, text=True)
    if r.returncode: print('native replay did not build:', r.stderr[-800:]); return ''
    os.replace(t, e); return e

def build_engine():
    subprocess.run(['bash', os.path.join(V, 'engine/build.sh'), B], check=True)
