"""Developer tool: writes /verif/seeded/<id>/ and validates a planted bug in a scratch copy. No check uses it."""
import os, re, subprocess, sys, json, shutil, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/seedwt'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
_clo = None
def closure(harness_src):
    import build as b
    allres, err = b.compile_all(b.sources()); syms = {s: b.symbols(x[1]) for s, x in allres.items()}
    defs = {}
    for s in syms:
        for d in syms[s][0]: defs[d] = s
    h = b.compile_tu(harness_src, extra=['-DDEMO']); todo = [b.symbols(h[1])]; seen = set()
    for s in sorted(syms):
        for d in syms[s][1]: defs.setdefault(d, s)
    while todo:
        for u in todo.pop()[2]:
            s = defs.get(u)
            if s and s not in seen: seen.add(s); todo.append(syms[s])
    return sorted(os.path.relpath(s, b.REPO) for s in seen)
def mk(id, prop, edits, demo, needs, breaks, validate=True, check=True):
    d = os.path.join(V, 'seeded', id); os.makedirs(d, exist_ok=True)
    if not os.path.isdir(W): sh('cp -a /repo ' + W)
    sh('git -C %s checkout -q -- . && git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD' % (W, W, W))
    for f, old, new in edits:
        p = os.path.join(W, f); t = open(p).read(); assert t.count(old) == 1, (id, f, t.count(old), old); open(p, 'w').write(t.replace(old, new))
    open(os.path.join(d, 'patch.diff'), 'w').write(sh('git -C %s diff' % W).stdout)
    open(os.path.join(d, 'demo.cc'), 'w').write(demo)
    srcs = closure(os.path.join(d, 'demo.cc'))
    if os.path.isdir(os.path.join(d, 'shim')): shutil.rmtree(os.path.join(d, 'shim'))
    shutil.copytree(os.path.join(V, 'shim'), os.path.join(d, 'shim'))
    open(os.path.join(d, 'demo.sh'), 'w').write('''#!/bin/bash
# run in /repo: exit 0 when the property holds, 1 when it is broken
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD; t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
fl="-std=c++17 -O1 -w -DCERES_STATIC_DEFINE -DCERES_RESTRICT_SCHUR_SPECIALIZATION -I$here/gen -I$here/shim -I$repo/include -I$repo/internal -I/usr/include/eigen3"
echo '#include <cstdlib>
#include <cstdio>
extern "C" void vp_check_failed(const char* f, int l, const char* w) { fprintf(stderr, "%%s:%%d %%s\\n", f, l, w); exit(9); }
#include <chrono>
extern "C" double vp_clock_now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }' > "$t/stub.cc"
{ echo "$here/demo.cc"; echo "$t/stub.cc"; %s } > "$t/list"
n=0; while read -r s; do n=$((n+1)); echo "$s $t/$n.o"; done < "$t/list" > "$t/jobs"
xargs -P 8 -L 1 sh -c 'g++ '"$fl"' -c "$0" -o "$1" || exit 255' < "$t/jobs" || { echo "demo does not build"; exit 2; }
g++ "$t"/*.o -o "$t/demo" -lpthread || exit 2
timeout 120 "$t/demo"; r=$?; [ $r -eq 0 ] && exit 0; echo "property broken (exit $r)"; exit 1
''' % ''.join('echo "$repo/%s"; ' % s for s in srcs))
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    if os.path.isdir(os.path.join(d, 'gen')): shutil.rmtree(os.path.join(d, 'gen'))
    shutil.copytree(os.path.join(V, 'gen'), os.path.join(d, 'gen'))
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    res = []
    if validate:
        t = time.time(); r = sh('bash %s/demo.sh' % d, cwd='/repo'); res.append('clean demo rc=%d %.0fs %s' % (r.returncode, time.time() - t, (r.stdout + r.stderr)[-300:] if r.returncode else ''))
        r = sh('bash %s/demo.sh' % d, cwd=W); res.append('patched demo rc=%d %s' % (r.returncode, (r.stdout + r.stderr)[-200:].replace('\\n', ' ')))
        if r.returncode == 2: res.append('DOES NOT BUILD')
        # build only when a file of the built subset changes: cheap syntax check otherwise done by the demo
    if check:
        t = time.time(); env = dict(os.environ, VP_REPO=W, VP_BUILD='/tmp/seedbuild')
        os.makedirs('/tmp/seedbuild', exist_ok=True)
        r = sh('python3 %s/vp/run.py %s quick' % (V, prop), env=dict(os.environ, VP_REPO=W)); m = re.findall(r'^  (\S+): (.*)$', r.stdout, re.M)
        res.append('CHECK %s rc=%d %.0fs %s' % ('CAUGHT' if r.returncode == 1 and 'VIOLATION property=' + prop in r.stdout else 'MISSED', r.returncode, time.time() - t, m[:2] if r.returncode == 1 else r.stdout[-600:]))
    print(id, '|', *['\n   ' + x for x in res]); sys.stdout.flush()
