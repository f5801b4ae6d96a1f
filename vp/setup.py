"""setup: build the engine, compile the library and every harness to bitcode."""
import glob, os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as b
t = time.time()
b.build_engine()
res, err = b.compile_all(b.sources())
for s, e in err.items(): print('not compiled:', s, e[:600])
print('library: %d sources, %.0f s' % (len(res), time.time() - t))
b.compile_tu(os.path.join(b.V, 'rt/rt.cc'), b.RTFLAGS)
hs = sorted(glob.glob(os.path.join(b.V, 'h', '*.cc')))
import concurrent.futures as cf
def one(h):
    try:
        log = {}
        bc, full = b.link(h, log=log); b.native(bc)
        return '%s link %.1fs %d sources' % (os.path.basename(h), log['link_s'], len(log['sources']))
    except b.CompileError as e: return 'harness not compiled: %s %s' % (h, str(e)[-1500:])
with cf.ThreadPoolExecutor(b.JOBS) as ex:
    for m in ex.map(one, hs): print(m)
print('setup done in %.0f s' % (time.time() - t))
