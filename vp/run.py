#!/usr/bin/env python3
"""run.py <property> [quick|thorough] : decide one property on /repo's tree.

Each harness file h/<ID>.cc carries lines
    // @run <function> [ieee] [exact] [time=S] [jobs=N] [tier=thorough] [engine] [maxpaths=N]
    // @bound <text>          stated bound, copied to the evidence
"""
import concurrent.futures as cf, json, os, re, subprocess, sys, tempfile, time, glob, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as b

def parse(h):
    runs, bounds = [], []
    for l in open(h):
        m = re.match(r'\s*// @run (\S+)(.*)', l)
        if m:
            r = {'fn': m.group(1), 'time': 60, 'jobs': 0, 'tier': 'quick', 'flags': [], 'engine': False, 'exact': False, 'nonative': False}
            for w in m.group(2).split():
                if w == 'ieee': r['flags'].append('--ieee'); r['exact'] = True
                elif w in ('engine', 'nonative'): r[w] = True
                elif '=' in w:
                    k, v = w.split('=')
                    if k in ('time', 'jobs'): r[k] = int(v)
                    elif k == 'tier': r['tier'] = v
                    else: r['flags'] += ['--' + k, v]
            runs.append(r)
        m = re.match(r'\s*// @bound (.*)', l)
        if m: bounds.append(m.group(1).strip())
    return runs, bounds

def run_entry(full, r, jobs, scale, out):
    viol = os.path.join(out, r['fn'] + '.viol'); wit = os.path.join(out, r['fn'] + '.wit')
    cmd = [b.SSX, full, '--entry', r['fn'], '--jobs', str(r['jobs'] or jobs), '--time', str(r['time'] * scale), '--viol', viol, '--wit', wit] + r['flags']
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=r['time'] * scale + 120)
        s = json.loads(p.stdout)
    except Exception as e:
        s = {'harness': r['fn'], 'crashed': str(e)[:300], 'obligations': [], 'functions': [], 'paths': 0, 'queries': 0, 'solver_s': 0, 'wall_s': 0, 'incomplete': 1, 'why': 'engine failed', 'unsupported': 0, 'unsup': '', 'witness': 0, 'forks': 0}
    v = []
    if os.path.exists(viol):
        for l in open(viol):
            try: v.append(json.loads(l))
            except Exception: pass
    w = []
    if os.path.exists(wit):
        for l in open(wit):
            try: w.append(json.loads(l))
            except Exception: pass
    return s, v, w

def replay_file(path, cand, sched):
    with open(path, 'w') as f:
        for name, kind, val in cand:
            if kind == 'r':
                if isinstance(val, str): u = int(val[1:], 16)
                else:
                    import struct
                    u = struct.unpack('<Q', struct.pack('<d', float(val)))[0]
                f.write('r x%016x\n' % u)
            else: f.write('%s %d\n' % (kind, int(val)))
        for s in sched: f.write('s %d\n' % s)

class Native:
    def __init__(self, bc): self.bc, self.exe = bc, None
    def build(self):
        if self.exe is None: self.exe = b.native(self.bc)
        return self.exe
    def run(self, fn, path, exact, t=60):
        """(exit code or None on time-out, output)"""
        try:
            p = subprocess.run([self.build(), fn, path] + (['exact'] if exact else []), capture_output=True, text=True, timeout=t, errors='replace')
            return p.returncode, p.stdout.strip()[-300:]
        except subprocess.TimeoutExpired: return None, 'does not terminate'

def confirm(v, r, nat, full, out, n):
    """replays one recorded counterexample; returns a description or None"""
    kinds = v['id'].startswith('error:')
    engine_ok = r['engine'] or kinds or v['schedule']
    for i, cand in enumerate(v['candidates']):
        path = os.path.join(out, '%s.%d.%d.in' % (r['fn'], n, i))
        replay_file(path, cand, v['schedule'])
        hard = kinds and not re.match(r'error:(check-failed|assert-failed|abort|exception|division)', v['id'])
        if not v['schedule'] and not hard and nat.build():
            rc, o = nat.run(r['fn'], path, r['exact'])
            if rc == 42 or (rc is not None and rc < 0): return 'native: ' + (o or 'signal %d' % -rc), path
            if rc is None and v['id'].startswith('hang'): return 'native: does not terminate', path
        if engine_ok:
            ev = path + '.viol'
            try:
                p = subprocess.run([b.SSX, full, '--entry', r['fn'], '--replay', path, '--jobs', '1', '--time', '60', '--viol', ev] + (['--exact'] if r['exact'] else []), capture_output=True, text=True, timeout=120)
                got = [json.loads(l) for l in open(ev)] if os.path.exists(ev) else []
                if got: return 'engine, concrete IEEE run under the recorded schedule: %s %s' % (got[0]['id'], got[0]['msg'][:200]), path
            except Exception: pass
    return None

def main():
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else 'quick'
    t0 = time.time()
    only = sys.argv[3:]
    b.build_engine()
    hs = sorted(glob.glob(os.path.join(b.V, 'h', prop + '*.cc')))
    hs = [h for h in hs if re.match(prop + r'(_\w+)?\.cc$', os.path.basename(h))]
    known = []
    kf = os.path.join(b.V, 'known_findings.json')
    if os.path.exists(kf): known = [k for k in json.load(open(kf)) if k.get('property') == prop and k.get('status') == 'known']
    entries, allbounds, logs = [], [], []
    violations, inconclusive, knownhit, fns = [], [], [], set()
    tmp = tempfile.mkdtemp(prefix='vp_' + prop + '_')
    rp = os.path.join(b.B, 'replay', prop); os.makedirs(rp, exist_ok=True)
    tot = dict(queries=0, solver_s=0.0, paths=0, forks=0, obligations=0, nf=0, smt=0, trivial=0, unknown=0, violated=0, insts=0, sched=0, validated=0)
    try:
        scale = 1 if tier == 'quick' else 6
        jobsets = []
        for h in hs:
            runs, bounds = parse(h); allbounds += bounds
            runs = [r for r in runs if (tier == 'thorough' or r['tier'] == 'quick') and (not only or r['fn'] in only)]
            if not runs: continue
            log = {'harness': os.path.basename(h)}
            try: bc, full = b.link(h, log=log)
            except b.CompileError as e:
                inconclusive.append('harness %s does not compile against this tree: %s' % (os.path.basename(h), str(e)[-1500:])); continue
            logs.append(log); nat = Native(bc)
            for r in runs: jobsets.append((h, bc, full, nat, r))
        n = len(jobsets); width = min(n, 4) or 1; jobs = max(2, b.JOBS // width)
        with cf.ThreadPoolExecutor(width) as ex:
            res = list(ex.map(lambda j: run_entry(j[2], j[4], jobs, scale, tmp), jobsets))
        samples = []
        for (h, bc, full, nat, r), (s, vs, ws) in zip(jobsets, res):
            e = {k: s.get(k) for k in ('harness', 'paths', 'insts', 'queries', 'sat', 'unsat', 'unknown', 'solver_s', 'wall_s', 'witness', 'no_witness', 'sched_points', 'incomplete', 'why', 'unsupported', 'unsup', 'crashed')}
            e['mode'] = 'IEEE-754 bit-precise' if '--ieee' in r['flags'] else 'exact reals + NaN/Inf'
            e['obligations'] = s['obligations']; fns.update(s['functions'])
            for o in s['obligations']:
                if o['id'].startswith('reach:'): continue
                tot['obligations'] += o['reached']; tot['nf'] += o['nf']; tot['smt'] += o['smt']; tot['trivial'] += o['trivial']; tot['unknown'] += o['unknown']; tot['violated'] += o['violated']
            tot['queries'] += s['queries']; tot['solver_s'] += s['solver_s']; tot['paths'] += s['paths']; tot['forks'] += s.get('forks', 0); tot['insts'] += s.get('insts', 0); tot['sched'] += s.get('sched_points', 0)
            if s.get('crashed'): inconclusive.append('%s: engine did not finish (%s)' % (r['fn'], s['crashed']))
            elif s.get('incomplete'): inconclusive.append('%s: not exhausted (%s)' % (r['fn'], s.get('why')))
            if s.get('unsupported'): inconclusive.append('%s: %d path(s) left the encodable subset (%s)' % (r['fn'], s['unsupported'], s.get('unsup', '')[:300]))
            for o in s['obligations']:
                if o['unknown']: inconclusive.append('%s: solver undecided on %s (%d)' % (r['fn'], o['id'], o['unknown']))
            if not s.get('witness') and not s.get('violations') and not s.get('incomplete'): inconclusive.append('%s: no feasible complete path' % r['fn'])
            e['violations'] = []; e['traces'] = 0
            for k, v in enumerate(vs):
                c = confirm(v, r, nat, full, rp, k)
                rec = {'id': v['id'], 'msg': v['msg'], 'stack': v['stack'], 'inputs': v['candidates'][:1], 'schedule': v['schedule'], 'replay': c[0] if c else None}
                e['violations'].append(rec)
                if c:
                    kn = [x for x in known if x['entry'] == r['fn'] and re.search(x['id'], v['id']) and re.search(x.get('stack', ''), v['stack'])]
                    if kn: knownhit.append((kn[0], v))
                    else: violations.append((r, v, c))
                else: inconclusive.append('%s: candidate for %s did not replay' % (r['fn'], v['id']))
            # witnesses of complete paths, pushed through the real code natively
            for k, w in enumerate(ws[:3] if not r['engine'] and not r['nonative'] else []):
                if not nat.build(): break
                path = os.path.join(tmp, '%s.w%d.in' % (r['fn'], k)); replay_file(path, w, [])
                rc, o = nat.run(r['fn'], path, r['exact'], 20)
                if rc == 0: e['traces'] += 1; tot['validated'] += 1
                elif rc == 42 and not vs: inconclusive.append('%s: encoding and native run disagree on a witness: %s' % (r['fn'], o))
                if len(samples) < 6 and k == 0: samples.append({'entry': r['fn'], 'inputs': [[x[0], x[2]] for x in w[:12]], 'native_exit': rc})
            entries.append(e)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    wall = time.time() - t0
    cov = {'states': tot['paths'], 'transitions': tot['forks'] + tot['sched'], 'traces_validated_against_impl': tot['validated'],
           'samples': samples or [{'entry': e['harness']} for e in entries[:3]],
           'rule': 'a state is one complete symbolic path (a set of inputs given by its path condition); a transition is one symbolic fork or scheduling choice; every assertion reached on every path is an obligation decided by polynomial normal form or by an SMT query over all inputs of that path',
           'obligations': tot['obligations'], 'discharged': tot['nf'] + tot['smt'] + tot['trivial'], 'by_normal_form': tot['nf'], 'by_smt': tot['smt'], 'constant': tot['trivial'], 'undecided': tot['unknown'],
           'solver_queries': tot['queries'], 'solver_seconds': round(tot['solver_s'], 2), 'instructions': tot['insts'],
           'bounds': allbounds, 'functions_encoded': sorted(fns), 'inconclusive': inconclusive, 'entries': entries, 'builds': logs,
           'verdict': 'violated' if violations else 'inconclusive' if inconclusive else 'held within the bounds',
           'violating': [{'entry': r['fn'], 'id': v['id'], 'replay': c[1], 'how': c[0]} for r, v, c in violations], 'known_findings': sorted({k['what'] for k, _ in knownhit})}
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking', 'coverage': cov,
          'assumptions': ['doubles are exact reals (plus NaN and infinities) unless the entry says IEEE-754 bit-precise; a counterexample counts only after the real code, compiled natively, reproduces it in IEEE arithmetic',
                          'transcendental functions are uninterpreted up to the axioms stated in DESIGN.md', 'clang 18 -O1 preserves the meaning of the source', 'logging and Abseil are the stand-ins in /verif/shim', 'standard library pieces implemented in rt/rt.cc behave as specified'],
          'wall_s': round(wall, 1), 'violations': len(violations)}
    os.makedirs(os.path.join(b.V, 'evidence'), exist_ok=True)
    p = os.path.join(b.V, 'evidence', prop + '.json'); t = p + '.tmp%d' % os.getpid()
    with open(t, 'w') as f: json.dump(ev, f, indent=1)
    os.replace(t, p)
    for k in sorted({k['what'] for k, _ in knownhit}): print('KNOWN-FINDING: property=%s %s' % (prop, k))
    for m in inconclusive: print('INCONCLUSIVE:', m)
    if os.environ.get('VP_V'):
        for e in entries: print('   %-28s paths %-6s obl %-7d q %-6s solver %6.1f wall %6.1f wit %s traces %d' % (e['harness'], e['paths'], sum(o['reached'] for o in e['obligations']), e['queries'], e['solver_s'], e['wall_s'], e['witness'], e['traces']))
    print('%s: %d entries, %d paths, %d obligations (%d by normal form, %d by SMT, %d constant), %d solver queries, %.1f s solver, %.1f s wall, %d traces validated natively' % (prop, len(entries), tot['paths'], tot['obligations'], tot['nf'], tot['smt'], tot['trivial'], tot['queries'], tot['solver_s'], wall, tot['validated']))
    if violations:
        seen = set()
        for r, v, c in violations:
            if (r['fn'], v['id']) in seen: continue
            seen.add((r['fn'], v['id']))
            print('  %s: %s %s\n    at %s\n    %s' % (r['fn'], v['id'], v['msg'], v['stack'][:400], c[0]))
            print('    inputs: ' + ' '.join('%s=%s' % (x[0], x[2]) for x in v['candidates'][0])[:600] + (' schedule %s' % v['schedule'] if v['schedule'] else ''))
            print('VIOLATION property=%s replay=%s' % (prop, c[1]))
        sys.exit(1)
    if not entries: print('ERROR: nothing to run'); sys.exit(2)
    sys.exit(0)
if __name__ == '__main__': main()
