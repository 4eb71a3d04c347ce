#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--only SUBSTR] [--keep-going]

Decides one property by bounded symbolic execution of /repo's current code:
  1. builds the executor (zsym), the harness together with /repo's working tree (LLVM IR) and the native
     replay programs, all keyed by the content of their sources;
  2. runs the property's jobs (jobs.py), each one entry point with a fixed structure and symbolic data;
  3. replays every counterexample on the native build before reporting it, and replays models of explored
     paths (witnesses) on the native build to validate the encoding;
  4. writes evidence/PROPERTY.json.
"""
import concurrent.futures as cf, hashlib, json, os, shutil, subprocess, sys, threading, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, V)
import jobs as J
T0 = time.time()
TC = 'stable-x86_64-unknown-linux-gnu'

def tree(*paths):
    h = hashlib.sha256()
    for p in paths:
        fs = []
        if os.path.isfile(p): fs = [p]
        for d, ds, ns in os.walk(p):
            ds[:] = sorted(x for x in ds if x not in ('target', '.git', '.build', '__pycache__', 'evidence', 'seeded'))
            fs += [os.path.join(d, n) for n in sorted(ns)]
        for f in sorted(fs):
            h.update(f.encode() + b'\0')
            try: h.update(open(f, 'rb').read())
            except OSError: pass
            h.update(b'\0')
    return h.hexdigest()[:20]

def run(cmd, env=None, timeout=600, **k):
    e = dict(os.environ); e.update(env or {})
    return subprocess.run(cmd, env=e, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)

class BuildError(Exception): pass

def prune(keep):
    base = os.path.join(V, '.build')
    if not os.path.isdir(base): return
    ds = sorted((os.path.getmtime(os.path.join(base, d)), d) for d in os.listdir(base))
    for _, d in ds[:-16]:
        if d not in keep: shutil.rmtree(os.path.join(base, d), ignore_errors=True)

def build(variant=''):
    os.makedirs(os.path.join(V, '.build'), exist_ok=True)
    rsrc = [os.path.join(REPO, x) for x in ('src', 'Cargo.toml', 'Cargo.lock', 'build.rs')]
    kz = 'zsym-' + tree(os.path.join(V, 'zsym'))
    kh = 'h' + variant + '-' + tree(os.path.join(V, 'harness'), *rsrc)
    kr = 'r' + variant + '-' + tree(os.path.join(V, 'harness'), os.path.join(V, 'replay'), os.path.join(V, 'replay_sched'), *rsrc)
    B = lambda k: os.path.join(V, '.build', k)
    prune({kz, kh, kr})
    def mk(k, f):
        d = B(k)
        if os.path.exists(os.path.join(d, 'ok')):
            os.utime(d); return d
        tmp = d + '.tmp%d' % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
        try:
            f(tmp)
            open(os.path.join(tmp, 'ok'), 'w').write('ok')
            shutil.rmtree(os.path.join(tmp, 'target'), ignore_errors=True)
            try: os.rename(tmp, d)
            except OSError: pass # another run built it first
        finally:
            if os.path.isdir(tmp): shutil.rmtree(tmp, ignore_errors=True)
        return d
    conf = ['--config=profile.release.package.zune-jpeg.%s=true' % x for x in ('overflow-checks', 'debug-assertions')] if variant == 'ovf' else []
    def fz(d):
        r = run(['bash', os.path.join(V, 'zsym/build.sh'), os.path.join(d, 'zsym')])
        if r.returncode: raise BuildError('zsym: ' + r.stdout[-3000:])
    def fh(d):
        r = run(['bash', os.path.join(V, 'harness/build.sh'), d], env=dict(ZH_CONFIG=' '.join(conf)))
        if r.returncode: raise BuildError('harness: ' + r.stdout[-3000:])
    def fr(d):
        env = dict(RUSTUP_TOOLCHAIN=TC, CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=os.path.join(d, 'target'))
        for c, b in (('replay', 'zreplay'), ('replay_sched', 'zreplay-sched')):
            r = run(['cargo', 'build', *conf, '--offline', '--release', '-q'], env=env, cwd=os.path.join(V, c))
            if r.returncode: raise BuildError(c + ': ' + r.stdout[-3000:])
            shutil.copy(os.path.join(d, 'target/release', b), os.path.join(d, b))
    with cf.ThreadPoolExecutor(3) as ex:
        a, b, c = ex.submit(mk, kz, fz), ex.submit(mk, kh, fh), ex.submit(mk, kr, fr)
        z, h, r = a.result(), b.result(), c.result()
    return os.path.join(z, 'zsym'), os.path.join(h, 'h.ll'), r

def model_text(vars):
    return ''.join('%s %s\n' % (k, ' '.join(map(str, v))) for k, v in vars.items() if v and not k.startswith('uninit'))

class Ctx: pass

def native(c, job, mfile, kind=None):
    """runs the entry natively on a model: (exit code or 'timeout', output)"""
    exe = os.path.join(c.rdir, 'zreplay-sched' if job.get('sched') else 'zreplay')
    cmd = [exe, job['entry'], mfile, '--cpu', job['cpu']]
    for k, v in job['p'].items(): cmd += ['-p', '%d=%d' % (k, v)]
    if kind == 'memory': cmd = ['valgrind', '-q', '--error-exitcode=55', '--exit-on-first-error=yes'] + cmd
    try:
        r = run(cmd, timeout=120 if kind == 'memory' else 20)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 'timeout', ''

tsan_lock = threading.Lock()
def tsan():
    """native build with one thread per job under ThreadSanitizer; built only when a race has to be confirmed"""
    with tsan_lock:
        rsrc = [os.path.join(REPO, x) for x in ('src', 'Cargo.toml', 'Cargo.lock', 'build.rs')]
        d = os.path.join(V, '.build', 't-' + tree(os.path.join(V, 'harness'), os.path.join(V, 'replay'), os.path.join(V, 'replay_tsan'), *rsrc))
        exe = os.path.join(d, 'zreplay-tsan')
        if os.path.exists(exe): return exe
        os.makedirs(d, exist_ok=True)
        env = dict(RUSTUP_TOOLCHAIN=TC.replace('stable', 'nightly'), CARGO_NET_OFFLINE='true', RUSTFLAGS='-Zsanitizer=thread')
        tg = 'x86_64-unknown-linux-gnu'
        r = run(['cargo', 'build', '-Zbuild-std', '--offline', '--release', '-q', '--target', tg, '--target-dir', os.path.join(d, 'target')], env=env, cwd=os.path.join(V, 'replay_tsan'))
        if r.returncode: raise BuildError('replay_tsan: ' + r.stdout[-3000:])
        shutil.copy(os.path.join(d, 'target', tg, 'release/zreplay-tsan'), exe + '.tmp'); os.rename(exe + '.tmp', exe)
        shutil.rmtree(os.path.join(d, 'target'), ignore_errors=True)
        return exe

def reproduce(c, job, vio, mfile):
    if vio['kind'] == 'race':
        try: exe = tsan()
        except BuildError as e: return False, str(e)[-600:]
        cmd = [exe, job['entry'], mfile, '--cpu', job['cpu']]
        for k, v in {**job['p'], 31: 3}.items(): cmd += ['-p', '%d=%d' % (k, v)]
        rc = None
        for i in range(8):
            try: r = run(cmd, timeout=60)
            except subprocess.TimeoutExpired: continue
            rc = r.returncode
            if rc == 66 and 'data race' in r.stdout: return True, 'ThreadSanitizer: ' + r.stdout.strip()[:1800]
        return False, 'exit %s under ThreadSanitizer, no race seen' % rc
    rc, out = native(c, job, mfile)
    if rc in (10, 11, 'timeout') or (isinstance(rc, int) and rc < 0): return True, 'exit %s: %s' % (rc, out.strip()[-600:])
    if vio['kind'] == 'memory':
        rc, out = native(c, job, mfile, 'memory')
        if rc == 55 or rc == 'timeout' or (isinstance(rc, int) and rc < 0): return True, 'valgrind: ' + out.strip()[:1500]
    return False, 'exit %s: %s' % (rc, out.strip()[-600:])

def do_job(c, job):
    try: return do_job1(c, job)
    except Exception: # counts as undecided
        import traceback
        return dict(name=J.job_name(job), rc=-1, wall=0, log=traceback.format_exc()[-1500:], job=job)

def do_job1(c, job):
    name = J.job_name(job)
    left = c.deadline - time.time()
    if c.stop.is_set() or left < 3: return dict(name=name, skipped=True)
    out = os.path.join(c.scratch, '%d.json' % job['n'])
    wall = min(job.get('wall', 60 if c.tier == 'quick' else 600), left)
    cmd = [c.zsym, c.ll, '--entry', job['entry'], '--cpu', job['cpu'], '--out', out, '--wall', str(wall), '--seed', str(c.seed + job['n']),
           '--qtimeout', str(job.get('qtimeout', 20000 if c.tier == 'quick' else 120000)), '--mem', str(job.get('mem', 3500)), '--wit', str(job.get('wit', 2))]
    if 'race' in job: cmd += ['--race']
    if 'hang' in job: cmd += ['--hang', str(job['hang'])]
    if 'paths' in job: cmd += ['--paths', str(job['paths'])]
    if 'instr' in job: cmd += ['--instr', str(job['instr'])]
    for k, v in job['p'].items(): cmd += ['-p', '%d=%d' % (k, v)]
    t = time.time()
    try: r = run(cmd, timeout=wall + 90)
    except subprocess.TimeoutExpired: return dict(name=name, timeout=True, wall=time.time() - t)
    res = dict(name=name, rc=r.returncode, wall=time.time() - t, log=r.stdout[-2000:], job=job)
    if os.path.exists(out):
        try: res['d'] = json.load(open(out))
        except ValueError: res['rc'] = 2
        os.unlink(out)
    d = res.get('d')
    if d is None: return res
    res['repro'] = []
    for i, vio in enumerate(d['violations']):
        mf = os.path.join(c.rep, '%s-%d-%d.model' % (c.prop, job['n'], i))
        open(mf, 'w').write(model_text(vio['vars']))
        ok, info = reproduce(c, job, vio, mf)
        if ok: c.note(job, vio, mf, info)
        else: os.unlink(mf)
        res['repro'].append((ok, info))
    res['validated'] = 0; res['mismatch'] = []
    for i, w in enumerate(d['witnesses']):
        if c.stop.is_set(): break
        mf = os.path.join(c.scratch, 'w%d-%d.model' % (job['n'], i))
        open(mf, 'w').write(model_text(w))
        rc, o = native(c, job, mf)
        if rc == 0: res['validated'] += 1
        elif rc in (10, 11, 'timeout') or (isinstance(rc, int) and rc < 0):
            keep = os.path.join(c.rep, '%s-%d-w%d.model' % (c.prop, job['n'], i)); shutil.copy(mf, keep)
            c.note(job, dict(kind='native', msg='the native build fails on the model of an explored path', where=''), keep, 'exit %s: %s' % (rc, o.strip()[-400:]))
            res['repro'].append((True, o))
        else: res['mismatch'].append('exit %s %s' % (rc, o.strip()[-200:]))
        os.unlink(mf)
    return res

def main():
    a = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick'); only = None; keep = False; prop = None; c_times = False
    while a:
        x = a.pop(0)
        if x == '--tier': tier = a.pop(0)
        elif x == '--only': only = a.pop(0)
        elif x == '--keep-going': keep = True
        elif x == '--times': c_times = True
        else: prop = x
    if prop == '--build-only' or prop == 'build':
        print(build(), build('ovf')); return 0
    c = Ctx(); c.prop, c.tier = prop, tier
    try: c.seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError: c.seed = 1
    try: c.zsym, c.ll, c.rdir = build(J.VARIANT.get(prop, ''))
    except BuildError as e:
        print('BUILD FAILED\n' + str(e)); return 2
    tb = time.time() - T0
    ev = os.path.join(V, 'evidence'); c.rep = os.path.join(ev, 'replay'); os.makedirs(c.rep, exist_ok=True)
    for f in os.listdir(c.rep):
        if f.startswith(prop + '-'): os.unlink(os.path.join(c.rep, f))
    c.scratch = os.path.join(V, '.build', 'run-%s-%d' % (prop, os.getpid())); os.makedirs(c.scratch)
    c.deadline = time.time() + (float(os.environ.get('VERIF_BUDGET', '0')) or (420 if tier == 'quick' else 3300))
    c.stop = threading.Event(); c.found = []; lk = threading.Lock()
    known = load_known()
    def note(job, vio, mf, info):
        with lk:
            k = match_known(known, prop, job, vio)
            c.found.append((job, vio, mf, info, k))
            if not k and not keep: c.stop.set()
    c.note = note
    jl = J.jobs(prop, tier)
    if only: jl = [j for j in jl if only in J.job_name(j)]
    for i, j in enumerate(jl): j['n'] = i
    order = sorted(jl, key=lambda j: -j.get('weight', 1))
    results = []
    try:
        with cf.ThreadPoolExecutor(8) as ex:
            for r in ex.map(lambda j: do_job(c, j), order): results.append(r)
    finally: shutil.rmtree(c.scratch, ignore_errors=True)
    if c_times:
        for r in sorted(results, key=lambda r: -r.get('wall', 0))[:12]: print('%7.1fs %s %s' % (r.get('wall', 0), r['name'], r.get('d', {}).get('paths')))
    return report(c, jl, results, tb)

def load_known():
    p = os.path.join(V, 'known-findings.txt'); r = []
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('known:'):
                d = dict(x.split('=', 1) for x in l[6:].split('|')[0].split() if '=' in x); d['text'] = l[6:].split('|', 1)[-1].strip(); r.append(d)
    return r
def match_known(known, prop, job, vio):
    for k in known:
        if k.get('property') == prop and k.get('entry') == job['entry'] and k.get('job', J.job_name(job)) == J.job_name(job) and k.get('msg', '').replace('_', ' ') in vio['msg']: return k
    return None

def report(c, jl, results, tb):
    bad = [f for f in c.found if not f[4]]
    incon = []; tot = dict(paths=0, forks=0, instructions=0, assertions=0, queries=0, sat=0, unsat=0, unknown=0, sweep_merges=0, eq_trivial=0, eq_solver=0, audit_eval=0, audit_smt=0, audit_undecided=0)
    solver = 0.0; fns = set(); covers = {}; val = 0; done = 0; samples = []; maxv = 0
    for r in results:
        if r.get('skipped'): incon.append(r['name'] + ': not run (time budget or stopped after a violation)'); continue
        if r.get('timeout'): incon.append(r['name'] + ': killed at its time limit'); continue
        d = r.get('d')
        if d is None:
            if c.stop.is_set(): continue
            if 'emory' in r.get('log', '') or r['rc'] in (-9, -6, 137): incon.append(r['name'] + ': out of memory'); continue
            incon.append('%s: executor error (exit %s): %s' % (r['name'], r['rc'], r['log'][-300:])); continue
        for k in tot: tot[k] += d.get(k, 0)
        solver += d['solver_s']; fns |= set(d['functions']); val += r['validated']; maxv = max(maxv, d['variables'])
        und = [r['name'] + ': ' + x[:200] for x in d['inconclusive'][:3]]
        for k, v in d['covers'].items(): covers[k] = covers.get(k, 0) + v
        miss = [x for x in r['job'].get('cover', []) if x not in d['covers']]
        if miss and not d['inconclusive'] and not d['violations'] and not c.found: und.append('%s: required point not reached: %s' % (r['name'], miss))
        for m in r['mismatch']: und.append('%s: native replay of a path model ended differently: %s' % (r['name'], m))
        for ok, info in r['repro']:
            if not ok: und.append('%s: counterexample did not reproduce natively (%s): %s' % (r['name'], info, json.dumps([(v['kind'], v['msg'], v['where']) for v in d['violations']])[:500]))
        incon += und
        if not und and not d['violations']: done += 1
        if len(samples) < 6: samples.append(dict(job=r['name'], paths=d['paths'], assertions=d['assertions'], variables=d['variables'], queries=d['queries'], solver_s=d['solver_s'], wall_s=round(r['wall'], 2)))
    e = dict(property=c.prop, tier=c.tier, seed=c.seed, level='model_checking', wall_s=round(time.time() - T0, 2), violations=len(bad),
             coverage=dict(states=tot['paths'], transitions=tot['instructions'], traces_validated_against_impl=val, samples=samples,
                           jobs=len(jl), jobs_fully_decided=done, symbolic_paths=tot['paths'], path_forks=tot['forks'], assertions_checked=tot['assertions'],
                           solver_queries=tot['queries'], solver_sat=tot['sat'], solver_unsat=tot['unsat'], solver_unknown=tot['unknown'],
                           equivalences_by_normalisation=tot['eq_trivial'], equivalences_by_sweeping=tot['sweep_merges'], equivalences_by_direct_query=tot['eq_solver'],
                           rewrite_audit=dict(random_evaluations=tot['audit_eval'], proved_by_solver=tot['audit_smt'], solver_timeouts=tot['audit_undecided']),
               solver_s=round(solver, 2), build_s=round(tb, 2), max_symbolic_variables=maxv, reached=covers, functions_encoded=sorted(fns),
                           bounds=J.bounds(c.prop), undecided=incon[:60]),
             assumptions=J.assumes(c.prop) + J.assume(c.prop))
    json.dump(e, open(os.path.join(V, 'evidence', c.prop + '.json'), 'w'), indent=1)
    print('%s %s: %d jobs (%d decided), %d paths, %d assertions, %d queries, solver %.1fs, %d witnesses replayed, %.1fs' % (c.prop, c.tier, len(jl), done, tot['paths'], tot['assertions'], tot['queries'], solver, val, time.time() - T0))
    for x in incon[:20]: print('INCOMPLETE: ' + x)
    for k in sorted({f[4]['text'] for f in c.found if f[4]}): print('KNOWN-FINDING: property=%s %s' % (c.prop, k))
    if bad:
        for job, vio, mf, info, _ in bad:
            txt = mf[:-6] + '.txt'
            open(txt, 'w').write('property %s\njob %s\nkind %s\nmessage %s\nwhere %s\nnative: %s\nreplay: zreplay %s %s --cpu %s %s\n' % (c.prop, J.job_name(job), vio['kind'], vio['msg'], vio['where'], info, job['entry'], mf, job['cpu'], ' '.join('-p %d=%d' % kv for kv in job['p'].items())))
            print('  %s: %s: %s [%s]' % (J.job_name(job), vio['kind'], vio['msg'], info[-200:].replace('\n', ' ')))
            print('VIOLATION property=%s replay=%s' % (c.prop, txt))
        return 1
    if done * 4 < len(jl): # almost nothing could be decided: that is no answer
        print('ERROR: only %d of %d jobs were decided' % (done, len(jl))); return 2
    return 0

if __name__ == '__main__': sys.exit(main())
