#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--only ENTRY] [--keep]: decides one property with the symbolic engine.

Exit 0: every query discharged (or time ran out: said on stdout and in the evidence), 1: VIOLATION
reproduced natively, 2: the check itself failed."""
import argparse, concurrent.futures as cf, glob, json, os, re, resource, shutil, subprocess, sys, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'driver'))
import jobs as J

ENV = dict(os.environ)
ENV.setdefault('HOME', '/root')
ENV['PATH'] = ':'.join(['/root/.cargo/bin', '/usr/local/cargo/bin', ENV.get('PATH', ''), '/usr/local/bin:/usr/bin:/bin'])
for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTC_WRAPPER', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_BUILD_TARGET'):
    ENV.pop(k, None)
ENV.update(RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='0')

CLOCK = threading.Lock()

class CheckError(Exception):
    pass

def run(cmd, cwd, env=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace')
    return p.returncode, p.stdout

def ensure_engine():
    b = os.path.join(HERE, 'engine/target/release/lsym')
    rc, out = run(['cargo', 'build', '-q', '--release', '--offline'], os.path.join(HERE, 'engine'), timeout=900)
    if rc or not os.path.exists(b):
        raise CheckError('engine build failed:\n' + out[-3000:])
    return b

VARIANTS = {
    # name: (profile of the IR, profile of the replay binary, cargo features, rustflags)
    'rel': ('symrel', 'replayrel', [], ''),
    'dbg': ('symdbg', 'replaydbg', [], ''),
    'par': ('symrel', 'replayrel', ['--no-default-features', '--features', 'scalar,par'], ''),
    'pardbg': ('symdbg', 'replaydbg', ['--no-default-features', '--features', 'scalar,par'], ''),
    # the worker of builds without rayon: threads and channels of harness/thread-stub instead of std's
    'mpsc': ('symrel', 'replayrel', [], ''),
    'mpscdbg': ('symdbg', 'replaydbg', [], ''),
    'simd': ('symrel', 'replayrel', ['--no-default-features'], '-C target-feature=+ssse3'),
}

def find_opt():
    rc, root = run(['rustc', '--print', 'sysroot'], HERE)
    root = root.strip().splitlines()[-1]
    c = glob.glob(root + '/lib/rustlib/*/bin/opt') + glob.glob('/usr/bin/opt-*') + ['/usr/lib/llvm-18/bin/opt']
    return c[0]

def std_threads(text):
    return re.sub(r'\bstd::', 'thread_stub::', text)

def harness_dir(bdir, variant):
    """The harness crate for a variant: for `mpsc` a copy which uses a copy of /repo, in which the name std is replaced."""
    src = os.path.join(HERE, 'harness')
    if not variant.startswith('mpsc'):
        return src
    dst = os.path.join(bdir, 'harness-' + variant)
    with CLOCK:
        if os.path.isdir(dst):
            return dst
        toml = open(os.path.join(src, 'Cargo.toml')).read()
        repo = re.search(r'jpeg-decoder = \{ path = "([^"]*)"', toml).group(1)
        new = os.path.join(bdir, 'repo-' + variant)
        os.makedirs(new)
        for d, _, fs in os.walk(os.path.join(repo, 'src')):
            for f in fs:
                if f.endswith('.rs'):
                    out = os.path.join(new, os.path.relpath(os.path.join(d, f), repo))
                    os.makedirs(os.path.dirname(out), exist_ok=True)
                    with open(out, 'w') as o:
                        o.write(std_threads(open(os.path.join(d, f)).read()))
        rt = open(os.path.join(repo, 'Cargo.toml')).read()
        # targets other than the library are left out
        rt = re.sub(r'(?ms)^\[\[(bench|test|example|bin)\]\].*?(?=^\[|\Z)', '', rt)
        rt = rt.replace('[dependencies]', '[dependencies]\nthread-stub = { path = "%s" }' % os.path.join(src, 'thread-stub'), 1)
        with open(os.path.join(new, 'Cargo.toml'), 'w') as o:
            o.write(rt + '\n[workspace]\n')
        shutil.copytree(os.path.join(src, 'src'), os.path.join(dst, 'src'))
        with open(os.path.join(dst, 'Cargo.toml'), 'w') as o:
            o.write(toml.replace(repo, new).replace('"rayon-stub"', '"%s"' % os.path.join(src, 'rayon-stub')))
        shutil.copy(os.path.join(src, 'Cargo.lock'), dst)
    return dst

def build_ir(bdir, variant):
    """LLVM IR of harness + jpeg-decoder (+ the parts of std it uses), from /repo's working tree."""
    prof, _, feats, flags = VARIANTS[variant]
    tgt = os.path.join(bdir, 'ir-' + variant)
    shutil.rmtree(tgt, ignore_errors=True)
    env = dict(ENV)
    if flags:
        env['RUSTFLAGS'] = flags
    rc, out = run(['cargo', 'rustc', '-q', '--offline', '--lib', '--profile', prof, '--target-dir', tgt] + feats +
                  ['--crate-type', 'staticlib', '--', '--emit=llvm-ir', '-C', 'no-vectorize-loops', '-C', 'no-vectorize-slp'],
                  harness_dir(bdir, variant), env)
    lls = glob.glob(tgt + '/' + prof + '/deps/harness-*.ll')
    if not lls:
        raise CheckError('IR build (%s) failed:\n%s' % (variant, '\n'.join(l for l in out.splitlines() if 'warning' not in l)[-3000:]))
    dst = os.path.join(bdir, variant + '.ll')
    rc, out = run([find_opt(), '-S', '-passes=strip-dead-prototypes', '--strip-debug', lls[0], '-o', dst], HERE)
    if rc:
        raise CheckError('opt failed: ' + out[-2000:])
    shutil.rmtree(tgt, ignore_errors=True)
    return dst

def build_replay(bdir, variant):
    _, prof, feats, flags = VARIANTS[variant]
    tgt = os.path.join(bdir, 'rp-' + variant)
    shutil.rmtree(tgt, ignore_errors=True)
    env = dict(ENV)
    if flags:
        env['RUSTFLAGS'] = flags
    rc, out = run(['cargo', 'build', '-q', '--offline', '--profile', prof, '--bin', 'replay', '--target-dir', tgt] + feats, harness_dir(bdir, variant), env)
    b = os.path.join(tgt, prof, 'replay')
    if rc or not os.path.exists(b):
        raise CheckError('replay build (%s) failed:\n%s' % (variant, out[-3000:]))
    return b

PROCS = set()
PLOCK = threading.Lock()

def engine_run(engine, ll, job, budget, out):
    cmd = [engine, ll, '--entry', job.entry, '--params', ','.join(map(str, job.params)), '--time', str(budget), '--out', out] + job.extra
    if job.par > 1:
        cmd += ['--par', str(job.par)]
    def lim():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_AS, (J.MEM << 30, J.MEM << 30))
    with open(out + '.log', 'w') as lf:
        p = subprocess.Popen(cmd, stdout=lf, stderr=lf, env=ENV, preexec_fn=lim)
        with PLOCK:
            PROCS.add(p)
        to = False
        try:
            p.wait(timeout=budget + 45)
        except subprocess.TimeoutExpired:
            to = True
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        p.wait()
    r = {'complete': False, 'rc': p.returncode, 'timeout': to}
    try:
        j = json.load(open(out))
        r['shards'] = j.get('shards', [j])
    except Exception:
        r['shards'] = []
        r['crash'] = open(out + '.log', errors='replace').read()[-600:]
    if r['shards']:
        r['complete'] = all(s.get('complete') for s in r['shards'])
    return r

def tot(r, k):
    return sum(s.get(k, 0) or 0 for s in r['shards'])

def replay(binary, job, inputs, path, valgrind=False, timeout=60):
    with open(path, 'w') as f:
        f.write(' '.join(map(str, inputs)) + '\n')
    cmd = [binary, job.entry, '--params', ','.join(map(str, job.params)), '--inputs', path]
    if valgrind:
        cmd = ['valgrind', '-q', '--error-exitcode=77'] + cmd
    def lim():
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, timeout=timeout, text=True, errors='replace', preexec_fn=None if valgrind else lim)
        return p.returncode, p.stdout[-1500:]
    except subprocess.TimeoutExpired:
        return 124, 'no answer within %d s' % timeout

def load_known():
    kn = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known:'):
                d = dict(x.split('=', 1) for x in l[6:].split(' -- ')[0].split() if '=' in x)
                d['what'] = l.split(' -- ', 1)[1] if ' -- ' in l else ''
                kn.append(d)
    return kn

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--cores', type=int, default=os.cpu_count() or 4)
    ap.add_argument('--keep', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    prop = J.PROPS[a.id]
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    jobs = [j for j in prop.jobs if tier == 'thorough' or j.tier == 'quick']
    if a.only:
        jobs = [j for j in jobs if a.only in j.name()]
    total_budget = J.QUICK_S if tier == 'quick' else J.THOROUGH_S
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    bdir = os.path.join(HERE, 'build', '%s-%d' % (a.id, os.getpid()))
    os.makedirs(bdir)
    try:
        return decide(a, prop, tier, jobs, total_budget, bdir, t0)
    finally:
        for p in list(PROCS):
            if p.poll() is None:
                try:
                    os.killpg(p.pid, 9)
                except ProcessLookupError:
                    pass
        if not a.keep:
            shutil.rmtree(bdir, ignore_errors=True)

def decide(a, prop, tier, jobs, total_budget, bdir, t0):
    engine = ensure_engine()
    variants = sorted({j.ir for j in jobs})
    with cf.ThreadPoolExecutor(8) as ex:
        irs = {v: ex.submit(build_ir, bdir, v) for v in variants}
        rps = {v: ex.submit(build_replay, bdir, v) for v in variants}
        unbuilt = {}
        for v in variants:
            try:
                irs[v], rps[v] = irs[v].result(), rps[v].result()
            except CheckError as e:
                # code that uses a part of std which thread-stub lacks is out of reach, not wrong
                if not v.startswith('mpsc') or len(variants) == 1:
                    raise
                unbuilt[v] = str(e)
    tbuild = time.time() - t0
    deadline = t0 + total_budget
    results = {}
    stop = threading.Event()
    sem = threading.Semaphore(a.cores)

    def work(j):
        left = deadline - time.time()
        if stop.is_set() or left < 3 or j.ir in unbuilt:
            return j, None
        b = min(j.time * (1 if tier == 'quick' else J.THOROUGH_FACTOR), left)
        r = engine_run(engine, irs[j.ir], j, b, os.path.join(bdir, 'r-%d.json' % jobs.index(j)))
        if any(s.get('violations') for s in r['shards']) and not os.environ.get('LSYM_ALL'):
            pass
        return j, r
    order = sorted(jobs, key=lambda j: -j.cost)
    with cf.ThreadPoolExecutor(a.cores) as ex:
        for f in cf.as_completed([ex.submit(work, j) for j in order]):
            j, r = f.result()
            results[j] = r
    # judge
    known = load_known()
    viols, knownhits, notes, errors = [], [], [], []
    validated = 0
    mismatched = []
    decided = 0
    unconfirmed = []
    jobrows = []
    funcs = set()
    for n, j in enumerate(jobs):
        r = results.get(j)
        if r is None:
            notes.append('NOT-RUN %s: %s' % (j.name(), 'the %s build is not possible' % j.ir if j.ir in unbuilt else 'the time budget was used up'))
            jobrows.append({'job': j.name(), 'ir': j.ir, 'result': 'not run'})
            continue
        if not r['shards']:
            if r['timeout']:
                notes.append('INCOMPLETE %s: no result within its time' % j.name())
            else:
                errors.append('%s: engine ended with %s: %s' % (j.name(), r['rc'], r.get('crash', '').strip().replace('\n', ' | ')))
            jobrows.append({'job': j.name(), 'ir': j.ir, 'result': 'no result'})
            continue
        for s in r['shards']:
            funcs.update(s.get('functions', []))
            for e in s.get('errors', [])[:2]:
                errors.append('%s: %s' % (j.name(), e[:400]))
        vs = [v for s in r['shards'] for v in s.get('violations', []) if not (j.crashes and v['kind'] == 'check')]
        bad = False
        for v in vs[:3]:
            path = os.path.join(HERE, 'evidence', 'replay-%s-%d-%d.txt' % (prop.id, n, len(viols)))
            kind = v['kind']
            rc, out = replay(rps[j.ir], j, v['inputs'], path, valgrind=kind == 'memory', timeout=20 if kind == 'hang' else 60)
            what = '%s %s' % (kind, v['msg'])
            if rc in (10, 101, 124, 134, 137, 139, 77, -6, -11, -9, -4, -8):
                bad = True
                k = [d for d in known if d.get('property') == prop.id and d.get('entry') == j.entry and d.get('params') == ','.join(map(str, j.params))
                     and (not d.get('msg') or d['msg'] in what.replace(' ', '_'))]
                with open(path, 'a') as f:
                    f.write('# property %s job %s (%s build): %s\n# native: exit %d: %s\n# engine trace: %s\n# rerun: python3 /verif/replay.py %s\n' % (
                        prop.id, j.name(), j.ir, what, rc, out.strip().replace('\n', ' | '), ' < '.join(v.get('trace', [])), path))
                if k:
                    knownhits.append((k[0], path))
                else:
                    viols.append((j, what, out, path))
            elif kind == 'hang' and rc == 0:
                notes.append('INCOMPLETE %s: a path of more than the instruction limit, which does end' % j.name())
            else:
                unconfirmed.append('%s: %s (native replay exits %d: %s)' % (j.name(), what, rc, out.strip()[-200:]))
        ends = {}
        covers = {}
        for s in r['shards']:
            for k, c in s.get('ends', {}).items():
                ends[k] = ends.get(k, 0) + c
            for k, c in s.get('covers', {}).items():
                covers[k] = covers.get(k, 0) + c
        bounds = {k: c for k, c in ends.items() if k.startswith('bound')}
        unk = tot(r, 'unknown_checks') + tot(r, 'unknown_branches')
        full = r['complete'] and not vs and not bounds and unk == 0 and not any(s.get('errors') for s in r['shards'])
        if not vs:
            if full:
                decided += 1
            elif not any(s.get('errors') for s in r['shards']):
                notes.append('INCOMPLETE %s: %d paths done, %s' % (j.name(), tot(r, 'paths'), 'bound hit' if bounds else ('%d undecided queries' % unk if unk else 'time ran out')))
        if full:
            miss = [c for c in j.covers if not covers.get(str(c))]
            if miss or not ends.get('done'):
                notes.append('VACUOUS %s: cover points %s not reached' % (j.name(), miss))
        # validation: run the witnesses of finished paths on the real code
        if not vs:
            for s in r['shards']:
                for w in s.get('witness', [])[:3]:
                    rc, out = replay(rps[j.ir], j, w, os.path.join(bdir, 'w.txt'))
                    if 'memory allocation of' in out:
                        continue
                    if rc == 0:
                        validated += 1
                    else:
                        mismatched.append('%s: native run of a path the engine finished exits %d: %s' % (j.name(), rc, out.strip()[-200:]))
        jobrows.append({'job': j.name(), 'ir': j.ir, 'what': j.what, 'result': 'violated' if bad else ('held' if full else 'incomplete'),
                        'paths': tot(r, 'paths'), 'instructions': tot(r, 'steps'), 'smt_queries': tot(r, 'queries'), 'sat': tot(r, 'sat'), 'unsat': tot(r, 'unsat'),
                        'unknown': tot(r, 'unknown'), 'assertions': tot(r, 'checks'), 'assertions_by_rewriting': tot(r, 'checks_syntactic'),
                        'affine_assertions': tot(r, 'lin_checks'), 'affine_queries': tot(r, 'lin_queries'),
                        'solver_s': round(tot(r, 'solver_s') + tot(r, 'lin_s'), 2), 'wall_s': round(max([s.get('wall_s', 0) for s in r['shards']]), 2),
                        'symbolic_inputs': max([s.get('symvars_max', 0) for s in r['shards']]), 'covers': covers, 'ends': ends})
    own = sorted(f for f in funcs if 'jpeg_decoder' in f)
    ran = [r for r in jobrows if 'paths' in r]
    ev = {
        'property': prop.id, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': prop.level,
        'coverage': {
            'states': sum(r['paths'] for r in ran), 'transitions': sum(r['instructions'] for r in ran),
            'traces_validated_against_impl': validated,
            'samples': ran[:4],
            'states_are': 'symbolic execution paths explored to their end; transitions are LLVM instructions executed symbolically',
            'jobs': len(jobs), 'jobs_decided': decided, 'job_results': jobrows,
            'functions_encoded': own, 'functions_encoded_total': len(funcs),
            'smt_queries': sum(r['smt_queries'] + r['affine_queries'] for r in ran), 'smt_unsat': sum(r['unsat'] for r in ran), 'smt_sat': sum(r['sat'] for r in ran),
            'smt_unknown': sum(r['unknown'] for r in ran), 'assertions': sum(r['assertions'] + r['affine_assertions'] for r in ran),
            'solver_s': round(sum(r['solver_s'] for r in ran), 2), 'build_s': round(tbuild, 2),
            'bounds': prop.bounds, 'outside_bounds': prop.outside,
            'notes': notes, 'unconfirmed_counterexamples': unconfirmed, 'engine_errors': errors, 'validation_mismatches': mismatched,
        },
        'assumptions': J.TRUST + prop.assume,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(viols),
    }
    with open(os.path.join(HERE, 'evidence', prop.id + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for n in notes + ['UNCONFIRMED ' + u for u in unconfirmed] + ['ENGINE-ERROR ' + e for e in errors] + ['MISMATCH ' + m for m in mismatched]:
        print(n)
    for d, p in knownhits:
        print('KNOWN-FINDING: property=%s %s' % (prop.id, d['what']))
    c = ev['coverage']
    print('%s %s: %d/%d jobs decided, %d paths, %d assertions, %d queries, solver %.1f s, %d native replays agree, wall %.1f s' % (
        prop.id, tier, decided, len(jobs), c['states'], c['assertions'], c['smt_queries'], c['solver_s'], validated, ev['wall_s']))
    for j, what, out, path in viols:
        print('%s: %s -- native: %s' % (j.name(), what, out.strip()[-300:]))
        print('VIOLATION property=%s replay=%s' % (prop.id, path))
    if viols:
        return 1
    if decided == 0 and not knownhits:
        print('check error: nothing was decided')
        return 2
    if mismatched:
        print('check error: the engine and the real code disagree')
        return 2
    return 0

if __name__ == '__main__':
    try:
        sys.exit(main())
    except CheckError as e:
        print('check error: %s' % e)
        sys.exit(2)
