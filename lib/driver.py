"""Check driver: builds the engine, regenerates the encoding from /repo, runs the solver-based executor,
replays counterexamples and path witnesses against the natively compiled code and writes the evidence."""
import os, sys, errno, json, time, subprocess, tempfile, shutil, hashlib, fcntl, math, re, threading
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SX_REPO', '/repo')
BUILD = os.path.join(V, 'build')
CLANG = '/usr/bin/clang++-18'; CLANGC = '/usr/bin/clang-18'; GXX = '/usr/bin/g++'
ENV = dict(os.environ, PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', LC_ALL='C.UTF-8')
IRFLAGS = ['-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-gline-tables-only', '-emit-llvm', '-c', '-w', '-D_FORTIFY_SOURCE=0', '-U_FORTIFY_SOURCE']
CXXSTD = ['-std=c++14', '-DEIGEN_DONT_VECTORIZE', '-DBOOST_ALLOW_DEPRECATED_HEADERS', '-DBOOST_BIND_GLOBAL_PLACEHOLDERS']

class CheckError(Exception): pass

def run(cmd, timeout=600, **kw):
    env = kw.pop('env', ENV)
    for n in range(50):
        try: return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, **kw)
        except OSError as e:  # a concurrent fork may still hold the freshly linked program open
            if e.errno != errno.ETXTBSY or n == 49: raise
            time.sleep(0.1)

def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = run(['make', '-s', '-j4', '-C', os.path.join(V, 'engine'), 'OUT=' + BUILD], timeout=800)
        if r.returncode: raise CheckError('engine build failed: ' + r.stdout.decode()[-2000:])
        for src, out in (('rt.cpp', 'rt.bc'), ('rtc.c', 'rtc.bc'), ('rtio.cpp', 'rtio.bc')):
            s, o = os.path.join(V, 'runtime', src), os.path.join(BUILD, out)
            deps = [s, os.path.join(V, 'shim/sym/sx_pre.h'), os.path.join(V, 'shim/sym/sx_streams.h')]
            if not os.path.exists(o) or any(os.path.getmtime(o) < os.path.getmtime(d) for d in deps):
                c = [CLANG, *CXXSTD, '-include', os.path.join(V, 'shim/sym/sx_pre.h'), *(['-isystem', os.path.join(V, 'shim/sym')] if src == 'rtio.cpp' else [])] if src.endswith('cpp') else [CLANGC]
                r = run([*c, *IRFLAGS, '-fno-builtin', s, '-o', o + '.tmp'])
                if r.returncode: raise CheckError('runtime build failed: ' + r.stdout.decode()[-2000:])
                os.rename(o + '.tmp', o)

class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.tmp = tempfile.mkdtemp(prefix='sx_%s_' % pid)
        inc = os.path.join(self.tmp, 'inc'); os.makedirs(inc)
        # a copy of the sources; clang takes an unqualified operator=(x) in a template for the base class's, gcc for the class's own
        os.makedirs(os.path.join(inc, 'repo'))
        for e in os.listdir(REPO):
            if e != 'src' and not e.startswith('.'): os.symlink(os.path.join(REPO, e), os.path.join(inc, 'repo', e))
        shutil.copytree(os.path.join(REPO, 'src'), os.path.join(inc, 'repo', 'src'), symlinks=True)
        os.symlink(os.path.join('repo', 'src'), os.path.join(inc, 'envire'))
        for d, _, fs in os.walk(os.path.join(inc, 'repo', 'src')):
            for n in fs:
                if n.endswith(('.hpp', '.h', '.cpp')) and not os.path.islink(os.path.join(d, n)):
                    with open(os.path.join(d, n), errors='surrogateescape') as h: t = h.read()
                    t2 = re.sub(r'([;{}\)]\s*|^\s*)operator=(\s*\(\s*\*?\s*\w+\s*\)\s*;)', r'\1this->operator=\2', t, flags=re.M)
                    if t2 != t:
                        with open(os.path.join(d, n), 'w', errors='surrogateescape') as h: h.write(t2)
        self.inc = inc; self.bc = {}; self.native = {}; self.guard = threading.Lock(); self.locks = {}; self.t0 = time.time()
    def close(self): shutil.rmtree(self.tmp, ignore_errors=True)

def key(*a): return hashlib.sha1(repr(a).encode()).hexdigest()[:12]

def incs(ctx, sym, job):
    r = []
    if sym: r += ['-include', os.path.join(V, 'shim/sym/sx_pre.h'), '-isystem', os.path.join(V, 'shim/sym'), '-include', os.path.join(V, 'shim/sym/sx_streams.h')]
    r += ['-I', os.path.join(V, 'harness'), '-I', ctx.inc, '-I', os.path.join(ctx.inc, 'envire')]
    r += ['-isystem', os.path.join(V, 'shim/rock'), '-isystem', '/usr/include/eigen3']
    if not sym: r += ['-isystem', os.path.join(V, 'shim/native')]
    return r

def srcpath(ctx, s):
    return os.path.join(ctx.inc, 'repo', s[5:]) if s.startswith('repo:') else os.path.join(V, 'harness', s)

def compile_bc(ctx, src, defs, job):
    k = key('bc', src, defs, job.get('opt')); o = os.path.join(ctx.tmp, k + '.bc')
    fl = list(IRFLAGS)
    if job.get('opt'): fl[0] = job['opt']
    lang = CLANG; path = srcpath(ctx, src); extra = []
    if src.startswith('repo:'):  # gcc reads `T x(A(B::c()));` as a variable, clang as a function: add the parentheses that make it one
        try: t = open(path, errors='surrogateescape').read()
        except OSError as e: raise CheckError('cannot read %s: %s' % (src, e))
        t2 = re.sub(r'(^\s*\w+\s+\w+\s*)\(\s*((?:\w+::)*\w+\s*\(\s*(?:\w+::)+\w+\s*\(\s*\)\s*\))\s*\)\s*;', r'\1((\2));', t, flags=re.M)
        if re.search(r'using\s+namespace\s+envire', t): t2 = re.sub(r'^(\s*template\s+(?:class|struct)\s+)(\w+\s*<[^;{]*;)', r'\1envire::\2', t2, flags=re.M)  # explicit instantiations need a qualified name in clang
        if t2 != t:
            real = path; path = os.path.join(ctx.tmp, k + os.path.splitext(src)[1])
            with open(path, 'w', errors='surrogateescape') as f: f.write('#line 1 "%s"\n' % real + t2)
            extra = ['-iquote', os.path.dirname(real)]
    r = run([lang, *CXXSTD, *fl, *extra, '-DSX_SYM=1', '-DEIGEN_NO_CPUID', *['-D' + d for d in defs], *incs(ctx, True, job), path, '-o', o], timeout=300)
    if r.returncode: raise CheckError('cannot encode %s: %s' % (src, r.stdout.decode()[-3000:]))
    return o

def compile_native(ctx, job, asan=True):
    k = key('nat', job['srcs'], job['defs'], asan)
    return once(ctx, k, lambda: compile_native_(ctx, job, asan, os.path.join(ctx.tmp, k)))

def once(ctx, k, f):
    with ctx.guard: lk = ctx.locks.setdefault(k, threading.Lock())
    with lk:
        if k not in ctx.native:
            try: ctx.native[k] = f()
            except CheckError as e: ctx.native[k] = e
        if isinstance(ctx.native[k], CheckError): raise ctx.native[k]
        return ctx.native[k]

def unit_defs(s, defs): return [] if s.startswith(('repo:', '/')) else list(defs)

def native_obj(ctx, s, defs, asan, job):
    fl = ['-g1', '-O1', '-w', '-fno-omit-frame-pointer'] + (['-fsanitize=address', '-DSX_ASAN=1'] if asan else [])
    d = unit_defs(s, defs); k = key('obj', s, d, asan); oo = os.path.join(ctx.tmp, k + '.o')
    def f():
        p = s if s.startswith('/') else srcpath(ctx, s)
        cmd = [GXX, *CXXSTD, *fl, *['-D' + x for x in d], *incs(ctx, False, job)]
        # replay objects are kept per preprocessed text, so an unchanged translation unit is compiled once
        pre = subprocess.run([*cmd, '-E', p], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=ENV); co = None
        if pre.returncode == 0:
            h = hashlib.sha256(repr([GXX, CXXSTD, fl]).encode() + pre.stdout.replace(ctx.tmp.encode(), b'TMP')).hexdigest()
            co = os.path.join(BUILD, 'native', h + '.o')
            if os.path.exists(co): return co
        r = run([*cmd, '-c', p, '-o', oo], timeout=600)
        if r.returncode: raise CheckError('native build failed %s: %s' % (s, r.stdout.decode()[-3000:]))
        if co:
            try: os.makedirs(os.path.dirname(co), exist_ok=True); t = '%s.%d.%s' % (co, os.getpid(), k); shutil.copy(oo, t); os.rename(t, co); return co
            except OSError: pass
        return oo
    return once(ctx, k, f)

def compile_native_(ctx, job, asan, o):
    with ThreadPoolExecutor(8) as ex: objs = list(ex.map(lambda s: native_obj(ctx, s, job['defs'], asan, job), job['srcs'] + [os.path.join(V, 'runtime/replay.cpp')]))
    r = run([GXX, *(['-fsanitize=address'] if asan else []), '-rdynamic', *objs, '-o', o, '-ldl', '-lpthread', *job.get('libs', [])])
    if r.returncode: raise CheckError('native link failed: ' + r.stdout.decode()[-3000:])
    return o

def warm(props):
    """Compile the replay objects of the unchanged units ahead of the checks; failures are left to the checks."""
    d = os.path.join(BUILD, 'native')
    if os.path.isdir(d) and sum(e.stat().st_size for e in os.scandir(d)) > 1 << 30: shutil.rmtree(d, ignore_errors=True)
    ctx = Ctx('setup', 'quick', 1); u = {}
    for p in props.values():
        for j in expand(p['jobs'], 'quick'):
            for s in j['srcs'] + [os.path.join(V, 'runtime/replay.cpp')]: u[(s, tuple(unit_defs(s, j['defs'])))] = j
    def f(k):
        try: native_obj(ctx, k[0], list(k[1]), True, u[k])
        except Exception: pass
    try:
        with ThreadPoolExecutor(8) as ex: list(ex.map(f, u))
    finally: ctx.close()

def run_symx(ctx, job, bcs, budget):
    out = os.path.join(ctx.tmp, job['name'] + '.json')
    cmd = [os.path.join(BUILD, 'symx'), '--harness', job['fn'], '--time', str(min(job.get('time', 120), budget)), '--witnesses', str(job.get('witnesses', 4)), '--seed', str(ctx.seed), '--mem', str(job.get('mem', 3000)), '--maxerr', str(job.get('maxerr', 6)), '--out', out, '--qtimeout', str(job.get('qtimeout', 20000)), '--repo', REPO + '/']
    if job.get('real'): cmd.append('--real')
    if job.get('steps'): cmd += ['--steps', str(job['steps'])]
    t = time.time()
    try: r = run(cmd + bcs, timeout=min(job.get('time', 120), budget) + 120)
    except subprocess.TimeoutExpired: return {'crash': 'executor timeout', 'wall_s': time.time() - t}
    if os.environ.get("SX_FORKPROF"): print("\n".join(l[:240] for l in r.stdout.decode(errors="replace").splitlines() if l.startswith("fork ")))
    if r.returncode or not os.path.exists(out): return {'crash': 'executor exit %d: %s' % (r.returncode, r.stdout.decode()[-500:]), 'wall_s': time.time() - t}
    with open(out) as f: return json.load(f)

def native_run(ctx, exe, fn, inputs, env=None, wrap=()):
    fd, p = tempfile.mkstemp(dir=ctx.tmp, suffix='.in')
    with os.fdopen(fd, 'w') as f: f.write('\n'.join(inputs) + '\n')
    e = dict(ENV, ASAN_OPTIONS='exitcode=99:detect_leaks=0:abort_on_error=0:allocator_may_return_null=0:max_allocation_size_mb=4000:handle_abort=0'); e.update(env or {})
    d = tempfile.mkdtemp(dir=ctx.tmp)
    try: r = run([*wrap, exe, fn, p], timeout=60, env=e, cwd=d); rc, out = r.returncode, r.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired as x: rc, out = 'timeout', (x.stdout or b'').decode(errors='replace')
    shutil.rmtree(d, ignore_errors=True)
    return rc, out

def abnormal(rc, out):
    """None when the run is normal or diverged, otherwise a description of the failure."""
    if rc in (77, 78, 79, 2): 
        m = re.findall(r'SX-ASSERT-FAIL (\S.*)', out)
        return 'assertion ' + m[0] if m else None
    m = re.findall(r'SX-ASSERT-FAIL (.*)', out)
    if m: return 'assertion ' + m[0]
    if rc == 0: return None
    if rc == 'timeout': return 'does not terminate'
    m = re.search(r'ERROR: AddressSanitizer:? ([a-zA-Z0-9-]+)', out)
    if m: return 'AddressSanitizer ' + m.group(1)
    m = re.search(r"terminate called.*(?:\n.*what.*)?", out)
    if m: return m.group(0).replace('\n', ' ')
    m = re.search(r'Assertion .* failed', out)
    if m: return m.group(0)[-200:]
    return 'abnormal exit %s' % rc

def replay(ctx, job, err):
    exe = compile_native(ctx, job)
    tries = [{}] + [{'ASAN_OPTIONS': 'exitcode=99:detect_leaks=0:max_malloc_fill_size=100000000:malloc_fill_byte=%d:max_allocation_size_mb=4000' % b} for b in (0, 255, 1, 127)]
    want = 'assertion ' + err['label'] if err['kind'] == 'assert' else None; other = None
    for env in tries:
        rc, out = native_run(ctx, exe, job['fn'], err['inputs'], env)
        a = abnormal(rc, out)
        if a and (want is None or want in a or ('SX-ASSERT-FAIL ' + err['label']) in out): return a if want is None else want, out
        if a and not other: other = (a, out)
    if other: return other
    try:
        exe = compile_native(ctx, job, asan=False)
        rc, out = native_run(ctx, exe, job['fn'], err['inputs'], None, ('valgrind', '--error-exitcode=98', '-q', '--leak-check=no'))
        if rc == 98: return 'valgrind: ' + (re.findall(r'==\d+== (\S.*)', out) or ['error'])[0], out
    except (CheckError, FileNotFoundError): pass
    return None, out

def same_obs(w, out, real):
    got = re.findall(r'SX-OBS (.) (.*?) (0x[0-9a-f]+)(?: (\S+))?$', out, re.M)
    if len(got) != len(w['obs']): return 'observation count %d vs %d' % (len(got), len(w['obs']))
    for g, o in zip(got, w['obs']):
        k, rest = o.split(' ', 1); lab, val = rest.rsplit(' ', 1)
        if lab != g[1]: return 'label %s vs %s' % (lab, g[1])
        if k == 'r':
            if val == '?': continue
            a, b = float(val), float(g[3])
            if a != b and not (math.isnan(a) and math.isnan(b)) and not abs(a - b) <= 1e-6 * (1 + abs(b)): return '%s: %s vs %s' % (lab, val, g[3])
        elif val != g[2]: return '%s: %s vs %s' % (lab, val, g[2] + ' ' + g[3])
    return None

def known_findings(pid):
    p = os.path.join(V, 'known_findings.jsonl'); r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'):
                d = json.loads(l)
                if d.get('property') == pid and d.get('status') == 'known': r.append(d)
    return r

def expand(jobs, tier):
    out = []
    for j in jobs:
        if j.get('tier') and j['tier'] != tier: continue
        b = dict(j); b.setdefault('fn', 'harness')
        b['defs'] = list(j.get('defs', [])) + ['SX_TIER=%d' % (1 if tier == 'thorough' else 0)]
        if tier == 'thorough':
            b['defs'] += j.get('tdefs', []); b['time'] = j.get('ttime', j.get('time', 120) * 4); b['mem'] = j.get('tmem', 6000); b['witnesses'] = 12; b['qtimeout'] = 60000
        for k in range(j.get('shards', 1)):
            c = dict(b)
            if j.get('shards', 1) > 1: c['defs'] = b['defs'] + ['SX_SHARD=%d' % k, 'SX_SHARDS=%d' % j['shards']]; c['name'] = '%s.%d' % (j['name'], k)
            out.append(c)
    return out

def check(pid, prop, tier, seed, only=None, verbose=False):
    t0 = time.time(); build_engine(); ctx = Ctx(pid, tier, seed)
    total = 780 if tier == 'quick' else 3300
    try:
        jobs = expand(prop['jobs'], tier)
        if only: jobs = [j for j in jobs if j['name'].split('.')[0] in only or j['name'] in only]
        rt = [os.path.join(BUILD, x) for x in ('rt.bc', 'rtc.bc', 'rtio.bc')]
        units = {}
        for j in jobs:
            for s in j['srcs']: units[(s, tuple(unit_defs(s, j['defs'])), j.get('opt'))] = j
        with ThreadPoolExecutor(8) as ex:
            futs = {k: ex.submit(compile_bc, ctx, k[0], list(k[1]), v) for k, v in units.items()}
            bcs = {k: f.result() for k, f in futs.items()}
            def jb(j): return [bcs[(s, tuple(unit_defs(s, j['defs'])), j.get('opt'))] for s in j['srcs']]
            nat = [ex.submit(compile_native, ctx, j) for j in {key(j['srcs'], j['defs']): j for j in jobs}.values()] if len(jobs) < 3 else []
            res = list(ex.map(lambda j: run_symx(ctx, j, jb(j) + rt, total - (time.time() - t0)), jobs))
            for f in nat:
                try: f.result()
                except CheckError: pass
        known = known_findings(pid); violations = []; incon = {}; validated = 0; samples = []; kf = []; fidelity = []; unconfirmed = []
        missing = []
        reached = {}
        def post(jr):
            j, r = jr; V_, I, S_, K, F, U = [], {}, [], [], [], []; n = 0
            if 'crash' in r: I[j['name'] + ': ' + r['crash']] = 1; return V_, I, S_, K, F, U, n
            for k, c in r['inconclusive'].items(): I[j['name'] + ': ' + k] = c
            seen = set(); conf = False
            for e in r['errors']:
                kk = (e['kind'], e['label'], e['where'])
                if kk in seen: continue
                how, out = replay(ctx, j, e)
                if not how: U.append({'job': j['name'], **{x: e[x] for x in ('kind', 'label', 'msg', 'where', 'inputs', 'stack')}}); continue
                seen.add(kk)
                hit = None
                for f in known:
                    if f.get('job') == j['name'].split('.')[0] and (('assertion ' + f['label']) == how if f.get('label') else (f.get('kind') == e['kind'] and f.get('where', '') in e['where'])): hit = f
                (K if hit else V_).append({'job': j['name'], 'native': how, 'finding': hit, **{x: e[x] for x in ('kind', 'label', 'msg', 'where', 'inputs', 'stack')}, 'fn': j['fn']})
            if r['witnesses']:
                try: exe = compile_native(ctx, j)
                except CheckError as x: I[j['name'] + ': ' + str(x)[:300]] = 1; exe = None
                if exe:
                    for w in r['witnesses']:
                        rc, out = native_run(ctx, exe, j['fn'], w['inputs'])
                        a = abnormal(rc, out)
                        m = a if a else ('exit %s %s' % (rc, out[-200:]) if rc != 0 else same_obs(w, out, j.get('real')))
                        if m is None: n += 1; S_.append({'job': j['name'], 'inputs': w['inputs'][:12], 'observed': w['obs'][:6]})
                        else: F.append({'job': j['name'], 'mismatch': m, 'inputs': w['inputs']})
            return V_, I, S_, K, F, U, n
        with ThreadPoolExecutor(4) as ex:
            for (V_, I, S_, K, F, U, n), j, r in zip(ex.map(post, zip(jobs, res)), jobs, res):
                violations += V_; incon.update(I); samples += S_; kf += K; fidelity += F; unconfirmed += U; validated += n
                base = j['name'].split('.')[0]
                for l, c in r.get('reach', {}).items(): reached[(base, l)] = reached.get((base, l), 0) + c
        for j in prop['jobs']:
            if j.get('tier') and j['tier'] != tier: continue
            if only and j['name'] not in only: continue
            for l in j.get('reach', []):
                if not reached.get((j['name'], l)): missing.append('%s:%s' % (j['name'], l))
        # a witness run that misbehaves natively although no solver query said so is a violation shown on the real code
        for f in list(fidelity):
            if f['mismatch'].startswith(('assertion', 'AddressSanitizer', 'terminate', 'Assertion')):
                violations.append({'job': f['job'], 'native': f['mismatch'], 'kind': 'witness', 'label': f['mismatch'], 'msg': f['mismatch'], 'where': '', 'inputs': f['inputs'], 'stack': [], 'fn': next(j['fn'] for j in jobs if j['name'] == f['job'])})
        ok = [r for r in res if 'crash' not in r]
        S = lambda k: sum(r.get(k, 0) for r in ok)
        fns = sorted(set(f for r in ok for f in r['functions']))
        cov = {
            'states': S('paths') + S('assume_killed') + S('error_paths'), 'transitions': S('steps'),
            'traces_validated_against_impl': validated, 'samples': samples[:8],
            'paths_completed': S('paths'), 'forks': S('forks'), 'assertions_evaluated': S('asserts'), 'assertion_queries': S('assert_queries'),
            'solver_queries': S('queries'), 'solver_calls': S('z3_calls'), 'sat': S('sat'), 'unsat': S('unsat'), 'unknown': S('unknown'), 'query_cache_hits': S('cache_hits'),
            'solver_s': round(S('solver_s'), 3), 'max_query_s': max([r['max_query_s'] for r in ok] or [0]),
            'functions_encoded': fns, 'functions_encoded_count': len(fns), 'ir_instructions_encoded': S('instructions_encoded'),
            'bounds': prop.get('bounds', ''), 'outside_bounds': prop.get('outside', ''),
            'jobs': [{'name': j['name'], 'harness': j['fn'], 'domain': 'exact rational arithmetic' if j.get('real') else 'bit-vectors / IEEE-754', 'defs': j['defs'], **{k: r.get(k) for k in ('paths', 'assume_killed', 'error_paths', 'pending', 'asserts', 'z3_calls', 'solver_s', 'wall_s', 'crash') if k in r}} for j, r in zip(jobs, res)],
            'reach': {'%s:%s' % k: c for k, c in reached.items()}, 'unreached': missing,
            'inconclusive': incon, 'unconfirmed_counterexamples': unconfirmed[:10], 'fidelity_mismatches': fidelity[:10],
            'known_findings_hit': [k['finding']['id'] for k in kf],
            'complete_within_bounds': not incon and not missing and not unconfirmed and not fidelity and not any(r.get('pending') for r in ok),
        }
        ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov, 'assumptions': prop.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
        os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
        with open(os.path.join(V, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
        for f in {k['finding']['id']: k['finding'] for k in kf}.values(): print('KNOWN-FINDING: property=%s %s: %s' % (pid, f['id'], f['what']))
        if incon or missing or unconfirmed or fidelity:
            print('note: not everything within the bounds was decided: inconclusive=%s unreached=%s unconfirmed=%d fidelity=%d' % (json.dumps(incon)[:1500], missing, len(unconfirmed), len(fidelity)))
            for u in unconfirmed[:6]: print('  unconfirmed: %s %s %s %s' % (u['job'], u['kind'], u['msg'], u['where']), u['inputs'] if verbose else '')
            for u in fidelity[:6]: print('  fidelity: ', json.dumps(u)[:600])
        print('%s %s: %d jobs, %d paths, %d asserts, %d solver calls (%.1fs), %d witnesses validated, %.1fs' % (pid, tier, len(jobs), S('paths'), S('asserts'), S('z3_calls'), S('solver_s'), validated, time.time() - t0))
        if verbose:
            for j, r in zip(jobs, res): print('  ', j['name'], {k: r.get(k) for k in ('paths', 'assume_killed', 'error_paths', 'pending', 'asserts', 'assert_queries', 'z3_calls', 'solver_s', 'wall_s', 'rss_mb', 'crash')})
        if violations:
            rd = os.path.join(V, 'evidence', 'replay'); os.makedirs(rd, exist_ok=True)
            for n, v in enumerate(violations[:8]):
                p = os.path.join(rd, '%s-%d.txt' % (pid, n))
                with open(p, 'w') as f:
                    f.write('# property %s job %s\n# %s %s\n# at %s\n# natively: %s\n# re-run: %s/check %s --replay %s\n' % (pid, v['job'], v['kind'], v['msg'], v['where'], v['native'], V, pid, p))
                    for s in v['stack']: f.write('# stack %s\n' % s)
                    f.write('# job=%s\n' % v['job'])
                    f.write('\n'.join(v['inputs']) + '\n')
                print('VIOLATION property=%s replay=%s' % (pid, p))
                print('  %s: %s (%s); native: %s' % (v['job'], v['msg'], v['where'], v['native']))
                if verbose:
                    for s in v['stack']: print('     ', s)
                    for s in v['inputs']: print('      input', s)
            return 1
        if any('crash' in r for r in res) or missing:
            print('no answer: %s' % ([r['crash'] for r in res if 'crash' in r] or missing)); return 2
        return 0
    finally: ctx.close()

def replay_file(pid, prop, path):
    build = None; lines = open(path).read().split('\n'); jn = next(l[6:] for l in lines if l.startswith('# job='))
    for tier in ('quick', 'thorough'):
        for j in expand(prop['jobs'], tier):
            if j['name'] == jn:
                ctx = Ctx(pid, tier, 1)
                try:
                    how, out = replay(ctx, j, {'kind': '', 'label': '', 'inputs': [l for l in lines if l and l[0] in 'idf']})
                    print(out); print('reproduced: %s' % how); return 1 if how else 0
                finally: ctx.close()
    return 2
