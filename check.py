#!/usr/bin/env python3
"""Runs the check of one property: builds /repo's working tree with instrumentation, runs the
workloads, watches them with the monitors, writes the evidence and reports violations.

usage: check.py ID [--tier quick|thorough] [--seed N] [--replay FILE]
"""
import sys, os, json, time, subprocess, fcntl, hashlib, struct, shutil, signal, re, argparse, mmap, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(HERE, '.build') if REPO == '/repo' else os.path.join(HERE, '.build', 'alt-' + hashlib.sha1(REPO.encode()).hexdigest()[:8])
EVIDENCE = os.path.join(HERE, 'evidence')
sys.path.insert(0, HERE)

ASAN_OPTIONS = 'exitcode=77:detect_leaks=0:allocator_may_return_null=0:handle_abort=1:symbolize=1:detect_stack_use_after_return=1:malloc_context_size=12'
UBSAN_OPTIONS = 'print_stacktrace=1:halt_on_error=1:exitcode=77'
TSAN_OPTIONS = 'exitcode=77:halt_on_error=1:second_deadlock_stack=1:report_signal_unsafe=0'

FLAVORS = {
    # memory errors and undefined behaviour
    'asan': dict(cc='clang', cxx='clang++', flags='-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all'),
    # the same with coverage feedback
    'fuzz': dict(cc='clang', cxx='clang++', flags='-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined,fuzzer-no-link -fno-sanitize-recover=all'),
    # data races
    'tsan': dict(cc='clang', cxx='clang++', flags='-O1 -g -fno-omit-frame-pointer -fsanitize=thread'),
    # the same for programs that load the library
    'gccasan': dict(cc='gcc', cxx='g++', flags='-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all'),
    # as it is delivered, for valgrind and for child processes
    'plain': dict(cc='gcc', cxx='g++', flags='-O2 -g'),
}

def die(msg):
    sys.stderr.write(msg + '\n'); sys.exit(2)

class Lock:
    def __init__(self, path):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        self.f = open(path, 'w')
    def __enter__(self): fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): fcntl.flock(self.f, fcntl.LOCK_UN); self.f.close()

def run(cmd, what, env=None, cwd=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=env, cwd=cwd)
    if p.returncode:
        sys.stderr.write(p.stdout[-6000:] + '\n')
        die('cannot build: ' + what)
    return p.stdout

def build_library(flavor, targets=('traxstatic',), options=()):
    """Builds /repo's current tree into .build/<flavor> and returns that directory."""
    f = FLAVORS[flavor]
    d = os.path.join(BUILD, flavor + ('-' + hashlib.sha1(' '.join(options).encode()).hexdigest()[:6] if options else ''))
    with Lock(d + '.lock'):
        if not os.path.exists(os.path.join(d, 'build.ninja')):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            run(['cmake', '-G', 'Ninja', '-S', REPO, '-B', d, '-Wno-dev', '-DCMAKE_POLICY_VERSION_MINIMUM=3.5', '-DBUILD_DATE=2024-04-20',
                 '-DCMAKE_BUILD_TYPE=None', '-DCMAKE_C_COMPILER=' + f['cc'], '-DCMAKE_CXX_COMPILER=' + f['cxx'],
                 '-DCMAKE_C_FLAGS=' + f['flags'], '-DCMAKE_CXX_FLAGS=' + f['flags'], '-DBUILD_OPENCV=OFF', '-DBUILD_MATLAB=OFF', '-DBUILD_OCTAVE=OFF', '-DBUILD_CLIENT=ON', '-DBUILD_TESTS=OFF',
                 *options], 'cmake ' + flavor)
        run(['ninja', '-C', d, *targets], 'library ' + flavor)
    return d

WRAP = ['read', 'write', 'recv', 'send']

def build_harness(name, flavor, client=False, wrap=(), extra=(), suffix='', sources=(), includes=(), libs_=()):
    """Compiles harness/<name>.cpp against the static library of the flavor."""
    targets = ('traxstatic', 'trax_client_static') if client else ('traxstatic',)
    d = build_library(flavor, targets)
    f = FLAVORS[flavor]
    libs = [find(d, 'libtrax_client_static.a')] if client else []
    libs.append(find(d, 'libtraxstatic.a'))
    src = os.path.join(HERE, 'harness', name + '.cpp')
    out = os.path.join(d, 'vh_' + name + suffix)
    cmd = [f['cxx'], '-std=c++17', *f['flags'].split(), '-DTRAX_STATIC_DEFINE', '-DTRAX_CLIENT_STATIC_DEFINE', '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'support/client/include'),
           '-I' + os.path.join(HERE, 'harness'), *['-I' + os.path.join(REPO, i) for i in includes], *extra, src, *[os.path.join(REPO, x) for x in sources], *['-Wl,--wrap=' + w for w in wrap], *libs, *libs_, '-lpthread', '-lrt', '-o', out]
    h = hashlib.sha1(' '.join(cmd).encode())
    for p in [src] + [os.path.join(REPO, x) for x in sources] + libs + sorted(os.path.join(r, x) for top in [os.path.join(HERE, 'harness'), os.path.join(REPO, 'include'), os.path.join(REPO, 'support/client/include')] + [os.path.join(REPO, i) for i in includes] for r, _, fs in os.walk(top) for x in fs if x.endswith(('.h', '.hpp'))):
        h.update(open(p, 'rb').read())
    stamp = out + '.stamp'
    with Lock(out + '.lock'):
        if not (os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest()):
            run(cmd, 'harness ' + name)
            open(stamp, 'w').write(h.hexdigest())
    return out

def build_tool(name):
    """A helper program of the monitors, not instrumented and without any code of the repository."""
    d = os.path.join(BUILD, 'tools'); os.makedirs(d, exist_ok=True)
    src = os.path.join(HERE, 'harness', name + '.c'); out = os.path.join(d, 'vh_' + name)
    with Lock(out + '.lock'):
        h = hashlib.sha1(b''.join(open(os.path.join(HERE, 'harness', x), 'rb').read() for x in sorted(os.listdir(os.path.join(HERE, 'harness'))) if x in (name + '.c', name + '.h'))).hexdigest()
        if not (os.path.exists(out) and os.path.exists(out + '.stamp') and open(out + '.stamp').read() == h):
            run(['gcc', '-O1', '-w', '-I' + os.path.join(HERE, 'harness'), src, '-o', out], name); open(out + '.stamp', 'w').write(h)
    return out

def build_python():
    """The Python binding beside an instrumented library that counts its live allocations."""
    o = os.path.join(BUILD, 'tools', 'count.o'); src = os.path.join(HERE, 'harness', 'count.c')
    os.makedirs(os.path.dirname(o), exist_ok=True)
    with Lock(o + '.lock'): run(['gcc', '-O1', '-fPIC', '-fno-builtin', '-c', src, '-o', o], 'count')
    d = build_library('gccasan', ('trax',), ('-DCMAKE_SHARED_LINKER_FLAGS=' + ' '.join('-Wl,--wrap=' + w for w in ('malloc', 'calloc', 'realloc', 'free', 'strdup', 'strndup')) + ' ' + o,))
    top = os.path.join(BUILD, 'python'); p = os.path.join(top, 'trax')
    with Lock(top + '.lock'):
        os.makedirs(p, exist_ok=True); new = {}
        src = os.path.join(REPO, 'support/python/trax')
        for r, ds, fs in os.walk(src):
            ds[:] = [x for x in ds if x != '__pycache__']
            for x in fs:
                if x.endswith('.py'): new[os.path.relpath(os.path.join(r, x), src)] = os.path.join(r, x)
        new['libtrax.so'] = find(d, 'libtrax.so')
        for x in os.listdir(p):
            if x not in new and os.path.isfile(os.path.join(p, x)): os.unlink(os.path.join(p, x))
        for x, f in new.items():
            data = open(f, 'rb').read(); t = os.path.join(p, x); os.makedirs(os.path.dirname(t), exist_ok=True)
            if not (os.path.exists(t) and open(t, 'rb').read() == data):
                with open(t + '.new', 'wb') as o: o.write(data)
                os.replace(t + '.new', t)
    return top

def build_octave():
    """The Octave binding linked with the instrumented libraries, which count their live allocations."""
    wraps = ['-Wl,--wrap=' + w for w in ('malloc', 'calloc', 'realloc', 'free', 'strdup', 'strndup')]
    d = build_library('gccasan', ('traxstatic', 'trax_client_static'), ('-DCMAKE_POSITION_INDEPENDENT_CODE=ON',)); top = os.path.join(BUILD, 'octave'); os.makedirs(top, exist_ok=True)
    here = os.path.join(HERE, 'harness'); src = os.path.join(REPO, 'support/matlab'); f = FLAVORS['gccasan']
    inc = run(['mkoctfile', '-p', 'INCFLAGS'], 'mkoctfile').split()
    libs = [find(d, 'libtrax_client_static.a'), find(d, 'libtraxstatic.a')]
    def up_to_date(out, cmd, inputs):
        h = hashlib.sha1(' '.join(cmd).encode())
        for p in inputs: h.update(open(p, 'rb').read())
        if os.path.exists(out) and os.path.exists(out + '.stamp') and open(out + '.stamp').read() == h.hexdigest(): return
        run(cmd, out); open(out + '.stamp', 'w').write(h.hexdigest())
    with Lock(top + '.lock'):
        headers = sorted(os.path.join(r, x) for t in (src, os.path.join(REPO, 'include'), os.path.join(REPO, 'support/client/include')) for r, _, fs in os.walk(t) for x in fs if x.endswith(('.h', '.hpp')))
        cxx = [f['cxx'], *f['flags'].split(), '-w', '-fPIC', '-DOCTAVE', '-DTRAX_STATIC_DEFINE', '-DTRAX_CLIENT_STATIC_DEFINE', *inc, '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'support/client/include'), '-I' + src]
        o = os.path.join(top, 'count.o'); up_to_date(o, ['gcc', '-O1', '-fPIC', '-fno-builtin', '-c', os.path.join(here, 'count.c'), '-o', o], [os.path.join(here, 'count.c')])
        for x in ('helpers', 'traxserver', 'traxclient'):
            p = os.path.join(src, x + '.cpp'); t = os.path.join(top, x + '.o'); up_to_date(t, cxx + ['-c', p, '-o', t], [p] + headers)
        for x in ('traxserver', 'traxclient'):
            parts = [os.path.join(top, y + '.o') for y in (x, 'helpers', 'count')]; t = os.path.join(top, x + '.mex')
            up_to_date(t, [f['cxx'], '-shared', '-Wl,-Bsymbolic', *f['flags'].split(), *wraps, *parts, *libs, '-lpthread', '-lrt', '-o', t], parts + libs)
        p = os.path.join(here, 'vhlive.c'); t = os.path.join(top, 'vhlive.mex'); up_to_date(t, ['gcc', '-O1', '-shared', '-fPIC', *inc, p, '-ldl', '-o', t], [p])
    return top

def python_with_numpy():
    for p in ('/usr/bin/python3', sys.executable, 'python3'):
        if p and subprocess.run([p, '-c', 'import numpy, six'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0: return p
    die('no Python with numpy and six')

def command(job):
    """The harness of the job, built from the current tree."""
    if 'script' in job:
        {'python.py': build_python, 'octave.py': build_octave}[job['script']]()
        return [python_with_numpy(), os.path.join(HERE, 'harness', job['script'])]
    return job.get('prefix', []) + [build_harness(job['harness'], job.get('flavor', 'asan'), job.get('client', False), job.get('wrap', ()), job.get('extra', ()), job.get('suffix', ''), job.get('sources', ()), job.get('includes', ()), job.get('libs', ()))]

def job_environment(job):
    e = dict(job.get('env') or {})
    if 'script' in job:
        asan = os.path.realpath(subprocess.run(['gcc', '-print-file-name=libasan.so'], stdout=subprocess.PIPE, text=True).stdout.strip())
        e.update(PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', LC_ALL='C.UTF-8')
        if job['script'] == 'octave.py': e.update(VH_OCTAVE=os.path.join(BUILD, 'octave'), VH_ASAN=asan)
        else: e.update(LD_PRELOAD=asan, PYTHONPATH=os.path.join(BUILD, 'python'), PYTHONMALLOC='malloc')
    for t in job.get('tools', ()): e['VH_' + t.upper()] = build_tool(t)
    if job.get('programs'): # programs of the repository itself
        d = build_library(job.get('flavor', 'asan'), job['programs'], job.get('options', ()))
        for t in job['programs']: e['VH_' + t.upper()] = find(d, t)
    return environment(e)

def find(d, name):
    for r, _, fs in os.walk(d):
        if name in fs: return os.path.join(r, name)
    die('cannot build: %s was not produced' % name)

def environment(extra=None):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith('TRAX_') or k in ('ASAN_OPTIONS', 'UBSAN_OPTIONS', 'TSAN_OPTIONS', 'LD_PRELOAD'): del e[k]
    e.update(ASAN_OPTIONS=ASAN_OPTIONS, UBSAN_OPTIONS=UBSAN_OPTIONS, TSAN_OPTIONS=TSAN_OPTIONS, LC_ALL='C')
    e.update(extra or {})
    return e

def digest(stderr):
    """The significant lines of a crash report."""
    keep = [l for l in stderr.splitlines() if re.search(r'ERROR: AddressSanitizer|runtime error|SUMMARY|Assertion|WARNING: ThreadSanitizer|^    #[0-5] |FAIL |terminate called|what\(\)|double free|corrupt|LeakSanitizer|Invalid (read|write)|uninitialised', l)]
    return '\n'.join((keep or stderr.splitlines()[-15:])[:25])

class Result:
    def __init__(self):
        self.cases = 0; self.evaluations = 0; self.counters = {}; self.scenarios = {}; self.samples = []; self.states = set(); self.signatures = set(); self.began = time.time()
        self.failures = []      # dict(key, msg, case, job)
        self.unconfirmed = []
        self.notes = []
    def count(self, name, n=1): self.counters[name] = self.counters.get(name, 0) + n
    def fail(self, key, msg, **kw): self.failures.append(dict(key=key, msg=msg, **kw))
    def state(self, *parts):
        h = int.from_bytes(hashlib.sha1(repr(parts).encode()).digest()[:8], 'little'); self.states.add(h); return h
    def case(self, *parts):
        self.cases += 1; h = self.state(*parts); self.signatures.add(h)
    def sample(self, s):
        if len(self.samples) < 8: self.samples.append(s)

# The harnesses whose cases do not depend on time: what happens is a function of the cases that were run before in the process
HISTORY = ('wire', 'session', 'io', 'region', 'data', 'cpp', 'opencv')

def run_native(res, job, tier, seed, workers=8, deadline=None):
    """Runs the cases of a native harness in parallel workers and collects what its monitors saw."""
    base = command(job) + ['--mode', job['mode'], '--seed', str(seed)] + (['--thorough'] if tier == 'thorough' else [])
    total = job[tier] if tier in job else job['quick']
    limit = job.get('limit', {}).get(tier, 240 if tier == 'quick' else 780)
    hang = job.get('hang', 60)
    workers = min(job.get('workers', workers), max(1, total))
    tmp = tempfile.mkdtemp(prefix='vh_', dir='/tmp')
    env = job_environment(job)
    ws = []
    try:
        chunk = (total + workers - 1) // workers
        for w in range(workers):
            lo, hi = w * chunk, min(total, (w + 1) * chunk)
            if lo >= hi: continue
            ws.append(dict(lo=lo, hi=hi, starts=[], n=w, part=0, p=None))
        start = time.time()
        def launch(w):
            w['part'] += 1; w['starts'].append(w['lo'])
            w['out'] = os.path.join(tmp, 'out%d.%d' % (w['n'], w['part'])); w['prog'] = os.path.join(tmp, 'prog%d.%d' % (w['n'], w['part'])); w['err'] = os.path.join(tmp, 'err%d.%d' % (w['n'], w['part']))
            left = max(5, limit - (time.time() - start))
            with open(w['err'], 'wb') as e:
                w['p'] = subprocess.Popen(base + ['--from', str(w['lo']), '--to', str(w['hi']), '--limit', '%.0f' % left, '--out', w['out'], '--progress', w['prog']], stdout=subprocess.DEVNULL, stderr=e, stdin=subprocess.DEVNULL, env=env, start_new_session=True, cwd=tmp)
            w['seen'] = None; w['beat'] = time.time()
        def progress(w):
            try:
                with open(w['prog'], 'rb') as f: return struct.unpack('QQ', f.read(16))
            except Exception: return None
        def single(case, timeout):
            p = subprocess.Popen(base + ['--case', str(case)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, env=env, cwd=tmp, start_new_session=True)
            try:
                out, err = p.communicate(timeout=timeout)
                return p.returncode, out.decode(errors='replace'), err.decode(errors='replace')
            except subprocess.TimeoutExpired as e:
                kill(p) # and the programs that it has started
                return 'hang', '', (e.stderr or b'').decode(errors='replace')
            finally:
                for f in (p.stdout, p.stderr): f.close()
        def after(first, case, key):
            out = os.path.join(tmp, 'history')
            if os.path.exists(out): os.unlink(out)
            try: subprocess.run(base + ['--from', str(first), '--to', str(case + 1), '--out', out], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, env=env, timeout=limit, cwd=tmp, start_new_session=True)
            except subprocess.TimeoutExpired: return False
            return os.path.exists(out) and any(d.get('fail') and d['case'] == case and d['key'] == key for d in map(json.loads, open(out, errors='replace')))
        for w in ws: launch(w)
        active = list(ws)
        def hung(): return any(f['key'] == 'hang' for f in res.failures)
        while active:
            if hung(): # further cases would probably hang as well
                for w in active: kill(w['p'])
                break
            time.sleep(0.05)
            for w in list(active):
                if hung(): break
                rc = w['p'].poll()
                pr = progress(w)
                if pr != w['seen']: w['seen'] = pr; w['beat'] = time.time()
                if rc is None:
                    if time.time() - w['beat'] > hang:
                        kill(w['p'])
                        case = pr[0] if pr else w['lo']
                        r = single(case, hang)
                        if r[0] == 'hang':
                            res.fail('hang', 'the case does not end within %d s' % hang, case=case, job=job)
                        else: res.unconfirmed.append('case %d of %s was slow, alone it ended' % (case, job['mode']))
                        w['lo'] = case + 1
                        if w['lo'] < w['hi'] and len(res.failures) < 5 and not hung(): launch(w)
                        else: active.remove(w)
                    continue
                if rc in (0, 3): active.remove(w); continue
                # crash: attribute it to the current case
                case = pr[0] if pr else w['lo']
                err = open(w['err'], errors='replace').read()
                res.fail(crash_key(rc, err), digest(err) or 'exit code %s' % rc, case=case, job=job)
                w['lo'] = case + 1
                if w['lo'] < w['hi'] and len(res.failures) < 5: launch(w)
                else: active.remove(w)
        # collect
        for w in ws:
            for k in range(1, w['part'] + 1):
                out = os.path.join(tmp, 'out%d.%d' % (w['n'], k))
                if not os.path.exists(out): continue
                for line in open(out, errors='replace'):
                    try: d = json.loads(line)
                    except ValueError: continue
                    if 'fail' in d:
                        if len([f for f in res.failures if f['key'] == d['key']]) >= 3: continue
                        if res.failures and time.time() - res.began > 200: continue # there is a confirmed failure, confirming more takes too long
                        r = None
                        for attempt in range(job.get('confirm', 3)):
                            r = single(d['case'], hang * 2)
                            if r[0] != 0: break
                        history = None # the failure may depend on what the process has done before
                        if job.get('confirm', 3) and r[0] == 0 and job.get('harness') in HISTORY and not any('start' in f for f in res.failures): history = after(w['starts'][k - 1], d['case'], d['key'])
                        if history: res.fail(d['key'], d['msg'] + ' (after the cases from %d on)' % w['starts'][k - 1], case=d['case'], job=job, start=w['starts'][k - 1])
                        elif job.get('confirm', 3) and r[0] == 0: res.unconfirmed.append('case %d: %s (%s)' % (d['case'], d['msg'], d['key']))
                        else: res.fail(d['key'], d['msg'], case=d['case'], job=job)
                    else:
                        res.cases += d['cases']; res.evaluations += d['evaluations']
                        for a, b in (('counters', res.counters), ('scenarios', res.scenarios)):
                            for n, v in d[a].items(): b[n] = b.get(n, 0) + v
                        for s in d['samples'][:1]: res.sample(s)
                for ext, s in (('.states', res.states), ('.cases', res.signatures)):
                    if os.path.exists(out + ext):
                        b = open(out + ext, 'rb').read(); s.update(struct.unpack('%dQ' % (len(b) // 8), b))
    finally:
        for w in ws:
            if w['p'] and w['p'].poll() is None: kill(w['p'])
        shutil.rmtree(tmp, ignore_errors=True)

def kill(p):
    try: os.killpg(p.pid, signal.SIGKILL)
    except OSError: pass
    p.wait()

def crash_key(rc, err):
    m = re.search(r'AddressSanitizer: ([\w-]+)', err)
    if not m: m = re.search(r'runtime error: ([^\n]{0,60})', err)
    if not m: m = re.search(r'Assertion `([^\']{0,80})', err)
    if not m: m = re.search(r'ThreadSanitizer: ([\w -]+)', err)
    return 'crash:' + (m.group(1).strip() if m else 'exit %s' % rc)

def known_findings(pid):
    p = os.path.join(HERE, 'known_findings.txt'); r = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l)
            if m and m.group(1) == pid: r.append((m.group(2), m.group(3).strip()))
    return r

def main():
    ap = argparse.ArgumentParser(); ap.add_argument('id', nargs='?'); ap.add_argument('--setup', action='store_true'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1)); ap.add_argument('--replay'); ap.add_argument('--only', help='run only the jobs with this mode')
    a = ap.parse_args()
    if a.setup: # every check builds what it needs itself, this only makes sure that the tools are there
        for t in ('cmake', 'ninja', 'clang', 'clang++', 'gcc', 'g++'):
            if not shutil.which(t): die('missing tool ' + t)
        build_library('asan'); print('ready'); return
    from checks import CHECKS
    c = CHECKS[a.id]
    t0 = time.time()
    if a.replay:
        r = json.load(open(a.replay)); job = r['job']
        if 'run' not in job and ('harness' in job or 'script' in job):
            cmd = command(job) + ['--mode', job['mode'], '--seed', str(r['seed'])] + (['--case', str(r['case'])] if r.get('start') is None else ['--from', str(r['start']), '--to', str(r['case'] + 1)]) + (['--thorough'] if r['tier'] == 'thorough' else [])
            print(' '.join(cmd)); sys.exit(subprocess.call(cmd, env=job_environment(job)))
        a.seed = r['seed']; a.tier = r['tier']
    os.makedirs(EVIDENCE, exist_ok=True)
    res = Result()
    for job in c['jobs']:
        if a.only and job.get('mode') != a.only: continue
        if 'harness' in job or 'script' in job: run_native(res, job, a.tier, a.seed)
        else: job['run'](res, a.tier, a.seed)
        if len(res.failures) >= 5: break
    # known findings
    known = known_findings(a.id); violations = []
    for f in res.failures:
        for key, what in known:
            if re.fullmatch(key, f['key']):
                f['known'] = what; break
        else: violations.append(f)
    for what in sorted({f['known'] for f in res.failures if 'known' in f}): print('KNOWN-FINDING: property=%s %s' % (a.id, what))
    ev = dict(property=a.id, tier=a.tier, seed=a.seed, level=c['level'],
              coverage=dict(evaluations=res.cases, distinct_nontrivial=len(res.signatures), rule=c['rule'], samples=res.samples or ['none'], oracle_evaluations=res.evaluations, distinct_states=len(res.states),
                            scenarios=dict(sorted(res.scenarios.items())), observed=dict(sorted(res.counters.items())), unconfirmed=res.unconfirmed[:10], notes=res.notes[:20]),
              assumptions=c.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(violations))
    if not a.only:
        with open(os.path.join(EVIDENCE, a.id + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    if res.cases == 0 and not violations:
        die('no case was run')
    rp = os.path.join(EVIDENCE, 'replays'); os.makedirs(rp, exist_ok=True)
    seen = set()
    for i, f in enumerate(violations):
        if f['key'] in seen: continue
        seen.add(f['key'])
        path = os.path.join(rp, '%s-%d.json' % (a.id, i))
        job = {k: v for k, v in f.get('job', {}).items() if k != 'run'}
        with open(path, 'w') as o: json.dump(dict(property=a.id, tier=a.tier, seed=a.seed, case=f.get('case'), start=f.get('start'), key=f['key'], msg=f['msg'], job=job, reproduce='python3 %s %s --replay %s' % (os.path.join(HERE, 'check.py'), a.id, path)), o, indent=1)
        print('%s: %s' % (f['key'], f['msg']))
        print('VIOLATION property=%s replay=%s' % (a.id, path))
    print('%s: %s, %d cases, %d distinct, %d oracle evaluations, %.1f s' % (a.id, 'VIOLATED' if violations else 'held', res.cases, len(res.signatures), res.evaluations, time.time() - t0))
    sys.exit(1 if violations else 0)

if __name__ == '__main__': main()
