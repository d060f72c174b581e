#!/usr/bin/env python3
"""The same as mutate.py for the Octave/Matlab binding: changes single lines and runs a part of the workload of P26.

usage: mutate_mex.py FILE... [--cases N] [--slots N] [--out FILE]     (FILE: helpers.cpp, traxserver.cpp, traxclient.cpp)
"""
import sys, os, re, shutil, subprocess, argparse, threading, queue, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, HERE)
ap = argparse.ArgumentParser(); ap.add_argument('files', nargs='+'); ap.add_argument('--cases', type=int, default=160); ap.add_argument('--slots', type=int, default=4); ap.add_argument('--out', default='/tmp/mut/mex.out'); a = ap.parse_args()
import check
text = open(os.path.join(HERE, 'tools/mutate.py')).read(); i = text.index('SKIPLINE ='); exec(text[i:text.index('env0 = None')])
top = check.build_octave(); env = check.job_environment(dict(script='octave.py', tools=('probe',))); py = check.python_with_numpy()
REPO = check.REPO; src = os.path.join(REPO, 'support/matlab'); f = check.FLAVORS['gccasan']; inc = check.run(['mkoctfile', '-p', 'INCFLAGS'], 'm').split()
cxx = [f['cxx'], *f['flags'].split(), '-w', '-fPIC', '-DOCTAVE', '-DTRAX_STATIC_DEFINE', '-DTRAX_CLIENT_STATIC_DEFINE', *inc, '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'support/client/include'), '-I' + src]
wraps = ['-Wl,--wrap=' + w for w in ('malloc', 'calloc', 'realloc', 'free', 'strdup', 'strndup')]
d0 = check.build_library('gccasan', ('traxstatic', 'trax_client_static'), ('-DCMAKE_POSITION_INDEPENDENT_CODE=ON',)); libs = [check.find(d0, 'libtrax_client_static.a'), check.find(d0, 'libtraxstatic.a')]
jobs = queue.Queue(); n = 0
for m in a.files:
    lines = open(os.path.join(src, m), newline='').read().splitlines(True)
    for k, t in mutants(lines, 1, 10 ** 6): jobs.put((m, lines, k, t)); n += 1
print(n, 'changes'); sys.stdout.flush()
lock = threading.Lock(); count = {}; out = open(a.out, 'w')
def one(d, m, lines, k, t):
    p = os.path.join(d, m); body = list(lines); body[k] = t; open(p, 'w').write(''.join(body)); o = os.path.join(d, m[:-4] + '.o')
    if subprocess.run(cxx + ['-c', p, '-o', o], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode: return 'nocompile'
    for x in ('traxserver', 'traxclient'):
        parts = [os.path.join(d, y + '.o') for y in (x, 'helpers', 'count')]
        if subprocess.run([f['cxx'], '-shared', '-Wl,-Bsymbolic', *f['flags'].split(), *wraps, *parts, *libs, '-lpthread', '-lrt', '-o', os.path.join(d, x + '.mex')], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode: return 'nocompile'
    p = subprocess.Popen([py, os.path.join(HERE, 'harness/octave.py'), '--seed', '1', '--from', '0', '--to', str(a.cases)], env=dict(env, VH_OCTAVE=d, TMPDIR=d), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=d, start_new_session=True)
    try: return 'killed' if p.wait(300) else 'SURVIVED'
    except subprocess.TimeoutExpired: return 'timeout'
    finally: check.kill(p)
def slot(s):
    d = '/tmp/mut/mex%d' % s; shutil.rmtree(d, ignore_errors=True); shutil.copytree(top, d)
    while True:
        try: m, lines, k, t = jobs.get_nowait()
        except queue.Empty: break
        r = one(d, m, lines, k, t); shutil.copy(os.path.join(top, m[:-4] + '.o'), os.path.join(d, m[:-4] + '.o'))
        with lock: count[r] = count.get(r, 0) + 1; out.write('%s\t%s\t%d\t%s\t%s\n' % (r, m, k + 1, lines[k].strip(), t.strip())); out.flush()
    shutil.rmtree(d, ignore_errors=True)
ts = [threading.Thread(target=slot, args=(k,)) for k in range(a.slots)]; [t.start() for t in ts]; [t.join() for t in ts]
print(count)
