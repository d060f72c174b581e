#!/usr/bin/env python3
"""Measures how much the checks notice: changes single lines of a source file of a copy of /repo,
links the harnesses with the changed file, and runs a part of the workloads of the checks on it.
What survives is written to the output for inspection (it may be an equivalent change).

usage: mutate.py REPO FILE [--fraction F] [--seed N] [--scale S] [--slots N] [--lines A-B] [--out FILE] [--modes P01,P02]
"""
import sys, os, re, random, subprocess, argparse, json, time, threading, queue, shutil, hashlib
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, HERE)
ap = argparse.ArgumentParser(); ap.add_argument('repo'); ap.add_argument('file'); ap.add_argument('--fraction', type=float, default=1); ap.add_argument('--seed', type=int, default=1); ap.add_argument('--scale', type=float, default=0.08); ap.add_argument('--slots', type=int, default=8); ap.add_argument('--lines'); ap.add_argument('--out'); ap.add_argument('--modes'); ap.add_argument('--redo', help='only the survivors in this file'); ap.add_argument('--list', action='store_true')
a = ap.parse_args()
os.environ['VERIF_REPO'] = a.repo
import check, checks
W = '/tmp/mut/' + hashlib.sha1((a.repo + a.file).encode()).hexdigest()[:6]; os.makedirs(W, exist_ok=True)
ORDER = {
    'src/message.c': 'P02 P03 P01 P05s P17 P16 P04 P05 P08 P15 P15w P06', 'src/trax.c': 'P04 P06 P07 P12 P13 P05 P01 P02 P03 P10 P09 P11 P15 P16 P17 P08 P14', 'src/region.c': 'P09 P10 P11 P22 P08 P01 P13 P14 P15',
    'src/base64.c': 'P07 P01 P08', 'src/strmap.c': 'P12 P03 P04 P13', 'src/buffer.h': 'P02 P03 P09 P01 P12 P15 P08 P04', 'src/strmap.h': 'P12 P03 P04 P13', 'src/traxpp.cpp': 'P14 P22 P06 P12 P13 P01 P21', 'support/opencv/opencv.cpp': 'P25',
    'support/client/client.cpp': 'P18 P27 P20 P18m P22 P19', 'support/client/process.cpp': 'P19 P18 P27 P20', 'support/client/threads.cpp': 'P18 P20 P27', 'support/client/timer.cpp': 'P23', 'support/client/cli.cpp': 'P23 P25',
}
modes = (a.modes.replace(',', ' ') if a.modes else ORDER[a.file]).split()
FL = check.FLAVORS['asan']['flags'].split()
C = a.file.endswith('.c'); header = a.file.endswith('.h')
INC = ['-I' + os.path.join(a.repo, x) for x in ('include', 'src', 'support/client/include', 'support/client', 'support/opencv/include')] + ['-I/usr/include/opencv4']
DEF = ['-DTRAX_STATIC_DEFINE', '-DTRAX_CLIENT_STATIC_DEFINE', '-DTRAX_BUILD_VERSION="m"', '-w']
LIB = ['src/trax.c', 'src/message.c', 'src/region.c', 'src/base64.c', 'src/strmap.c', 'src/debug.c', 'src/traxpp.cpp']
CLIENT = ['support/client/client.cpp', 'support/client/process.cpp', 'support/client/threads.cpp', 'support/client/timer.cpp']
CLIENT = [x for x in CLIENT if os.path.exists(os.path.join(a.repo, x))]
LIB = [x for x in LIB if os.path.exists(os.path.join(a.repo, x))]
def cc(f): return ['clang'] if f.endswith('.c') else ['clang++', '-std=c++17' if f.endswith('harness') else '-std=c++14']
def compile(src, out, extra=(), inc=(), cxx='-std=c++14'):
    cmd = (['clang'] if src.endswith('.c') else ['clang++', cxx]) + FL + DEF + list(inc) + INC + list(extra) + ['-c', src, '-o', out]
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
def need(p):
    if p.returncode: print(p.stdout[-3000:]); sys.exit(2)
def obj(f): return os.path.join(W, f.replace('/', '_') + '.o')
def par(fs):
    ts = [threading.Thread(target=f) for f in fs]; [t.start() for t in ts]; [t.join() for t in ts]
JOBS = []
for m in modes:
    for pid, c in checks.CHECKS.items():
        for j in c['jobs']:
            if j.get('mode') == m and j.get('flavor', 'asan') == 'asan' and ('harness' in j) and (pid == m or pid == m[:3]) and 'prefix' not in j and not (m == 'P25' and (j['harness'] == 'cli') != (a.file == 'support/client/cli.cpp')): JOBS.append(j)
def setup():
    fs = []
    for f in LIB + CLIENT + (['support/client/cli.cpp', 'support/tests/traxtest.cpp'] if any(j['harness'] == 'cli' for j in JOBS) else []):
        p = os.path.join(a.repo, f)
        if os.path.exists(p): fs.append(lambda p=p, f=f: need(compile(p, obj(f))))
    for h in {(j['harness'], tuple(j.get('extra', ()))) for j in JOBS}:
        fs.append(lambda h=h: need(compile(os.path.join(HERE, 'harness', h[0] + '.cpp'), os.path.join(W, 'h_%s_%s.o' % (h[0], hashlib.sha1(repr(h[1]).encode()).hexdigest()[:5])), h[1], ['-I' + os.path.join(HERE, 'harness')], '-std=c++17')))
    if a.file == 'support/opencv/opencv.cpp': fs.append(lambda: need(compile(os.path.join(a.repo, a.file), obj(a.file))))
    par(fs)
SKIPLINE = re.compile(r'^\s*(//|\*|/\*|#|$)|DEBUGMSG|print_debug|perror|fprintf\(stderr|std::cerr|assert\(|^\s*[{}]+\s*$|WIN32|^\s*(const )?(int|char|float|trax_\w+|string_list|size_t|bool|static)\**\s[\w\s,*]*;')
def mutants(lines, lo, hi):
    skip = 0; out = []; stack = []
    for n, l in enumerate(lines):
        m = re.match(r'\s*#\s*(if|ifdef|ifndef|elif|else|endif)\b(.*)', l)
        if m:
            k, x = m.groups()
            win = bool(re.search(r'WIN32|__WINDOWS__|_MSC_VER|__OS2__|MINGW|APPLE|MATLAB', x))
            if k in ('if', 'ifdef'): stack.append([win and '!' not in x and 'else' or '', win and '!' not in x])
            elif k == 'ifndef': stack.append(['', False])
            elif k in ('else', 'elif') and stack: stack[-1] = [stack[-1][0], not stack[-1][1] if stack[-1][0] else False]
            elif k == 'endif' and stack: stack.pop()
            continue
        if any(s[1] for s in stack) or not lo <= n + 1 <= hi or SKIPLINE.search(l): continue
        code = l.split('//')[0].rstrip('\n')
        if not code.strip() or code.lstrip().startswith('*'): continue
        blank = re.sub(r'"(\\.|[^"\\])*"|\'(\\.|[^\'\\])*\'', lambda m: '"' * len(m.group()), code)
        def sub(a_, b_, what): out.append((n, code[:a_] + what + code[b_:] + '\n'))
        for m in re.finditer(r'(?<![<>=!+\-*/&|^-])(<=|>=|==|!=|<|>)(?![<>=])', blank):
            o = m.group(1)
            if o in ('<', '>') and (re.search(r'#include|template|vector<|map<|<\w+>|cast<|::', blank)): continue
            for r in {'<': ['<=', '>'], '>': ['>=', '<'], '<=': ['<'], '>=': ['>'], '==': ['!='], '!=': ['==']}[o]: sub(m.start(1), m.end(1), r)
        for m in re.finditer(r'&&|\|\|', blank): sub(m.start(), m.end(), '||' if m.group() == '&&' else '&&')
        for m in re.finditer(r'(?<=[\w)\] ])([+\-])\s*(\d+)\b', blank): sub(m.start(), m.end(), ''); 
        for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.])', blank):
            v = int(m.group(1)); sub(m.start(), m.end(), str(v + 1)); 
            if v: sub(m.start(), m.end(), str(v - 1))
        for m in re.finditer(r'(?<=[\w)\]])\s*([*/%+\-])\s*(?=[\w(])', blank):
            if re.match(r'\s*(const |static )?\w+\s*\*+\s*\w+', blank[:m.end() + 3]) : continue
            sub(m.start(1), m.end(1), {'*': '+', '/': '*', '%': '/', '+': '-', '-': '+'}[m.group(1)])
        for m in re.finditer(r'\bif \((.*)\)(\s*(\{|return|break|continue|goto|throw|$).*)', blank): sub(m.start(1), m.end(1), '!(' + code[m.start(1):m.end(1)] + ')')
        if re.match(r'\s*(break|continue);', blank): out.append((n, '\n'))
        elif re.match(r'\s*[\w>.\-\[\]()*:&, ]+(\(.*\)|[+\-*/|&^]?=.*|\+\+|--);\s*$', blank) and not re.match(r'\s*(return|if|for|while|else|case|delete|throw|using|typedef)\b', blank) and not re.match(r'\s*(const |static |unsigned )*[\w:]+(<.*>)?[\s*&]+\w+(\[.*\])?\s*(=|;|\()', blank): out.append((n, '\n'))
        m = re.match(r'(\s*)if \(.*\) ([^{]*;)\s*$', blank)
        if m: out.append((n, '\n'))
        m = re.match(r'\s*return (.*);', blank)
        if m and m.group(1) in ('1', '0', '-1', 'true', 'false', 'NULL', 'result', 'TRAX_OK', 'TRAX_ERROR'): sub(m.start(1), m.end(1), {'1': '0', '0': '1', '-1': '0', 'true': 'false', 'false': 'true', 'NULL': 'NULL', 'result': '0', 'TRAX_OK': 'TRAX_ERROR', 'TRAX_ERROR': 'TRAX_OK'}[m.group(1)]) if m.group(1) != 'NULL' else None
    seen = set(); res = []
    for n, t in out:
        if t != lines[n] and (n, t) not in seen: seen.add((n, t)); res.append((n, t))
    return res
env0 = None
def run_mutant(slot, n, text, lines):
    d = os.path.join(W, 'slot%d' % slot); os.makedirs(d, exist_ok=True)
    src = os.path.join(d, os.path.basename(a.file)); body = list(lines); body[n] = text; open(src, 'w').write(''.join(body))
    objs = {}
    if header:
        inc = os.path.join(d, 'inc'); shutil.rmtree(inc, ignore_errors=True); shutil.copytree(os.path.join(a.repo, os.path.dirname(a.file)), inc, ignore=shutil.ignore_patterns('tests')); shutil.copy(src, os.path.join(inc, os.path.basename(a.file)))
        for f in (LIB if a.file.startswith('src') else CLIENT):
            o = os.path.join(d, f.replace('/', '_') + '.o'); p = compile(os.path.join(inc, os.path.basename(f)), o)
            if p.returncode: return 'nocompile'
            objs[f] = o
    else:
        o = os.path.join(d, 'm.o'); p = compile(src, o, ['-I' + os.path.join(a.repo, os.path.dirname(a.file))])
        if p.returncode: return 'nocompile'
        q = subprocess.run(['objcopy', '-O', 'binary', '--only-section=.text', o, o + '.t'], stderr=subprocess.DEVNULL)
        objs[a.file] = o
    get = lambda f: objs.get(f, obj(f))
    for j in JOBS:
        h = os.path.join(W, 'h_%s_%s.o' % (j['harness'], hashlib.sha1(repr(tuple(j.get('extra', ()))).encode()).hexdigest()[:5])); b = os.path.join(d, 'h_' + j['harness'] + j.get('suffix', ''))
        if not (b in objs):
            link = ['clang++'] + FL + [h] + [get(f) for f in (CLIENT if j.get('client') else [])] + [get(f) for f in LIB] + ([get('support/opencv/opencv.cpp')] if j['harness'] == 'opencv' else []) + ['-Wl,--wrap=' + w for w in j.get('wrap', ())] + list(j.get('libs', ())) + ['-lpthread', '-lrt', '-o', b]
            need(subprocess.run(link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)); objs[b] = b
        env = check.environment(); 
        for t in j.get('tools', ()): env['VH_' + t.upper()] = check.build_tool(t)
        if j['harness'] == 'cli':
            for prog, main in (('traxclient', 'support/client/cli.cpp'),):
                o = os.path.join(d, prog)
                if o not in objs: need(subprocess.run(['clang++'] + FL + [get(main)] + [get(f) for f in CLIENT + LIB] + ['-lpthread', '-lrt', '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)); objs[o] = o
                env['VH_' + prog.upper()] = o
            env['VH_TRAXTEST'] = check.find(check.build_library('asan', ('traxtest',)), 'traxtest')
        total = max(8, int(j['quick'] * a.scale)); procs = 8 if j['harness'] in ('client', 'cli') else 1; ps = []
        for k in range(procs):
            ps.append(subprocess.Popen([b, '--mode', j['mode'], '--seed', '7', '--from', str(k), '--to', str(total), '--step', str(procs)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, env=env, cwd=d, start_new_session=True))
        end = time.time() + (240 if procs > 1 else 90); dead = None
        while True:
            rcs = [p.poll() for p in ps]
            if any(r not in (None, 0) for r in rcs): dead = 'killed'; break
            if all(r == 0 for r in rcs): break
            if time.time() > end: dead = 'timeout'; break
            time.sleep(0.02)
        for p in ps:
            if p.poll() is None: check.kill(p)
            p.stdout.close(); p.stderr.close()
        if dead: return dead + ' by ' + j['mode']
    return 'SURVIVED'
# pipes of the harness outputs are small: outputs of these processes are short
def main():
    lines = open(os.path.join(a.repo, a.file), newline='').read().splitlines(True); lo, hi = (map(int, a.lines.split('-')) if a.lines else (1, 10 ** 6))
    ms = mutants(lines, lo, hi); rng = random.Random(a.seed)
    if a.redo:
        want = {(int(l.split('\t')[1]), l.split('\t')[3].strip()) for l in open(a.redo) if l.startswith('SURVIVED')}; ms = [m for m in ms if (m[0] + 1, m[1].strip()) in want]
    if a.fraction < 1: ms = rng.sample(ms, int(len(ms) * a.fraction))
    print('%d changes of %s' % (len(ms), a.file)); sys.stdout.flush()
    if a.list:
        for n, t in ms: print(n + 1, lines[n].strip(), ' -> ', t.strip())
        return
    setup(); q = queue.Queue(); [q.put(m) for m in ms]; lock = threading.Lock(); count = {}; f = open(a.out or '/tmp/mut/' + os.path.basename(a.file) + '.out', 'w')
    r = run_mutant(99, 0, lines[0], lines); print('unchanged:', r)
    if r != 'SURVIVED': sys.exit('the unchanged file is not accepted')
    def work(slot):
        while True:
            try: n, t = q.get_nowait()
            except queue.Empty: return
            try: r = run_mutant(slot, n, t, lines)
            except SystemExit: r = 'nolink'
            with lock:
                k = r.split()[0]; count[k] = count.get(k, 0) + 1
                f.write('%s\t%d\t%s\t%s\n' % (r, n + 1, lines[n].strip(), t.strip())); f.flush()
    par([lambda s=s: work(s) for s in range(a.slots)]); print(count); shutil.rmtree(W, ignore_errors=True)
main()
