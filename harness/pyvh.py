"""What the monitors written in Python share: the runtime with the interface of vh.h, a second implementation of
the protocol, generators and transports."""
import sys, os, gc, json, time, mmap, struct, random, hashlib, base64, socket, fcntl, select
import numpy as np

# ---------------------------------------------------------------- runtime
class Fail(Exception):
    def __init__(self, key, msg): Exception.__init__(self, msg); self.key = key; self.msg = msg

class Stats: counters = {}; states = set(); cases = set(); samples = []; evaluations = 0

def hash_of(x): return int.from_bytes(hashlib.blake2b(repr(x).encode('utf8', 'surrogatepass'), digest_size=8).digest(), 'little')

class Ctx:
    def __init__(self, mode, seed, index, thorough, verbose):
        self.r = random.Random('%s/%d/%d' % (mode, seed, index)); self.index = index; self.thorough = thorough; self.verbose = verbose; self.sig = 0
    def ev(self, name, n=1): Stats.counters[name] = Stats.counters.get(name, 0) + n
    def state(self, *x):
        h = hash_of(x); self.sig = hash_of((self.sig, h))
        if len(Stats.states) < 400000: Stats.states.add(h)
    def sample(self, s):
        if len(Stats.samples) < 6 and s not in Stats.samples: Stats.samples.append(s)
    def need(self, cond, key, msg):
        Stats.evaluations += 1
        if not cond: raise Fail(key, msg() if callable(msg) else msg)
    def log(self, s):
        if self.verbose: sys.stderr.write(s + '\n')

def short(x, n=300):
    s = repr(x); return s if len(s) <= n else s[:n] + '...(%d)' % len(s)

# ---------------------------------------------------------------- reference of the protocol
PREFIX = b'@@TRAX:'
KEY = set(b'0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ._')
def valid_key(k): return 0 < len(k) <= 64 and all(c in KEY for c in k)
def esc(b): return b.replace(b'\\', b'\\\\').replace(b'"', b'\\"').replace(b'\n', b'\\n')
def encode(name, args, props): return PREFIX + name + b' ' + b''.join(b'"' + esc(a) + b'" ' for a in args) + b''.join(b'"' + k + b'=' + esc(v) + b'" ' for k, v in props.items()) + b'\n'
def parse(line):
    """One complete line, the canonical form that the library writes -> (name, args, props), or an error text."""
    if not line.startswith(PREFIX): return 'no message'
    i = line.find(b' ')
    if i < 0: return 'no space after the name'
    name = line[len(PREFIX):i]; i += 1; args = []; props = {}
    while i < len(line):
        if line[i:i + 1] != b'"': return 'argument is not quoted'
        i += 1; raw = bytearray(); eq = -1; closed = False
        while i < len(line):
            c = line[i]; i += 1
            if c == 0x5c:
                if i >= len(line) or line[i] not in b'\\"n': return 'bad escape'
                raw.append(10 if line[i] == 0x6e else line[i]); i += 1; continue
            if c == 0x22: closed = True; break
            if c == 0x3d and eq < 0: eq = len(raw)
            raw.append(c)
        if not closed or line[i:i + 1] != b' ': return 'argument is not closed'
        i += 1; raw = bytes(raw)
        if eq >= 0 and valid_key(raw[:eq]):
            if raw[:eq] in props: return 'key is repeated'
            props[raw[:eq]] = raw[eq + 1:]
        else:
            if props: return 'argument after properties'
            args.append(raw)
    return name, args, props

def f32(v): return float(np.float32(v))
def printed(v): return float(np.float32(float('%.4f' % np.float32(v))))
# models of values. Regions: ('special', code), ('rectangle', x, y, w, h), ('polygon', (x, y), ...), ('mask', x, y, w, h, bytes)
def region_text(m):
    if m[0] == 'special': return b'%d' % m[1]
    if m[0] == 'rectangle': return ','.join('%.4f' % np.float32(v) for v in m[1:]).encode()
    if m[0] == 'polygon': return ','.join('%.4f,%.4f' % (np.float32(x), np.float32(y)) for x, y in m[1:]).encode()
    s = 'mask:%d,%d,%d,%d' % m[1:5]; v = 0; bits = m[5]; i = 0
    while i < len(bits):
        n = 0
        while i < len(bits) and (bits[i] != 0) == (v != 0): n += 1; i += 1
        if i == len(bits) and not v: break
        s += ',%d' % n; v = 1 - v
    return s.encode()
def region_printed(m):
    if m[0] == 'rectangle': return (m[0],) + tuple(printed(v) for v in m[1:])
    if m[0] == 'polygon': return (m[0],) + tuple((printed(x), printed(y)) for x, y in m[1:])
    return m
def region_exact(m):
    if m[0] == 'rectangle': return (m[0],) + tuple(f32(v) for v in m[1:])
    if m[0] == 'polygon': return (m[0],) + tuple((f32(x), f32(y)) for x, y in m[1:])
    return m
def region_parse(t):
    """Reference reader of the canonical text."""
    if t.startswith(b'mask:'):
        n = [int(x) for x in t[5:].split(b',')]; bits = bytearray(); v = 0
        for k in n[4:]: bits += bytes([v]) * k; v = 1 - v
        return ('mask',) + tuple(n[:4]) + (bytes(bits) + bytes(n[2] * n[3] - len(bits)),)
    n = t.split(b',')
    if len(n) == 1: return ('special', int(n[0]))
    v = [float(np.float32(float(x))) for x in n]
    if len(n) == 4: return ('rectangle',) + tuple(v)
    return ('polygon',) + tuple((v[i], v[i + 1]) for i in range(0, len(v), 2))
REGIONS = {'special': 1, 'rectangle': 2, 'polygon': 4, 'mask': 8}
# images: ('path', text), ('url', text), ('memory', kind, w, h, bytes), ('buffer', bytes)
def image_uri(m):
    if m[0] == 'path': return b'file://' + m[1].encode('utf8')
    if m[0] == 'url': return m[1].encode('utf8')
    if m[0] == 'memory': return ('image:%d;%d;%s;' % (m[2], m[3], m[1])).encode() + base64.b64encode(m[4])
    return (b'data:image/jpeg;' if m[1][:3] == b'\xff\xd8\xff' else b'data:image/png;') + base64.b64encode(m[1])
IMAGES = {'path': 1, 'url': 2, 'memory': 4, 'buffer': 8}
CHANNELS = ['color', 'depth', 'ir']

# ---------------------------------------------------------------- generators
def gen_text(r, most=120):
    n = 0 if r.random() < .1 else r.randrange(12) if r.random() < .5 else r.randrange(most + 1); k = r.randrange(7)
    if k == 0: return ''.join(r.choice('"\\\n =n,;:') for _ in range(n))
    if k == 1: return ''.join(chr(r.choice([r.randrange(1, 128), r.randrange(0xa0, 0x800), r.randrange(0x800, 0xd800), r.randrange(0x10000, 0x10ffff)])) for _ in range(n)).replace('\r', 'r')
    if k == 2: return r.choice(['\n@@TRAX:quit \n', '" "x=y', 'a=b', '\\', '"', '\n', ' ', '=', '\\n', 'žluťoučký', '\u20ac\U0001f600', '\t', '"\n@@TRAX:state "0" \n'])
    if k == 3: return ''.join(r.choice(['ä', '€', 'x', '\\', '"', ' ']) for _ in range(n))
    return ''.join(r.choice('abcdefghij0123456789._ -/') for _ in range(n))
def gen_key(r):
    n = r.choice([1, 1, 2, 3, 8, 20, 63, 64]); s = ''.join(r.choice('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789._') for _ in range(n))
    return 'x' + s[1:] if s.startswith('trax.') else s
def gen_props(r, most=5): return {} if r.random() < .3 else {gen_key(r): gen_text(r, 2000 if r.random() < .03 else 100) for _ in range(r.randrange(most + 1))}
def wire(p): return {k.encode(): v.encode('utf8') for k, v in p.items()}
def coord(r):
    k = r.randrange(5)
    return float(r.randint(-20, 640)) if k == 0 else r.randint(-1000, 1000) / 16. if k == 1 else f32(r.uniform(-1000, 1000)) if k == 2 else float(r.randint(-100000, 100000)) if k == 3 else f32(r.uniform(0, 100))
def gen_region(r, kinds):
    k = r.choice(sorted(kinds))
    if k == 'special': return (k, r.choice([0, 1, 2, 3, -1, 2**31 - 1, -2**31]))
    if k == 'rectangle': return (k, coord(r), coord(r), abs(coord(r)) + 1, abs(coord(r)) + 1)
    if k == 'polygon': return (k,) + tuple((coord(r), coord(r)) for _ in range(r.randrange(3, 9) if r.random() < .9 else r.randrange(3, 150)))
    w = r.randrange(1, 5) if r.random() < .4 else r.randrange(1, 40); h = r.randrange(1, 5) if r.random() < .4 else r.randrange(1, 40)
    p = r.choice([0, .03, .5, .97, 1]); runs = r.random() < .5; v = 0; b = bytearray()
    for _ in range(w * h):
        if not runs or r.random() < .2: v = 1 if r.random() < p else 0
        b.append(v)
    return (k, r.randint(-30, 100), r.randint(-30, 100), w, h, bytes(b))
def gen_image(r, kinds, big=False):
    k = r.choice(sorted(kinds))
    if k == 'path': return (k, ('/' if r.random() < .7 else '') + gen_text(r))
    if k == 'url': return (k, r.choice(['http', 'https', 'ftp', 'rtsp']) + '://' + gen_text(r))
    if k == 'memory':
        f = r.choice(['gray8', 'gray16', 'rgb']); m = 300 if big else 30
        w = r.randrange(1, 5) if r.random() < .4 else r.randrange(1, m); h = r.randrange(1, 5) if r.random() < .4 else r.randrange(1, m)
        return (k, f, w, h, r.randbytes(w * h * {'gray8': 1, 'gray16': 2, 'rgb': 3}[f]))
    return (k, r.choice([b'\xff\xd8\xff\xe0', b'\xff\xd8\xff\xe1', b'\xff\xd8\xff\xdb', b'\xff\xd8\xff\xee', b'\x89PNG\r\n\x1a\n']) + r.randbytes(r.randrange(1, 60000 if big else 300)))
def subset(r, of):
    while True:
        s = [x for x in of if r.random() < .5]
        if s: return s
def gen_objects(r, kinds, n, props=True): return [(gen_region(r, kinds), gen_props(r) if props else {}) for _ in range(n)]
def show(v): return short(v, 400)

# ---------------------------------------------------------------- descriptors
def big_pipe():
    a, b = os.pipe(); fcntl.fcntl(b, 1031, 1 << 20); return a, b
def put(fd, b):
    while b: n = os.write(fd, b); b = b[n:]
def drain(fd):
    out = b''
    while select.select([fd], [], [], 0)[0]:
        b = os.read(fd, 1 << 16)
        if not b: break
        out += b
    return out

class Ends:
    """The transport between the library and a raw peer: peer.put / peer.drain, fds or a socket for the library."""
    def __init__(self, kind):
        self.kind = kind; self.sock = None; self.listener = None; self.fds = []
        if kind == 'pipe':
            a, b = big_pipe(); c, d = big_pipe(); self.lib_in, self.out, self.inp, self.lib_out = a, b, c, d; self.fds = [a, b, c, d]
        else:
            self.listener = socket.socket(); self.listener.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1); self.listener.bind(('127.0.0.1', 0)); self.listener.listen(4); self.port = self.listener.getsockname()[1]
    def accept(self): self.sock, _ = self.listener.accept(); self.nodelay()
    def connect(self): self.sock = socket.create_connection(('127.0.0.1', self.port)); self.nodelay()
    def nodelay(self): self.sock.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
    def put(self, b):
        if self.kind == 'pipe': put(self.out, b)
        else: self.sock.sendall(b)
    def lines(self, n, wait=20):
        """n complete lines that the library has written (or as many as there are when it ended)."""
        buf = b''; end = time.time() + wait
        fd = self.inp if self.kind == 'pipe' else self.sock.fileno()
        while buf.count(b'\n') < n and time.time() < end:
            if not select.select([fd], [], [], 0 if self.kind == 'pipe' else .5)[0]:
                if self.kind == 'pipe': break
                continue
            b = os.read(fd, 1 << 16)
            if not b: break
            buf += b
        return buf
    def rest(self):
        """Everything up to the end of the stream; the library has closed its side or will not write any more."""
        if self.kind == 'pipe': return drain(self.inp)
        buf = b''; self.sock.settimeout(20)
        while True:
            try: b = self.sock.recv(1 << 16)
            except OSError: break
            if not b: break
            buf += b
        return buf
    def hangup(self):
        """The peer ends its output."""
        if self.kind == 'pipe':
            if self.out in self.fds: os.close(self.out); self.fds.remove(self.out)
        else: self.sock.shutdown(socket.SHUT_WR)
    def close(self):
        for f in self.fds: os.close(f)
        self.fds = []
        if self.sock: self.sock.close()
        if self.listener: self.listener.close()

def messages(cx, b, where):
    r = []
    for l in b.split(b'\n')[:-1]:
        m = parse(l); cx.need(not isinstance(m, str), 'wire', lambda: '%s: %s: %s' % (where, m, short(l))); r.append(m)
    cx.need(b == b'' or b.endswith(b'\n'), 'wire', lambda: '%s: a line is not ended: %s' % (where, short(b[-100:])))
    return r

def first_difference(a, b):
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]: i += 1
    return a[max(0, i - 20):i + 60]


def descriptors(): return len(os.listdir('/proc/self/fd'))

def main(scenarios, counted, mode, live, end=lambda: None):
    """Runs the cases. counted(f, cx) gives a failure (key, message) or None, live() the number of live allocations."""
    a = sys.argv[1:]; o = dict(seed=1, limit=1e9, out=None, progress=None, case=None, mode=mode, thorough=False); o['from'] = 0; o['to'] = 100
    while a:
        k = a.pop(0)[2:]
        if k == 'thorough': o[k] = True
        else: v = a.pop(0); o[k] = v if k in ('mode', 'out', 'progress') else float(v) if k == 'limit' else int(v)
    if o['case'] is not None: o['from'], o['to'] = o['case'], o['case'] + 1
    prog = None
    if o['progress']:
        with open(o['progress'], 'wb') as f: f.write(bytes(16))
        f = open(o['progress'], 'r+b'); prog = mmap.mmap(f.fileno(), 16); f.close()
    out = open(o['out'], 'a') if o['out'] else sys.stdout
    order = [s for s in scenarios for _ in range(s[1])]; start = time.time(); failures = cases = 0; per = {}; warmed = set()
    for i in range(o['from'], o['to']):
        if time.time() - start > o['limit']: break
        name, _, f = order[i % len(order)]
        if prog: prog[0:8] = struct.pack('Q', i)
        run = lambda: counted(f, Ctx(o['mode'], o['seed'], i, o['thorough'], o['case'] is not None))
        failure = None
        if name not in warmed: warmed.add(name); failure = run() or run()
        grow = None
        for k in range(4):
            if failure: break
            l0, d0 = live(), descriptors(); cx = Ctx(o['mode'], o['seed'], i, o['thorough'], o['case'] is not None); failure = counted(f, cx)
            if cx.sig: Stats.cases.add(cx.sig)
            grow = (live() - l0, descriptors() - d0); Stats.evaluations += 1
            if grow[0] <= 0 and grow[1] <= 0: break
        else: failure = ('leak:' + name, 'each run of the case leaks %d allocations of the library and %d descriptors' % grow)
        cases += 1; per[name] = per.get(name, 0) + 1
        if prog: prog[8:16] = struct.pack('Q', cases)
        if failure:
            out.write(json.dumps(dict(fail=1, case=i, scenario=name, key=failure[0], msg=failure[1])) + '\n'); out.flush()
            if o['case'] is not None: sys.stderr.write('FAIL %s: %s\n' % failure)
            failures += 1
            if failures >= 10: break
    out.write(json.dumps(dict(summary=1, cases=cases, evaluations=Stats.evaluations, wall=time.time() - start, scenarios=per, counters=Stats.counters, samples=Stats.samples, states=len(Stats.states))) + '\n'); out.flush()
    if o['out']:
        for ext, s in (('.states', Stats.states), ('.cases', Stats.cases)):
            with open(o['out'] + ext, 'ab') as f: f.write(struct.pack('%dQ' % len(s), *s))
    end(); sys.stdout.flush(); os._exit(3 if failures else 0)
