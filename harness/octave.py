"""Monitors of the Octave binding. The interface is the one of the native harnesses, see vh.h.

An Octave process executes statements with the real MEX files; what it reports is compared with a second
implementation of the protocol (as the client of traxserver, or through the probe as the tracker of
traxclient), or with what was given to the other side."""
from pyvh import *
import subprocess, signal, tempfile, shutil, select

HERE = os.path.dirname(os.path.abspath(__file__)); MEX = os.environ['VH_OCTAVE']; PROBE = os.environ['VH_PROBE']
OCTAVE = ['octave-cli', '--norc', '--no-gui', '--no-history', '--quiet', '-p', MEX, '-p', HERE]
ROOT = tempfile.mkdtemp(prefix='vhoct_', dir=os.environ.get('TMPDIR', '/tmp'))

class Error(Exception): pass

class Octave:
    """A process of Octave that executes statements."""
    def __init__(self):
        e = dict(os.environ, LD_PRELOAD=os.environ['VH_ASAN'], HOME=ROOT)
        self.log = open(os.path.join(ROOT, 'stderr'), 'wb+')
        self.p = subprocess.Popen(OCTAVE + [os.path.join(HERE, 'vhworker.m')], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.log, cwd=ROOT, env=e, start_new_session=True); self.buf = b''
        self.printed = b''
    def tell(self, s): # Octave looks for a character after the line
        try: self.p.stdin.write(s.encode('utf8') + b'\n '); self.p.stdin.flush()
        except OSError: self.gone('before %s' % short(s))
    def gone(self, what):
        self.p.wait(20); self.log.seek(0); t = self.log.read().decode('utf8', 'replace'); keep = [l for l in t.splitlines() if any(x in l for x in ('ERROR: Addr', 'runtime error', 'SUMMARY', 'ssertion', 'terminate called', 'what()', '    #0 ', '    #1 ', '    #2 ', '    #3 ', '    #4 ', '    #5 ', 'fatal'))] or t.splitlines()[-8:]
        global octave; octave = None
        raise Fail('crash', 'Octave ends with %d, %s: %s' % (self.p.returncode, what, ' | '.join(keep[:14])))
    def answer(self, wait=60):
        end = time.time() + wait
        while True:
            i = self.buf.find(b'\n@@VH')
            if i >= 0:
                j = self.buf.find(b'\n', i + 1)
                if j >= 0:
                    self.printed += self.buf[:i]; l = self.buf[i + 5:j]; self.buf = self.buf[j + 1:]
                    if l[:1] == b'+': return l[1:].decode()
                    raise Error(base64.b64decode(l[1:]).decode('utf8', 'replace')[1:-1])
            if not select.select([self.p.stdout], [], [], max(0, end - time.time()))[0]:
                global octave; octave = None; os.killpg(self.p.pid, 9); raise Fail('hang', 'no answer within %d s' % wait)
            b = os.read(self.p.stdout.fileno(), 1 << 16)
            if not b: self.gone('while it executes')
            self.buf += b
    def ask(self, s, wait=60): self.printed = b''; self.tell(s); return self.answer(wait)
    def value(self, s, wait=60): return undump(json.loads(self.ask(s, wait)))
octave = None
def oct():
    global octave
    if octave is None: octave = Octave()
    return octave

def live():
    n = 0
    for f in ('traxserver', 'traxclient'):
        try: n += max(0, int(oct().ask("vho = sprintf('%%d', vhlive('%s'));" % os.path.join(MEX, f + '.mex'))))
        except Fail: pass
    return n

# ---------------------------------------------------------------- values of Octave
# chars are bytes, numbers ('double', (rows, columns), [values]), ('uint8', dims, bytes), cells ('cell', dims, [..]), structures ('struct', dims, [(name, value)])
def undump(j):
    c, d, v = j['c'], tuple(j['d']), j['v']
    if c == 'char': v = base64.b64decode(v); return v if d in ((1, len(v)), (0, 0)) else ('char', d, v)
    if c in ('uint8', 'uint16'): return (c, d, base64.b64decode(v))
    if c == 'cell': return (c, d, [undump(x) for x in v])
    if c == 'struct': return (c, d, [(base64.b64decode(n), undump(x)) for n, x in v])
    return (c, d, v)
def column_major(raw, h, w, k, size): return np.frombuffer(raw, dtype=np.uint16 if size == 2 else np.uint8).reshape((h, w, k)).transpose(2, 1, 0).tobytes() # Octave keeps columns
def lit(v):
    """An expression of Octave for a value."""
    if isinstance(v, bytes):
        if not v: return "''"
        if all(32 <= c < 127 for c in v): return "'" + v.decode().replace("'", "''") + "'"
        return 'char([' + ' '.join(map(str, v)) + '])'
    if isinstance(v, (int, float)): return repr(v)
    c, d, x = v
    if c == 'cell': return 'reshape({' + ','.join(lit(y) if not (isinstance(y, tuple) and y[0] == 'cell') else '{' + lit(y) + '}' for y in x) + '},[' + ' '.join(map(str, d)) + '])' if x else 'cell([' + ' '.join(map(str, d)) + '])'
    if c == 'struct': return 'struct(' + ','.join(lit(n) + ',' + ('{' + lit(y) + '}' if isinstance(y, tuple) and y[0] == 'cell' else lit(y)) for n, y in x) + ')'
    if c in ('uint8', 'uint16'):
        b = "__base64_decode_bytes__('" + base64.b64encode(x).decode() + "')" if x else 'uint8([])'
        if c == 'uint16': b = "typecast(%s,'uint16')" % b
        return 'reshape(%s,[%s])' % (b, ' '.join(map(str, d)))
    return 'reshape([' + ' '.join('%r' % y for y in x) + '],[' + ' '.join(map(str, d)) + '])'

def region_lit(m):
    if m[0] == 'rectangle': return lit(('double', (1, 4), list(m[1:])))
    if m[0] == 'polygon': return lit(('double', (1, 2 * len(m) - 2), [float(v) for p in m[1:] for v in p]))
    return lit(('uint8', (m[4], m[3]), column_major(m[5], m[4], m[3], 1, 1)))
def region_want(m):
    m = region_exact(m)
    if m[0] == 'special': return ('double', (1, 1), [float(m[1])])
    if m[0] == 'rectangle': return ('double', (1, 4), list(m[1:]))
    if m[0] == 'polygon': return ('double', (1, 2 * len(m) - 2), [v for p in m[1:] for v in p])
    return ('uint8', None, pixels(m))
def pixels(m):
    """Pixels of a mask with coordinates that Octave can have."""
    x, y, w, h = m[1:5]; a = np.frombuffer(m[5], dtype=np.uint8).reshape(h, w)
    return {(int(c) + x, int(r) + y) for r, c in zip(*np.nonzero(a)) if c + x >= 0 and r + y >= 0}
def check_region(cx, m, v, key='region'):
    e = region_want(m)
    if m[0] == 'mask':
        cx.need(isinstance(v, tuple) and v[0] == 'uint8' and len(v[1]) == 2, key, lambda: '%s arrives as %s' % (show(m[:5]), show(v)))
        h, w = v[1]; a = np.frombuffer(v[2], dtype=np.uint8).reshape(w, h).T
        cx.need({(int(c), int(r)) for r, c in zip(*np.nonzero(a))} == e[2], key, lambda: 'the mask %s arrives with other pixels (%d x %d)' % (show(m[:5]), w, h))
        cx.need((h, w) == (max(0, m[2] + m[4]), max(0, m[1] + m[3])) or h * w == 0, key, lambda: 'the mask %s arrives as %d x %d' % (show(m[:5]), w, h))
    else: cx.need(v == ('double', e[1], e[2]) or (isinstance(v, tuple) and v[:2] == e[:2] and [float(x) for x in v[2]] == e[2]), key, lambda: '%s arrives as %s' % (show(m), show(v)))
def image_lit(m):
    if m[0] in ('path', 'url'): return lit(m[1].encode('utf8'))
    if m[0] == 'memory':
        k = 3 if m[1] == 'rgb' else 1; s = 2 if m[1] == 'gray16' else 1
        return lit(('uint16' if s == 2 else 'uint8', (m[3], m[2], k) if k > 1 else (m[3], m[2]), column_major(m[4], m[3], m[2], k, s)))
    return "struct('format','%s','data',%s)" % ('jpeg' if m[1][:2] == b'\xff\xd8' else 'png', lit(('uint8', (len(m[1]), 1) if len(m[1]) % 2 else (1, len(m[1])), m[1])))
def check_image(cx, m, v, key='image'):
    if m[0] in ('path', 'url'): e = m[1].encode('utf8'); ok = v == e
    elif m[0] == 'memory':
        k = 3 if m[1] == 'rgb' else 1; s = 2 if m[1] == 'gray16' else 1
        e = ('uint16' if s == 2 else 'uint8', (m[3], m[2], k) if k > 1 else (m[3], m[2]), column_major(m[4], m[3], m[2], k, s)); ok = v == e
    else:
        e = m[1]; f = dict(v[2]) if isinstance(v, tuple) and v[0] == 'struct' else {}
        ok = f.get(b'format') == (b'jpeg' if e[:2] == b'\xff\xd8' else b'png') and f.get(b'data', (0, 0, 0))[0] == 'uint8' and f[b'data'][2] == e and 1 in f[b'data'][1] and len(f) == 2
    cx.need(ok, key, lambda: 'image %s arrives as %s' % (show(m), show(v)))
def check_images(cx, images, v):
    cx.need(isinstance(v, tuple) and v[0] == 'cell' and v[1] == (1, len(images)), 'delivery', lambda: '%d images arrive as %s' % (len(images), show(v)))
    for m, x in zip(images, v[2]): check_image(cx, m, x)
def check_props(cx, p, v, struct_, key='delivery'):
    if struct_: cx.need(isinstance(v, tuple) and v[0] == 'struct' and v[1] == (1, 1) and sorted(v[2]) == sorted((field(k.encode()), t.encode('utf8')) for k, t in p.items()), key, lambda: 'properties %s arrive as %s' % (show(p), show(v)))
    else:
        n = len(p); cx.need(isinstance(v, tuple) and v[0] == 'cell' and v[1] == (n, 2) and {(v[2][i], v[2][n + i]) for i in range(n)} == {(k.encode(), t.encode('utf8')) for k, t in p.items()}, key, lambda: 'properties %s arrive as %s' % (show(p), show(v)))
def field(k): return bytes(c if chr(c).isalnum() else 0x5f for c in k)
def gen_names(r): return r.choice('abcdefgXYZ') + ''.join(r.choice('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_') for _ in range(r.choice([0, 1, 2, 5, 20, 60])))
def distinct_fields(p):
    """Properties whose names stay apart as names of fields."""
    q = {}; seen = set()
    for k, v in p.items():
        if k[0].isalpha() and field(k.encode()) not in seen and len(k) < 63: seen.add(field(k.encode())); q[k] = v
    return q
def gen_reply_props(r):
    """(expression or None, what has to be written: texts, or numbers as float)"""
    k = r.randrange(5); p = {}
    if k == 0: return None, {}
    for _ in range(r.randrange(5)):
        n = gen_names(r) if k < 3 else gen_key(r)
        if n == 'trax.reason': continue
        p[n] = gen_text(r, 200).encode('utf8') if r.random() < .6 else r.choice([float(r.randint(-1000, 1000)), r.uniform(-1, 1), 0.5, 1e6, -0.25, True, False])
    value = lambda x: ('true' if x else 'false') if isinstance(x, bool) else lit(x) if not isinstance(x, float) else r.choice(['%r', 'single(%r)', 'double(%r)'] + (['int32(%r)', 'int16(%r)'] if x == int(x) and abs(x) < 30000 else [])) % x
    if k < 3: return 'struct(' + ','.join("'%s',%s" % (n, value(x)) for n, x in p.items()) + ')', p
    return ('reshape({' + ','.join([lit(n.encode()) for n in p] + [value(x) for x in p.values()]) + '},[%d 2])' % len(p)) if p else 'cell(0,2)', p
def check_written_props(cx, p, w):
    cx.need(set(w) == {k.encode() for k in p}, 'wire', lambda: 'properties %s are written as %s' % (show(p), show(w)))
    for k, v in p.items():
        t = w[k.encode()]
        try: ok = t == v if isinstance(v, bytes) else float(t) == float('%f' % np.float32(v))
        except ValueError: ok = False
        cx.need(ok, 'wire', lambda: 'property %s = %s is written as %s' % (k, show(v), show(t)))
def written(m):
    """The region that has to be written for a value given by Octave."""
    return ('mask', 0, 0) + m[3:5] + (bytes(1 if b else 0 for b in m[5]),) if m[0] == 'mask' else region_printed(region_exact(m))

def refused(cx, what, statement, wait=60):
    try: v = oct().ask(statement, wait)
    except Error as e: cx.ev('failures reported as errors'); cx.need(str(e), 'failure', '%s: an error without text' % what); return str(e)
    cx.need(False, 'refuse', '%s is not an error, it gives %s' % (what, short(v, 100)))

def many(r, names): # a string, or a row or column of strings, in any case
    names = list(names); r.shuffle(names); names = [''.join(c.upper() if r.random() < .2 else c for c in n) for n in names]
    if len(names) == 1 and r.random() < .5: return lit(names[0].encode())
    return lit(('cell', (1, len(names)) if r.random() < .7 else (len(names), 1), [n.encode() for n in names]))

def setup_statement(r, d, answer='traxserver('):
    args = []; given = {}
    if d['channels'] != ['color'] or r.random() < .5: args.append((b'channels', many(r, d['channels'])))
    for k, v in ((b'name', d['name']), (b'description', d['desc']), (b'family', d['fam'])):
        if v or r.random() < .2: args.append((k.title() if r.random() < .5 else k, lit(v.encode('utf8'))))
    for k, v in d['custom'].items(): args.append((k.encode(), lit(v.encode('utf8'))))
    r.shuffle(args)
    return "%s'setup',%s,%s%s)" % (answer, many(r, d['regions']), many(r, d['images']), ''.join(',%s,%s' % (lit(k), v) for k, v in args))
RESERVED = {'propstruct', 'name', 'description', 'family', 'debug', 'timeout', 'environment', 'data', 'connection', 'directory', 'log', 'channels'}
def declared(r):
    return dict(regions=subset(r, list(REGIONS)[1:]), images=subset(r, list(IMAGES)), channels=subset(r, CHANNELS) if r.random() < .6 else ['color'], name=gen_text(r, 60), desc=gen_text(r, 60), fam=gen_text(r, 60), custom={k: v for k, v in gen_props(r).items() if k.lower() not in RESERVED})
def check_hello(cx, d, m):
    cx.need(m[0] == b'hello' and m[1] == [], 'hello', lambda: 'introduction %s' % show(m)); p = m[2]
    lists = lambda k: set(p.get(k, b'').split(b';')) - {b''}
    cx.need(lists(b'trax.region') == {x.encode() for x in d['regions']} and lists(b'trax.channels') == {x.encode() for x in d['channels']} and lists(b'trax.image') == {x.encode() for x in d['images']}, 'hello', lambda: '%s is introduced as %s' % (show(d), show(p)))
    for k, v in (('trax.name', d['name']), ('trax.description', d['desc']), ('trax.family', d['fam'])): cx.need(p.get(k.encode(), b'') == v.encode('utf8'), 'hello', lambda: '%s is %r, not %r' % (k, p.get(k.encode()), v))
    cx.need({k: v for k, v in p.items() if not k.startswith(b'trax.')} == wire(d['custom']), 'hello', lambda: 'custom properties %s, not %s' % (show(p), show(d['custom'])))

BAD_REGIONS = ['[1 2 3 4; 5 6 7 8]', '[1 2 3; 4 5 6; 7 8 9; 1 2 3; 1 2 3; 1 2 3]', '[1 2 3]', '[1 2]', '5', '[]', "'abcd'", '{}', '[1 2 3 4 5]', '[1 2 3 4 5 6 7]', 'ones(2,6)', 'zeros(0,4)', 'true', 'struct()', 'uint8([])', 'zeros(0,5,"uint8")', 'int32([1 2 3 4])', 'ones(2,2,3,"uint8")', '{1,2,3,4}', 'uint8(zeros(3,0))']
BAD_PROPS = ['5', "'abc'", '[]', '{1,2}', "{'a'}", "{'a','b','c'}", "struct('a',{{1}})", "struct('a',[])", "{'a',[]}", "{'a',{}}", "{[],'a'}", "struct('a',['ab';'cd'])", "{'a',@sin}", "cell(2,2)", "repmat({'a'},[1 2 2])", "{'a',reshape('ab',1,1,2)}", "{['a';'b'],'c'}", "true", "@sin"]

# ---------------------------------------------------------------- an Octave tracker and a raw client
def server_raw(cx):
    r = cx.r; o = oct(); e = Ends('tcp')
    try:
        d = declared(r)
        if r.random() < .3:
            if r.random() < .5: refused(cx, 'waiting before the introduction', "traxserver('wait');")
            else: refused(cx, 'a reply before the introduction', "traxserver('status',[1 2 3 4]);")
        o.ask("setenv('TRAX_SOCKET','%d');" % e.port)
        if r.random() < .2:
            refused(cx, 'a wrong declaration', 'traxserver(%s);' % r.choice(["'setup','blob','path'", "'setup','rectangle','film'", "'setup','rectangle','path','channels','smell'", "'setup','rectangle'", "'setup'", "'setup',{},'path'", "'setup','rectangle',{}", "'setup',5,'path'", "'setup','rectangle','path','name'", "'setup','rectangle','path','trax.name','x'", "'setup','rectangle','path','a b','x'", "'setup','rectangle','path','name',{}", "'setup','rectangle','path','name',['ab';'cd']", "'setup','rectangle','path','name',5", "'setup','rectangle','path','a',reshape('ab',1,1,2)", "'setup',['ab';'cd'],'path'", "'setup','rectangle',reshape('ab',1,1,2)", "['ab';'cd']", "'setup','rectangle','path','timeout',3", "5", "", "'fly'", "{}", "''", "'setup',{'rectangle',5},'path'", "'setup',[],[]"]))
        if r.random() < .5: v = o.ask('%s;' % setup_statement(r, d))
        else: v = o.value('vhr=%s;vho=vhdump(vhr);' % setup_statement(r, d)); cx.need(v == ('logical', (1, 1), [1]), 'hello', lambda: 'setup gives %s' % show(v))
        e.accept(); ms = messages(cx, e.lines(1), 'introduction'); cx.need(len(ms) == 1, 'hello', '%d messages' % len(ms)); check_hello(cx, d, ms[0])
        cx.state('hello', tuple(d['regions']), tuple(d['images']), tuple(d['channels'])); cx.ev('introductions')
        kinds = set(REGIONS) - {'special'}; order = [c for c in CHANNELS if c in d['channels']]; steps = r.randrange(0, 6); count = 0; ended = None
        if r.random() < .15: refused(cx, 'a reply before a request', "traxserver('status',[1 2 3 4]);")
        for step in range(steps):
            init = count == 0 or r.random() < .2; text = b''; struct_ = r.random() < .5
            images = [gen_image(r, d['images']) for c in order]; props = gen_props(r); region = gen_region(r, set(REGIONS) if r.random() < .1 else kinds) if init else None
            if struct_: props = distinct_fields(props)
            if init: text += (encode(b'initialize', [], {}) if count else b'') + encode(b'initialize', [region_text(region)], {}); count = 1
            text += encode(b'frame', [image_uri(m) for m in images], wire(props)); e.put(text)
            outputs = r.choice([3, 3, 3, 2, 1]); names = ['vhi', 'vhg', 'vhp'][:outputs]
            v = o.value("[%s]=traxserver('wait'%s);vho=vhdump({%s});" % (','.join(names), ",'PropStruct',%s" % r.choice(['1', 'true']) if struct_ else r.choice(['', '', ",'propstruct',0"]), ','.join(names)))[2]
            check_images(cx, images, v[0])
            if outputs > 1:
                if init: check_region(cx, region_printed(region_exact(region)), v[1])
                else: cx.need(v[1] == ('double', (0, 0), []), 'delivery', lambda: 'region %s of a frame' % show(v[1]))
            if outputs > 2: check_props(cx, props, v[2], struct_)
            cx.state(init, region and region[0], tuple(m[0] for m in images), len(props), struct_); cx.ev('requests delivered')
            if r.random() < .25:
                if r.random() < .5: b = r.choice(BAD_REGIONS); refused(cx, 'the region %s' % b, "traxserver('status',%s);" % b)
                else: b = r.choice(BAD_PROPS); refused(cx, 'the properties %s' % b, "traxserver('status',[1 2 3 4],%s);" % b)
                cx.need(not select.select([e.sock], [], [], 0)[0], 'wire', 'something was written for a refused reply')
            reply = gen_region(r, kinds); x, p = gen_reply_props(r)
            if reply[0] == 'mask' and r.random() < .3: reply = reply[:5] + (bytes(b * r.choice([1, 255, 7]) for b in reply[5]),)
            s = "traxserver('%s',%s%s)" % (r.choice(['status', 'status', 'Status', 'state']), region_lit(reply), ',' + x if x else '')
            if r.random() < .5: o.ask(s + ';')
            else: v = o.value('vhr=%s;vho=vhdump(vhr);' % s); cx.need(v == ('logical', (1, 1), [1]), 'wire', lambda: 'status gives %s' % show(v))
            out = e.lines(1); ms = messages(cx, out, 'reply')
            cx.need(len(ms) == 1 and ms[0][0] == b'state' and len(ms[0][1]) == 1, 'wire', lambda: 'the reply is written as %s' % short(out))
            w = region_parse(ms[0][1][0]); cx.need(w == written(reply), 'wire', lambda: 'region %s is written as %s' % (show(reply), short(ms[0][1][0]))); check_written_props(cx, p, ms[0][2])
            cx.ev('replies written')
        end = r.randrange(7); cx.state('end', end, steps > 0); out = b''
        if end == 0: # the client ends
            e.put(encode(b'quit', [], wire(gen_props(r)))); v = o.value("[vhi,vhg,vhp]=traxserver('wait');vho=vhdump({vhi,vhg,vhp});")[2]
            cx.need(all(x == ('double', (0, 0), []) for x in v), 'delivery', lambda: 'the end arrives as %s' % show(v)); ended = True
            if r.random() < .3: refused(cx, 'waiting after the end', "traxserver('wait');")
            if r.random() < .5: o.ask("traxserver('quit');")
        elif end == 1 or end > 4: # the tracker ends
            reason = gen_text(r, 60) if r.random() < .6 else None
            o.ask("traxserver('quit'%s);" % (',' + lit(reason.encode('utf8')) if reason is not None else '')); out = e.rest(); ms = messages(cx, out, 'quit'); ended = True
            cx.need(len(ms) == 1 and ms[0] == (b'quit', [], {} if not reason else {b'trax.reason': reason.encode('utf8')}) or not reason and ms == [(b'quit', [], {b'trax.reason': b''})], 'wire', lambda: 'quit with %r writes %s' % (reason, short(out)))
        elif end == 2: # the connection is lost
            e.put(encode(b'frame', [b'file:///x'] * len(order), {})[:-1 - r.randrange(8)] if r.random() < .5 else b''); e.hangup(); refused(cx, 'a lost connection', "[vhi]=traxserver('wait');"); ended = True
            refused(cx, 'waiting after a failure', "traxserver('wait');")
        elif end == 3: # messages that a client must not send
            bad = r.choice([encode(b'state', [b'1,2,3,4'], {}), encode(b'hello', [], {}), encode(b'initialize', [b'a', b'b', b'c', b'd', b'e'], {}), encode(b'frame', [b'file:///x'] * (len(order) + 1), {}), encode(b'quit', [b'x'], {}), encode(b'initialize', [b'mask:0,0'], {}), encode(b'frame', [b'image:1;1;rgb;QUJ'] * len(order), {})])
            e.put(bad); refused(cx, 'the illegal message %s' % short(bad), "[vhi,vhg]=traxserver('wait');"); ended = True
        else: # a new session takes the place of this one
            f = Ends('tcp')
            try:
                o.ask("setenv('TRAX_SOCKET','%d');" % f.port); o.ask("traxserver('setup','rectangle','path');"); f.accept(); ms = messages(cx, f.lines(1), 'introduction'); cx.need(len(ms) == 1, 'hello', 'no introduction of the second session')
                f.put(encode(b'quit', [], {})); o.ask("traxserver('wait');")
            finally: f.close()
        if end in (2, 3): o.ask("try, traxserver('quit'); catch, end, try, traxserver('quit'); catch, end")
        if end == 3 or end == 2: o.ask('vho=1;')
        cx.sample('tracker %s, %d requests, end %d' % (short(d, 120), steps, end))
    finally:
        e.close()
        if octave is not None:
            try: octave.ask("unsetenv('TRAX_SOCKET'); try, traxserver('quit'); catch, end")
            except Error: pass

# ---------------------------------------------------------------- traxclient and the probe
def no_process(cx, d):
    """Nothing of the case is running any more."""
    end = time.time() + 10
    while True:
        left = []
        for p in os.listdir('/proc'):
            if p.isdigit():
                try:
                    c = open('/proc/%s/cmdline' % p, 'rb').read()
                    if d.encode() in c and open('/proc/%s/stat' % p).read().rsplit(')', 1)[1].split()[0] != 'Z': left.append(c.replace(b'\0', b' '))
                except OSError: pass
        if not left: return
        if time.time() > end: cx.need(False, 'process', 'the tracker is still running: %s' % short(left))
        time.sleep(.01)

def check_status(cx, v, first, region, props, hello, data, custom):
    s, given = v[2]; f = dict(s[2])
    cx.need(s[0] == 'struct' and [n for n, _ in s[2]] == [b'region', b'time', b'properties', b'tracker', b'formats', b'channels'], 'delivery', lambda: 'fields %s' % show(s))
    if first: cx.need(f[b'region'] == ('double', (0, 0), []), 'delivery', lambda: 'region %s before any reply' % show(f[b'region'])); cx.need(f[b'time'] == ('double', (1, 1), [0]), 'delivery', 'time before any reply')
    else:
        check_region(cx, region, f[b'region'], 'delivery'); t = f[b'time']; cx.need(t[:2] == ('double', (1, 1)) and 0 <= t[2][0] < 60, 'delivery', lambda: 'time %s' % show(t))
    check_props(cx, props, f[b'properties'], True)
    t = dict(f[b'tracker'][2]); cx.need((t[b'name'], t[b'description'], t[b'family']) == tuple(hello[k].encode('utf8') for k in ('name', 'desc', 'fam')), 'delivery', lambda: 'tracker %s' % show(t))
    names = lambda v: [x for x in v[2]]; q = dict(f[b'formats'][2])
    cx.need(names(q[b'region']) == [x.encode() for x in REGIONS if x in hello['regions']] and sorted(names(q[b'image'])) == sorted(x.encode() for x in hello['images']) and names(f[b'channels']) == [x.encode() for x in CHANNELS if x in hello['channels']], 'delivery', lambda: 'formats %s, channels %s of %s' % (show(q), show(f[b'channels']), show(hello)))
    cx.need(given == data, 'delivery', lambda: 'data %s instead of %s' % (show(given), show(data)))

def filled(m): return m[:1] + ('x',) if m[1] == '' else m # an empty image ends the session
def gen_data(r):
    return r.choice([b'text', ('double', (1, 1), [3.5]), ('double', (2, 2), [1.0, 2.0, 3.0, 4.0]), ('cell', (1, 2), [b'a', ('double', (1, 1), [1.0])]), ('struct', (1, 1), [(b'a', b'b'), (b'c', ('cell', (1, 1), [b'x']))]), ('double', (0, 0), []), ('uint8', (1, 3), b'abc')])
def same(v): # numbers as they come back
    return v

def plan_lit(steps): return '{' + ','.join('{' + ','.join('{' + x + '}' if wrap else x for x, wrap in s) + '}' if not isinstance(s, str) else s for s in steps) + '}'

def client_probe(cx):
    r = cx.r; o = oct(); d = os.path.join(ROOT, 'c%d' % cx.index); shutil.rmtree(d, ignore_errors=True); os.mkdir(d)
    try:
        version = r.choice([1, 2, 3, 4, 4, 4]); h = declared(r)
        if version < 2: h['channels'] = ['color']
        h['images'] = [x for x in h['images']]; order = [c for c in CHANNELS if c in h['channels']]
        p = wire(h['custom']); p.update({b'trax.version': b'%d' % version, b'trax.region': ';'.join(h['regions']).encode(), b'trax.image': ';'.join(h['images']).encode()})
        if version > 1: p[b'trax.channels'] = ';'.join(h['channels']).encode()
        for k, v in ((b'trax.name', 'name'), (b'trax.description', 'desc'), (b'trax.family', 'fam')):
            if r.random() < .7: p[k] = h[v].encode('utf8')
            else: h[v] = ''
        failure = r.choice(['none'] * 8 + ['hello', 'reply', 'exit', 'quit', 'callback', 'silent', 'image', 'region', 'frame', 'properties'])
        n = r.randrange(1, 6); kinds = set(h['regions']); steps = []; expected = []; runs = []; replies = []; where = r.randrange(n)
        data = gen_data(r) if r.random() < .6 else None; datas = [data if data is not None else ('double', (0, 0), [])]; stop = None
        for i in range(n):
            init = i == 0 or r.random() < .2
            images = [filled(gen_image(r, h['images'])) for c in order]; region = gen_region(r, kinds) if init else None; x, props = gen_reply_props(r)
            if failure == 'frame' and i == 0: init = False; region = None
            il = image_lit(images[0]) if len(images) == 1 and r.random() < .5 else '{' + ','.join(image_lit(m) for m in images) + '}'
            if failure == 'image' and i == where: il = r.choice(["{'a','b','c','d'}", '5', '{5}', '{[]}', 'ones(2,2,2,"uint8")', "['ab';'cd']", 'uint8(ones(2,2,2,2))', "struct('format','png')", "struct('format','png','data',5)", "{'a',5}"])
            nd = gen_data(r) if r.random() < .5 else datas[-1]
            step = [(il, il.startswith('{')), (region_lit(region) if init else '[]', False), (x or '[]', (x or '').startswith('reshape({'))]
            if failure == 'region' and i == where: step[1] = (r.choice([b for b in BAD_REGIONS if b not in ('[]', '{}', 'zeros(0,4)', 'uint8([])', 'zeros(0,5,"uint8")', 'uint8(zeros(3,0))')]), True)
            if failure == 'properties' and i == where: step[2] = (r.choice(["struct('a',{{1}})", "struct('a',[])", "{'a',[]}", "{'a','b','c'}", "{[],'a'}", "{'a',@sin}"]), True)
            step.append((lit(nd), isinstance(nd, tuple) and nd[0] == 'cell')); datas.append(nd); steps.append('{' + ','.join('%s' % y for y, w in step) + '}')
            reply = gen_region(r, set(REGIONS)); rp = distinct_fields(gen_props(r)); replies.append((reply, rp))
            if failure == 'callback' and i == where: steps[-1] = "'my failure'"
            if init or not runs: runs.append([])
            runs[-1].append(i); expected.append((init, images, region, props, step))
        steps.append('{[],[],[],%s}' % lit(datas[-1]))
        # the script of every instance of the probe
        mode = r.choice(['standard', 'standard', 'explicit', 'socket']); begin = {'standard': '', 'explicit': '', 'socket': 'c,'}[mode]; flag = {'standard': [], 'explicit': ['-e'], 'socket': ['-s']}[mode]
        scripts = []; chat = r.random() < .3; log = r.choice([None, 'file', '#']) if r.random() < .5 else None; debug = r.random() < .3
        for run in runs:
            a = begin + ('e3x40,' if chat else '') + ('H' if failure != 'hello' else r.choice(['g1', 'x3', 'v', 'O,z'])) 
            for i in run:
                a += ',' + (('w0' if version > 3 else 'W') if expected[i][0] else 'w1')
                if i == where and failure in ('reply', 'exit', 'quit', 'silent'): a += {'reply': ',' + r.choice(['g1', 'g2', 'g3', 'g5', 't,O']) + ',z', 'exit': ',x' + r.choice('0379'), 'quit': ',Q,q', 'silent': ',b'}[failure]; break
                a += ',y%d' % i
            scripts.append(a + ',q')
        with open(d + '/hello', 'wb') as f: f.write(encode(b'hello', [], p))
        with open(d + '/replies', 'wb') as f: f.write(b''.join(encode(b'state', [region_text(m)], wire(q)) for m, q in replies))
        line = 'env -u LD_PRELOAD ' + ' '.join([PROBE, '/'.join(scripts)] + flag + ['-n', d + '/count', '-l', d + '/received', '-H', d + '/hello', '-y', d + '/replies', '-D', d + '/record'])
        options = []; env = {}
        if mode != 'standard' or r.random() < .3: options.append(("'connection'", "'%s'" % (mode if r.random() < .7 else mode.upper())))
        options.append(("'timeout'", '1' if failure in ('silent', 'hello') or failure == 'reply' else '20'))
        if data is not None: options.append(("'Data'", lit(data)))
        if r.random() < .3:
            env = {gen_names(r).upper() + '_VH': gen_text(r, 30).encode('utf8') for _ in range(r.randrange(1, 3))}; options.append(("'environment'", 'struct(' + ','.join("'%s',%s" % (k, lit(v)) for k, v in env.items()) + ')'))
        cwd = r.random() < .3
        if cwd: os.mkdir(d + '/work'); options.append(("'directory'", lit((d + '/work').encode())))
        if log: options.append(("'log'", "'#'" if log == '#' else lit((d + '/log').encode())))
        if debug or r.random() < .2: options.append(("'debug'", '1' if debug else '0'))
        r.shuffle(options); verbose = any(k == "'debug'" for k, _ in options)
        o.ask('global VHS VHK VHO; VHS={%s}; VHK=0; VHO={};' % ','.join(steps))
        call = 'traxclient(%s,@vhcallback%s)' % (lit(line.encode()), ''.join(',%s,%s' % x for x in options)); result = None; error = None
        o.tell('vhr=%s;vho=vhdump(vhr);' % call if r.random() < .7 else call + ';')
        try: result = o.answer(50)
        except Error as x: error = str(x)
        printed = o.printed
        seen = [undump(json.loads(x)) for x in json.loads(o.ask("global VHO; vho=['[' strjoin(VHO,',') ']'];") or '[]')] if False else [undump(x) for x in json.loads(o.ask("global VHO; vho=['[' strjoin(VHO,',') ']'];"))]
        no_process(cx, d); cx.state(failure, version, mode, len(runs), n, tuple(order)); cx.ev('client sessions')
        # what the callback was given
        wants_error = failure not in ('none', 'frame'); good = where if wants_error else 0 if failure == 'frame' else n
        if failure == 'hello': good = -1
        if wants_error:
            cx.need(error, 'refuse' if failure in ('callback', 'image', 'region', 'properties') else 'failure', lambda: '%s at step %d of %d is not an error; steps %s' % (failure, where, n, show(expected[where][4])))
            cx.ev('failures reported as errors'); 
            if failure == 'callback': cx.need('my failure' in error, 'failure', lambda: 'the error of the callback becomes %s' % short(error))
        else:
            cx.need(error is None, 'delivery', lambda: 'the session ends with %s' % short(error))
            if result: v = undump(json.loads(result)); want = datas[-1] if failure == 'none' else datas[1]; cx.need(v == want, 'delivery', lambda: 'the result is %s, not %s' % (show(v), show(want)))
        calls = 0 if failure == 'hello' else n + 1 if failure == 'none' else 1 if failure == 'frame' else where + 1
        cx.need(len(seen) == calls, 'delivery', lambda: '%d calls of the callback, not %d (%s at %d of %d): %s' % (len(seen), calls, failure, where, n, short(error)))
        for i, v in enumerate(seen): check_status(cx, v, i == 0, region_printed(region_exact(replies[i - 1][0])), replies[i - 1][1] if i else {}, h, datas[i], h['custom']); cx.ev('states delivered')
        # what the tracker was given
        try: received = open(d + '/received', 'rb').read()
        except OSError: received = b''
        # a failed step may have reached the tracker or not
        complete = [i for i in range(n) if i < good]; at = -1; sessions = received.split(b'S\n')[1:]; reached = [run for run in runs if any(i in complete for i in run)] or []
        for k, run in enumerate(reached):
            mine = [i for i in run if i in complete]; ms = messages(cx, sessions[k], 'requests'); j = 0
            for i in mine:
                init, images, region, props, _ = expected[i]; uris = [image_uri(m) for m in images]
                if version > 3:
                    if init:
                        m = ms[j]; j += 1; cx.need(m[0] == b'initialize' and len(m[1]) == 1 and region_parse(m[1][0]) == written(region) and m[2] == {}, 'wire', lambda: 'region %s is written as %s' % (show(region), show(m)))
                    m = ms[j]; j += 1; cx.need(m[0] == b'frame' and m[1] == uris, 'wire', lambda: 'images %s are written as %s' % (show(images), show(m)))
                else:
                    m = ms[j]; j += 1; cx.need(m[0] == (b'initialize' if init else b'frame') and m[1][:len(uris)] == uris and len(m[1]) == len(uris) + init and (not init or region_parse(m[1][-1]) == written(region)), 'wire', lambda: 'step %d is written as %s' % (i, show(m)))
                check_written_props(cx, props, m[2]); cx.ev('requests written')
            if not wants_error or k + 1 < len(reached): cx.need([m[0] for m in ms[j:]] == [b'quit'], 'wire', lambda: 'after the last request %s is written' % show(ms[j:]))
        if os.path.exists(d + '/record'):
            f = open(d + '/record', 'rb').read().split(b'\0'); argc = int(f[0]); got = f[1 + argc]; es = dict(x.split(b'=', 1) for x in f[2 + argc:] if b'=' in x)
            cx.need(got == ((d + '/work') if cwd else ROOT).encode(), 'process', lambda: 'working directory %s' % got)
            for k, v in env.items(): cx.need(es.get(k.encode()) == v, 'process', lambda: 'environment %s is %s, not %s' % (k, es.get(k.encode()), v))
            cx.ev('processes inspected')
        if chat and failure in ('none', 'callback') and log and verbose and runs:
            t = printed if log == '#' else open(d + '/log', 'rb').read()
            cx.need(len([l for l in t.split(b'\n') if l[:1] == b'E' and l[1:8].isdigit()]) == 3 * len(sessions), 'log', lambda: 'the log lacks output of the tracker: %s' % short(t)); cx.ev('logs compared')
        if not log: cx.need(printed.strip() == b'', 'log', lambda: 'without a log %s is printed' % short(printed))
        cx.sample('client of a version %d tracker %s, %d steps, %d instances, %s' % (version, short(h, 100), n, len(runs), failure))
    finally: shutil.rmtree(d, ignore_errors=True)

# ---------------------------------------------------------------- both sides in Octave
def both(cx):
    r = cx.r; o = oct(); d = os.path.join(ROOT, 'b%d' % cx.index); shutil.rmtree(d, ignore_errors=True); os.mkdir(d)
    try:
        h = declared(r); order = [c for c in CHANNELS if c in h['channels']]; n = r.randrange(1, 5); steps = []; model = []; kinds = set(h['regions']); replies = []
        for i in range(n):
            images = [filled(gen_image(r, h['images'], r.random() < .1)) for c in order]; region = gen_region(r, kinds) if i == 0 else None; props = {k: gen_text(r, 100) for k in (gen_names(r) for _ in range(r.randrange(4)))}
            x = lit(('cell', (len(props), 2), [k.encode() for k in props] + [v.encode('utf8') for v in props.values()]))
            steps.append('{{%s},%s,%s,%d}' % (','.join(image_lit(m) for m in images), region_lit(region) if region else '[]', x if r.random() < .5 or not props else 'struct(' + ','.join("'%s',%s" % (k, lit(v.encode('utf8'))) for k, v in props.items()) + ')', i))
            rx = gen_region(r, set(REGIONS) - {'special'}); rp = {k: gen_text(r, 100) for k in (gen_names(r) for _ in range(r.randrange(4)))}
            replies.append((rx, rp)); model.append((images, region, props))
        steps.append('{[],[],[],99}')
        script = ["more off; warning('off','all'); crash_dumps_octave_core(0); vhf=fopen('%s/seen','w');" % d, setup_statement(r, h) + ';']
        for rx, rp in replies:
            script.append("[i,g,p]=traxserver('wait'); fprintf(vhf,'%%s\\n',vhdump({i,g,p})); fflush(vhf); traxserver('status',%s,%s);" % (region_lit(rx), lit(('cell', (len(rp), 2), [k.encode() for k in rp] + [v.encode('utf8') for v in rp.values()]))))
        script.append("[i,g,p]=traxserver('wait'); fprintf(vhf,'%s\\n',vhdump({i,g,p})); fflush(vhf); traxserver('quit'); fclose(vhf);")
        with open(d + '/tracker.m', 'w') as f: f.write('\n'.join(script) + '\n')
        mode = r.choice(['standard', 'explicit', 'socket'])
        o.ask('global VHS VHK VHO; VHS={%s}; VHK=0; VHO={};' % ','.join(steps))
        try: v = o.value("vhr=traxclient(%s,@vhcallback,'timeout',40,'connection','%s','data',7);vho=vhdump(vhr);" % (lit((' '.join(OCTAVE) + ' ' + d + '/tracker.m').encode()), mode), 80)
        except Error as x: cx.need(False, 'delivery', 'the session ends with %s' % x)
        cx.need(v == ('double', (1, 1), [99]), 'delivery', lambda: 'the result is %s' % show(v)); no_process(cx, d)
        client = [undump(x) for x in json.loads(o.ask("global VHO; vho=['[' strjoin(VHO,',') ']'];"))]; tracker = [undump(json.loads(l)) for l in open(d + '/seen')]
        cx.need(len(client) == n + 1 and len(tracker) == n + 1, 'delivery', '%d calls and %d requests in %d steps' % (len(client), len(tracker), n))
        for i, v in enumerate(client):
            m = replies[i - 1][0]
            if m[0] == 'mask': m = m[:1] + (0, 0) + m[3:]
            else: m = region_printed(region_exact(m))
            check_status(cx, v, i == 0, m, replies[i - 1][1] if i else {}, h, ('double', (1, 1), [7 if i == 0 else i - 1]), {}); cx.ev('states delivered')
        for v, (images, region, props) in zip(tracker, model):
            v = v[2]; check_images(cx, images, v[0]); check_props(cx, props, v[2], False); cx.ev('requests delivered')
            if region: check_region(cx, written(region), v[1])
            else: cx.need(v[1] == ('double', (0, 0), []), 'delivery', lambda: 'region %s of a frame' % show(v[1]))
        cx.need(all(x == ('double', (0, 0), []) for x in tracker[-1][2]), 'delivery', lambda: 'the end arrives as %s' % show(tracker[-1]))
        cx.state('both', mode, n, tuple(order), tuple(h['images'])); cx.ev('sessions between Octave sides'); cx.sample('both sides in Octave, %s, %d steps of %s' % (mode, n, order))
    finally: shutil.rmtree(d, ignore_errors=True)

SCENARIOS = [('tracker', 10, server_raw), ('client', 8, client_probe), ('both', 1, both)]

def counted(f, cx):
    try: f(cx); return None
    except Fail as x: return (x.key, x.msg)
    except Error as x: return ('error', 'an error that should not be: %s' % x)
    except Exception as x:
        import traceback
        t = traceback.extract_tb(x.__traceback__); return ('exception', '%r at %s' % (x, ' <- '.join('%s:%d' % (os.path.basename(q.filename), q.lineno) for q in reversed(t[-4:]))))

def end():
    global octave
    if octave is not None:
        try: octave.p.stdin.close(); octave.p.wait(5)
        except Exception: os.killpg(octave.p.pid, 9)
    shutil.rmtree(ROOT, ignore_errors=True)

main(SCENARIOS, counted, 'P26', live, end)
