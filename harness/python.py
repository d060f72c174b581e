"""Monitors of the Python binding. The interface (arguments and output) is the one of the native harnesses, see vh.h.

Every case uses the real binding on the real library and compares what it reports with a second
implementation of the protocol, or with what was given to the other side. After every case the live
allocations of the library and the open descriptors are counted."""
import sys, os, re, gc, json, time, mmap, struct, random, hashlib, base64, socket, threading, fcntl, select, ctypes, tempfile, shutil, io, contextlib
import numpy as np
import trax
from trax import _ctypes as native, TraxException, TraxStatus, Properties, Special, Rectangle, Polygon, Mask, Region, Image, FileImage, URLImage, MemoryImage, BufferImage
from trax.image import ImageChannel
from trax.client import Client
from trax.server import Server

LIB = ctypes.CDLL(os.path.join(os.path.dirname(trax.__file__), 'libtrax.so'))
live = LIB.vh_live; live.restype = ctypes.c_long

from pyvh import *

unraisable = []
sys.unraisablehook = lambda u: unraisable.append('%s: %r in %r' % (getattr(u.exc_type, '__name__', u.exc_type), u.exc_value, u.err_msg or u.object))
threading.excepthook = lambda a: unraisable.append('thread: %r' % (a.exc_value,))

def to_region(m):
    if m[0] == 'special': return Special.create(m[1])
    if m[0] == 'rectangle': return Rectangle.create(*m[1:])
    if m[0] == 'polygon': return Polygon.create([tuple(p) for p in m[1:]])
    return Mask.create(np.frombuffer(m[5], dtype=np.uint8).reshape(m[4], m[3]), m[1], m[2])
def from_region(g):
    t = g.type
    if t == Region.SPECIAL: return ('special', g.code)
    if t == Region.RECTANGLE: return ('rectangle',) + tuple(g.bounds())
    if t == Region.POLYGON: return ('polygon',) + tuple(g.get(i) for i in range(g.size()))
    a = g.array(); w, h = g.size(); x, y = g.offset()
    return ('mask', x, y, w, h, bytes((a != 0).astype(np.uint8).tobytes()))
def to_array(m):
    d = np.frombuffer(m[4], dtype=np.uint16 if m[1] == 'gray16' else np.uint8)
    return d.reshape((m[3], m[2], 3) if m[1] == 'rgb' else (m[3], m[2]))
def to_image(m, r=None):
    if m[0] == 'path': return FileImage.create(m[1])
    if m[0] == 'url': return URLImage.create(m[1])
    if m[0] == 'buffer': return BufferImage.create(m[1])
    a = to_array(m)
    if r: a = variant(a, r)
    return MemoryImage.create(a)
def variant(a, r):
    """The same contents in another layout of memory."""
    k = r.randrange(7)
    if k == 1: return np.asfortranarray(a)
    if k == 2:
        b = np.zeros((a.shape[0] * 2,) + a.shape[1:], a.dtype); b[1::2] = a; return b[1::2]
    if k == 3:
        b = np.full((a.shape[0] + 3, a.shape[1] + 5) + a.shape[2:], 7, a.dtype); b[2:-1, 1:-4] = a; return b[2:-1, 1:-4]
    if k == 4: return a[::-1].copy()[::-1]
    if k == 5 and a.ndim == 2: return np.ascontiguousarray(a.T).T
    if k == 6: return a[:, ::-1].copy()[:, ::-1]
    return a
def from_image(g):
    t = g.type()
    if t == Image.PATH: return ('path', g.path())
    if t == Image.URL: return ('url', g.url())
    if t == Image.BUFFER: return ('buffer', bytes(g.buffer()))
    a = g.array()
    kind = 'rgb' if a.shape[2] == 3 else 'gray16' if a.dtype == np.uint16 else 'gray8'
    return ('memory', kind, a.shape[1], a.shape[0], a.tobytes())
@contextlib.contextmanager
def environment(**kw):
    for k in ('TRAX_IN', 'TRAX_OUT', 'TRAX_SOCKET'): os.environ.pop(k, None)
    os.environ.update(kw)
    try: yield
    finally:
        for k in kw: os.environ.pop(k, None)

def raises(cx, key, what, f, kinds=(Exception,)):
    try: v = f()
    except kinds as e: cx.ev('failures reported as exceptions'); return e.with_traceback(None)
    except BaseException as e: e.__traceback__ = None; cx.need(False, key, '%s: %r instead of an exception of the binding' % (what, e))
    cx.need(False, key, '%s is not refused, it gives %s' % (what, short(v, 100)))

# ---------------------------------------------------------------- values
def check_region(cx, m, g):
    cx.need(g.type == m[0], 'region', lambda: 'type %r of %s' % (g.type, show(m)))
    v = from_region(g); e = region_exact(m)
    cx.need(v == e, 'region', lambda: 'region %s reads as %s' % (show(e), show(v)))
    s = str(g)
    if m[0] == 'special': cx.need(str(m[1]) in s, 'region', 'description ' + s)
    numbers = [float(t) for t in re.findall(r'-?\d+(?:\.\d+)?(?:e[-+]?\d+)?', s)]
    if m[0] == 'rectangle': cx.need(numbers == list(e[1:]), 'region', lambda: 'description %s of %s' % (s, show(e)))
    if m[0] == 'mask': cx.need(numbers == [m[3], m[4], m[1], m[2]], 'region', lambda: 'description %s of %s' % (s, show(m[:5])))
    if m[0] == 'polygon':
        cx.need(g.size() == len(m) - 1 and str(g.size()) in s, 'region', 'description ' + s)
        cx.need(list(g) == list(e[1:]) and list(iter(iter(g))) == list(e[1:]), 'region', lambda: 'iteration gives %s, not %s' % (show(list(g)), show(e)))
        cx.need([g[i] for i in range(g.size())] == list(e[1:]), 'region', 'indexing of a polygon')
        for i in (-1, g.size(), g.size() + 7): raises(cx, 'region', 'vertex %d of %d' % (i, g.size()), lambda: g.get(i), (IndexError,))
    if m[0] == 'mask':
        x, y, w, h, bits = m[1:]; full = np.frombuffer(bits, dtype=np.uint8).reshape(h, w)
        cx.need(g.size() == (w, h) and g.offset() == (x, y), 'region', 'size or offset of a mask')
        a = g.array(); cx.need(a.shape == (h, w) and a.dtype == np.uint8 and ((a != 0) == (full != 0)).all(), 'region', lambda: 'array of %s' % show(m))
        n = g.array(normalize=True); W, H = max(0, x + w), max(0, y + h); e = np.zeros((H, W), np.uint8)
        if W and H: e[max(0, y):H, max(0, x):W] = full[max(0, -y):, max(0, -x):]
        cx.need(n.shape == e.shape and ((n != 0) == (e != 0)).all(), 'region', lambda: 'normalized array of %s has the size %s' % (show(m[:5]), n.shape))

def check_image(cx, m, g):
    cx.need(g.type() == m[0], 'image', lambda: 'type %r of %s' % (g.type(), show(m)))
    v = from_image(g); cx.need(v == m, 'image', lambda: 'image %s reads as %s' % (show(m), show(v)))
    s = str(g)
    if m[0] == 'memory': cx.need('%dx%d' % (m[2], m[3]) in s and m[1] in s, 'image', 'description %s of %s' % (s, m[1]))
    if m[0] == 'buffer':
        k = 'jpeg' if m[1][:2] == b'\xff\xd8' else 'png'; cx.need(k in s and str(len(m[1])) in s, 'image', 'description %s of a %s image' % (s, k))

def values(cx):
    r = cx.r
    for _ in range(r.randrange(1, 4)):
        m = gen_region(r, set(REGIONS)); cx.state('region', m[0], len(m))
        if m[0] == 'mask':
            a = variant(np.frombuffer(m[5], dtype=np.uint8).reshape(m[4], m[3]), r); g = Mask.create(a, m[1], m[2])
        else: g = to_region(m)
        check_region(cx, m, g); cx.ev('regions')
    for _ in range(r.randrange(1, 4)):
        m = gen_image(r, set(IMAGES)); cx.state('image', m[0], m[1] if m[0] == 'memory' else len(m[1]) % 4)
        g = to_image(m, r); check_image(cx, m, g); cx.ev('images')
    # properties against a dictionary
    model = gen_props(r); p = Properties(dict(model)) if model or r.random() < .5 else Properties()
    for _ in range(r.randrange(12)):
        k = gen_key(r) if not model or r.random() < .5 else r.choice(sorted(model)); o = r.randrange(6); v = gen_text(r)
        if o == 0: p.set(k, v); model[k] = v
        elif o == 1: p[k] = v; model[k] = v
        elif o == 2: cx.need(p.get(k) == model.get(k) and p.get(k, 'd') == model.get(k, 'd'), 'properties', lambda: 'get(%r) is %r, not %r' % (k, p.get(k), model.get(k)))
        elif o == 3: cx.need(p[k] == model.get(k), 'properties', lambda: '[%r] is %r, not %r' % (k, p[k], model.get(k)))
        elif o == 4:
            q = Properties(gen_props(r)); e = dict(model); p.copy(q); model.update(q.dict()); cx.need(all(p.get(x) == q.get(x) for x in q.dict()), 'properties', 'copy')
        else: n = r.choice([5, -3, 2.5, True, None, 10**12]); p[k] = n; model[k] = str(n)
        cx.need(p.dict() == model, 'properties', lambda: 'properties %s, not %s' % (show(p.dict()), show(model)))
    q = Properties(p); cx.need(q.dict() == model, 'properties', 'properties of properties')
    cx.state('properties', len(model)); cx.ev('property sets')
    # what is left out has the documented default
    cx.need(from_region(Rectangle.create()) == ('rectangle', 0, 0, 0, 0) and Mask.create(np.ones((2, 3), np.uint8)).offset() == (0, 0) and Mask.create(np.ones((2, 3), np.uint8), y=4).offset() == (0, 4), 'region', 'defaults of a region')
    cx.need([ImageChannel.decode(x) for x in (1, 2, 4)] == CHANNELS, 'names', 'channels'); bad = r.choice([0, 3, 5, 7, 8, -1]); raises(cx, 'names', 'channel %d' % bad, lambda: ImageChannel.decode(bad), (IndexError,))
    # names of kinds and channels
    for cls, table, names in ((Region, REGIONS, list(REGIONS)), (Image, IMAGES, list(IMAGES)), (ImageChannel, dict(color=1, depth=2, ir=4), CHANNELS)):
        s = [x for x in names if r.random() < .5]; r.shuffle(s); code = cls.encode_list(s)
        cx.need(code == sum(table[x] for x in s), 'names', '%r is encoded as %d' % (s, code))
        d = cls.decode_list(code); cx.need(sorted(d) == sorted(s), 'names', '%d is decoded as %r' % (code, d))
        bad = r.choice(['colour', '', 'RECTANGLE', 'Path', None, 7]); raises(cx, 'names', 'name %r' % (bad,), lambda: cls.encode(bad), (IndexError,))

def refused(cx):
    """What can not be represented is refused with an exception, the process goes on."""
    r = cx.r; k = r.randrange(9); cx.state('refused', k)
    z = lambda *s, d=np.uint8: np.zeros(s, d)
    if k == 0: bad = r.choice([z(0, 0), z(0, 5), z(5, 0), z(0, 4, 3)]); raises(cx, 'refuse', 'an image of the shape %s' % (bad.shape,), lambda: MemoryImage.create(bad))
    elif k == 1: bad = r.choice([z(3, 3, 4), z(3, 3, 2), z(3, 3, 3, d=np.uint16), z(3, 3, d=np.float64), z(3, 3, d=np.int32), z(3, 3, 3, d=np.float32), z(2, 2, 3, 3), z(7)]); raises(cx, 'refuse', 'an image of the shape %s and type %s' % (bad.shape, bad.dtype), lambda: MemoryImage.create(bad))
    elif k == 2: bad = r.choice([b'', b'\xff', b'\xff\xd8\xff', b'\x89PN', b'\x00', b'abcd']); raises(cx, 'refuse', 'the encoded image %r' % bad, lambda: BufferImage.create(bad))
    elif k == 3: bad = r.choice([b'GIF89a' + bytes(20), b'BM' + bytes(60), bytes(30), b'RIFF' + bytes(40)]); raises(cx, 'refuse', 'an encoded image of an unknown kind', lambda: BufferImage.create(bad))
    elif k == 4: bad = r.choice([[], [(0, 0)], [(0, 0), (1, 1)]]); raises(cx, 'refuse', 'a polygon with %d vertices' % len(bad), lambda: Polygon.create(bad))
    elif k == 5: bad = r.choice([z(3), z(3, 3, 1), z(3, 3, d=np.float32), z(3, 3, d=np.uint16)]); raises(cx, 'refuse', 'a mask of the shape %s and type %s' % (bad.shape, bad.dtype), lambda: Mask.create(bad))
    elif k == 6:
        a = r.choice([z(0, 0), z(0, 4), z(4, 0)]) # an empty mask may be refused or not, but it must not do any harm
        try: g = Mask.create(a, 3, 4)
        except Exception: cx.ev('failures reported as exceptions')
        else:
            cx.need(g.size() == (a.shape[1], a.shape[0]), 'region', 'size of an empty mask')
            cx.need(g.array().size == 0, 'region', 'array of an empty mask'); g.array(normalize=True)
    elif k == 7: raises(cx, 'refuse', 'a client without a stream', lambda: Client(r.choice([None, 'x', 2.5])))
    else:
        kw = r.choice([dict(image_channels=[]), dict(image_channels=['sound']), dict(region_formats=['point']), dict(image_formats=['film'])]); e = Ends('pipe')
        a = dict(region_formats=['rectangle'], image_formats=['path'], image_channels=['color']); a.update(kw)
        try:
            with environment(TRAX_IN=str(e.lib_in), TRAX_OUT=str(e.lib_out)): raises(cx, 'refuse', 'a tracker with %r' % kw, lambda: Server(**a))
        finally: e.close()
    cx.ev('refusals')

# ---------------------------------------------------------------- comparing what was delivered
def check_images(cx, got, sent, channels):
    cx.need(sorted(got) == sorted(channels), 'delivery', lambda: 'images of channels %s, not %s' % (sorted(got), sorted(channels)))
    for c in channels:
        v = from_image(got[c]); cx.need(v == sent[c], 'delivery', lambda: '%s image %s was sent, %s arrived' % (c, show(sent[c]), show(v)))
        check_image(cx, sent[c], got[c]); cx.ev('images delivered')
def check_objects(cx, got, sent, exact=False):
    cx.need(isinstance(got, list) and len(got) == len(sent), 'delivery', lambda: '%s objects, not %d' % (short(got, 60), len(sent)))
    for (g, gp), (s, sp) in zip(got, sent):
        v = from_region(g); e = region_printed(s); cx.need(v == e, 'delivery', lambda: 'region %s was sent, %s arrived' % (show(e), show(v)))
        cx.need(dict(gp) == sp, 'delivery', lambda: 'object properties %s were sent, %s arrived' % (show(sp), show(gp))); cx.ev('objects delivered')

class Log:
    """Where a log goes: nothing, a callback or a file. text() is what was logged."""
    def __init__(self, r, callback=True):
        self.kind = r.choice(['none', 'none', 'none', 'file', 'file', 'callback' if callback else 'file', 'callback' if callback else 'file', 'console']); self.dir = None; self.parts = []
        self.arg = False
        if self.kind == 'console': self.arg = True; self.stdout = sys.stdout; self.console = sys.stdout = io.StringIO(newline='')
        if self.kind == 'file':
            self.dir = tempfile.mkdtemp(prefix='vhpy_', dir='.'); self.path = os.path.join(self.dir, r.choice(['log.txt', 'sub/dir/log.txt'])); self.arg = self.path
        if self.kind == 'callback': self.arg = self.parts.append
    def check(self, cx, expected):
        if self.kind == 'none': return
        if self.kind == 'file':
            with open(self.path, 'rb') as f: t = f.read()
        elif self.kind == 'console': t = self.console.getvalue().encode('utf8')
        else: t = ''.join(self.parts).encode('utf8')
        cx.need(t == expected, 'log', lambda: 'the log has %d bytes, %d were exchanged: %s ... instead of %s' % (len(t), len(expected), short(first_difference(t, expected)), short(first_difference(expected, t))))
        cx.ev('logs compared')
    def close(self):
        if self.arg is True: sys.stdout = self.stdout
        if self.dir: shutil.rmtree(self.dir, ignore_errors=True)
def segments(r, b): return b

# ---------------------------------------------------------------- a Python tracker and a raw client
def declared(r):
    d = dict(regions=subset(r, list(REGIONS)[1:]), images=subset(r, list(IMAGES)), channels=subset(r, CHANNELS), multi=r.random() < .4, name=gen_text(r, 60), desc=gen_text(r, 60), fam=gen_text(r, 60), custom=gen_props(r))
    if r.random() < .05: d.update(defaults=True, channels=['color'], multi=False, name='', desc='', fam='', custom={}) # nothing but what is required
    return d
def make_server(d, log, shuffle): 
    reg, img, ch = list(d['regions']), list(d['images']), list(d['channels'])
    for x in (reg, img, ch): shuffle(x)
    if d.get('defaults'): return Server(reg, img, log=log) if log else Server(reg, img)
    return Server(reg, img, ch, tracker_name=d['name'], tracker_description=d['desc'], tracker_family=d['fam'], metadata=d['custom'] or None, log=log, multiobject=d['multi'])

def server_raw(cx):
    r = cx.r; e = Ends('pipe' if r.random() < .8 else 'tcp'); log = Log(r, callback=False); server = None
    try:
        d = declared(r); exchanged = b''
        env = dict(TRAX_IN=str(e.lib_in), TRAX_OUT=str(e.lib_out)) if e.kind == 'pipe' else dict(TRAX_SOCKET=str(e.port))
        with environment(**env): server = make_server(d, log.arg, r.shuffle)
        if e.kind == 'tcp': e.accept()
        out = e.lines(1); exchanged += out; ms = messages(cx, out, 'introduction')
        cx.need(len(ms) == 1 and ms[0][0] == b'hello' and ms[0][1] == [], 'hello', lambda: 'introduction %s' % short(out))
        p = ms[0][2]; lists = lambda k: set(p.get(k, b'').split(b';')) - {b''}
        cx.need(lists(b'trax.region') == {x.encode() for x in d['regions']} and lists(b'trax.channels') == {x.encode() for x in d['channels']} and lists(b'trax.image') == {x.encode() for x in d['images']}, 'hello', lambda: '%s is introduced as %s' % (show(d), show(p)))
        cx.need((p.get(b'trax.multiobject', b'0') != b'0') == d['multi'], 'hello', 'multi-object support is introduced as %r' % p.get(b'trax.multiobject'))
        for k, v in (('trax.name', d['name']), ('trax.description', d['desc']), ('trax.family', d['fam'])): cx.need(p.get(k.encode()) == v.encode('utf8'), 'hello', lambda: '%s is %r, not %r' % (k, p.get(k.encode()), v))
        cx.need({k: v for k, v in p.items() if not k.startswith(b'trax.')} == wire(d['custom']), 'hello', lambda: 'custom properties %s, not %s' % (show(p), show(d['custom'])))
        cx.state('hello', tuple(d['regions']), tuple(d['images']), tuple(d['channels']), d['multi']); cx.ev('introductions')
        kinds = set(REGIONS) - {'special'}; count = 0; alive = True; ended = None; steps = r.randrange(0, 6)
        order = [c for c in CHANNELS if c in d['channels']]
        for step in range(steps):
            new = r.randrange(1, 5) if d['multi'] else 1; text = b''
            init = count == 0 or r.random() < .2
            if init:
                if count: text += encode(b'initialize', [], {})
                objects = gen_objects(r, kinds, new); count = new
            elif d['multi'] and r.random() < .3: objects = gen_objects(r, kinds, new); count += new
            else: objects = []
            images = {c: gen_image(r, d['images']) for c in order}; props = gen_props(r)
            for o, op in objects: text += encode(b'initialize', [region_text(o)], wire(op))
            text += encode(b'frame', [image_uri(images[c]) for c in order], wire(props))
            e.put(text); q = server.wait(); exchanged += text
            want = TraxStatus.INITIALIZE if init else TraxStatus.FRAME
            cx.need(q.type == want, 'delivery', lambda: 'request %r, not %r' % (q.type, want))
            check_images(cx, q.image, images, order)
            if objects: check_objects(cx, q.objects, objects)
            else: cx.need(not q.objects, 'delivery', lambda: 'objects %s of a frame without new objects' % show(q.objects))
            cx.need(q.properties.dict() == props and all(q.properties.get(k) == v for k, v in props.items()), 'delivery', lambda: 'properties %s were sent, %s arrived' % (show(props), show(q.properties.dict())))
            cx.state(want, len(objects), tuple(images[c][0] for c in order), tuple(o[0][0] for o in objects)); cx.ev('requests delivered')
            if r.random() < .3: q = None # the values of a request may go at any time
            # wrong replies are refused and nothing is written
            if r.random() < .2:
                wrong = count + r.choice([1, 2]) if r.random() < .5 else count - 1
                raises(cx, 'refuse', 'a reply with %d of %d objects' % (wrong, count), lambda: server.status([(to_region(o), p) for o, p in gen_objects(r, kinds, wrong)]), (TraxException,))
                if e.kind == 'pipe': cx.need(drain(e.inp) == b'', 'wire', 'a refused reply was written')
            reply = gen_objects(r, set(REGIONS), count); extra = gen_props(r, 3) if count == 1 and r.random() < .4 else None
            if extra: extra = {k: v for k, v in extra.items() if k not in reply[0][1]}
            arg = [(to_region(o), p or (None if r.random() < .3 else p)) for o, p in reply]
            if q is not None and extra is None and count == 1 and r.random() < .2: server.status(arg, q.properties); extra = {k: v for k, v in props.items() if k not in reply[0][1]}
            elif extra is not None or r.random() < .3: server.status(arg, extra)
            else: server.status(arg)
            out = e.lines(count); exchanged += out; ms = messages(cx, out, 'reply')
            cx.need(len(ms) == count and all(m[0] in (b'state', b'status') and len(m[1]) == 1 for m in ms), 'wire', lambda: '%d messages for %d objects: %s' % (len(ms), count, short(out)))
            for i, (m, (o, p)) in enumerate(zip(ms, reply)):
                if i == 0 and extra: p = dict(extra, **p)
                cx.need(region_parse(m[1][0]) == region_printed(o), 'wire', lambda: 'region %s was replied, %s was sent' % (show(o), short(m[1][0])))
                cx.need(m[2] == wire(p), 'wire', lambda: 'properties %s were replied, %s were sent' % (show(p), show(m[2])))
            cx.ev('replies written', count)
        end = r.randrange(8); cx.state('end', end, steps > 0)
        if end == 0: # the client ends
            reason = gen_text(r, 60) if r.random() < .5 else None; props = gen_props(r)
            if reason is not None: props['trax.reason'] = reason
            text = encode(b'quit', [], wire(props)); e.put(text); exchanged += text; q = server.wait()
            cx.need(q.type == TraxStatus.QUIT and q.image is None and q.objects is None and q.properties.dict() == props, 'delivery', lambda: 'quit with %s arrives as %s' % (show(props), q))
            raises(cx, 'refuse', 'waiting after the end', server.wait, (TraxException,)); ended = 'peer'
            if r.random() < .3: raises(cx, 'refuse', 'replying after the end', lambda: server.status([(to_region(('rectangle', 1, 2, 3, 4)), {})]), (TraxException,))
        elif end == 1: # the tracker ends
            reason = gen_text(r, 60) if r.random() < .6 else None
            server.quit(reason) if reason is not None else server.quit(); ended = 'quit'; out = e.lines(1); exchanged += out; ms = messages(cx, out, 'quit')
            cx.need(len(ms) == 1 and ms[0] == (b'quit', [], {} if reason is None else {b'trax.reason': reason.encode('utf8')}), 'wire', lambda: 'quit(%r) writes %s' % (reason, short(out)))
        elif end == 2: # a block that ends, or fails
            fail = r.random() < .5
            try:
                with contextlib.redirect_stderr(io.StringIO()):
                    with server as s:
                        cx.need(s is server, 'wire', 'with statement')
                        if r.random() < .3: server.quit(); ended = 'quit'
                        if fail: raise ValueError('müde')
            except ValueError: cx.need(fail, 'failure', 'unexpected exception')
            out = e.lines(1); exchanged += out; ms = messages(cx, out, 'quit')
            cx.need(len(ms) == 1 and ms[0][0] == b'quit' and (ended == 'quit' or ms[0][2] == ({b'trax.reason': 'müde'.encode('utf8')} if fail else {})), 'wire', lambda: 'the end of the block writes %s' % short(out)); ended = 'quit'
        elif end == 3: # the connection is lost, or ends within a message
            part = encode(b'frame', [b'file:///x'] * len(order), {})[:-1 - r.randrange(8)] if r.random() < .5 else b''
            e.put(part); exchanged += part; e.hangup(); raises(cx, 'failure', 'a lost connection', server.wait, (TraxException,)); log.kind = 'none'
        elif end == 4: # messages that a client must not send
            bad = r.choice([encode(b'state', [b'1,2,3,4'], {}), encode(b'hello', [], {}), encode(b'initialize', [b'a', b'b', b'c', b'd', b'e'], {}), encode(b'frame', [b'file:///x'] * (len(order) + 1), {}), encode(b'quit', [b'x'], {}), encode(b'initialize', [b'mask:0,0'], {}), encode(b'frame', [b'image:1;1;rgb;QUJ'] * len(order), {})])
            e.put(bad); exchanged += bad; x = raises(cx, 'failure', 'the illegal message %s' % short(bad), server.wait, (TraxException,)); cx.need(str(x), 'failure', 'exception without text')
        # otherwise the object just goes
        server = s = q = None; gc.collect()
        out = e.rest(); ms = messages(cx, out, 'end') if end != 3 else []
        cx.need(end == 3 or [m[0] for m in ms] == ([] if ended else [b'quit']), 'wire', lambda: 'after the end (%d) %s is written' % (end, short(out)))
        exchanged += out
        log.check(cx, exchanged)
        cx.sample('tracker %s, %d requests, end %d' % (short(d, 120), steps, end))
    finally:
        server = None; e.close(); log.close()

# ---------------------------------------------------------------- a Python client and a raw tracker
def client_raw(cx):
    r = cx.r; e = Ends('pipe' if r.random() < .8 else 'tcp'); log = Log(r); client = None
    try:
        version = r.choice([1, 2, 3, 4, 4, 4, 4]); d = declared(r); multi = d['multi'] and version > 3
        if version < 2: d['channels'] = ['color']
        order = [c for c in CHANNELS if c in d['channels']]
        props = wire(d['custom']); props.update({b'trax.version': b'%d' % version, b'trax.region': ';'.join(d['regions']).encode(), b'trax.image': ';'.join(d['images']).encode()})
        if version > 1: props[b'trax.channels'] = ';'.join(d['channels']).encode()
        if multi: props[b'trax.multiobject'] = b'1'
        for k, v in ((b'trax.name', 'name'), (b'trax.description', 'desc'), (b'trax.family', 'fam')):
            if r.random() < .7: props[k] = d[v].encode('utf8')
            else: d[v] = ''
        hello = encode(b'hello', [], props); broken = r.random() < .08
        if broken: hello = r.choice([b'', encode(b'state', [b'1,2,3,4'], {}), b'@@TRAX:hello "trax.version=1', encode(b'hello', [b'x'], {}), encode(b'quit', [], {}), encode(b'hello', [], {b'trax.version': b'1', b'trax.region': b'blob'})])
        if e.kind == 'tcp': e.connect()
        e.put(hello); exchanged = hello
        stream = (e.lib_out, e.lib_in) if e.kind == 'pipe' else e.listener.fileno()
        if broken:
            e.hangup(); raises(cx, 'failure', 'the introduction %s' % short(hello), lambda: Client(stream, 5, log.arg), (TraxException,)); cx.state('no tracker', len(hello)); return
        client = Client(stream, 5, log.arg)
        cx.need(sorted(client.region_formats) == sorted(d['regions']) and sorted(client.image_formats) == sorted(d['images']) and sorted(client.channels) == sorted(order), 'hello', lambda: 'metadata %s %s %s of %s' % (client.region_formats, client.image_formats, client.channels, show(d)))
        cx.need((client.tracker_name, client.tracker_description, client.tracker_family) == (d['name'], d['desc'], d['fam']), 'hello', lambda: 'names %s of %s' % (show((client.tracker_name, client.tracker_description, client.tracker_family)), show(d)))
        for k, v in d['custom'].items(): cx.need(client.get(k) == v, 'hello', lambda: 'custom property %s is %r, not %r' % (k, client.get(k), v))
        cx.need(client.get('no such key') is None and bool(client.get('multiobject')) == multi, 'hello', 'multiobject is %r' % client.get('multiobject'))
        cx.state('hello', version, tuple(d['regions']), tuple(d['images']), tuple(order), multi); cx.ev('introductions')
        count = 0; steps = r.randrange(0, 6); ended = False; kinds = set(d['regions'])
        if steps == 0 or r.random() < .1:
            x = raises(cx, 'refuse', 'a frame without an object', lambda: client.frame({c: to_image(gen_image(r, d['images'])) for c in order}), (TraxException,)); cx.need(str(x), 'failure', 'exception without text')
        for step in range(steps):
            images = {c: gen_image(r, d['images']) for c in order}; props = gen_props(r); init = count == 0 or r.random() < .2; new = r.randrange(1, 5) if multi else 1
            if r.random() < .1:
                missing = r.choice(order); few = {c: to_image(images[c]) for c in order if c != missing}
                raises(cx, 'refuse', 'a request without the %s image' % missing, (lambda: client.initialize(few, [(to_region(gen_region(r, kinds)), {})], {})) if init else (lambda: client.frame(few)), (TraxException,))
            if init and not multi and r.random() < .1: raises(cx, 'refuse', 'two objects for a tracker of one', lambda: client.initialize({c: to_image(images[c]) for c in order}, [(to_region(gen_region(r, kinds)), {})] * 2, {}), (TraxException,))
            if init and r.random() < .05: raises(cx, 'refuse', 'no object', lambda: client.initialize({c: to_image(images[c]) for c in order}, [], {}), (TraxException,))
            if e.kind == 'pipe': cx.need(drain(e.inp) == b'', 'wire', 'a refused request was written')
            give = {c: to_image(images[c], r) for c in order}
            if r.random() < .2:
                for c in CHANNELS: give.setdefault(c, to_image(gen_image(r, d['images']))) # more than the tracker wants
            if init: objects = gen_objects(r, kinds, new, props=version > 3); before, count = count, new
            elif multi and r.random() < .3: objects = gen_objects(r, kinds, new); count += new
            else: objects = []
            reply = gen_objects(r, set(REGIONS), count); how = r.random(); reason = None
            if how < .9: text = b''.join(encode(b'state', [region_text(o)], wire(p)) for o, p in reply)
            elif how < .95: reason = gen_text(r, 60) if r.random() < .6 else None; text = encode(b'quit', [], {} if reason is None else {b'trax.reason': reason.encode('utf8')})
            else: text = r.choice([b'', encode(b'state', [], {}), encode(b'state', [b'1,2'], {}), encode(b'state', [b'mask:1'], {}), encode(b'frame', [b'x'], {}), b'@@TRAX:state "1,2,3'])
            e.put(text)
            if how >= .95: e.hangup()
            arg = [(to_region(o), p) for o, p in objects]
            call = (lambda: client.initialize(give, arg, props if props or r.random() < .5 else None)) if init else (lambda: client.frame(give, props, arg)) if objects else r.choice([lambda: client.frame(give, props), lambda: client.frame(give, properties=props, objects=None), lambda: client.frame(give, props, [])])
            if how < .9: got, seconds = call()
            elif how < .95:
                x = raises(cx, 'failure', 'a tracker that ends', call, (TraxException,)); ended = True
                cx.need(reason is None or reason in str(x), 'failure', lambda: 'reason %r becomes %r' % (reason, str(x)))
            else: raises(cx, 'failure', 'the reply %s' % short(text), call, (TraxException,)); log.kind = 'none'
            n = 1 if version < 4 else len(objects) + 1 + (1 if init and before else 0)
            out = e.lines(n); exchanged += out + text; ms = messages(cx, out, 'request')
            if version > 3:
                if init and before: cx.need(ms[:1] == [(b'initialize', [], {})], 'wire', lambda: 'a new initialization begins with %s' % short(ms[:1])); ms = ms[1:]
                cx.need(len(ms) == len(objects) + 1, 'wire', lambda: '%d messages for %d objects: %s' % (len(ms), len(objects), short(out)))
                for m, (o, p) in zip(ms, objects): cx.need(m[0] == b'initialize' and len(m[1]) == 1 and region_parse(m[1][0]) == region_printed(o) and m[2] == wire(p), 'wire', lambda: 'object %s with %s is written as %s' % (show(o), show(p), short(m)))
                m = ms[-1]; cx.need(m[0] == b'frame' and m[1] == [image_uri(images[c]) for c in order] and m[2] == wire(props), 'wire', lambda: 'frame %s with %s is written as %s' % (show(images), show(props), short(m, 600)))
            else:
                cx.need(len(ms) == 1, 'wire', lambda: 'request is written as %s' % short(out)); m = ms[0]
                uris = [image_uri(images[c]) for c in order]
                cx.need(m[0] == (b'initialize' if init else b'frame') and m[1][:len(uris)] == uris and m[2] == wire(props) and len(m[1]) == len(uris) + init and (not init or region_parse(m[1][-1]) == region_printed(objects[0][0])), 'wire', lambda: 'request is written as %s' % short(m))
            cx.ev('requests written'); cx.state(init, len(objects), tuple(images[c][0] for c in order), how < .9)
            if how >= .9: break
            check_objects(cx, got, reply); cx.need(isinstance(seconds, float) and seconds >= 0, 'delivery', 'elapsed time %r' % seconds); cx.ev('replies delivered')
        end = r.randrange(4); cx.state('end', end, version); lost = steps and how >= .95
        if end == 0:
            reason = gen_text(r, 60) if r.random() < .6 else None; client.quit(reason); out = e.lines(1) if not ended and not lost else b''; exchanged += out; ms = messages(cx, out, 'quit')
            cx.need(ended or lost or ms == [(b'quit', [], {} if reason is None else {b'trax.reason': reason.encode('utf8')})], 'wire', lambda: 'quit(%r) writes %s' % (reason, short(out))); ended = True
            raises(cx, 'refuse', 'a frame after the end', lambda: client.frame({c: to_image(gen_image(r, d['images'])) for c in order}), (TraxException,))
        got = give = arg = call = client = None; gc.collect()
        out = e.rest(); ms = messages(cx, out, 'end'); exchanged += out
        cx.need(lost or [m[0] for m in ms] == ([] if ended else [b'quit']), 'wire', lambda: 'after the end %s is written' % short(out))
        log.check(cx, exchanged)
        cx.sample('client of a version %d tracker %s, %d requests' % (version, short(d, 100), steps))
    finally:
        client = None; e.close(); log.close()

def interrupted(cx):
    """A log receiver that is interrupted by the user: the call during which it happens says so, and nothing is left behind."""
    r = cx.r; e = Ends('pipe'); client = None; calls = [0]; at = r.choice([1, 1, 2, 3, 5, 8, 13, 30]); length = r.randrange(1, 5)
    def log(_):
        calls[0] += 1
        if calls[0] == at: raise KeyboardInterrupt()
    rectangle = ('rectangle', 1, 2, 3, 4)
    try:
        e.put(encode(b'hello', [], {b'trax.version': b'4', b'trax.region': b'rectangle', b'trax.image': b'path'}) + encode(b'state', [b'1,2,3,4'], {}) * (length + 1))
        def step(f):
            before = calls[0] < at
            try: f(); hit = False
            except KeyboardInterrupt: hit = True
            cx.need(hit == (before and calls[0] >= at), 'interrupt', lambda: 'the log is interrupted at its call %d, now there were %d, interrupted: %s' % (at, calls[0], hit)); return hit
        def connect():
            nonlocal client
            client = Client((e.lib_out, e.lib_in), 5, log)
        if step(connect): return
        if step(lambda: client.initialize({'color': FileImage.create('/x')}, [(to_region(rectangle), {})], {})): return
        for _ in range(length):
            if step(lambda: client.frame({'color': FileImage.create('/x')})): return
        step(client.quit)
    finally:
        cx.state('interrupt', at, length, calls[0]); cx.ev('interrupted logs', int(calls[0] >= at)); client = None; gc.collect(); e.close()

# ---------------------------------------------------------------- both sides in Python
def both(cx):
    r = cx.r; tcp = r.random() < .3; d = declared(r); fds = []; listener = None; client = None; problems = []; trace = []
    steps = []; count = 0; kinds = set(d['regions']); order = [c for c in CHANNELS if c in d['channels']]; large = r.random() < .1
    for i in range(r.randrange(1, 6)):
        init = count == 0 or r.random() < .2; new = r.randrange(1, 7) if d['multi'] else 1
        objects = gen_objects(r, kinds, new) if init or (d['multi'] and r.random() < .3) else []
        count = new if init else count + len(objects)
        steps.append((init, {c: gen_image(r, d['images'], large) for c in order}, objects, gen_props(r), gen_objects(r, set(REGIONS), count)))
    end = r.choice(['client', 'client reason', 'server', 'server reason', 'server error', 'drop']); reason = gen_text(r, 60)
    try:
        if tcp:
            listener = socket.socket(); listener.bind(('127.0.0.1', 0)); listener.listen(2); env = dict(TRAX_SOCKET=str(listener.getsockname()[1])); stream = listener.fileno()
        else:
            a, b = os.pipe(); c, f = os.pipe(); fds = [a, b, c, f]; env = dict(TRAX_IN=str(a), TRAX_OUT=str(f)); stream = (b, c)
        with environment(**env): server = [make_server(d, False, r.shuffle)]
        def tracker():
            try:
                s = server[0]; n = 0
                while True:
                    q = s.wait()
                    if q.type == TraxStatus.QUIT: trace.append(('quit', q.properties.dict())); break
                    init, images, objects, props, reply = steps[n]
                    cx.need(q.type == (TraxStatus.INITIALIZE if init else TraxStatus.FRAME), 'delivery', lambda: 'request %r' % q.type)
                    check_images(cx, q.image, images, order); check_objects(cx, q.objects or [], objects); cx.need(q.properties.dict() == props, 'delivery', lambda: 'properties %s were sent, %s arrived' % (show(props), show(q.properties.dict())))
                    n += 1
                    if n == len(steps) and end.startswith('server'):
                        if end == 'server error':
                            with contextlib.redirect_stderr(io.StringIO()):
                                try:
                                    with s: raise RuntimeError(reason)
                                except RuntimeError: pass
                        else: s.quit(*([reason] if end == 'server reason' else []))
                        break
                    s.status([(to_region(o), p) for o, p in reply])
            except Fail as f: problems.append(f)
            except BaseException as x: problems.append(Fail('failure', 'the tracker got %r' % (x,)))
            finally:
                s = None; q = None; server[0] = None
        t = threading.Thread(target=tracker); t.start()
        try:
            client = Client(stream, 10)
            cx.need(sorted(client.channels) == sorted(d['channels']) and sorted(client.region_formats) == sorted(d['regions']) and sorted(client.image_formats) == sorted(d['images']) and client.tracker_name == d['name'] and client.tracker_description == d['desc'] and client.tracker_family == d['fam'] and bool(client.get('multiobject')) == d['multi'], 'hello', lambda: 'metadata of %s' % show(d))
            for k, v in d['custom'].items(): cx.need(client.get(k) == v, 'hello', lambda: 'custom property %s is %r, not %r' % (k, client.get(k), v))
            for n, (init, images, objects, props, reply) in enumerate(steps):
                give = {c: to_image(images[c], r) for c in order}; arg = [(to_region(o), p) for o, p in objects]
                call = (lambda: client.initialize(give, arg, props)) if init else (lambda: client.frame(give, props, arg)) if arg else (lambda: client.frame(give, props))
                if n == len(steps) - 1 and end.startswith('server'):
                    x = raises(cx, 'failure', 'a tracker that ends', call, (TraxException,))
                    cx.need(end == 'server' or reason in str(x), 'failure', lambda: 'reason %r becomes %r' % (reason, str(x)))
                else: got, _ = call(); check_objects(cx, got, reply); cx.ev('rounds')
                cx.state(init, len(objects), len(reply), tuple(images[c][0] for c in order))
        except TraxException as x:
            if not problems: problems.append(Fail('failure', 'the client got %r' % (x,)))
        if not problems and end.startswith('client'): client.quit(*([reason] if end == 'client reason' else []))
        got = give = arg = call = x = None; client = None; gc.collect()
        if not tcp: os.close(b); fds.remove(b)
        t.join(60); cx.need(not t.is_alive(), 'failure', 'the tracker does not end')
        if problems: raise problems[0]
        if end.startswith('client') or end == 'drop': cx.need(trace == [('quit', {'trax.reason': reason} if end == 'client reason' else {})], 'delivery', lambda: 'end %r with %r arrives as %r' % (end, reason, trace))
        cx.state(end, tcp, d['multi']); cx.ev('sessions between Python sides')
    finally:
        client = None; server = None; problems = None
        for f in fds: os.close(f)
        if listener: listener.close()

SCENARIOS = [('values', 3, values), ('refused', 1, refused), ('tracker', 6, server_raw), ('client', 6, client_raw), ('both', 4, both), ('interrupted', 1, interrupted)]

def counted(f, cx):
    """Runs the case and gives back the failure or None."""
    unraisable.clear()
    try: f(cx); failure = None
    except Fail as x: failure = (x.key, x.msg)
    except Exception as x:
        import traceback
        t = traceback.extract_tb(x.__traceback__); failure = ('exception', '%r at %s' % (x, ' <- '.join('%s:%d' % (os.path.basename(q.filename), q.lineno) for q in reversed(t[-4:]))))
        t = None; x.__traceback__ = None
    gc.collect()
    if failure is None and unraisable: failure = ('unraisable', '; '.join(unraisable[:3]))
    return failure

main(SCENARIOS, counted, 'P24', live)
