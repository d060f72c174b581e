"""The checks: what is run for every property, and how the cases are made."""

WIRE = ['read', 'write', 'recv', 'send', 'recvfrom', 'sendto', 'readv', 'writev', 'recvmsg', 'sendmsg']
SAN = ', clang AddressSanitizer + UndefinedBehaviorSanitizer'

def wire(mode, quick, thorough, **kw):
    return dict(harness='wire', mode=mode, wrap=WIRE, quick=quick, thorough=thorough, **kw)

def sess(mode, quick, thorough, **kw):
    return dict(harness='session', mode=mode, wrap=WIRE, quick=quick, thorough=thorough, **kw)

def io(mode, quick, thorough, **kw):
    return dict(harness='io', mode=mode, wrap=WIRE, quick=quick, thorough=thorough, **kw)

def reg(mode, quick, thorough, **kw):
    return dict(harness='region', mode=mode, quick=quick, thorough=thorough, client=True, extra=['-DVH_CLIENT'], **kw)

CHECKS = {
    'P01': dict(level='exploration', technique='runtime monitoring: end-to-end delivery oracle over real pipes/TCP with injected segmentation and interruptions' + SAN,
        note='Seeded random sessions between both sides of the library, every delivered value is compared with what was sent. Not exhaustive; NUL bytes and carriage returns outside of quotes are not generated.',
        jobs=[wire('P01', 12000, 150000)],
        rule='One case is a whole session (handshake, 1-6 requests and replies, quit) with random protocol version, declared capabilities, transport, images, regions, objects, properties, noise lines and cutting of the stream; one in 25 is a threaded session over a delaying relay with messages larger than every buffer. Non-trivial and distinct: cases with a different sequence of image kinds, channels and region shapes that were compared at the other side.'),
    'P02': dict(level='exploration', technique='runtime monitoring: independent reference parser as online oracle over mutated byte streams' + SAN,
        note='The grammar is implemented a second time in harness/ref.h; streams are random, mutated and cut. Carriage returns outside of quotes and NUL bytes are excluded because the grammar does not define them.',
        jobs=[wire('P02', 80000, 600000)],
        rule='One case is a byte stream of 1-8 lines (messages in every written form, mutated messages, noise, unknown names, cut end) that a raw peer writes, in random segments, to a server or a client of the library. Non-trivial: every report of the library was compared with the reference parser; distinct by the content of the stream and the classes of messages.'),
    'P03': dict(level='exploration', technique='runtime monitoring: strict reference parser as oracle over everything the library writes, hostile values' + SAN,
        note='Every byte written by the library in the sessions is captured by a raw peer and parsed strictly; values are hostile (quotes, forged messages, illegal keys).',
        jobs=[wire('P03', 40000, 600000)],
        rule='One case is a session in which the library plays one side and the monitor captures its output: hello, 1-5 requests or replies with hostile values and keys, quit and cleanup. Non-trivial: at least one message was captured and compared argument by argument; distinct by content.'),
    'P04': dict(level='exploration', technique='runtime monitoring: online reference model of both sides stepped beside the real handle over random call/message histories' + SAN,
        note='The model in harness/session.cpp predicts outcome, output, liveness, error text and delivered values of every call. Histories are random, up to 14 (quick) or 30 (thorough) steps.',
        jobs=[sess('P04', 60000, 900000)],
        rule='One case is a history of up to 14/30 API calls on one handle (client or tracker side, protocol versions 1-4) interleaved with messages of a raw peer (legal, illegal, malformed, end of stream). Non-trivial: after every call outcome, bytes written, liveness, error text and values were compared with the model; distinct by the sequence of calls, outcomes and messages.'),
    'P05': dict(level='exploration', technique='runtime monitoring: reference decoder of introductions compared with the metadata of the real handles, exhaustive over declared capabilities' + SAN,
        note='All combinations of version, region formats, image formats, channels and multi-object support are declared in turn; introductions of raw peers are random.',
        jobs=[sess('P05', 50000, 600000), sess('P05s', 300, 3000)],
        rule='One case is a handshake: a declaration by the library (the case number enumerates every combination of version, formats, channels and multi-object support, 7350 in all), an introduction in any written form by a raw peer, or a peer that is no tracker. Non-trivial: every field of the resulting metadata or the refusal was compared; distinct by introduction. Also: connections that come early, late or never, signals during the wait, time limits.'),
    'P06': dict(level='exploration', technique='runtime monitoring: model of the objects alive stepped beside both ends of real sessions' + SAN,
        note='Random multi-object histories; up to 40 objects in one initialization.',
        jobs=[sess('P06', 24000, 300000)],
        rule='One case is a multi-object history: both sides of the library with initialisations, frames with new objects, wrong and right replies; or one side and a raw peer under the model of P04. Non-trivial: the object lists at both ends were compared with what was given; distinct by the sequence of steps and object counts.'),
    'P09': dict(level='exploration', technique='runtime monitoring: second implementation of the text form as online oracle' + SAN,
        note='NaN and infinity, fractions where integers are documented and masks above four million pixels are run but not judged.',
        jobs=[reg('P09', 200000, 4000000)],
        rule='One case is a region that is written and read back (all kinds, all magnitudes of floats, mask patterns), or a text (valid, mutated, random, hostile counts and sizes) that is parsed and compared with the reference. Non-trivial and distinct: by text and decision.'),
    'P10': dict(level='exploration', technique='runtime monitoring: exact rational geometry as online oracle' + SAN,
        note='Polygons have coordinates in quarters of pixels without halves; pixels next to crossings that are exact integers are not judged because their rounding is not defined.',
        jobs=[reg('P10', 100000, 1500000)],
        rule='One case is a region whose bounds and conversions are compared with the reference, or 40 point queries. Non-trivial and distinct: by region.'),
    'P11': dict(level='exploration', technique='runtime monitoring: pixel sets from exact rational geometry as online oracle' + SAN,
        note='Simple polygons with coordinates in quarters of pixels without halves, integer bounds, boxes up to some million pixels.',
        jobs=[reg('P11', 40000, 900000)],
        rule='One case is a pair of regions (and bounds): value, symmetry, range, identity and translation are compared with counted pixels. Non-trivial and distinct: by both regions and counts.'),
    'P15': dict(level='exploration', technique='runtime monitoring: live-heap and descriptor accounting around repeated sessions' + SAN,
        note='A case is repeated with the same seed and must not grow the heap or the descriptor table; memory of the C library itself is not counted before its first use.',
        jobs=[sess('P15', 30000, 400000), wire('P15w', 12000, 150000)],
        rule='One case is a whole session with a random end: normal end, refused handshake, illegal message, peer death over pipes or TCP, reinitialisation, termination by either side, objects kept beyond the session; or a stream of messages in every written form, noise and malformed lines. Non-trivial: allocated bytes and open descriptors were compared before and after (and in three repetitions if they grew); distinct by history.'),
    'P16': dict(level='exploration', technique='runtime monitoring: the log callback compared with a tap of the transport' + SAN,
        note='The bytes on the wire are relayed by the monitor, so that it knows what was sent and received and when.',
        jobs=[io('P16', 16000, 250000)],
        rule='One case is a session with a log on both sides (callback or file, or none) whose bytes are relayed by the monitor, with noise and malformed lines; or a history repeated with and without log. Non-trivial: both logs were compared with the wire after every call; distinct by the bytes on the wire. Also: transports that fail at a random byte.'),
    'P17': dict(level='exploration', technique='runtime monitoring with fault injection: stand-ins of read/write/recv/send give short, interrupted and failing transfers, the healthy run of the same session is the oracle' + SAN,
        note='Breaks after random bytes, all kinds of faults; blocking forever is excluded by ending streams which have run dry.',
        jobs=[io('P17', 16000, 250000), io('P17s', 400, 4000)],
        rule='One case is a scripted session of one side of the library, played healthy and then 3-4 times with faults: short and interrupted transfers, end or failure of the input after any byte, failure of the output after any byte (once or for good), sockets closed or reset by the peer in a process of its own. Non-trivial: results and output were compared with the healthy run; distinct by script and fault position.'),
}
NOT_APPLICABLE = {}
CHECKS['P22'] = dict(level='exploration', technique='runtime monitoring: reference text form compared with streams and files' + SAN,
    note='Line ends \\n, \\r\\n and \\r, with and without a last line end.',
    jobs=[reg('P22', 40000, 600000)],
    rule='One case is a sequence of regions written by the library or by hand (with unreadable lines), read from a stream, into a used object, and from a trajectory file. Non-trivial and distinct: by file contents.')
def data(mode, quick, thorough, **kw):
    return dict(harness='data', mode=mode, wrap=WIRE, quick=quick, thorough=thorough, **kw)
CHECKS['P07'] = dict(level='exploration', technique='runtime monitoring: byte-exact model of every image at both ends of real sessions, reference encoder for raw peers' + SAN,
    note='Images up to 900x600 pixels (sessions) and 3000x1500 (accessors); zero-sized images are not created.',
    jobs=[data('P07', 40000, 600000)],
    rule='One case is an image filled through its accessors in random order, an image made from memory that is then destroyed, a session with 1-3 images per channel (declared and undeclared kinds, missing channels), or an image text of a raw client (valid or with a wrong size, format or encoding). Non-trivial: every byte and the header were compared, or the refusal was checked; distinct by kind, size, channels and text.')
CHECKS['P12'] = dict(level='exploration', technique='runtime monitoring: reference dictionary stepped beside the real property sets' + SAN,
    note='How hexadecimal numbers, NaN, infinity and leading spaces are read as numbers is not judged.',
    jobs=[data('P12', 15000, 600000)],
    rule='One case is a history of 3-40 (one in ten up to 400, thorough 1500) operations on up to five property sets with shared, colliding and invalid keys. Non-trivial: after every operation contents, enumeration and count of the sets were compared with the model; distinct by contents.')
CHECKS['P13'] = dict(level='exploration', technique='runtime monitoring: reference lists stepped beside the real ones, live-heap accounting' + SAN,
    note='Up to 600 objects in a list.',
    jobs=[data('P13', 30000, 500000)],
    rule='One case is a history of 2-30 operations on up to four image lists or object lists (also appended to themselves, illegal channels and indices, releases in any order). Non-trivial: after every operation all slots of all lists were compared; heap growth is checked per case; distinct by operations and sizes.')

def fuzz(mode, quick, thorough, **kw):
    return dict(harness='fuzz', mode=mode, wrap=WIRE, quick=quick, thorough=thorough, hang=30, **kw)
VALGRIND = ['valgrind', '-q', '--error-exitcode=77', '--exit-on-first-error=yes', '--track-origins=no', '--num-callers=12']
CHECKS['P08'] = dict(level='exploration', technique='runtime monitoring: AddressSanitizer, UndefinedBehaviorSanitizer and valgrind memcheck over hostile streams, coverage-guided fuzzing (libFuzzer), progress and time monitors',
    note='Regions that would need more than 4 million pixels are only used where they have to be refused; memory exhaustion is not provoked.',
    jobs=[fuzz('P08', 40000, 1000000), fuzz('P08l', 64, 3000), fuzz('P08v', 1200, 20000, flavor='plain', prefix=VALGRIND)],
    rule='One case is a stream of hostile messages, a blob or a pair of regions given to a tracker or client of the library in one of its roles; all values that are reported are used with the public functions. Non-trivial: the library reported at least two messages or errors for it (or a region was used); distinct by stream and role.')

# coverage-guided: libFuzzer with the monitors of P08
def libfuzzer(res, tier, seed):
    import os, re, sys, tempfile, subprocess, shutil
    import check as c
    m = sys.modules['__main__'] if hasattr(sys.modules['__main__'], 'build_harness') else c
    seconds = 14 if tier == 'quick' else 420; workers = 8
    b = m.build_harness('fuzz', 'fuzz', wrap=WIRE, extra=('-DVH_FUZZER', '-fsanitize=fuzzer'), suffix='-libfuzzer')
    seeds = m.build_harness('fuzz', 'asan', wrap=WIRE)
    tmp = tempfile.mkdtemp(prefix='vh_', dir='/tmp')
    try:
        corpus = os.path.join(tmp, 'seeds'); os.makedirs(corpus)
        subprocess.run([seeds, '--mode', 'P08seeds', '--seed', str(seed), '--from', '0', '--to', '300'], env=m.environment({'VH_SEEDS': corpus}), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=tmp)
        ps = []
        for w in range(workers):
            own = os.path.join(tmp, 'c%d' % w); art = os.path.join(tmp, 'a%d/' % w); os.makedirs(own); os.makedirs(art)
            err = open(os.path.join(tmp, 'e%d' % w), 'w+b')
            ps.append((subprocess.Popen([b, '-seed=%d' % (seed * 100 + w + 1), '-max_total_time=%d' % seconds, '-max_len=4096', '-len_control=20', '-timeout=60', '-rss_limit_mb=3000', '-use_value_profile=%d' % (w % 2), '-print_final_stats=1', '-artifact_prefix=' + art, own, corpus], stdout=subprocess.DEVNULL, stderr=err, env=m.environment(), cwd=tmp, start_new_session=True), art, err))
        for w, (p, art, err) in enumerate(ps):
            try: p.wait(seconds + 150)
            except subprocess.TimeoutExpired: m.kill(p); res.notes.append('libFuzzer worker %d was ended' % w)
            err.seek(0); text = err.read().decode(errors='replace')
            n = re.search(r'number_of_executed_units: (\d+)', text); res.count('libFuzzer executions', int(n.group(1)) if n else 0)
            cov = [int(x) for x in re.findall(r' cov: (\d+)', text)]
            res.counters['libFuzzer edges covered'] = max(res.counters.get('libFuzzer edges covered', 0), max(cov or [0]))
            for f in sorted(os.listdir(os.path.join(tmp, 'c%d' % w))): res.case(f)
            for f in sorted(os.listdir(art))[:3]:
                path = os.path.join(art, f)
                if f.startswith(('oom', 'slow')): res.notes.append('libFuzzer: ' + f); continue
                q = None
                try:
                    q = subprocess.run([b, '-timeout=60', path], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=m.environment(), timeout=150, cwd=tmp)
                    if q.returncode == 0: res.unconfirmed.append('libFuzzer: ' + f); continue
                    e = q.stderr.decode(errors='replace')
                except subprocess.TimeoutExpired: e = 'timeout'
                if 'out-of-memory' in e: res.notes.append('libFuzzer: ' + f); continue
                keep = os.path.join(m.EVIDENCE, 'replays', 'P08-' + f); os.makedirs(os.path.dirname(keep), exist_ok=True); shutil.copy(path, keep)
                k = re.search(r'FAIL ([\w-]+): ([^\n]*)', e)
                res.fail(k.group(1) if k else 'hang' if 'ALARM' in e or e == 'timeout' else m.crash_key(77, e), 'input %s: %s' % (keep, k.group(2) if k else m.digest(e)))
    finally:
        for p, _, err in ps:
            if p.poll() is None: m.kill(p)
            err.close()
        shutil.rmtree(tmp, ignore_errors=True)
CHECKS['P08']['jobs'].append({'run': libfuzzer, 'mode': 'libfuzzer'})

CHECKS['P14'] = dict(level='exploration', technique='runtime monitoring: a model beside every C++ variable, live-heap accounting' + SAN,
    note='Rows obtained for writing before a copy is made are not written afterwards; accessors of another kind than the object has are not called.',
    jobs=[dict(harness='cpp', mode='P14', wrap=(), quick=10000, thorough=200000)],
    rule='One case is a program of 5-200 constructions, copies, moves, assignments (also to itself), swaps, containers, changes and destructions on about 20 variables of all wrapper classes, or a session over TCP between the C++ classes whose received values live on. Non-trivial: after every operation all variables were compared with their models; distinct by the sequence of operations.')

CHECKS['P21'] = dict(level='exploration', technique='runtime monitoring: ThreadSanitizer, results of concurrent runs compared with the same work done one after another; again with AddressSanitizer',
    note='2-6 threads; the flags of region rasterisation are not changed meanwhile; trackers set up over TCP take their address from the environment of the process and are left out.',
    jobs=[dict(harness='threads', mode='P21', flavor='tsan', wrap=WIRE, quick=1600, thorough=40000), dict(harness='threads', mode='P21', wrap=WIRE, quick=1600, thorough=40000)],
    rule='One case is 2-6 threads released together, each with 1-6 pieces of work on objects of its own: sessions between two handles over pipes, clients over TCP, regions, property sets, images, C++ objects; in a third of the cases all threads do the same work. Non-trivial: at least one result per piece of work was compared with the sequential run; distinct by results.')

def client(mode, quick, thorough, **kw):
    return dict(harness='client', mode=mode, client=True, tools=['probe'], quick=quick, thorough=thorough, **kw)
DELAYS = dict(wrap=['pthread_mutex_lock', 'usleep', 'waitpid', 'kill', 'close'], extra=['-DVH_DELAYS'], suffix='-delays')
CHECKS['P18'] = dict(level='exploration', technique='runtime monitoring with fault injection: a scripted tracker program fails in every way at every step, outcome, time and everything left behind are observed' + SAN,
    note='The program itself is judged, not processes that it starts and that outlive it.',
    jobs=[client('P18', 1400, 20000, workers=40, hang=100), client('P18m', 60, 600, workers=20, hang=100)],
    rule='One case is a session with a tracker program that fails in one of 30 ways at a random step (before the connection, before the introduction, idle or busy at any frame, at the end) in one of three connection modes, or is destroyed at a random step, is slow, or lives beside other trackers. Non-trivial: outcome and time of every call, processes, descriptors and threads were checked; distinct by mode, failure, step and outcome. Also: programs with hundreds of open descriptors, long and slow sessions.')
CHECKS['P19'] = dict(level='exploration', technique='runtime monitoring: arguments, environment and directory recorded by the launched program compared with what was given' + SAN,
    note='Quotes within an argument are not generated because their meaning is not documented.',
    jobs=[client('P19', 2000, 30000, workers=24)],
    rule='One case is a launch with a random command line (0-6 arguments of any characters, quoted or not, up to 3000 characters), environment and directory in one of the connection modes, or a command that cannot be parsed or started. Non-trivial: everything recorded by the program was compared; distinct by command line. Also: trackers started at once by several threads.')
CHECKS['P20'] = dict(level='exploration', technique='runtime monitoring: ThreadSanitizer (races and lock order) over perturbed schedules with compressed time, completion and clean-up monitors',
    note='Delays are injected around locks, waits, signals and closing of descriptors; sleeps are shortened at random. A TrackerProcess is used by one thread at a time.',
    jobs=[client('P20', 1000, 16000, flavor='tsan', workers=16, hang=100, **DELAYS), client('P20', 400, 6000, flavor='asan', workers=16, hang=100, **DELAYS)],
    rule='One case is one session (or 2-4 in threads) with random calls against a tracker program that ends in a random way at a random moment, while watchdog callbacks end it as well. Non-trivial: all calls completed and nothing was left behind; distinct by calls, their outcomes and script.')
CHECKS['P27'] = dict(level='exploration', technique='runtime monitoring: everything that the program wrote is computed again and searched in the log, in order and once' + SAN,
    note='Lines longer than 250 characters may be cut. In the explicit mode the output stream is inherited and not captured.',
    jobs=[client('P27', 900, 12000, workers=24, hang=100)],
    rule='One case is a session with a tracker program that writes numbered lines (up to some megabytes) to its error stream and, where it is not forbidden, to its output stream, in random pieces and moments. Non-trivial: all lines were found once and in order, and all replies were right; distinct by script.')

CHECKS['P23'] = dict(level='exploration', technique='runtime monitoring with fault injection: a model of the documented loop predicts exit code, output, timings and all messages that a scripted tracker program receives' + SAN,
    note='Built without OpenCV. A tracker that ends the session itself is a failure. Overlaps near the failure threshold are not generated (their value is the matter of P11).',
    jobs=[dict(harness='cli', mode='P23', tools=['probe'], programs=['traxclient', 'traxtest'], quick=1400, thorough=20000, workers=20, hang=100)],
    rule='One case is a run of traxclient with random options, sequence (lists of images and regions of any kind, also of different length), tracker capabilities and tracker behaviour (replies above and below the failure threshold, failures of 17 kinds at any step, interruption), a run with wrong usage, a query, or a run of traxtest. Non-trivial: exit code, output entries, timings and received messages were compared with the model, nothing was left behind; distinct by options and script.')

OPENCV = dict(sources=('support/opencv/opencv.cpp',), includes=('support/opencv/include',), extra=('-I/usr/include/opencv4',), libs=('-lopencv_imgcodecs', '-lopencv_imgproc', '-lopencv_core'))
CHECKS['P25'] = dict(level='exploration', technique='runtime monitoring: pixels and coordinates before and after every conversion are compared with an independent model' + SAN,
    note='The OpenCV of the system is not instrumented. traxplayer and the interactive example need a display and are not run.',
    jobs=[dict(harness='opencv', mode='P25', quick=40000, thorough=600000, **OPENCV),
        dict(harness='cli', mode='P25', tools=['probe'], programs=['traxclient'], options=('-DBUILD_OPENCV=ON',), quick=300, thorough=4000, workers=16, hang=100)],
    rule='One case converts an image, a matrix (of any layout), a file, a rectangle, points or a mask and back, or draws a region on a canvas, or runs traxclient, built with OpenCV, with a tracker that needs images in memory. Non-trivial: all pixels or coordinates were compared; distinct by sizes, formats, layout and geometry.')

CHECKS['P24'] = dict(level='exploration', technique='runtime monitoring: a second implementation of the protocol in Python and the values given at the other end as oracle, live allocations of the library are counted, AddressSanitizer + UndefinedBehaviorSanitizer of gcc in the library',
    note='Texts are valid Unicode without NUL. Mask.get is not judged. The properties argument of Server.status is given for single objects.',
    jobs=[dict(script='python.py', mode='P24', quick=10000, thorough=160000, workers=8)],
    rule='One case creates and reads values of the binding, gives it something that it has to refuse, runs a Python tracker against a raw client, a Python client against a raw tracker of any protocol version, or both sides in Python over pipes or TCP. Non-trivial: every delivered value, every written message, the log, exceptions, live allocations and descriptors were compared; distinct by kinds, declarations, steps and ends.')

CHECKS['P26'] = dict(level='exploration', technique='runtime monitoring: a second implementation of the protocol in Python, the probe and the values given at the other end as oracle, live allocations of the library are counted, AddressSanitizer + UndefinedBehaviorSanitizer of gcc in the MEX files',
    note='Octave only, there is no Matlab here. Masks are compared by their pixels with coordinates from 0 on, because Octave has no offset. Interruption by the user is not judged.',
    jobs=[dict(script='octave.py', mode='P26', quick=1200, thorough=20000, workers=8, tools=['probe'])],
    rule='One case runs traxserver in Octave against a raw client, traxclient against the probe as a tracker of any protocol version in any connection mode, or both in Octave. Non-trivial: every delivered value, every written message, the processes, the log, errors and live allocations were compared; distinct by declarations, steps, kinds, failures and ends.')
