// P16 the log, P17 partial and failing input and output
#include "sess.h"
#include <thread>
#include <sys/wait.h>
using namespace ref; using namespace vh;

// ------------------------------------------------------------------------------------------- P16
struct Tap { std::string bytes; size_t flushes = 0, calls = 0, bad = 0; std::vector<size_t> marks; };
static void tap(const char* s, int n, void* d) { Tap* t = (Tap*) d; t->calls++; if (!s) { t->flushes++; t->marks.push_back(t->bytes.size()); return; } if (n < 0) { t->bad++; return; } t->bytes.append(s, n); }
// records of the transport itself, made by the stand-ins of the system calls, one for each side
struct Wire { std::string in, out; std::string order; };

// Both sides with a logger each. Nothing else reads the pipes: what one side wrote is what the other read.
static void p16_session(Ctx& cx) {
    Rng& r = cx.rng; int version = r.range(1, 4); Meta m = gen_meta(r, version); Tap ct, st; FILE* file = NULL; char* fbuf = NULL; size_t flen = 0; bool use_file = r.chance(25), silent = r.chance(15);
    // pipes with a tap: everything is relayed by hand so that the bytes on the wire are known
    Pipe cin, cout, sin, sout; trax_logging cl = silent ? trax_no_log : trax_logger_setup(tap, &ct, 0), sl = trax_logger_setup(tap, &st, 0); if (use_file) { file = open_memstream(&fbuf, &flen); sl = trax_logger_setup_file(file); }
    struct F { FILE*& f; char*& b; ~F() { if (f) fclose(f); free(b); } } guard_file{file, fbuf};
    trax_metadata* md = m.to_lib(); trax_handle* s = trax_server_setup_file_v(md, sin.r, sout.w, sl, version); trax_metadata_release(&md); trax_handle* c = NULL; struct G { trax_handle*& h; ~G() { if (h) trax_cleanup(&h); } } g1{s}, g2{c};
    std::string cexp, sexp; // what the logs have to contain: received and sent bytes in the order of the calls
    auto slog = [&]() { if (use_file) { fflush(file); return std::string(fbuf, flen); } return st.bytes; };
    auto check = [&](const char* when) {
        REQUIRE(cx, ct.bytes == (silent ? "" : cexp), std::string("client-log:") + when, "the client log has [%s] instead of [%s]", show(ct.bytes).c_str(), show(cexp).c_str());
        std::string l = slog(); REQUIRE(cx, l == sexp, std::string("tracker-log:") + when, "the tracker log has [%s] instead of [%s]", show(l.substr(std::min(l.size(), sexp.size() > 200 ? sexp.size() - 200 : 0))).c_str(), show(sexp.substr(sexp.size() > 200 ? sexp.size() - 200 : 0)).c_str());
        REQUIRE(cx, !silent || ct.calls == 0, "silent", "a callback without logging"); cx.ev("bytes of logs compared", cexp.size() + sexp.size()); cx.sample("wire and log " + show(sexp, 160));
    };
    std::string noise; auto relay = [&](Pipe& from, Pipe& to, std::string& sent_log, std::string& recv_log) { std::string b = drain(from.r); sent_log += b; if (r.chance(40)) { std::string n = r.pick(std::vector<std::string>{"noise\n", "\n", "@@TRAX:unknown \"x\"\n", "@@TRAX:state \"1\n"}); if (b.size()) b = n + b; } recv_log += b; put(to.w, b); return b; };
    relay(sout, cin, sexp, cexp); size_t f0 = st.flushes; if (!use_file) REQUIRE(cx, f0 >= 1, "flush", "the log was not flushed after the introduction");
    c = trax_client_setup_file(cin.r, cout.w, cl); REQUIRE(cx, c, "no-session", "the handshake failed"); check("handshake");
    int steps = r.range(1, 5); size_t alive = 0; bool multi = version >= 4 && (m.flags & TRAX_METADATA_MULTI_OBJECT);
    if (version < 2) { m.channels = TRAX_CHANNEL_COLOR; }
    for (int k = 0; k < steps; k++) {
        bool init = !alive || r.chance(25); size_t n = init ? (multi ? r.range(1, 3) : 1) : 0; Objects v; for (size_t i = 0; i < n; i++) v.push_back({gen_region(r, m.regions), gen_props(r, 2)}); Images im = gen_images(r, m.channels, m.images);
        { IL il(im); OL ol(v); Props p(gen_props(r)); size_t f = ct.flushes; int rc = init ? trax_client_initialize(c, il, ol, p) : trax_client_frame(c, il, NULL, p); REQUIRE(cx, rc == TRAX_OK, "send-refused", "%s", trax_get_error(c) ? trax_get_error(c) : ""); if (!silent) REQUIRE(cx, ct.flushes > f, "flush", "the log was not flushed after a message was sent"); if (init) alive = n; }
        std::string before = sexp; relay(cout, sin, cexp, sexp); REQUIRE(cx, ct.bytes == (silent ? "" : cexp), "client-log:sent", "the client log has [%s] instead of [%s]", show(ct.bytes).c_str(), show(cexp).c_str());
        size_t f = st.flushes; Got g = server_wait(s, version >= 4); REQUIRE(cx, g.code == (init ? TRAX_INITIALIZE : TRAX_FRAME), "wrong-message", "%d %s", g.code, g.error.c_str()); check("tracker received"); if (!use_file) REQUIRE(cx, st.flushes > f, "flush", "the log was not flushed after a message was received");
        Objects o; for (size_t i = 0; i < alive; i++) o.push_back({gen_region(r, ALL_REGIONS), gen_props(r, 2)}); int rc; if (version >= 4) { OL ol(o); rc = trax_server_reply_mot(s, ol); } else { R g1(o[0].region); Props p(o[0].props); rc = trax_server_reply_sot(s, g1, p); } REQUIRE(cx, rc == TRAX_OK, "reply-refused", "%d", rc);
        relay(sout, cin, sexp, cexp); g = client_wait(c); REQUIRE(cx, g.code == TRAX_STATE, "wrong-message", "%d", g.code); check("client received");
        cx.ev("messages logged", 2 + n); cx.state(hash_of(sexp.substr(before.size())));
    }
    if (r.chance(50)) { trax_terminate(c, r.chance(50) ? "reason\n\"x\"" : NULL); relay(cout, sin, cexp, sexp); server_wait(s, version >= 4); check("quit"); }
    trax_cleanup(&s); sexp += drain(sout.r); trax_cleanup(&c); cexp += drain(cout.r); check("end"); cx.ev(use_file ? "file loggers" : "callback loggers"); if (silent) cx.ev("sessions without log");
    REQUIRE(cx, ct.bad + st.bad == 0, "negative-length", "the callback received a negative length");
}
// the same history with and without a log: the bytes written and the results are the same
static void p16_same(Ctx& cx) {
    uint64_t seed = cx.rng.next(); std::string first; 
    for (int pass = 0; pass < 3; pass++) {
        Rng r(seed); int version = r.range(1, 4); Meta m = gen_meta(r, version); Tap t; Pipe in, out; trax_logging l = pass == 0 ? trax_no_log : pass == 1 ? trax_logger_setup(tap, &t, 0) : trax_logger_setup_file(NULL); std::string result;
        trax_metadata* md = m.to_lib(); trax_handle* s = trax_server_setup_file_v(md, in.r, out.w, l, version); trax_metadata_release(&md); std::string stream; int n = r.range(1, 5);
        for (int i = 0; i < n; i++) { Message x; x.type = r.pick(std::vector<int>{TRAX_FRAME, TRAX_INITIALIZE, TRAX_INITIALIZE, TRAX_QUIT, TRAX_STATE}); if (x.type == TRAX_FRAME || (version < 4 && x.type == TRAX_INITIALIZE)) { Images im = gen_images(r, m.channels, m.images); for (auto& e : im) x.args.push_back(uri(e.second)); } if (x.type == TRAX_INITIALIZE) x.args.push_back(text(gen_region(r, GEOMETRY))); x.props = gen_props(r, 3); std::string b = encode(x); if (r.chance(20)) b[r.below(b.size())] = '"'; stream += b; if (r.chance(20)) stream += gen_text(r, 30) + "\n"; }
        for (char& ch : stream) if (!ch) ch = ' ';
        put(in.w, stream); in.close_w();
        for (int i = 0; i <= n; i++) { Got g = server_wait(s, version >= 4); result += fmt("%d|", g.code) + show_images(g.images) + show_objects(g.objects) + show_map(g.props) + g.error; if (g.code >= 0 && g.code != TRAX_QUIT) { Objects o; for (int k = 0; k < (version >= 4 ? s->objects : 1); k++) o.push_back({gen_region(r, ALL_REGIONS), gen_props(r, 2)}); if (version >= 4) { OL ol(o); trax_server_reply_mot(s, ol); } else { R g1(o[0].region); Props p(o[0].props); trax_server_reply_sot(s, g1, p); } } }
        trax_cleanup(&s); result += drain(out.r);
        if (pass == 0) { first = result; cx.state(hash_of(result)); } else REQUIRE(cx, result == first, "log-changes-session", "the session differs with a log (%s): [%s] instead of [%s]", pass == 1 ? "callback" : "file without stream", show(result).c_str(), show(first).c_str());
        // the log of a received stream contains the stream up to the last byte that was processed
        if (pass == 1) { std::string want = stream; size_t k = 0, j = 0; std::string rest; for (; k < t.bytes.size() && j < want.size(); k++) { if (t.bytes[k] == want[j]) j++; } REQUIRE(cx, j == want.size() || result.find(fmt("%d|", TRAX_QUIT)) != std::string::npos, "log-incomplete", "%zu of %zu received bytes appear in the log", j, want.size()); }
    }
    cx.ev("sessions repeated with and without log");
}

// The peer disappears after any byte: the log has no byte that was not sent, and everything of the messages that were
static bool starts(const std::string& s, const std::string& p);
static void p16_faults(Ctx& cx) {
    Rng& r = cx.rng; bool server = r.chance(50), tcp = r.chance(40), gone = r.chance(25); int version = server ? r.range(1, 4) : 3; Meta m = gen_meta(r, version, false); if (!server) m.flags = 0; Tap t; trax_logging l = trax_logger_setup(tap, &t, 0);
    io::Plan& plan = io::plan(); plan.reset(); Pipe in, out; Listener* lis = NULL; int sock = -1; trax_handle* h = NULL; struct G { trax_handle*& h; Listener*& l; int& s; ~G() { io::plan().reset(); if (h) trax_cleanup(&h); if (s >= 0) close(s); delete l; } } guard{h, lis, sock};
    long at = r.chance(30) ? r.below(80) : r.below(3000); int mc = r.pick(std::vector<int>{1, 5, 60}), sp = r.pick(std::vector<int>{0, 60}), ei = r.pick(std::vector<int>{0, 25}); bool once = r.chance(50); int err = r.pick(std::vector<int>{EPIPE, ECONNRESET, EIO});
    auto arm = [&]() { plan.reset(); plan.rng = r.next(); plan.short_percent = sp; plan.max_chunk = mc; plan.eintr_percent = ei; if (!gone) { plan.fail_after_out = at; plan.fail_errno = err; plan.once = once; } plan.active = true; plan.dry_eof = true; };
    std::string hello = "@@TRAX:hello \"trax.version=3\" \"trax.image=path;url;memory;buffer;\" \"trax.region=rectangle;polygon;mask;\" \"trax.channels=color;depth;ir;\"\n"; if (!server) m.images = TRAX_IMAGE_PATH, m.channels = TRAX_CHANNEL_COLOR;
    auto give = [&](const std::string& b) { bool a = plan.active; plan.active = false; put(tcp ? sock : in.w, b); plan.active = a; };
    auto arrived = [&]() { bool a = plan.active; plan.active = false; std::string b = tcp ? (sock >= 0 ? drain(sock) : "") : out.r >= 0 ? drain(out.r) : ""; plan.active = a; return b; };
    size_t mark = 0; long fails = 0; auto segment = [&]() { std::string s = t.bytes.substr(mark); mark = t.bytes.size(); return s; };
    if (tcp) { lis = new Listener; if (server) { static char env[40]; snprintf(env, sizeof env, "TRAX_SOCKET=%d", lis->port); putenv(env); } else sock = tcp_connect(lis->port); }
    trax_metadata* md = m.to_lib();
    if (server) { if (tcp) { h = trax_server_setup_v(md, l, version); unsetenv("TRAX_SOCKET"); sock = accept4(lis->fd, NULL, NULL, SOCK_CLOEXEC); arm(); } else { arm(); h = trax_server_setup_file_v(md, in.r, out.w, l, version); } }
    else { give(hello); arm(); h = tcp ? trax_client_setup_socket(lis->fd, 5, l) : trax_client_setup_file(in.r, out.w, l); }
    trax_metadata_release(&md); if (!h) { cx.ev("sessions that did not start"); return; }
    if (server) { std::string b = arrived(), s = segment(); REQUIRE(cx, starts(b, s), "log-unsent", "the log has [%s] but [%s] was sent", show(s).c_str(), show(b).c_str()); if (!plan.fails) REQUIRE(cx, b == s, "log-lost", "the log has [%s] but [%s] was sent", show(s).c_str(), show(b).c_str()); }
    else { std::string s = segment(); REQUIRE(cx, s == hello, "log-received", "the log has [%s] instead of the introduction", show(s).c_str()); }
    int steps = r.range(1, 5), leave = gone ? r.below(steps + 1) : -1; bool alive = false, left = false; fails = plan.fails;
    for (int k = 0; k <= steps; k++) {
        if (k == leave && !left) { left = true; if (tcp) { struct linger g = {1, 0}; if (r.chance(50)) setsockopt(sock, SOL_SOCKET, SO_LINGER, &g, sizeof g); close(sock); sock = -1; } else out.close_r(); }
        auto sent = [&](int rc, const char* what) { std::string b = arrived(), s = segment(); cx.ev(rc == TRAX_OK ? "messages sent" : "messages that failed");
            if (left) { if (!tcp) REQUIRE(cx, s.empty(), "log-unsent", "nobody reads, but %s is logged as [%s]", what, show(s).c_str()); return; } // sockets take bytes for a peer that is gone
            REQUIRE(cx, starts(b, s), "log-unsent", "for a %s the log has [%s] but [%s] was sent (result %d)", what, show(s).c_str(), show(b).c_str(), rc); if (plan.fails == fails) REQUIRE(cx, b == s, "log-lost", "for a %s the log has [%s] but [%s] was sent", what, show(s).c_str(), show(b).c_str()); cx.ev("bytes of logs compared", b.size()); cx.state(mix(hash_of(b), s.size())); fails = plan.fails; };
        if (k == steps) { sent(trax_terminate(h, "end"), "quit"); break; }
        if (!server) { Images im = gen_images(r, m.channels, m.images); IL il(im); Objects v{{rect(1, 2, 3, 4), gen_props(r, 2, 30)}}; OL ol(v); Props p(gen_props(r, 2, 30)); int rc = alive ? trax_client_frame(h, il, NULL, p) : trax_client_initialize(h, il, ol, p); alive = true; sent(rc, "request"); }
        if (!(tcp && left)) { Message x; x.type = server ? alive ? TRAX_FRAME : TRAX_INITIALIZE : TRAX_STATE; if (server) { Images im = gen_images(r, m.channels, m.images); for (auto& e : im) x.args.push_back(uri(e.second)); } if (!server || (version < 4 && !alive)) x.args.push_back("1,2,3,4"); x.props = gen_props(r, 2, 30); std::string b; if (server && version >= 4 && !alive) { Message o; o.type = TRAX_INITIALIZE; o.args.push_back("1,2,3,4"); b = encode(o); x.type = TRAX_FRAME; } b += encode(x); alive = true; give(b); long before = plan.in;
            Got g = server ? server_wait(h, version >= 4) : client_wait(h); std::string s = segment(); b.resize(std::min<size_t>(b.size(), plan.in - before)); REQUIRE(cx, s == b, "log-received", "the log has [%s] but [%s] was received (result %d)", show(s).c_str(), show(b).c_str(), g.code); cx.ev("bytes of logs compared", b.size());
            if (server && g.code >= 0) { Objects o{{gen_region(r, ALL_REGIONS), gen_props(r, 2, 30)}}; int rc; if (version >= 4) { OL ol(o); rc = trax_server_reply_mot(h, ol); } else { R g1(o[0].region); Props p(o[0].props); rc = trax_server_reply_sot(h, g1, p); } sent(rc, "reply"); } }
    }
    cx.ev("failed transfers", plan.fails); cx.ev(left ? "peers that left" : "peers that stayed");
}

// ------------------------------------------------------------------------------------------- P17
// a conversation of one side of the library with a scripted peer, its result and its output
struct Outcome { std::vector<std::string> events; std::string output; };
struct Script { bool server; int version; Meta m; std::vector<std::vector<Message>> input; /* per wait */ bool tcp; uint64_t seed; };
static Script gen_script(Rng& r) {
    Script s; s.server = r.chance(50); s.version = r.range(1, 4); s.m = gen_meta(r, s.version, false); s.tcp = r.chance(25); s.seed = r.next(); int n = r.range(1, 4); bool multi = s.version >= 4 && (s.m.flags & TRAX_METADATA_MULTI_OBJECT);
    if (s.version < 4) s.m.flags = 0;
    size_t alive = 0;
    for (int k = 0; k < n; k++) { std::vector<Message> v; bool init = !alive;
        if (s.server) { Message f; f.type = TRAX_FRAME; Images im = gen_images(r, s.m.channels, s.m.images); for (auto& e : im) f.args.push_back(uri(e.second)); f.props = gen_props(r, 3, 40); if (init && s.version < 4) { f.type = TRAX_INITIALIZE; f.args.push_back(text(gen_region(r, s.m.regions))); alive = 1; } else if (init) { int c = multi ? r.range(1, 3) : 1; alive = c; for (int i = 0; i < c; i++) { Message x; x.type = TRAX_INITIALIZE; x.args.push_back(text(gen_region(r, s.m.regions))); x.props = gen_props(r, 2, 30); v.push_back(x); } } v.push_back(f); }
        else { if (init) alive = multi ? r.range(1, 3) : 1; for (size_t i = 0; i < alive; i++) { Message x; x.type = TRAX_STATE; x.args.push_back(text(gen_region(r, ALL_REGIONS))); x.props = gen_props(r, 3, 40); v.push_back(x); } }
        s.input.push_back(v); }
    if (r.chance(50)) { Message q; q.type = TRAX_QUIT; q.props = gen_props(r, 2, 40); s.input.push_back({q}); }
    return s;
}
static std::string input_text(const Script& s) { std::string t; for (auto& v : s.input) for (auto& m : v) t += encode(m); return t; }
static std::string hello_text(const Script& s) { Message h; h.type = TRAX_HELLO; h.props["trax.version"] = fmt("%d", s.version); std::string rf, imf, chf; if (s.m.regions & TRAX_REGION_RECTANGLE) rf += "rectangle;"; if (s.m.regions & TRAX_REGION_POLYGON) rf += "polygon;"; if (s.m.regions & TRAX_REGION_MASK) rf += "mask;"; if (s.m.images & TRAX_IMAGE_PATH) imf += "path;"; if (s.m.images & TRAX_IMAGE_URL) imf += "url;"; if (s.m.images & TRAX_IMAGE_MEMORY) imf += "memory;"; if (s.m.images & TRAX_IMAGE_BUFFER) imf += "buffer;"; if (s.m.channels & TRAX_CHANNEL_COLOR) chf += "color;"; if (s.m.channels & TRAX_CHANNEL_DEPTH) chf += "depth;"; if (s.m.channels & TRAX_CHANNEL_IR) chf += "ir;"; h.props["trax.region"] = rf; h.props["trax.image"] = imf; h.props["trax.channels"] = chf; if (s.m.flags) h.props["trax.multiobject"] = "1"; return encode(h); }
// Plays the script with this input (possibly cut) under the current plan of faults. Every event is what an API call reported.
// peer_gone: the peer does not read any more, writing fails
static Outcome play(Ctx& cx, const Script& s, const std::string& input, std::function<void(io::Plan&)> faults, bool peer_gone = false) {
    Outcome o; Rng r(s.seed); Pipe in, out; Listener* l = NULL; int sock = -1; trax_handle* h = NULL; struct G { trax_handle*& h; Listener*& l; int& s; ~G() { io::plan().reset(); if (h) trax_cleanup(&h); if (s >= 0) close(s); delete l; } } guard{h, l, sock};
    io::Plan& plan = io::plan(); plan.reset();
    auto arm = [&]() { plan.reset(); plan.rng = r.next(); faults(plan); plan.active = true; plan.dry_eof = true; };
    auto record = [&](int code, const std::string& t) { o.events.push_back(fmt("%d ", code) + t); };
    std::string text = (s.server ? "" : hello_text(s)) + input; if (s.server) text = input;
    if (s.tcp) { l = new Listener; if (s.server) { static char env[40]; snprintf(env, sizeof env, "TRAX_SOCKET=%d", l->port); putenv(env); } else { sock = tcp_connect(l->port); } }
    trax_metadata* md = s.m.to_lib();
    if (s.server) { 
        if (s.tcp) { h = trax_server_setup_v(md, trax_no_log, s.version); unsetenv("TRAX_SOCKET"); sock = accept4(l->fd, NULL, NULL, SOCK_CLOEXEC); put(sock, text); shutdown(sock, SHUT_WR); if (peer_gone) { close(sock); sock = -1; } arm(); }
        else { put(in.w, text); in.close_w(); if (peer_gone) out.close_r(); arm(); h = trax_server_setup_file_v(md, in.r, out.w, trax_no_log, s.version); } }
    else { if (s.tcp) { put(sock, text); shutdown(sock, SHUT_WR); if (peer_gone) { close(sock); sock = -1; } arm(); h = trax_client_setup_socket(l->fd, 5, trax_no_log); }
        else { put(in.w, text); in.close_w(); if (peer_gone) out.close_r(); arm(); h = trax_client_setup_file(in.r, out.w, trax_no_log); } }
    trax_metadata_release(&md); record(h != NULL, "session"); if (!h) { plan.reset(); return o; }
    auto collect = [&]() { bool a = plan.active; plan.active = false; o.output += s.tcp ? (sock >= 0 ? drain(sock) : std::string()) : out.r >= 0 ? drain(out.r) : std::string(); plan.active = a; };
    size_t rounds = s.input.size() + 2; size_t alive = 0;
    for (size_t k = 0; k < rounds; k++) {
        if (!s.server) { int n = s.input.empty() || k >= s.input.size() ? 1 : (int) s.input[0].size(); Objects v; Images im = gen_images(r, s.version < 2 ? TRAX_CHANNEL_COLOR : s.m.channels, s.m.images); if (k == 0) { if (s.input[0][0].type == TRAX_QUIT) n = 1; for (int i = 0; i < n; i++) v.push_back({gen_region(r, s.m.regions), gen_props(r, 2, 20)}); alive = n; } IL il(im); OL ol(v); Props p(gen_props(r, 2, 20)); int rc = k == 0 ? trax_client_initialize(h, il, ol, p) : trax_client_frame(h, il, NULL, p); record(rc, "request"); collect(); (void) alive;
            Got g = client_wait(h); record(g.code, show_objects(g.objects) + show_map(g.props)); }
        else { Got g = server_wait(h, s.version >= 4); record(g.code, show_images(g.images) + show_objects(g.objects) + show_map(g.props));
            int n = s.version >= 4 ? h->objects : 1; Objects v; for (int i = 0; i < n; i++) v.push_back({gen_region(r, ALL_REGIONS), gen_props(r, 2, 20)}); if (n) { OL ol(v); R g1(v[0].region); Props p(v[0].props); int rc = s.version >= 4 ? trax_server_reply_mot(h, ol) : trax_server_reply_sot(h, g1, p); record(rc, "reply"); collect(); } }
    }
    trax_terminate(h, "end"); collect(); record(trax_is_alive(h), "alive");
    cx.ev("interruptions", plan.eintrs); cx.ev("short transfers", plan.shorts); cx.ev("failed transfers", plan.fails);
    plan.reset(); trax_cleanup(&h); if (!s.tcp && out.r >= 0) o.output += drain(out.r); return o;
}
static bool starts(const std::string& s, const std::string& p) { return !s.compare(0, p.size(), p); }
static std::string join(const std::vector<std::string>& v) { std::string s; for (auto& e : v) s += show(e, 200) + " | "; return s; }

static void p17_partial(Ctx& cx) { // short and interrupted transfers are invisible
    Rng& r = cx.rng; Script s = gen_script(r); std::string in = input_text(s); Outcome a = play(cx, s, in, [](io::Plan&) {});
    for (int k = 0; k < 3; k++) { int sp = r.pick(std::vector<int>{0, 50, 100}), mc = r.pick(std::vector<int>{1, 3, 100, 5000}), ei = r.pick(std::vector<int>{0, 30, 90}); Outcome b = play(cx, s, in, [&](io::Plan& p) { p.short_percent = sp; p.max_chunk = mc; p.eintr_percent = ei; });
        REQUIRE(cx, a.events == b.events, "partial-io-changes-results", "%s instead of %s (short %d%% of %d, interrupted %d%%)", join(b.events).c_str(), join(a.events).c_str(), sp, mc, ei);
        REQUIRE(cx, a.output == b.output, "partial-io-changes-output", "[%s] instead of [%s]", show(b.output).c_str(), show(a.output).c_str()); cx.state(mix(hash_of(in), sp * 1000 + mc * 10 + ei)); }
    cx.ev("sessions repeated with partial transfers");
}
// The input ends or fails after any byte: everything complete is delivered as in the healthy session, then there are only errors
static void p17_input(Ctx& cx) {
    Rng& r = cx.rng; Script s = gen_script(r); std::string in = input_text(s); Outcome a = play(cx, s, in, [](io::Plan&) {});
    for (int k = 0; k < 4; k++) {
        size_t cut = r.chance(40) ? r.below(60) : r.below(in.size() + 1); if (r.chance(30)) { cut = in.rfind('\n', cut); cut = cut == std::string::npos ? 0 : cut + r.below(2); } cut = std::min(cut, in.size());
        size_t offset = s.server ? 0 : hello_text(s).size(); bool by_error = r.chance(60), hello = !s.server && r.chance(15); int err = r.pick(std::vector<int>{EIO, ECONNRESET, EBADF, ENOMEM}); size_t at = hello ? r.below(offset) : cut + offset;
        Outcome b; if (by_error) b = play(cx, s, in, [&](io::Plan& p) { p.fail_after_in = at; p.fail_errno = err; p.eof = r.chance(30); if (r.chance(50)) { p.short_percent = 60; p.max_chunk = 7; } });
        else if (!hello) b = play(cx, s, in.substr(0, cut), [](io::Plan&) {}); else continue;
        cx.ev(by_error ? "receiving failed" : "stream ended"); cx.state(mix(hash_of(in), at));
        if (hello) { REQUIRE(cx, b.events.size() == 1 && starts(b.events[0], "0 "), "session-from-partial-hello", "%s after %zu bytes of the introduction", join(b.events).c_str(), at); continue; }
        // which waits are complete: those whose messages lie before the cut entirely
        size_t pos = 0, complete = 0; for (auto& v : s.input) { for (auto& m : v) pos += encode(m).size(); if (pos <= cut) complete++; else break; }
        size_t waits = 0; bool errors = false;
        for (size_t i = 0, j = 0; i < b.events.size(); i++) { const std::string& e = b.events[i];
            if (e.find("session") != std::string::npos || e.find(" request") != std::string::npos || e.find(" reply") != std::string::npos || e.find(" alive") != std::string::npos) continue;
            // the same wait in the healthy session
            size_t w = 0; for (j = 0; j < a.events.size(); j++) { const std::string& f = a.events[j]; if (f.find("session") != std::string::npos || f.find(" request") != std::string::npos || f.find(" reply") != std::string::npos || f.find(" alive") != std::string::npos) continue; if (w++ == waits) break; }
            if (waits < complete && !errors) REQUIRE(cx, j < a.events.size() && e == a.events[j], "complete-message-lost", "wait %zu reports [%s] instead of [%s], input cut at %zu of %zu", waits, show(e).c_str(), j < a.events.size() ? show(a.events[j]).c_str() : "", cut, in.size());
            else { errors = true; REQUIRE(cx, starts(e, "-1 ") && e.find('=') == std::string::npos && e.find("image") == std::string::npos, "partial-message-delivered", "wait %zu reports [%s], but the input was cut at %zu of %zu: %s", waits, show(e).c_str(), cut, in.size(), show(in.substr(0, cut)).c_str()); }
            waits++; cx.ev(errors ? "errors reported" : "messages delivered"); }
    }
}
// Writing fails after any byte: what arrived is a prefix of the healthy output, except for at most the rest of one message
static void p17_output(Ctx& cx) {
    Rng& r = cx.rng; Script s = gen_script(r); std::string in = input_text(s); Outcome a = play(cx, s, in, [](io::Plan&) {});
    for (int k = 0; k < 4; k++) {
        long at = r.below(a.output.size() + 1); bool once = r.chance(50), broken = r.chance(20); int err = r.pick(std::vector<int>{EPIPE, ECONNRESET, EIO, ENOSPC}); cx.state(mix(hash_of(a.output), at)); if (s.server && s.tcp) at += 0;
        Outcome b = play(cx, s, in, [&](io::Plan& p) { if (!broken) { p.fail_after_out = at; p.fail_errno = err; p.once = once; } if (r.chance(50)) { p.short_percent = 60; p.max_chunk = 9; } }, broken);
        cx.ev(broken ? "peer stopped reading" : once ? "writing failed once" : "writing failed");
        REQUIRE(cx, b.output.size() <= a.output.size() && starts(a.output, b.output), "fragment-sent", "after a failed write the peer received [%s], the message that was cut off was continued by a later one (healthy output [%s])", show(b.output.substr(b.output.size() > 300 ? b.output.size() - 300 : 0)).c_str(), show(a.output.substr(0, 300)).c_str());
        if (!broken && !(s.server && s.tcp)) REQUIRE(cx, (long) b.output.size() >= std::min<long>(at, a.output.size()), "output-lost", "%zu bytes arrived, but %ld were written before the failure", b.output.size(), at);
        // receiving is not affected
        auto waits = [](const Outcome& o) { std::vector<std::string> v; for (auto& e : o.events) if (e.find(" request") == std::string::npos && e.find(" reply") == std::string::npos) v.push_back(e); return v; };
        if (!(broken && s.tcp)) REQUIRE(cx, waits(a) == waits(b), "receiving-affected", "%s instead of %s", join(waits(b)).c_str(), join(waits(a)).c_str());
    }
}
// The peer of a socket closes it: the process must not be killed by a signal, and must not spin
static void p17_signal(Ctx& cx) {
    Rng& r = cx.rng; bool server = r.chance(50); int closes = r.range(0, 3); uint64_t seed = r.next(); bool rst = r.chance(50);
    pid_t p = fork(); if (p < 0) return;
    if (p == 0) {
        signal(SIGPIPE, SIG_DFL); struct rlimit lim = {20, 20}; setrlimit(RLIMIT_CPU, &lim); Rng q(seed); Listener l; trax_handle* h = NULL; int sock; Meta m; m.images = TRAX_IMAGE_PATH;
        if (server) { static char env[40]; snprintf(env, sizeof env, "TRAX_SOCKET=%d", l.port); putenv(env); trax_metadata* md = m.to_lib(); h = trax_server_setup_v(md, trax_no_log, 3); sock = accept(l.fd, NULL, NULL); }
        else { sock = tcp_connect(l.port); put(sock, "@@TRAX:hello \"trax.version=3\" \"trax.image=path;\" \"trax.region=rectangle;\"\n"); h = trax_client_setup_socket(l.fd, 5, trax_no_log); if (!h) _exit(10); }
        auto close_it = [&]() { if (rst) { struct linger g = {1, 0}; setsockopt(sock, SOL_SOCKET, SO_LINGER, &g, sizeof g); } close(sock); };
        Images im; Image x; x.type = TRAX_IMAGE_PATH; x.data = "/x"; im[TRAX_CHANNEL_COLOR] = x; bool closed = false;
        for (int k = 0; k < 6; k++) {
            if (k == closes) { close_it(); closed = true; }
            if (server) { if (!closed) { Message f; f.type = k ? TRAX_FRAME : TRAX_INITIALIZE; f.args.push_back("file:///x"); if (!k) f.args.push_back("1,2,3,4"); put(sock, encode(f)); } Got g = server_wait(h, false); if (closed ? g.code != TRAX_ERROR : g.code != (k ? TRAX_FRAME : TRAX_INITIALIZE)) _exit(11); R reg(rect(1, 2, 3, 4)); Props pr(gen_props(q)); trax_server_reply_sot(h, reg, pr); }
            else { IL il(im); OL ol(Objects{{rect(1, 2, 3, 4), Map()}}); Props pr(gen_props(q)); if (k == 0) trax_client_initialize(h, il, ol, pr); else trax_client_frame(h, il, NULL, pr); if (!closed) put(sock, "@@TRAX:state \"1,2,3,4\"\n"); Got g = client_wait(h); if (closed ? g.code != TRAX_ERROR : g.code != TRAX_STATE) _exit(12); }
        }
        trax_terminate(h, "x"); trax_cleanup(&h); _exit(0);
    }
    double t0 = now(); int st = 0; while (waitpid(p, &st, WNOHANG) == 0) { if (now() - t0 > 40) { kill(p, SIGKILL); waitpid(p, &st, 0); cx.fail("spinning", "the process does not notice that its peer is gone"); } usleep(500); }
    REQUIRE(cx, WIFEXITED(st) && WEXITSTATUS(st) == 0, "killed", "%s after the peer closed its socket at step %d: status %d (signal %d)", server ? "tracker" : "client", closes, WEXITSTATUS(st), WIFSIGNALED(st) ? WTERMSIG(st) : 0);
    cx.ev("sockets closed by the peer"); cx.state(mix(seed, closes * 4 + server * 2 + rst));
}

vh::Harness vh::make_harness(const std::string& mode) {
    Harness h; signal(SIGPIPE, SIG_IGN);
    if (mode == "P16") h.scenarios = {{"log and wire", 3, p16_session, false}, {"with and without log", 1, p16_same, false}, {"failing log", 1, p16_faults, false}};
    if (mode == "P17") h.scenarios = {{"partial", 4, p17_partial, false}, {"input", 6, p17_input, false}, {"output", 6, p17_output, false}};
    if (mode == "P17s") h.scenarios = {{"signals", 1, p17_signal, false}};
    return h;
}
