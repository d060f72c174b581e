// P01 end-to-end delivery, P02 interpretation of incoming bytes, P03 well-formed output
#include "sess.h"
#include <thread>
using namespace ref; using namespace vh;

static std::string gen_noise(Rng& r) { // ordinary program output: whole lines without the prefix
    std::string s; int n = r.below(4);
    for (int i = 0; i < n; i++) { std::string l = r.chance(50) ? gen_text(r, 120) : r.pick(std::vector<std::string>{"", "@", "@@", "@@TRAX", "@@TRAX;hello", "@@TRA:state \"1\"", " @@TRAX:quit ", "x@@TRAX:quit ", "@@@TRAX:quit ", "@@TRA@@TRAX:state \"0\" ", "loading model...", "@@trax:quit ", "@@TRAX @@TRAX:quit "});
        for (char& c : l) if (c == '\n' || !c) c = '.'; while (!l.compare(0, 7, PREFIX)) l[0] = 'x'; if (r.chance(6)) l.insert(r.below(l.size() + 1), r.range(1, 3), '\0'); s += l + "\n"; }
    return s;
}
static void segment(Rng& r) { io::Plan& p = io::plan(); p.reset(); p.active = true; p.rng = r.next(); p.short_percent = r.pick(std::vector<int>{0, 30, 100}); p.max_chunk = r.pick(std::vector<int>{1, 2, 7, 64, 1000}); p.eintr_percent = r.chance(30) ? 20 : 0; }
static void same_images(Ctx& cx, const Images& sent, const Got& g, const char* where) { REQUIRE(cx, g.images == sent, std::string("images-differ:") + where, "sent %s received %s", show_images(sent).c_str(), show_images(g.images).c_str()); cx.ev("images compared", sent.size()); }
static void same_props(Ctx& cx, const Map& sent, const Map& got, const char* where) { REQUIRE(cx, sent == got, std::string("properties-differ:") + where, "sent %s received %s", show_map(sent).c_str(), show_map(got).c_str()); cx.ev("properties compared", sent.size()); }

// One session between both sides of the library
static void p01_session(Ctx& cx) {
    Rng& r = cx.rng; Session s; int version = r.pick(std::vector<int>{1, 2, 3, 3, 4, 4, 0}); Meta m = gen_meta(r, version); bool tcp = r.chance(25); Crowd crowd(r.below(250) == 0); if (crowd.there) { tcp = r.chance(80); cx.ev("sessions with large descriptors"); }
    segment(r);
    s.open(tcp, m, version, trax_no_log, trax_no_log, gen_noise(r));
    REQUIRE(cx, s.c && s.s, "no-session", "the handshake failed (version %d)", version);
    bool multi = m.flags & TRAX_METADATA_MULTI_OBJECT; size_t alive = 0; int steps = r.chance(1) ? r.range(40, 300) : r.range(1, 6); if (steps > 6) cx.ev("long sessions");
    auto objects = [&](size_t n) { Objects v; for (size_t i = 0; i < n; i++) v.push_back({gen_region(r, m.regions), s.mot ? gen_props(r, 3) : Map()}); return v; };
    auto deliver = [&](Objects v) { for (auto& o : v) o.region = printed(o.region); return v; };
    for (int k = 0; k < steps; k++) {
        bool init = alive == 0 || alive > 16 || r.chance(steps > 6 ? 6 : 25); Images im = gen_images(r, m.channels, m.images); Map props = gen_props(r); Objects add;
        if (s.a) put(s.a->w, gen_noise(r));
        if (init) add = objects(multi ? r.range(1, 4) : 1); else if (multi && r.chance(30)) add = objects(r.range(1, 3));
        { IL l(im); Props p(props); OL o(add);
          int rc = init ? trax_client_initialize(s.c, l, o, p) : trax_client_frame(s.c, l, add.empty() ? NULL : o.l, p);
          REQUIRE(cx, rc == TRAX_OK, "send-refused", "client could not send: %s", trax_get_error(s.c) ? trax_get_error(s.c) : ""); }
        size_t before = alive; alive = init ? add.size() : alive + add.size();
        Got g = server_wait(s.s, s.mot);
        REQUIRE(cx, g.code == (init ? TRAX_INITIALIZE : TRAX_FRAME), "wrong-message", "server received %d instead of %d (step %d, %zu objects): %s", g.code, init ? TRAX_INITIALIZE : TRAX_FRAME, k, before, g.error.c_str());
        same_images(cx, im, g, "server"); same_props(cx, props, g.props, "server");
        Objects want = deliver(add);
        REQUIRE(cx, g.objects == want, "objects-differ:server", "sent %s received %s", show_objects(want).c_str(), show_objects(g.objects).c_str());
        cx.ev(init ? "initialize messages" : "frame messages"); for (auto& e : im) cx.state(e.second.shape() * 8 + e.first); for (auto& o : add) cx.state(o.region.shape() + 1000003);
        if (s.b) put(s.b->w, gen_noise(r));
        Objects state; for (size_t i = 0; i < alive; i++) state.push_back({gen_region(r, ALL_REGIONS), gen_props(r, 4)});
        if (s.mot) { OL o(state); REQUIRE(cx, trax_server_reply_mot(s.s, o) == TRAX_OK, "reply-refused", "%s", trax_get_error(s.s) ? trax_get_error(s.s) : ""); }
        else { R reg(state[0].region); Props p(state[0].props); REQUIRE(cx, trax_server_reply_sot(s.s, reg, p) == TRAX_OK, "reply-refused", "%s", trax_get_error(s.s) ? trax_get_error(s.s) : ""); }
        g = client_wait(s.c);
        REQUIRE(cx, g.code == TRAX_STATE, "wrong-message", "client received %d instead of a state: %s", g.code, g.error.c_str());
        want = deliver(state);
        REQUIRE(cx, g.objects == want, "objects-differ:client", "sent %s received %s", show_objects(want).c_str(), show_objects(g.objects).c_str());
        REQUIRE(cx, g.props.empty(), "properties-differ:client", "unexpected %s", show_map(g.props).c_str());
        cx.ev("state messages", state.size()); for (auto& o : state) cx.state(o.region.shape() + 2000003);
    }
    bool byclient = r.chance(50); bool reason = r.chance(70); std::string text = gen_text(r, 300); Map want; if (reason) want["trax.reason"] = text;
    if (byclient) { if (s.a) put(s.a->w, gen_noise(r)); trax_terminate(s.c, reason ? text.c_str() : NULL); Got g = server_wait(s.s, s.mot); REQUIRE(cx, g.code == TRAX_QUIT, "wrong-message", "server received %d instead of quit", g.code); same_props(cx, want, g.props, "quit"); }
    else if (alive) { if (s.b) put(s.b->w, gen_noise(r)); trax_terminate(s.s, reason ? text.c_str() : NULL); Got g = client_wait(s.c); REQUIRE(cx, g.code == TRAX_QUIT, "wrong-message", "client received %d instead of quit", g.code); same_props(cx, want, g.props, "quit"); }
    cx.ev("quit messages"); cx.ev(tcp ? "tcp sessions" : "pipe sessions"); cx.ev("short transfers", io::plan().shorts); cx.ev("interruptions", io::plan().eintrs);
    io::plan().reset();
    if (r.chance(2)) cx.sample(fmt("version %d %s, %d steps, %zu objects, channels %d, reason %s", version, tcp ? "tcp" : "pipe", steps, alive, m.channels, show(text, 40).c_str()));
}

// Both sides in their own threads over small pipes or TCP, a relay cuts and delays the stream, messages exceed every buffer
static void p01_threads(Ctx& cx) {
    Rng& r = cx.rng; int up[2][2], down[2][2]; // client -> relay -> server, server -> relay -> client
    auto mk = [](int* p) { if (pipe2(p, O_CLOEXEC)) abort(); fcntl(p[1], F_SETPIPE_SZ, 4096); };
    mk(up[0]); mk(up[1]); mk(down[0]); mk(down[1]);
    uint64_t seed = r.next(); int chunk = r.pick(std::vector<int>{37, 1000, 4095, 4096, 4097, 20000}); bool delay = r.chance(30);
    auto relay = [=](int in, int out) { Rng q(seed ^ in); std::vector<char> b(chunk); while (true) { ssize_t n = __real_read(in, b.data(), 1 + q.below(chunk)); if (n < 0 && errno == EINTR) continue; if (n <= 0) break; if (delay && q.chance(2)) usleep(q.below(300)); ssize_t i = 0; while (i < n) { ssize_t w = __real_write(out, b.data() + i, n - i); if (w < 0) { if (errno == EINTR) continue; break; } i += w; } if (i < n) break; } close(in); close(out); };
    std::thread t1(relay, up[0][0], up[1][1]), t2(relay, down[0][0], down[1][1]);
    int frames = r.range(1, 4); int w = r.range(50, cx.thorough ? 700 : 250), h = r.range(50, 250); Meta m; m.images = ALL_IMAGES; m.regions = GEOMETRY; m.channels = TRAX_CHANNEL_COLOR | TRAX_CHANNEL_DEPTH; m.flags = TRAX_METADATA_MULTI_OBJECT;
    std::vector<Images> im; std::vector<Objects> st; std::vector<Map> pr;
    for (int i = 0; i < frames; i++) { Images x; Image a; a.type = TRAX_IMAGE_MEMORY; a.format = TRAX_IMAGE_MEMORY_RGB; a.w = w; a.h = h; a.data = gen_bytes(r, (size_t) w * h * 3); x[TRAX_CHANNEL_COLOR] = a; Image d; d.type = TRAX_IMAGE_MEMORY; d.format = TRAX_IMAGE_MEMORY_GRAY16; d.w = h; d.h = w; d.data = gen_bytes(r, (size_t) w * h * 2); x[TRAX_CHANNEL_DEPTH] = d; im.push_back(x);
        Objects o; for (int k = 0; k < 3; k++) o.push_back({gen_region(r, ALL_REGIONS), gen_props(r, 3)}); o[0].props["big"] = gen_text(r, 200) + std::string(r.range(1, 100000), '"'); st.push_back(o); pr.push_back(gen_props(r)); }
    Objects start; for (int k = 0; k < 3; k++) start.push_back({gen_region(r, GEOMETRY), gen_props(r, 2)});
    std::string serr; // reported by the server thread
    int sin = up[1][0], sout = down[0][1];
    std::thread server([&] { trax_metadata* md = m.to_lib(); trax_handle* s = trax_server_setup_file_v(md, sin, sout, trax_no_log, 4); trax_metadata_release(&md);
        for (int i = 0; i < frames; i++) { Got g = server_wait(s, true); if (g.code != (i ? TRAX_FRAME : TRAX_INITIALIZE)) { serr = fmt("wrong message %d at frame %d: %s", g.code, i, g.error.c_str()); break; }
            if (!(g.images == im[i])) serr = "images differ"; if (g.props != pr[i]) serr = "properties differ";
            if (i == 0) { Objects want = start; for (auto& o : want) o.region = printed(o.region); if (!(g.objects == want)) serr = "objects differ"; }
            OL o(st[i]); if (trax_server_reply_mot(s, o) != TRAX_OK) serr = "reply refused"; }
        Got g = server_wait(s, true); if (serr.empty() && (g.code != TRAX_QUIT || g.props["trax.reason"] != "done")) serr = fmt("wrong message %d instead of quit", g.code);
        trax_cleanup(&s); close(sin); close(sout); });
    std::string cerr_; trax_handle* c = trax_client_setup_file(down[1][0], up[0][1], trax_no_log);
    if (!c) cerr_ = "handshake failed";
    for (int i = 0; i < frames && c; i++) { IL l(im[i]); Props p(pr[i]); OL o(start); int rc = i ? trax_client_frame(c, l, NULL, p) : trax_client_initialize(c, l, o, p); if (rc != TRAX_OK) { cerr_ = "send refused"; break; }
        Got g = client_wait(c); Objects want = st[i]; for (auto& o : want) o.region = printed(o.region); if (g.code != TRAX_STATE || !(g.objects == want)) { cerr_ = fmt("reply %d differs at frame %d", g.code, i); break; } cx.state(mix(w * 1000 + h, chunk)); }
    if (c) { trax_terminate(c, "done"); }
    close(up[0][1]); server.join(); if (c) trax_cleanup(&c); close(down[1][0]); t1.join(); t2.join();
    REQUIRE(cx, serr.empty() && cerr_.empty(), "threaded-session", "server: %s client: %s (chunk %d)", serr.c_str(), cerr_.c_str(), chunk);
    cx.ev("threaded sessions"); cx.ev("large frames", frames);
}

// ------------------------------------------------------------------------------------------- P02
static std::string style(Rng& r, const std::string& s, bool prop, const std::string& key) { // one of the written forms of an argument or a property
    bool quoted = (s.empty() && !prop) || r.chance(50); std::string o; if (quoted) o += '"'; if (prop) o += key + "=";
    for (char c : s) { if (c == '\n') o += "\\n"; else if (c == '\\' || c == '"' || (!quoted && c == ' ')) { if (c == '"' && !quoted && o.size() && r.chance(30)) o += c; else { o += '\\'; o += c; } } else if (c != 'n' && r.chance(3)) { o += '\\'; o += c; } else o += c; }
    if (quoted) o += '"'; return o;
}
static std::string styled(Rng& r, const Message& m) {
    std::string n = m.type == TRAX_STATE && r.chance(40) ? "status" : name_of(m.type); if (r.chance(10)) for (char& c : n) if (r.chance(50) && islower((unsigned char) c)) c -= 32;
    std::vector<std::string> parts; for (auto& a : m.args) parts.push_back(style(r, a, false, "")); size_t at = 0;
    for (auto& e : m.props) { std::string p = style(r, e.second, true, e.first); at = r.chance(20) ? r.below(parts.size() + 1) : parts.size(); parts.insert(parts.begin() + at, p); }
    if (m.props.size() && r.chance(10)) { auto& e = *m.props.begin(); parts.insert(parts.begin(), style(r, gen_text(r, 20), true, e.first)); } // repeated key, the last counts
    std::string l = PREFIX + n; for (auto& p : parts) l += std::string(1 + (r.chance(10) ? r.below(3) : 0), ' ') + p; if (r.chance(50)) l += std::string(r.below(3), ' ');
    return l + "\n";
}
static void mutate(Rng& r, std::string& l) { // keeps the end of line unless it is the target
    int n = 1 + r.below(3);
    for (int i = 0; i < n && l.size() > 1; i++) { size_t p = r.below(l.size()); switch (r.below(6)) {
        case 0: l.erase(p, 1); break; case 1: l.insert(p, 1, "\"\\ =\n@:n,"[r.below(9)]); break; case 2: l[p] = "\"\\ =\n@:nx"[r.below(9)]; break; case 3: l.insert(p, 1, (char) r.range(128, 255)); break;
        case 4: l.insert(p, "@@TRAX:"); break; case 5: { size_t q = l.rfind('"', p); if (q != std::string::npos) l.erase(q, 1); break; } } }
    for (char& c : l) if (c == '\r' || !c) c = '.';
}
static std::string arg(Rng& r) { std::string s = r.chance(30) ? r.pick(std::vector<std::string>{"a=b", "=x", "=", "a b=c", "x.y_z=1", "", "a-b=c==", "\"", "a\"b", "@@TRAX:quit", std::string(65, 'k') + "=v", std::string(64, 'k') + "=v", "data;=="}) : gen_text(r, 60); for (char& c : s) if (c == ':' || c == '\r') c = '_'; return s; }
// what image_decode makes of an argument of which only the path forms are used here
static bool path_of(const std::string& a, std::string& out) { if (!a.compare(0, 7, "file://")) { out = a.substr(7); return true; } for (size_t i = 0; i < a.size() && i < 20; i++) if (a[i] == ':') return false; out = a; return true; }

// A raw client talks to a server of the library: frame, initialize and quit messages
static std::string gen_stream(Ctx& cx, bool server, int nargs) {
    Rng& r = cx.rng; std::string s; int n = r.range(1, 8);
    for (int i = 0; i < n; i++) {
        if (r.chance(20)) { s += gen_noise(r); continue; }
        Message m; int roll = r.below(100);
        if (server) { m.type = roll < 55 ? TRAX_FRAME : roll < 75 ? TRAX_INITIALIZE : roll < 80 ? TRAX_QUIT : roll < 84 ? TRAX_HELLO : roll < 88 ? TRAX_STATE : TRAX_FRAME; }
        else m.type = roll < 85 ? TRAX_STATE : roll < 90 ? TRAX_QUIT : roll < 94 ? TRAX_FRAME : roll < 97 ? TRAX_HELLO : TRAX_INITIALIZE;
        if (server && (m.type == TRAX_FRAME || m.type == TRAX_INITIALIZE)) { for (int k = 0; k < nargs; k++) m.args.push_back((r.chance(70) ? "file://" : "") + arg(r)); if (m.type == TRAX_INITIALIZE) m.args.push_back(text(gen_region(r, GEOMETRY))); }
        if (m.type == TRAX_STATE) m.args.push_back(text(gen_region(r, ALL_REGIONS)));
        if (r.chance(5)) m.args.push_back(arg(r)); m.props = gen_props(r, 5, 60);
        for (auto& e : m.props) for (char& c : e.second) if (c == '\r') c = '.';
        std::string l = styled(r, m);
        if (r.chance(30)) mutate(r, l);
        if (r.chance(4)) l = PREFIX + r.pick(std::vector<std::string>{"hel", "frames", "", "init", "quit!", "state\"", "5", "frame\t"}) + " \"x\" \"a=b\"\n";
        s += l;
    }
    if (r.chance(20) && s.size() > 1) s.resize(s.size() - 1 - r.below(std::min<size_t>(s.size() - 1, 60))); // the end of the stream cuts a message off
    return s;
}
static void p02_server(Ctx& cx) {
    Rng& r = cx.rng; Pipe in, out; Meta m; m.images = TRAX_IMAGE_PATH; m.regions = GEOMETRY; m.channels = r.pick(std::vector<int>{1, 3, 7}); int nargs = channels_of(m.channels).size();
    trax_metadata* md = m.to_lib(); trax_handle* s = trax_server_setup_file_v(md, in.r, out.w, trax_no_log, 3); trax_metadata_release(&md);
    struct G { trax_handle*& h; ~G() { trax_cleanup(&h); } } guard{s};
    Message first; first.type = TRAX_INITIALIZE; for (int i = 0; i < nargs; i++) first.args.push_back("file:///x"); first.args.push_back("1,2,3,4");
    std::string stream = encode(first) + gen_stream(cx, true, nargs);
    put(in.w, stream); in.close_w(); segment(r);
    std::vector<Message> want = parse_stream(stream); cx.log("stream: %s", show(stream, 5000).c_str());
    bool over = false; size_t i = 0;
    for (; i <= want.size() + 1; i++) {
        Got g = server_wait(s, false);
        if (over || i >= want.size()) { REQUIRE(cx, g.code == TRAX_ERROR, "reported-too-much", "message %d (%s %s) reported after the end, stream %s", g.code, show_images(g.images).c_str(), show_map(g.props).c_str(), show(stream, 1500).c_str()); continue; }
        const Message& w = want[i]; int code = TRAX_ERROR; Images im; Region reg; bool judge = true;
        auto images = [&]() { int k = 0; for (int c : channels_of(m.channels)) { Image x; x.type = TRAX_IMAGE_PATH; if (!path_of(w.args[k++], x.data)) judge = false; im[c] = x; } };
        if (w.type == TRAX_FRAME && (int) w.args.size() == nargs) { images(); code = TRAX_FRAME; }
        if (w.type == TRAX_QUIT && w.args.empty()) { code = TRAX_QUIT; over = true; }
        if (w.type == TRAX_INITIALIZE && (int) w.args.size() == nargs + 1) { images(); trax_region* p = trax_region_decode(w.args[nargs].c_str()); if (p) { code = TRAX_INITIALIZE; reg = from_lib(p); trax_region_release(&p); } }
        if (!judge) { cx.ev("images of other kinds (content not judged)"); if (g.code == TRAX_ERROR) continue; }
        REQUIRE(cx, g.code == code, "wrong-message", "message %zu: got %d (%s) instead of %d for %s, stream %s", i, g.code, g.error.c_str(), code, w.str().c_str(), show(stream, 1500).c_str());
        if (code != TRAX_ERROR) { REQUIRE(cx, g.props == w.props, "properties-differ", "got %s instead of %s, stream %s", show_map(g.props).c_str(), show_map(w.props).c_str(), show(stream, 1500).c_str());
            if (judge) REQUIRE(cx, g.images == im, "arguments-differ", "got %s instead of %s, stream %s", show_images(g.images).c_str(), show_images(im).c_str(), show(stream, 1500).c_str());
            if (code == TRAX_INITIALIZE) REQUIRE(cx, g.region == reg, "arguments-differ", "got %s instead of %s", g.region.str().c_str(), reg.str().c_str()); }
        else REQUIRE(cx, g.props.empty() && !g.has_images && !g.has_objects, "error-with-content", "an error delivered %s", show_map(g.props).c_str());
        cx.ev(code == TRAX_ERROR ? "refused messages" : "accepted messages"); cx.state(mix(mix(w.type, w.args.size()), mix(w.props.size(), code + 10)));
    }
    cx.state(hash_of(stream)); cx.ev("lines", std::count(stream.begin(), stream.end(), '\n')); cx.ev("server streams"); io::plan().reset();
    if (r.chance(1)) cx.sample(show(stream, 200));
}
static void p02_client(Ctx& cx) {
    Rng& r = cx.rng; bool tcp = r.chance(20); Pipe in, out; Listener* l = NULL; int sock = -1; trax_handle* c = NULL;
    struct G { trax_handle*& h; Listener*& l; int& s; ~G() { if (h) trax_cleanup(&h); if (s >= 0) close(s); delete l; } } guard{c, l, sock};
    // the introduction may already be disguised
    Message hello; hello.type = TRAX_HELLO; hello.props = gen_props(r, 4, 60); for (auto& e : hello.props) for (char& ch : e.second) if (ch == '\r') ch = '.';
    hello.props["trax.version"] = "3"; hello.props["trax.region"] = "rectangle;polygon;mask;"; hello.props["trax.image"] = "path;"; Map custom; for (auto& e : hello.props) if (e.first.compare(0, 5, "trax.")) custom[e.first] = e.second;
    std::string hs = styled(r, hello); bool broken = r.chance(15); if (broken) mutate(r, hs); std::string intro = gen_noise(r) + hs; std::string stream = gen_stream(cx, false, 0);
    std::string all = intro + stream; auto want = parse_stream(all); cx.log("stream: %s", show(all, 5000).c_str());
    if (tcp) { l = new Listener; sock = tcp_connect(l->port); put(sock, all); shutdown(sock, SHUT_WR); segment(r); c = trax_client_setup_socket(l->fd, 5, trax_no_log); }
    else { put(in.w, all); in.close_w(); segment(r); c = trax_client_setup_file(in.r, out.w, trax_no_log); }
    Meta dm; int dv; bool accept = want.size() && decode_hello(want[0], dm, dv);
    REQUIRE(cx, (c != NULL) == accept, "handshake", "the handshake %s for %s", c ? "succeeded" : "failed", show(all, 1500).c_str());
    cx.ev(accept ? "accepted handshakes" : "refused handshakes");
    if (!c) { io::plan().reset(); cx.state(hash_of(intro)); return; }
    custom.clear(); for (auto& e : want[0].props) if (e.first.compare(0, 5, "trax.")) custom[e.first] = e.second;
    REQUIRE(cx, to_map(c->metadata->custom) == custom, "properties-differ:hello", "got %s instead of %s for %s", show_map(to_map(c->metadata->custom)).c_str(), show_map(custom).c_str(), show(intro, 1000).c_str());
    // the introduction may be broken so that other requirements than those above are declared
    Images im; for (int ch : channels_of(c->metadata->channels)) { Image x; x.type = TRAX_IMAGE_PATH; x.data = "/x"; im[ch] = x; }
    if (c->metadata->format_region & (TRAX_REGION_RECTANGLE | TRAX_REGION_POLYGON | TRAX_REGION_MASK)) { io::plan().active = false; IL il(im); OL ol(Objects{{rect(1, 2, 3, 4), Map()}}); Props p; trax_client_initialize(c, il, ol, p); io::plan().active = true; }
    else { cx.ev("handshakes without region formats"); io::plan().reset(); return; }
    bool over = false;
    for (size_t i = 1; i <= want.size() + 1; i++) {
        Got g = client_wait(c);
        if (over || i >= want.size()) { REQUIRE(cx, g.code == TRAX_ERROR, "reported-too-much", "message %d reported after the end, stream %s", g.code, show(all, 1500).c_str()); continue; }
        const Message& w = want[i]; int code = TRAX_ERROR; Region reg; Map none;
        if (w.type == TRAX_QUIT && w.args.empty()) { code = TRAX_QUIT; over = true; }
        if (w.type == TRAX_STATE && w.args.size() == 1) { trax_region* p = trax_region_decode(w.args[0].c_str()); if (p) { code = TRAX_STATE; reg = from_lib(p); trax_region_release(&p); } }
        REQUIRE(cx, g.code == code, "wrong-message", "message %zu: got %d (%s) instead of %d for %s, stream %s", i, g.code, g.error.c_str(), code, w.str().c_str(), show(all, 1500).c_str());
        if (code == TRAX_STATE) { Objects o{{reg, w.props}}; REQUIRE(cx, g.objects == o, "arguments-differ", "got %s instead of %s, stream %s", show_objects(g.objects).c_str(), show_objects(o).c_str(), show(all, 1500).c_str()); }
        if (code == TRAX_QUIT) REQUIRE(cx, g.props == w.props, "properties-differ", "got %s instead of %s", show_map(g.props).c_str(), show_map(w.props).c_str());
        cx.ev(code == TRAX_ERROR ? "refused messages" : "accepted messages"); cx.state(mix(mix(w.type + 100, w.args.size()), mix(w.props.size(), code + 10)));
    }
    cx.state(hash_of(all)); cx.ev("lines", std::count(all.begin(), all.end(), '\n')); cx.ev(tcp ? "client tcp streams" : "client streams"); io::plan().reset();
}

// ------------------------------------------------------------------------------------------- P03
static std::string norm(const std::string& u) { for (const char* p : {"data:image/png;base64;", "data:image/jpeg;base64;"}) { std::string s = p; if (!u.compare(0, s.size(), s)) return s.substr(0, s.size() - 7) + u.substr(s.size()); } return u; }
static void expect(Ctx& cx, const std::string& bytes, const std::vector<Message>& want, const char* what) {
    std::vector<Message> got; std::string e = check_output(bytes, got);
    REQUIRE(cx, e.empty(), std::string("malformed-output:") + what, "%s", e.c_str());
    REQUIRE(cx, got.size() == want.size(), std::string("message-count:") + what, "%zu messages were written instead of %zu: %s", got.size(), want.size(), show(bytes, 1500).c_str());
    for (size_t i = 0; i < got.size(); i++) { Message g = got[i]; for (auto& a : g.args) a = norm(a);
        bool same = g.type == want[i].type && g.props == want[i].props && g.args.size() == want[i].args.size();
        for (size_t k = 0; same && k < g.args.size(); k++) if (g.args[k] != want[i].args[k]) { R a(trax_region_decode(g.args[k].c_str())), b(trax_region_decode(want[i].args[k].c_str())); if (!a.p || !b.p || !(from_lib(a) == from_lib(b)) || k + 1 != g.args.size()) same = false; }
        REQUIRE(cx, same, std::string("message-differs:") + what, "wrote %s instead of %s", g.str().c_str(), want[i].str().c_str());
        cx.ev("messages checked"); cx.ev("arguments checked", g.args.size() + g.props.size()); cx.state(mix(mix(g.type, g.args.size()), mix(g.props.size(), hash_of(bytes)))); }
}
// keys which are not valid must not reach the wire, whatever they contain
static Map hostile(Rng& r, Props& p) { Map m; int n = r.below(5); for (int i = 0; i < n; i++) { std::string k = r.chance(70) ? gen_key(r) : r.pick(std::vector<std::string>{"", "a b", "a\"b", "a=b", "a\nb", "k\\", "\n@@TRAX:quit ", std::string(65, 'a'), std::string(200, 'b'), "\xc3\xa4", "a-b", "a:b"}); std::string v = gen_text(r); trax_properties_set(p, k.c_str(), v.c_str()); if (valid_key(k)) m[k] = v; } return m; }
static void p03_client(Ctx& cx) {
    Rng& r = cx.rng; Pipe in, out; int version = r.range(1, 4); Meta m = gen_meta(r, version); bool multi = m.flags & TRAX_METADATA_MULTI_OBJECT;
    // a raw tracker: its introduction is written by the reference
    Message hello; hello.type = TRAX_HELLO; hello.props["trax.version"] = fmt("%d", version); std::string rf, imf, chf;
    if (m.regions & TRAX_REGION_RECTANGLE) rf += "rectangle;"; if (m.regions & TRAX_REGION_POLYGON) rf += "polygon;"; if (m.regions & TRAX_REGION_MASK) rf += "mask;";
    if (m.images & TRAX_IMAGE_PATH) imf += "path;"; if (m.images & TRAX_IMAGE_URL) imf += "url;"; if (m.images & TRAX_IMAGE_MEMORY) imf += "memory;"; if (m.images & TRAX_IMAGE_BUFFER) imf += "buffer;";
    if (m.channels & TRAX_CHANNEL_COLOR) chf += "color;"; if (m.channels & TRAX_CHANNEL_DEPTH) chf += "depth;"; if (m.channels & TRAX_CHANNEL_IR) chf += "ir;";
    hello.props["trax.region"] = rf; hello.props["trax.image"] = imf; hello.props["trax.channels"] = chf; if (multi) hello.props["trax.multiobject"] = "1";
    put(in.w, encode(hello)); segment(r); trax_handle* c = trax_client_setup_file(in.r, out.w, trax_no_log); REQUIRE(cx, c, "no-session", "handshake failed: %s", show(encode(hello)).c_str());
    struct G { trax_handle*& h; ~G() { if (h) trax_cleanup(&h); } } guard{c};
    expect(cx, drain(out.r), {}, "handshake"); size_t alive = 0; int steps = r.range(1, 5);
    for (int k = 0; k < steps; k++) {
        bool init = !alive || r.chance(30); size_t n = init ? (multi ? r.range(1, 3) : 1) : (multi && r.chance(40) ? r.range(1, 2) : 0); std::vector<Message> want; Images im = gen_images(r, m.channels, m.images);
        OL ol(trax_object_list_create(n)); std::vector<Message> objs;
        for (size_t i = 0; i < n; i++) { Region g = gen_region(r, m.regions); R reg(g); trax_object_list_set(ol, i, reg); Props op; Map om; if (version >= 4) { om = hostile(r, op); trax_properties_append(op, trax_object_list_properties(ol, i), 1); } Message x; x.type = TRAX_INITIALIZE; x.args.push_back(text(g)); x.props = om; objs.push_back(x); }
        Props p; Map pm = hostile(r, p); Message f; f.type = TRAX_FRAME; f.props = pm; for (auto& e : im) f.args.push_back(uri(e.second)); IL il(im); int rc;
        if (version >= 4) { if (init && alive) { Message x; x.type = TRAX_INITIALIZE; want.push_back(x); } for (auto& x : objs) want.push_back(x); want.push_back(f); }
        else { if (init) { f.type = TRAX_INITIALIZE; f.args.push_back(objs[0].args[0]); } want.push_back(f); }
        rc = init ? trax_client_initialize(c, il, ol, p) : trax_client_frame(c, il, n ? ol.l : NULL, p);
        REQUIRE(cx, rc == TRAX_OK, "send-refused", "%s", trax_get_error(c) ? trax_get_error(c) : "");
        alive = init ? n : alive + n; expect(cx, drain(out.r), want, init ? "initialize" : "frame");
    }
    bool reason = r.chance(70); std::string t = gen_text(r); Message q; q.type = TRAX_QUIT; if (reason) q.props["trax.reason"] = t; trax_terminate(c, reason ? t.c_str() : NULL); expect(cx, drain(out.r), {q}, "quit");
    trax_terminate(c, "again"); trax_cleanup(&c); expect(cx, drain(out.r), {}, "after quit"); cx.ev("client sessions"); io::plan().reset();
}
static void p03_server(Ctx& cx) {
    Rng& r = cx.rng; Pipe in, out; int version = r.range(1, 4); Meta m = gen_meta(r, version); m.custom.clear(); trax_metadata* md = m.to_lib(); Props hp; m.custom = hostile(r, hp); trax_properties_append(hp, md->custom, 1); segment(r);
    trax_handle* s = trax_server_setup_file_v(md, in.r, out.w, trax_no_log, version); trax_metadata_release(&md); struct G { trax_handle*& h; ~G() { if (h) trax_cleanup(&h); } } guard{s};
    std::string bytes = drain(out.r); std::vector<Message> got; std::string e = check_output(bytes, got); REQUIRE(cx, e.empty() && got.size() == 1 && got[0].type == TRAX_HELLO && got[0].args.empty(), "malformed-output:hello", "%s: %s", e.c_str(), show(bytes, 1500).c_str());
    Map custom, known; for (auto& x : got[0].props) (x.first.compare(0, 5, "trax.") ? custom : known)[x.first] = x.second;
    REQUIRE(cx, custom == m.custom, "message-differs:hello", "wrote %s instead of %s", show_map(custom).c_str(), show_map(m.custom).c_str());
    REQUIRE(cx, known["trax.version"] == fmt("%d", version) && (!m.hname || known["trax.name"] == m.name) && (!m.hdesc || known["trax.description"] == m.desc) && (!m.hfam || known["trax.family"] == m.fam), "message-differs:hello", "declarations differ: %s", show_map(known).c_str());
    int nargs = channels_of(m.channels).size(); int steps = r.range(1, 4); size_t alive = 0; Images im; for (int c : channels_of(m.channels)) im[c] = gen_image(r, m.images);
    for (int k = 0; k < steps; k++) {
        Message f; f.type = TRAX_FRAME; for (auto& x : im) f.args.push_back(uri(x.second));
        if (version >= 4) { int n = !alive ? ((m.flags & TRAX_METADATA_MULTI_OBJECT) ? r.range(1, 3) : 1) : 0; for (int i = 0; i < n; i++) { Message x; x.type = TRAX_INITIALIZE; x.args.push_back("1,2,3,4"); put(in.w, encode(x)); } alive += n; }
        else if (!alive) { f.type = TRAX_INITIALIZE; f.args.push_back("1,2,3,4"); alive = 1; }
        put(in.w, encode(f)); Got g = server_wait(s, version >= 4); REQUIRE(cx, g.code == TRAX_FRAME || g.code == TRAX_INITIALIZE, "wrong-message", "%d %s (%d channels)", g.code, g.error.c_str(), nargs);
        std::vector<Message> want; OL ol(trax_object_list_create(alive)); for (size_t i = 0; i < alive; i++) { Region reg = gen_region(r, ALL_REGIONS); Message x; x.type = TRAX_STATE; x.args.push_back(text(reg)); R lr(reg); Props p; x.props = hostile(r, p); trax_properties_append(p, trax_object_list_properties(ol, i), 1); trax_object_list_set(ol, i, lr);
            if (version < 4) REQUIRE(cx, trax_server_reply_sot(s, lr, p) == TRAX_OK, "reply-refused", "%s", trax_get_error(s) ? trax_get_error(s) : ""); want.push_back(x); }
        if (version >= 4) REQUIRE(cx, trax_server_reply_mot(s, ol) == TRAX_OK, "reply-refused", "%s", trax_get_error(s) ? trax_get_error(s) : "");
        expect(cx, drain(out.r), want, "state");
    }
    Message q; q.type = TRAX_QUIT; bool reason = r.chance(60); std::string t = gen_text(r); if (reason) q.props["trax.reason"] = t;
    if (r.chance(70)) { trax_terminate(s, reason ? t.c_str() : NULL); expect(cx, drain(out.r), {q}, "quit"); trax_cleanup(&s); expect(cx, drain(out.r), {}, "after quit"); }
    else { trax_cleanup(&s); q.props.clear(); expect(cx, drain(out.r), {q}, "cleanup"); }
    cx.ev("server sessions"); io::plan().reset();
}

vh::Harness vh::make_harness(const std::string& mode) {
    Harness h; signal(SIGPIPE, SIG_IGN);
    if (mode == "P01") h.scenarios = {{"session", 24, p01_session, false}, {"threads", 1, p01_threads, false}};
    if (mode == "P02") h.scenarios = {{"server", 1, p02_server, false}, {"client", 1, p02_client, false}};
    if (mode == "P15w") h.scenarios = {{"server streams", 1, p02_server, true}, {"client streams", 1, p02_client, true}};
    if (mode == "P03") h.scenarios = {{"client", 1, p03_client, false}, {"server", 1, p03_server, false}};
    return h;
}
