// P04 protocol order and misuse, P05 handshake, P06 multi-object sessions, P15 memory and descriptors
#include "sess.h"
#include <atomic>
#include <thread>
#include <deque>
#include <thread>
using namespace ref; using namespace vh;

static bool region_equal(const std::string& a, const std::string& b) { R x(trax_region_decode(a.c_str())), y(trax_region_decode(b.c_str())); return x.p && y.p && from_lib(x) == from_lib(y); }
static std::string norm(const std::string& u) { for (const char* p : {"data:image/png;base64;", "data:image/jpeg;base64;"}) { std::string s = p; if (!u.compare(0, s.size(), s)) return s.substr(0, s.size() - 7) + u.substr(s.size()); } return u; }
static bool same(const Message& a, const Message& b) {
    if (a.type != b.type || a.props != b.props || a.args.size() != b.args.size()) return false;
    for (size_t i = 0; i < a.args.size(); i++) if (norm(a.args[i]) != norm(b.args[i]) && !(i + 1 == a.args.size() && region_equal(a.args[i], b.args[i]))) return false;
    return true;
}
static std::string show(const std::vector<Message>& v) { std::string s; for (auto& m : v) s += m.str() + "; "; return s; }
static std::string junk(Rng& r) { // lines that contribute nothing
    return r.pick(std::vector<std::string>{"noise\n", "\n", "@@TRAX:unknown \"x\"\n", "@@TRAX:state \"1\n", "@@TRAX:quit \"x\"y\n", "@@TRAX:frame \"a\\\n", " @@TRAX:quit \n", "@@TRAX:sta\n", "@@TRAX:quit\t\n"});
}
// what one history did, for coverage: the sequence of steps as a hash
struct Trace { Ctx& cx; uint64_t h = 7; std::string text; void add(const std::string& s) { h = mix(h, hash_of(s)); if (text.size() < 3000) text += s + " "; cx.state(h); } };

// One handle of the library and the rules of its side
struct Side {
    Ctx& cx; Rng& r; bool server; int version; Meta m; Pipe in, out; trax_handle* h = NULL; Trace tr;
    bool multi, v4, dead = false, closed = false; int objects = 0; std::deque<Message> queue; bool sent_quit = false;
    std::vector<int> channels;
    Side(Ctx& cx, bool server, int version, const Meta& m) : cx(cx), r(cx.rng), server(server), version(version), m(m), tr{cx} { multi = m.flags & TRAX_METADATA_MULTI_OBJECT; v4 = version >= 4; channels = channels_of(m.channels); }
    ~Side() { io::plan().reset(); if (h) trax_cleanup(&h); }

    void push(const Message& x) { put(in.w, encode(x)); queue.push_back(x); }
    // verifies everything that can be observed after a call
    void after(const char* call, int rc, int want, const std::vector<Message>& output, bool errors = true) {
        std::vector<Message> got; std::string raw = drain(out.r), e = check_output(raw, got);
        tr.add(fmt("%s=%d", call, rc)); cx.ev(want == TRAX_ERROR ? "refused calls and messages" : "accepted calls and messages");
        REQUIRE(cx, rc == want, fmt("outcome:%s", call), "%s returned %d instead of %d (error %s), history: %s", call, rc, want, trax_get_error(h) ? trax_get_error(h) : "none", tr.text.c_str());
        bool eq = e.empty() && got.size() == output.size(); for (size_t i = 0; eq && i < got.size(); i++) eq = same(got[i], output[i]);
        REQUIRE(cx, eq, fmt("output:%s", call), "%s wrote [%s] %s instead of [%s], history: %s", call, show(got).c_str(), e.c_str(), show(output).c_str(), tr.text.c_str());
        for (auto& x : got) if (x.type == TRAX_QUIT) { REQUIRE(cx, !sent_quit, "second-quit", "quit was sent twice, history: %s", tr.text.c_str()); sent_quit = true; }
        REQUIRE(cx, !!trax_is_alive(h) == !dead, fmt("alive:%s", call), "alive %d after %s, history: %s", trax_is_alive(h), call, tr.text.c_str());
        if (errors) { const char* t = trax_get_error(h); if (want == TRAX_ERROR) REQUIRE(cx, t && *t, fmt("no-error-text:%s", call), "no error text after %s failed, history: %s", call, tr.text.c_str()); else REQUIRE(cx, !t, fmt("stale-error-text:%s", call), "error text \"%s\" after %s succeeded, history: %s", t, call, tr.text.c_str()); }
    }
    void parameters() {
        struct { int id, value; } all[] = {{TRAX_PARAMETER_VERSION, version}, {TRAX_PARAMETER_CLIENT, !server}, {TRAX_PARAMETER_SOCKET, 0}, {TRAX_PARAMETER_MULTIOBJECT, multi}};
        for (auto& p : all) { int v = -77, rc = trax_get_parameter(h, p.id, &v); REQUIRE(cx, dead ? rc == TRAX_ERROR : rc == 1 && v == p.value, "parameter", "parameter %d: %d, value %d instead of %d, history: %s", p.id, rc, v, p.value, tr.text.c_str()); }
        int v = -77; REQUIRE(cx, trax_get_parameter(h, 99, &v) == (dead ? TRAX_ERROR : 0) && v == -77, "parameter", "unknown parameter was accepted");
        REQUIRE(cx, trax_set_parameter(h, r.range(0, 6), 1) == (dead ? TRAX_ERROR : 0), "parameter", "set_parameter, dead %d", dead);
        after("parameter", 0, 0, {}, false);
    }
    void terminate() {
        bool reason = r.chance(50); std::string t = gen_text(r, 40); std::vector<Message> want; if (!dead) { Message q; q.type = TRAX_QUIT; if (reason) q.props["trax.reason"] = t; want.push_back(q); }
        dead = true; int rc = trax_terminate(h, reason ? t.c_str() : NULL); after("terminate", rc, TRAX_OK, want);
    }
    void cleanup() { std::vector<Message> want, got; if (!dead) { Message q; q.type = TRAX_QUIT; want.push_back(q); } trax_cleanup(&h); std::string e = check_output(drain(out.r), got);
        REQUIRE(cx, h == NULL && e.empty() && got == want, "output:cleanup", "cleanup wrote [%s] instead of [%s], history: %s", show(got).c_str(), show(want).c_str(), tr.text.c_str()); }
    void close_peer() { if (!closed) { if (r.chance(30)) put(in.w, encode(queue.empty() ? Message{TRAX_QUIT, {}, Map()} : queue.back()).substr(0, 9)); in.close_w(); closed = true; tr.add("peer-closed"); } }
    Images images(bool complete = true) { Images im = gen_images(r, m.channels, m.images); if (!complete) im.erase(r.pick(channels)); return im; }
};

static Message hello_of(const Meta& m, int version) {
    Message h; h.type = TRAX_HELLO; h.props["trax.version"] = fmt("%d", version); std::string rf, imf, chf;
    if (m.regions & TRAX_REGION_RECTANGLE) rf += "rectangle;"; if (m.regions & TRAX_REGION_POLYGON) rf += "polygon;"; if (m.regions & TRAX_REGION_MASK) rf += "mask;";
    if (m.images & TRAX_IMAGE_PATH) imf += "path;"; if (m.images & TRAX_IMAGE_URL) imf += "url;"; if (m.images & TRAX_IMAGE_MEMORY) imf += "memory;"; if (m.images & TRAX_IMAGE_BUFFER) imf += "buffer;";
    if (m.channels & TRAX_CHANNEL_COLOR) chf += "color;"; if (m.channels & TRAX_CHANNEL_DEPTH) chf += "depth;"; if (m.channels & TRAX_CHANNEL_IR) chf += "ir;";
    h.props["trax.region"] = rf; h.props["trax.image"] = imf; h.props["trax.channels"] = chf; if (m.flags & TRAX_METADATA_MULTI_OBJECT) h.props["trax.multiobject"] = "1"; return h;
}

// ------------------------------------------------------------------------------------------- a client of the library and a raw tracker
static void client_history(Ctx& cx, bool mot) {
    Rng& r = cx.rng; int version = mot ? 4 : r.range(1, 4); Meta m = gen_meta(r, version, false); if (mot) m.flags = r.chance(85) ? TRAX_METADATA_MULTI_OBJECT : 0;
    Side s(cx, false, version, m); put(s.in.w, encode(hello_of(m, version)));
    s.h = trax_client_setup_file(s.in.r, s.out.w, trax_no_log); REQUIRE(cx, s.h, "no-session", "the handshake failed"); s.after("handshake", 0, 0, {});
    s.tr.add(fmt("client v%d multi%d", version, s.multi));
    auto random_message = [&](int i) { // from the tracker
        Message x; int k = r.below(100); x.props = gen_props(r, 3, 40); (void) i;
        if (k < 78) { x.type = TRAX_STATE; x.args.push_back(text(gen_region(r, ALL_REGIONS))); }
        else if (k < 82) { x.type = TRAX_STATE; x.args.push_back(r.pick(std::vector<std::string>{"", "abc", "1,2", "1,2,3", "mask:0,0,2", "1,2,3,4,5", "1,2,x,4", "mask:1,1,-1,4"})); }
        else if (k < 85) { x.type = TRAX_STATE; if (r.chance(50)) { x.args.push_back("1,2,3,4"); x.args.push_back("5"); } }
        else if (k < 91) x.type = TRAX_QUIT;
        else if (k < 94) { x.type = TRAX_QUIT; x.args.push_back("x"); }
        else if (k < 96) { x.type = TRAX_HELLO; x.props["trax.version"] = "4"; }
        else if (k < 98) { x.type = TRAX_FRAME; x.args.push_back("file:///x"); }
        else { x.type = TRAX_INITIALIZE; x.args.push_back("1,2,3,4"); }
        return x;
    };
    auto objects = [&](int n) { Objects v; for (int i = 0; i < n; i++) { Region g = gen_region(r, r.chance(80) ? m.regions : GEOMETRY); if (!(m.regions & g.type)) { auto small = [](float& f) { f = fmodf(f, 300); }; for (float& f : g.r) small(f); for (float& f : g.px) small(f); for (float& f : g.py) small(f); g.r[2] = fabsf(g.r[2]) + 1; g.r[3] = fabsf(g.r[3]) + 1; } /* the library converts it */ v.push_back({g, gen_props(r, 3, 60)}); } return v; };
    auto initialize = [&](const Object& o, bool v4props) { Message x; x.type = TRAX_INITIALIZE; if (m.regions & o.region.type) x.args.push_back(text(o.region)); else { R reg(o.region); int to = m.regions & TRAX_REGION_MASK ? TRAX_REGION_MASK : m.regions & TRAX_REGION_POLYGON ? TRAX_REGION_POLYGON : TRAX_REGION_RECTANGLE; R c(trax_region_convert(reg, to)); x.args.push_back(c.p ? text(from_lib(c)) : ""); } if (v4props) x.props = o.props; return x; };
    int steps = r.chance(1) ? r.range(60, 200) : r.range(1, cx.thorough ? 30 : 14);
    for (int k = 0; k < steps; k++) {
        if (!s.closed && r.chance(10)) put(s.in.w, junk(r));
        if (!s.closed && r.chance(20)) { s.push(random_message(0)); s.tr.add("push"); }
        int op = r.below(100);
        if (op < 45) { // send a request
            bool init = s.objects == 0 ? r.chance(80) : r.chance(25); bool complete = !r.chance(8); Images im = s.images(complete); int n = init ? (r.chance(70) ? 1 : r.range(0, 4)) : (r.chance(75) ? 0 : r.range(1, 3)); Objects v = objects(n);
            int bad = n && r.chance(5) ? (int) r.below(n) : -1; Map pm = gen_props(r, 3, 60); std::vector<Message> want; int code = TRAX_OK;
            IL il(im); OL ol(v); Props p(pm); if (bad >= 0) { R sp(special(1)); trax_object_list_set(ol, bad, r.chance(50) ? sp.p : NULL); }
            if (s.dead || !complete || bad >= 0) code = TRAX_ERROR;
            if (init) { if (n < 1 || (n > 1 && !s.multi)) code = TRAX_ERROR; }
            else if (s.v4) { if ((s.objects + n > 1 && !s.multi) || s.objects + n < 1) code = TRAX_ERROR; }
            else if (n > 0 || s.objects < 1) code = TRAX_ERROR;
            if (code == TRAX_OK) {
                Message f; f.type = TRAX_FRAME; f.props = pm; for (auto& e : im) f.args.push_back(uri(e.second));
                if (s.v4) { if (init && s.objects) { Message e; e.type = TRAX_INITIALIZE; want.push_back(e); } for (auto& o : v) want.push_back(initialize(o, true)); s.objects = init ? n : s.objects + n; }
                else if (init) { f.type = TRAX_INITIALIZE; f.args.push_back(initialize(v[0], false).args[0]); s.objects = 1; }
                want.push_back(f);
            }
            int rc = init ? trax_client_initialize(s.h, il, ol, p) : trax_client_frame(s.h, il, n ? ol.l : NULL, p);
            s.after(init ? "initialize" : "frame", rc, code, want); cx.ev("objects sent", code == TRAX_OK ? n : 0);
            REQUIRE(cx, p.map() == pm, "properties-changed", "the properties of a request were changed"); Objects kept = from_lib(ol); if (bad < 0) REQUIRE(cx, kept == v, "objects-changed", "the objects of a request were changed");
        } else if (op < 80) { // wait
            int code = TRAX_STATE; Objects want; Map before = gen_props(r, 2, 20), props = before;
            if (s.dead || s.objects < 1) code = TRAX_ERROR;
            else for (int i = 0; i < s.objects; i++) {
                if (s.queue.empty() && !s.closed) { if (r.chance(6)) s.close_peer(); else { Message x = random_message(i); if (r.chance(10)) put(s.in.w, junk(r)); s.push(x); } }
                if (s.queue.empty()) { code = TRAX_ERROR; break; }
                Message x = s.queue.front(); s.queue.pop_front();
                if (x.type == TRAX_STATE && x.args.size() == 1) { R g(trax_region_decode(x.args[0].c_str())); if (!g.p) { code = TRAX_ERROR; break; } want.push_back({from_lib(g), x.props}); continue; }
                if (x.type == TRAX_QUIT && x.args.empty()) { code = TRAX_QUIT; s.dead = true; for (auto& e : x.props) props[e.first] = e.second; break; }
                code = TRAX_ERROR; break;
            }
            if (code != TRAX_STATE) want.clear();
            Got g = client_wait(s.h, before); s.after("wait", g.code, code, {});
            REQUIRE(cx, g.objects == want && g.has_objects == (code == TRAX_STATE), "objects:wait", "received %s instead of %s, history: %s", show_objects(g.objects).c_str(), show_objects(want).c_str(), s.tr.text.c_str());
            REQUIRE(cx, g.props == props, "properties:wait", "received %s instead of %s, history: %s", show_map(g.props).c_str(), show_map(props).c_str(), s.tr.text.c_str());
            cx.ev("objects received", want.size()); if (code == TRAX_QUIT) cx.ev("quits received");
        } else if (op < 86) s.terminate();
        else if (op < 92) s.parameters();
        else if (op < 94) s.close_peer();
        else { // the request without its optional part
            if (s.dead || s.objects < 1) continue;
            Images im = s.images(); IL il(im); Message f; f.type = TRAX_FRAME; for (auto& e : im) f.args.push_back(uri(e.second)); int rc = trax_client_frame(s.h, il, NULL, NULL); s.after("frame", rc, TRAX_OK, {f});
        }
    }
    s.cleanup(); cx.ev("client histories"); if (r.chance(1)) cx.sample(s.tr.text.substr(0, 200));
}

// ------------------------------------------------------------------------------------------- a tracker of the library and a raw client
static const bool pure = pure_results() = true;

static void server_history(Ctx& cx, bool mot) {
    Rng& r = cx.rng; int version = mot ? 4 : r.range(1, 4); Meta m = gen_meta(r, version, false); if (mot) m.flags = r.chance(85) ? TRAX_METADATA_MULTI_OBJECT : 0;
    Side s(cx, true, version, m); trax_metadata* md = m.to_lib(); s.h = trax_server_setup_file_v(md, s.in.r, s.out.w, trax_no_log, version); trax_metadata_release(&md); REQUIRE(cx, s.h, "no-session", "no handle"); drain(s.out.r); s.after("setup", 0, 0, {});
    s.tr.add(fmt("server v%d multi%d", version, s.multi)); int nargs = s.channels.size(); bool v4 = s.v4;
    auto random_message = [&]() { // from the client
        Message x; int k = r.below(100); x.props = gen_props(r, 3, 40);
        auto frame = [&]() { Images im = s.images(); for (auto& e : im) x.args.push_back(uri(e.second)); int q = r.below(100); if (q < 4) x.args.push_back("file:///x"); else if (q < 8) x.args.pop_back(); else if (q < 12) x.args[r.below(nargs)] = r.pick(std::vector<std::string>{"image:3;3;rgb;AAAA", "data:image/gif;AAAA", "image:0;5;gray8;", "image:x", "data:", "image:2;2;gray8;AAAAAAA="}); else if (q < 17) x.args[r.below(nargs)] = r.pick(std::vector<std::string>{"file:///x", "http://x/y", "image:1;1;gray8;AA==", "data:image/png;iVBORw0KGgo="}); };
        if (v4) { if (k < 48) { x.type = TRAX_FRAME; frame(); } else if (k < 76) { x.type = TRAX_INITIALIZE; x.args.push_back(text(gen_region(r, GEOMETRY))); } else if (k < 81) x.type = TRAX_INITIALIZE; else if (k < 84) { x.type = TRAX_INITIALIZE; x.args.push_back(r.pick(std::vector<std::string>{"", "abc", "1,2", "mask:0,0,2"})); } else if (k < 86) { x.type = TRAX_INITIALIZE; frame(); x.args.push_back("1,2,3,4"); } }
        else { if (k < 50) { x.type = TRAX_FRAME; frame(); } else if (k < 80) { x.type = TRAX_INITIALIZE; frame(); x.args.push_back(text(gen_region(r, GEOMETRY))); } else if (k < 86) { x.type = TRAX_INITIALIZE; frame(); if (r.chance(70)) x.args.push_back(r.pick(std::vector<std::string>{"", "abc", "1,2", "mask:0,0,2"})); } }
        if (k >= 86) { if (k < 92) x.type = TRAX_QUIT; else if (k < 94) { x.type = TRAX_QUIT; x.args.push_back("x"); } else if (k < 97) { x.type = TRAX_HELLO; } else { x.type = TRAX_STATE; x.args.push_back("1,2,3,4"); } }
        return x;
    };
    // the images of a request, false if they have to be refused
    auto images_of = [&](const Message& x, Images& im) { int i = 0; for (int c : s.channels) { std::string a = x.args[i++]; std::vector<char> b(a.begin(), a.end()); b.push_back(0);
            Image g; if (!a.compare(0, 7, "file://")) { g.type = TRAX_IMAGE_PATH; g.data = a.substr(7); } else if (!a.compare(0, 6, "image:") || !a.compare(0, 5, "data:")) g.type = -1; else { g.type = TRAX_IMAGE_URL; g.data = a; }
            if (g.type == -1) { static const std::set<std::string> bad = {"image:3;3;rgb;AAAA", "data:image/gif;AAAA", "image:0;5;gray8;", "image:x", "data:", "image:2;2;gray8;AAAAAAA="}; if (bad.count(a)) return false; g.type = a[0] == 'i' ? TRAX_IMAGE_MEMORY : TRAX_IMAGE_BUFFER; g.data = a; }
            if (!(m.images & g.type)) return false; im[c] = g; } return true; };
    auto compare = [&](const Images& got, const Images& want) { if (got.size() != want.size()) return false; for (auto& e : want) { auto i = got.find(e.first); if (i == got.end() || i->second.type != e.second.type) return false; if (norm(uri(i->second)) != norm(e.second.type == TRAX_IMAGE_PATH ? uri(e.second) : e.second.data)) return false; } return true; };
    int steps = r.chance(1) ? r.range(60, 200) : r.range(1, cx.thorough ? 30 : 14);
    for (int k = 0; k < steps; k++) {
        if (!s.closed && r.chance(10)) put(s.in.w, junk(r));
        if (!s.closed && r.chance(15)) { s.push(random_message()); s.tr.add("push"); }
        int op = r.below(100);
        if (op < 60) { // wait
            int code = -100; Images im; Objects objs; Map before = gen_props(r, 2, 20), props = before; bool initialized = false;
            if (s.dead) code = TRAX_ERROR;
            while (code == -100) {
                if (s.queue.empty() && !s.closed) { if (r.chance(5)) s.close_peer(); else { if (r.chance(10)) put(s.in.w, junk(r)); s.push(random_message()); } }
                if (s.queue.empty()) { code = TRAX_ERROR; break; }
                Message x = s.queue.front(); s.queue.pop_front(); s.tr.add(name_of(x.type).substr(0, 2) + fmt("%zu", x.args.size()));
                if (x.type == TRAX_QUIT) { if (x.args.size()) { code = TRAX_ERROR; break; } code = TRAX_QUIT; s.dead = true; objs.clear(); for (auto& e : x.props) props[e.first] = e.second; break; }
                if (v4) {
                    if (x.type == TRAX_INITIALIZE) { if (x.args.empty()) { s.objects = 0; initialized = true; continue; } if (x.args.size() != 1) { code = TRAX_ERROR; break; } R g(trax_region_decode(x.args[0].c_str())); if (!g.p) { code = TRAX_ERROR; break; } objs.push_back({from_lib(g), x.props}); initialized = true; continue; }
                    if (x.type != TRAX_FRAME || s.objects + (int) objs.size() < 1 || (int) x.args.size() != nargs || !images_of(x, im)) { code = TRAX_ERROR; break; }
                    code = initialized && s.objects == 0 ? TRAX_INITIALIZE : TRAX_FRAME; s.objects += objs.size();
                } else {
                    if (x.type == TRAX_FRAME) { if (s.objects < 1 || (int) x.args.size() != nargs || !images_of(x, im)) { code = TRAX_ERROR; break; } code = TRAX_FRAME; }
                    else if (x.type == TRAX_INITIALIZE) { if ((int) x.args.size() != nargs + 1 || !images_of(x, im)) { code = TRAX_ERROR; break; } R g(trax_region_decode(x.args[nargs].c_str())); if (!g.p) { code = TRAX_ERROR; break; } objs.push_back({from_lib(g), Map()}); code = TRAX_INITIALIZE; s.objects = 1; }
                    else { code = TRAX_ERROR; break; }
                }
                for (auto& e : x.props) props[e.first] = e.second;
            }
            if (code == TRAX_ERROR || code == TRAX_QUIT) { im.clear(); }
            if (code == TRAX_ERROR) objs.clear();
            Got g = server_wait(s.h, v4, before); s.after("wait", g.code, code, {});
            REQUIRE(cx, compare(g.images, im) && g.has_images == !im.empty(), "images:wait", "received %s instead of %s, history: %s", show_images(g.images).c_str(), show_images(im).c_str(), s.tr.text.c_str());
            if (code != TRAX_QUIT) REQUIRE(cx, g.objects == objs && g.has_objects == !objs.empty(), "objects:wait", "received %s instead of %s, history: %s", show_objects(g.objects).c_str(), show_objects(objs).c_str(), s.tr.text.c_str());
            REQUIRE(cx, g.props == props, "properties:wait", "received %s instead of %s, history: %s", show_map(g.props).c_str(), show_map(props).c_str(), s.tr.text.c_str());
            cx.ev("objects received", objs.size()); if (code == TRAX_QUIT) cx.ev("quits received");
        } else if (op < 85) { // reply
            std::vector<Message> want; int code = TRAX_OK, rc; auto state = [&](const Object& o) { Message x; x.type = TRAX_STATE; x.args.push_back(text(o.region)); x.props = o.props; want.push_back(x); };
            Object one{gen_region(r, ALL_REGIONS), gen_props(r, 3, 60)};
            if (!v4) { if (r.chance(5)) { Props p; code = TRAX_ERROR; rc = trax_server_reply_sot(s.h, NULL, p); } else { R g(one.region); Props p(one.props); if (s.dead) code = TRAX_ERROR; else state(one); rc = trax_server_reply_sot(s.h, g, p); } }
            else { int n = r.chance(75) ? s.objects : r.range(0, 4); Objects v; for (int i = 0; i < n; i++) v.push_back({gen_region(r, ALL_REGIONS), gen_props(r, 3, 60)}); OL ol(v); int bad = n && r.chance(5) ? (int) r.below(n) : -1; if (bad >= 0) trax_object_list_set(ol, bad, NULL);
                if (s.dead || bad >= 0 || n != s.objects || (!s.multi && n != 1)) code = TRAX_ERROR; else for (auto& o : v) state(o); rc = trax_server_reply_mot(s.h, ol); }
            s.after("reply", rc, code, want); cx.ev("objects sent", want.size());
        } else if (op < 88 && v4) { // calls of the other mode
            R g(rect(1, 2, 3, 4)); Props p; int rc = trax_server_reply_sot(s.h, g, p); s.after("reply_sot", rc, TRAX_ERROR, {});
            trax_image_list* il = (trax_image_list*)stale(); trax_region* reg = (trax_region*)stale(); rc = trax_server_wait_sot(s.h, &il, &reg, p); s.after("wait_sot", rc, TRAX_ERROR, {}); REQUIRE(cx, !il && !reg, "content", "refused call with content");
        } else if (op < 92) s.terminate();
        else if (op < 96) s.parameters();
        else if (op < 98) s.close_peer();
    }
    s.cleanup(); cx.ev("server histories"); if (r.chance(1)) cx.sample(s.tr.text.substr(0, 200));
}

// ------------------------------------------------------------------------------------------- P06: both sides of the library
static void mot_pair(Ctx& cx) {
    Rng& r = cx.rng; Meta m = gen_meta(r, 4, false); m.flags = TRAX_METADATA_MULTI_OBJECT; Session s; bool tcp = r.chance(10); s.open(tcp, m, 4); REQUIRE(cx, s.c && s.s, "no-session", "the handshake failed");
    int v = 0; REQUIRE(cx, trax_get_parameter(s.c, TRAX_PARAMETER_MULTIOBJECT, &v) == 1 && v == 1, "not-multi", "the client does not know that the tracker supports many objects");
    size_t alive = 0; int steps = r.chance(1) ? r.range(60, 150) : r.range(1, cx.thorough ? 25 : 10); Trace tr{cx};
    auto objects = [&](size_t n) { Objects o; for (size_t i = 0; i < n; i++) { o.push_back({gen_region(r, m.regions), gen_props(r, 4, 60)}); if (r.chance(60)) o.back().props["id"] = fmt("%d", r.range(0, 1000)); } return o; };
    auto delivered = [](Objects o) { for (auto& x : o) x.region = printed(x.region); return o; };
    for (int k = 0; k < steps; k++) {
        bool init = !alive || r.chance(25); size_t n = init ? (r.chance(5) ? r.range(10, 40) : r.range(1, 5)) : r.chance(45) ? 0 : r.range(1, 4); Objects add = objects(n); Images im = gen_images(r, m.channels, m.images); Map pm = gen_props(r, 3, 50); int rc;
        { IL il(im); OL ol(add); Props p(pm); rc = init ? trax_client_initialize(s.c, il, ol, p) : trax_client_frame(s.c, il, n || r.chance(50) ? ol.l : NULL, p); }
        tr.add(fmt("%s%zu", init ? "i" : "f", n)); REQUIRE(cx, rc == TRAX_OK, "request-refused", "%s: %s", tr.text.c_str(), trax_get_error(s.c) ? trax_get_error(s.c) : ""); alive = init ? n : alive + n;
        Map before; Got g = server_wait(s.s, true, before); REQUIRE(cx, g.code == (init ? TRAX_INITIALIZE : TRAX_FRAME), "wrong-message", "the tracker received %d, %s: %s", g.code, tr.text.c_str(), g.error.c_str());
        Objects want = delivered(add); REQUIRE(cx, g.objects == want, "objects:tracker", "received %s instead of %s after %s", show_objects(g.objects).c_str(), show_objects(want).c_str(), tr.text.c_str());
        REQUIRE(cx, g.images == im && g.props == pm, "frame:tracker", "received %s %s instead of %s %s", show_images(g.images).c_str(), show_map(g.props).c_str(), show_images(im).c_str(), show_map(pm).c_str());
        // replies with a wrong number of objects are refused and leave no trace
        for (int w = r.below(3); w > 0; w--) { size_t wrong = r.below(alive + 3); if (wrong == alive) continue; OL ol(objects(wrong)); rc = trax_server_reply_mot(s.s, ol); tr.add(fmt("w%zu", wrong)); REQUIRE(cx, rc == TRAX_ERROR && trax_is_alive(s.s) && trax_get_error(s.s), "wrong-count-accepted", "a reply with %zu objects was accepted instead of %zu after %s", wrong, alive, tr.text.c_str()); cx.ev("wrong replies refused"); }
        if (s.b) REQUIRE(cx, drain(s.b->r).empty(), "refused-reply-written", "a refused reply was written after %s", tr.text.c_str());
        Objects state; for (size_t i = 0; i < alive; i++) { state.push_back({gen_region(r, ALL_REGIONS), gen_props(r, 3, 50)}); if (r.chance(50)) state.back().props["id"] = fmt("%zu", i); }
        { OL ol(state); rc = trax_server_reply_mot(s.s, ol); } REQUIRE(cx, rc == TRAX_OK, "reply-refused", "%zu objects after %s: %s", alive, tr.text.c_str(), trax_get_error(s.s) ? trax_get_error(s.s) : "");
        g = client_wait(s.c); want = delivered(state); REQUIRE(cx, g.code == TRAX_STATE && g.objects == want, "objects:client", "received %d %s instead of %s after %s", g.code, show_objects(g.objects).c_str(), show_objects(want).c_str(), tr.text.c_str());
        cx.ev("objects added", n); cx.ev("object states", alive); cx.ev(init ? "initializations" : n ? "frames with new objects" : "frames");
    }
    cx.ev("multi-object sessions"); if (r.chance(1)) cx.sample(tr.text);
}

// ------------------------------------------------------------------------------------------- P05
static void check_client(Ctx& cx, trax_handle* c, const Meta& m, int version, const std::string& from) {
    trax_metadata* d = c->metadata; auto str = [](const char* s) { return s ? std::string(s) : std::string("(none)"); };
    REQUIRE(cx, c->version == version, "version", "version %d instead of %d for %s", c->version, version, from.c_str());
    REQUIRE(cx, d->format_region == m.regions, "region-formats", "region formats %d instead of %d for %s", d->format_region, m.regions, from.c_str());
    REQUIRE(cx, d->format_image == m.images, "image-formats", "image formats %d instead of %d for %s", d->format_image, m.images, from.c_str());
    REQUIRE(cx, d->channels == m.channels, "channels", "channels %d instead of %d for %s", d->channels, m.channels, from.c_str());
    REQUIRE(cx, !!(d->flags & TRAX_METADATA_MULTI_OBJECT) == !!(m.flags & TRAX_METADATA_MULTI_OBJECT), "multiobject", "multi-object %d instead of %d for %s", d->flags, m.flags, from.c_str());
    REQUIRE(cx, str(d->tracker_name) == (m.hname ? m.name : "(none)"), "name", "name %s instead of %s", show(str(d->tracker_name)).c_str(), show(m.name).c_str());
    REQUIRE(cx, str(d->tracker_description) == (m.hdesc ? m.desc : "(none)"), "description", "description %s instead of %s", show(str(d->tracker_description)).c_str(), show(m.desc).c_str());
    REQUIRE(cx, str(d->tracker_family) == (m.hfam ? m.fam : "(none)"), "family", "family %s instead of %s", show(str(d->tracker_family)).c_str(), show(m.fam).c_str());
    REQUIRE(cx, to_map(d->custom) == m.custom, "custom", "custom properties %s instead of %s", show_map(to_map(d->custom)).c_str(), show_map(m.custom).c_str());
    int v = -1; REQUIRE(cx, trax_get_parameter(c, TRAX_PARAMETER_VERSION, &v) == 1 && v == version, "version", "parameter version %d instead of %d", v, version);
    REQUIRE(cx, trax_get_parameter(c, TRAX_PARAMETER_MULTIOBJECT, &v) == 1 && v == !!(m.flags & TRAX_METADATA_MULTI_OBJECT), "multiobject", "parameter multi-object %d", v);
    cx.ev("declarations compared");
}
// every combination of version, regions, images, channels and multi-object support, in turn
static void p05_declare(Ctx& cx) {
    Rng& r = cx.rng; uint64_t i = cx.index / 4; int version = (i % 5 == 4) ? 0 : 1 + i % 5; i /= 5; int real = version ? version : TRAX_VERSION; Meta m; m = gen_meta(r, version, true); // version 0 is the newest
    static const int RT[] = {TRAX_REGION_RECTANGLE, TRAX_REGION_POLYGON, TRAX_REGION_MASK}, IT[] = {TRAX_IMAGE_PATH, TRAX_IMAGE_URL, TRAX_IMAGE_MEMORY, TRAX_IMAGE_BUFFER}, CT[] = {TRAX_CHANNEL_COLOR, TRAX_CHANNEL_DEPTH, TRAX_CHANNEL_IR};
    auto bits = [&](const int* t, int n) { int k = 1 + i % ((1 << n) - 1), v = 0; i /= (1 << n) - 1; for (int b = 0; b < n; b++) if (k & (1 << b)) v |= t[b]; return v; };
    m.regions = bits(RT, 3); m.images = bits(IT, 4); m.channels = bits(CT, 3); m.flags = i % 2 ? TRAX_METADATA_MULTI_OBJECT : 0; if (r.chance(20)) m.custom["identifier"] = "x";
    Session s; bool tcp = r.chance(5); trax_metadata* md; s.open(tcp, m, version); REQUIRE(cx, s.c && s.s, "no-session", "the handshake failed"); (void) md;
    Meta seen = m; if (real < 2) seen.channels = TRAX_CHANNEL_COLOR; if (real < 4) seen.flags = 0;
    if (real < 2 && m.channels != TRAX_CHANNEL_COLOR) cx.ev("channels before version 2");
    check_client(cx, s.c, seen, real, fmt("a tracker of version %d", real));
    int v = -1; REQUIRE(cx, trax_get_parameter(s.s, TRAX_PARAMETER_MULTIOBJECT, &v) == 1 && v == !!(seen.flags), "multiobject-server", "the tracker's own multi-object parameter is %d, version %d", v, real); REQUIRE(cx, s.s->version == real, "version-server", "version %d instead of %d", s.s->version, real);
    REQUIRE(cx, s.s->metadata->format_region == m.regions && s.s->metadata->format_image == m.images && s.s->metadata->channels == m.channels, "metadata-server", "the tracker's own metadata differ");
    cx.ev("sessions"); cx.state(mix(mix(real, m.regions * 64 + m.images), mix(m.channels, m.flags)));
}
static std::string list(Rng& r, const std::vector<std::string>& names) { // written forms of a list
    std::string s; int n = r.range(0, 4); if (r.chance(20)) s += r.pick(std::vector<std::string>{" ", ";", ";;"}); for (int i = 0; i < n; i++) { s += r.chance(94) ? r.pick(names) : r.pick(std::vector<std::string>{"foo", "Mask", "rect", "image", "rgb", "-1", "pathx", "colour"}); s += r.pick(std::vector<std::string>{";", ";", ";", " ", "; ", ","}); } if (s.size() && r.chance(30)) s.pop_back(); return s;
}
static void p05_hello(Ctx& cx) {
    Rng& r = cx.rng; Message h; h.type = TRAX_HELLO; h.props = gen_props(r, 3, 40);
    if (r.chance(80)) h.props["trax.version"] = r.chance(80) ? fmt("%d", r.range(1, 4)) : r.pick(std::vector<std::string>{"", "5", "17", "0", "x", "3x", "2147483648", "-1"});
    if (r.chance(75)) h.props["trax.region"] = list(r, {"rectangle", "polygon", "mask"});
    if (r.chance(75)) h.props["trax.image"] = list(r, {"path", "url", "memory", "buffer"});
    if (r.chance(75)) h.props["trax.channels"] = list(r, {"color", "depth", "ir"});
    if (r.chance(50)) h.props["trax.multiobject"] = r.pick(std::vector<std::string>{"1", "0", "", "7", "x"});
    if (r.chance(40)) h.props["trax.name"] = gen_text(r, 60); if (r.chance(40)) h.props["trax.description"] = gen_text(r, 60); if (r.chance(40)) h.props["trax.family"] = gen_text(r, 60); if (r.chance(20)) h.props["trax.identifier"] = gen_text(r, 30); if (r.chance(20)) h.props["trax.other"] = "1"; if (r.chance(20)) h.props["traxx"] = "y"; if (r.chance(20)) h.props["trax"] = "z";
    if (r.chance(5)) h.args.push_back("surplus");
    std::string bytes; for (int k = r.below(3); k > 0; k--) bytes += junk(r); bytes += encode(h); if (r.chance(30)) bytes += encode(Message{TRAX_STATE, {"1,2,3,4"}, Map()});
    Pipe in, out; put(in.w, bytes); if (r.chance(50)) in.close_w(); Meta m; int version = 0; bool ok = decode_hello(h, m, version);
    trax_handle* c = trax_client_setup_file(in.r, out.w, trax_no_log); struct G { trax_handle*& h; ~G() { if (h) trax_cleanup(&h); } } guard{c};
    REQUIRE(cx, (c != NULL) == ok, "handshake", "the handshake %s for %s", c ? "succeeded" : "failed", show(bytes).c_str());
    cx.ev(ok ? "accepted introductions" : "refused introductions"); cx.state(hash_of(bytes));
    if (c) check_client(cx, c, m, version, show(bytes, 1000)); else REQUIRE(cx, drain(out.r).empty(), "output", "something was written to a peer that is not a tracker");
    if (r.chance(1)) cx.sample(show(bytes, 200));
}
static void p05_bad(Ctx& cx) { // peers which are no trackers, cut at any point
    Rng& r = cx.rng; Meta m = gen_meta(r, 4); std::string bytes; Message h = hello_of(m, r.range(1, 4)); h.props["trax.name"] = gen_text(r, 50); bool ok = false; std::string kind;
    switch (r.below(8)) {
    case 0: kind = "silent"; break;
    case 1: { kind = "cut"; bytes = encode(h); bytes.resize(r.below(bytes.size())); break; }
    case 2: { kind = "wrong message"; Message x; x.type = r.pick(std::vector<int>{TRAX_FRAME, TRAX_STATE, TRAX_QUIT, TRAX_INITIALIZE}); if (r.chance(50)) x.args.push_back("1,2,3,4"); x.props = h.props; bytes = encode(x) + encode(h); break; }
    case 3: kind = "noise"; for (int i = 0; i < 5; i++) bytes += junk(r); break;
    case 4: kind = "binary"; bytes = gen_bytes(r, r.below(3000)); for (size_t i; (i = bytes.find("@@TRAX")) != std::string::npos;) bytes[i] = 'x'; break;
    case 5: { kind = "arguments"; h.args.push_back("x"); bytes = encode(h); break; }
    case 6: { kind = "malformed"; bytes = encode(h); bytes.insert(bytes.size() - 1, "\"open"); break; }
    case 7: { kind = "noise before"; for (int i = r.below(6); i > 0; i--) bytes += junk(r); bytes += encode(h); ok = true; break; }
    }
    bool tcp = r.chance(30); trax_handle* c = NULL; struct G { trax_handle*& h; ~G() { if (h) trax_cleanup(&h); } } guard{c}; Pipe in, out; Listener* l = NULL; int sock = -1; struct D { Listener*& l; int& s; ~D() { if (s >= 0) close(s); delete l; } } clean{l, sock};
    if (tcp) { l = new Listener; sock = tcp_connect(l->port); put(sock, bytes); if (r.chance(70)) shutdown(sock, SHUT_WR); else { close(sock); sock = -1; } c = trax_client_setup_socket(l->fd, 5, trax_no_log); }
    else { put(in.w, bytes); in.close_w(); c = trax_client_setup_file(in.r, out.w, trax_no_log); }
    REQUIRE(cx, (c != NULL) == ok, "handshake:" + kind, "the handshake %s for %s", c ? "succeeded" : "failed", show(bytes).c_str());
    cx.ev(("peer: " + kind).c_str()); cx.state(hash_of(bytes));
}
static void p05_socket(Ctx& cx) { // nobody connects, or somebody connects late
    Rng& r = cx.rng; Listener l; double t0 = now();
    if (r.chance(70)) { trax_handle* c = trax_client_setup_socket(l.fd, 0, trax_no_log); REQUIRE(cx, !c, "handshake", "a session without a peer"); REQUIRE(cx, now() - t0 < 20, "late", "the timeout of 0 s took %f s", now() - t0); cx.ev("nobody connected"); }
    else { Meta m = gen_meta(r, 3); int ms = r.range(1, 40); std::thread t([&] { usleep(ms * 1000); int s = tcp_connect(l.port); put(s, encode(hello_of(m, 3))); usleep(2000); close(s); }); trax_handle* c = trax_client_setup_socket(l.fd, r.pick(std::vector<int>{30, -1}), trax_no_log); t.join(); if (!c) cx.fail("handshake", "a late connection was not accepted"); m.hname = m.hdesc = m.hfam = false; m.custom.clear(); m.flags = 0; check_client(cx, c, m, 3, "a late tracker"); trax_cleanup(&c); cx.ev("late connections"); cx.state(ms); }
    cx.state(r.next());
}

// The client waits for a tracker as long as it was told, whatever interrupts it; a tracker waits for its client
static void p05_nothing(int) {}
static void p05_waiting(Ctx& cx) {
    Rng& r = cx.rng; struct sigaction sa = {}; sa.sa_handler = p05_nothing; sigaction(SIGUSR2, &sa, NULL); pthread_t me = pthread_self(); std::atomic<bool> stop(false); bool noisy = r.chance(60); Listener l; Meta m = gen_meta(r, 3); m.flags = 0;
    std::thread noise([&] { while (!stop) { if (noisy) pthread_kill(me, SIGUSR2); usleep(15000); } }); struct J { std::atomic<bool>& s; std::thread& t; ~J() { s = true; t.join(); } } join{stop, noise};
    switch (r.below(3)) {
    case 0: { int limit = r.range(1, 2); double t0 = now(); trax_handle* c = trax_client_setup_socket(l.fd, limit, trax_no_log); double d = now() - t0; if (c) trax_cleanup(&c); else c = NULL; REQUIRE(cx, d > limit - 0.05, "early", "the client waits %f s of %d s", d, limit); REQUIRE(cx, d < limit + 15, "late", "the client waits %f s instead of %d s", d, limit); cx.ev("limits reached"); break; }
    case 1: { int ms = r.range(100, 1300), limit = r.pick(std::vector<int>{-1, 30, 2000, INT_MAX}); std::thread t([&] { usleep(ms * 1000); int s = tcp_connect(l.port); put(s, encode(hello_of(m, 3))); usleep(2000); close(s); }); trax_handle* c = trax_client_setup_socket(l.fd, limit, trax_no_log); t.join(); if (!c) cx.fail("handshake", fmt("a tracker that connects after %d ms of %d s was not accepted", ms, limit)); m.hname = m.hdesc = m.hfam = false; m.custom.clear(); check_client(cx, c, m, 3, "a late tracker"); trax_cleanup(&c); cx.ev("late connections"); break; }
    case 2: { // the port is there, but nobody listens yet
        close(l.fd); l.fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); struct sockaddr_in a = {}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); socklen_t n = sizeof a; if (l.fd < 0 || bind(l.fd, (struct sockaddr*) &a, n) || getsockname(l.fd, (struct sockaddr*) &a, &n)) { cx.ev("no port"); break; } int port = ntohs(a.sin_port);
        static char env[40]; snprintf(env, sizeof env, "TRAX_SOCKET=%d", port); putenv(env); trax_metadata* md = m.to_lib(); trax_handle* s = NULL; std::atomic<bool> done(false); std::thread t([&] { sigset_t u; sigemptyset(&u); sigaddset(&u, SIGUSR2); pthread_sigmask(SIG_BLOCK, &u, NULL); s = trax_server_setup_v(md, trax_no_log, 3); done = true; });
        int ms = r.range(100, 1200); double t0 = now(); while (now() - t0 < ms / 1000.0) usleep(5000); bool early = done; trax_handle* c = trax_client_setup_socket(l.fd, 60, trax_no_log); t.join(); unsetenv("TRAX_SOCKET"); trax_metadata_release(&md); struct G { trax_handle*& h; ~G() { if (h) trax_cleanup(&h); } } g1{s}, g2{c};
        REQUIRE(cx, !early, "gave-up", "the tracker does not wait for its client (session %d)", s != NULL); REQUIRE(cx, s && c, "handshake", "no session with a client that listens after %d ms: tracker %d client %d", ms, s != NULL, c != NULL); check_client(cx, c, m, 3, "a tracker that had to wait"); trax_terminate(c, NULL); Got g = server_wait(s, false); REQUIRE(cx, g.code == TRAX_QUIT, "wrong-message", "%d", g.code); cx.ev("early trackers"); break; }
    }
    cx.ev(noisy ? "interrupted" : "not interrupted"); cx.state(r.next());
}

// ------------------------------------------------------------------------------------------- P15
// Objects handed out stay valid after the session: they are kept, the session is cleaned up, then they are used and released.
static void p15_kept(Ctx& cx) {
    Rng& r = cx.rng; Meta m = gen_meta(r, 4); m.flags = TRAX_METADATA_MULTI_OBJECT; int version = r.pick(std::vector<int>{1, 3, 4}); if (version < 4) m.flags = 0; Session s; bool tcp = r.chance(30); s.open(tcp, m, version); REQUIRE(cx, s.c && s.s, "no-session", "the handshake failed");
    Images im = gen_images(r, s.c->metadata->channels, m.images); int n = version < 4 ? 1 : r.range(1, 4); Objects add; for (int i = 0; i < n; i++) add.push_back({gen_region(r, m.regions), gen_props(r)}); Map pm = gen_props(r);
    if (version < 2) m.channels = TRAX_CHANNEL_COLOR;
    { IL il(im); OL ol(add); Props p(pm); int rc = trax_client_initialize(s.c, il, ol, p); REQUIRE(cx, rc == TRAX_OK, "request-refused", "%s", trax_get_error(s.c)); }
    if (version < 2 && s.s->metadata->channels != TRAX_CHANNEL_COLOR) return;
    trax_image_list* il = NULL; trax_object_list* ol = NULL; trax_region* reg = NULL; Props p; int rc = version < 4 ? trax_server_wait_sot(s.s, &il, &reg, p) : trax_server_wait_mot(s.s, &il, &ol, p); REQUIRE(cx, rc == TRAX_INITIALIZE, "wrong-message", "%d %s", rc, trax_get_error(s.s) ? trax_get_error(s.s) : "");
    Objects state; for (int i = 0; i < n; i++) state.push_back({gen_region(r, ALL_REGIONS), gen_props(r)}); { OL o(state); R g(state[0].region); Props q(state[0].props); if (version < 4) trax_server_reply_sot(s.s, g, q); else trax_server_reply_mot(s.s, o); }
    trax_object_list* cl = NULL; Props cp; rc = trax_client_wait(s.c, &cl, cp); REQUIRE(cx, rc == TRAX_STATE, "wrong-message", "%d", rc);
    if (r.chance(50)) { s.close_client(); s.close_server(); } else { s.close_server(); s.close_client(); }
    for (auto& o : add) { o.region = printed(o.region); if (version < 4) o.props.clear(); } for (auto& o : state) o.region = printed(o.region);
    REQUIRE(cx, from_lib(il) == im, "images-after-cleanup", "images changed after the session was cleaned up"); if (version < 4) REQUIRE(cx, from_lib(reg) == add[0].region, "region-after-cleanup", "the region changed"); else REQUIRE(cx, from_lib(ol) == add, "objects-after-cleanup", "objects changed");
    REQUIRE(cx, from_lib(cl) == state && p.map() == pm, "objects-after-cleanup", "objects changed");
    trax_image_list_clear(il); trax_image_list_release(&il); if (ol) trax_object_list_release(&ol); if (reg) trax_region_release(&reg); trax_object_list_release(&cl); REQUIRE(cx, !il && !ol && !reg && !cl, "not-reset", "a release left its pointer"); cx.ev("objects used after cleanup", 2 * n + im.size());
}
// One side vanishes at a random point of a session
static void p15_abrupt(Ctx& cx) {
    Rng& r = cx.rng; int version = r.range(1, 4); Meta m = gen_meta(r, version); Session s; bool tcp = r.chance(40); s.open(tcp, m, version); REQUIRE(cx, s.c && s.s, "no-session", "the handshake failed"); bool multi = version >= 4 && (m.flags & TRAX_METADATA_MULTI_OBJECT); size_t alive = 0; std::string way;
    io::plan().active = io::plan().dry_eof = true; int steps = r.range(0, 8), dies = r.range(0, 8); bool client_dies = r.chance(50);
    for (int k = 0; k < steps; k++) {
        if (k == dies) { if (client_dies) s.close_client(); else s.close_server(); way += "x"; }
        if (s.c) { bool init = !alive || r.chance(30); size_t n = init ? (multi ? r.range(1, 3) : 1) : 0; Objects v; for (size_t i = 0; i < n; i++) v.push_back({gen_region(r, m.regions), gen_props(r, 2)}); IL il(gen_images(r, m.channels, r.chance(90) ? m.images : ALL_IMAGES)); OL ol(v); Props p(gen_props(r)); int rc = init ? trax_client_initialize(s.c, il, ol, p) : trax_client_frame(s.c, il, NULL, p); if (rc == TRAX_OK && init) alive = n; way += init ? "i" : "f"; }
        if (s.s) { Got g = server_wait(s.s, s.mot); way += fmt("%d", g.code); if (g.code == TRAX_QUIT) break;
            int n = s.mot ? s.s->objects : 1; Objects v; for (int i = 0; i < n + (r.chance(10) ? 1 : 0); i++) v.push_back({gen_region(r, ALL_REGIONS), gen_props(r, 2)}); if (v.empty()) break;
            OL ol(v); R g1(v[0].region); Props p(v[0].props); int rc = s.mot ? trax_server_reply_mot(s.s, ol) : trax_server_reply_sot(s.s, g1, p); way += "r"; if (rc != TRAX_OK) break; }
        if (s.c) { Got g = client_wait(s.c); way += fmt("%d", g.code); if (g.code != TRAX_STATE) break; }
    }
    if (r.chance(30) && s.c) { trax_terminate(s.c, r.chance(50) ? "bye" : NULL); way += "t"; } if (r.chance(30) && s.s) { trax_terminate(s.s, NULL); way += "T"; }
    cx.ev(("sessions over " + std::string(tcp ? "tcp" : "pipes")).c_str()); cx.state(hash_of(way)); cx.eval();
}

vh::Harness vh::make_harness(const std::string& mode) {
    Harness h; signal(SIGPIPE, SIG_IGN);
    auto client = [](Ctx& cx) { client_history(cx, false); }; auto server = [](Ctx& cx) { server_history(cx, false); }; auto mclient = [](Ctx& cx) { client_history(cx, true); }; auto mserver = [](Ctx& cx) { server_history(cx, true); };
    if (mode == "P04") h.scenarios = {{"client history", 1, client, false}, {"server history", 1, server, false}};
    if (mode == "P06") h.scenarios = {{"both sides", 2, mot_pair, false}, {"client and raw tracker", 1, mclient, false}, {"tracker and raw client", 1, mserver, false}};
    if (mode == "P05") h.scenarios = {{"declaration", 1, p05_declare, false}, {"introduction", 1, p05_hello, false}, {"no tracker", 1, p05_bad, false}, {"declaration again", 1, p05_declare, false}};
    if (mode == "P05s") h.scenarios = {{"socket", 4, p05_socket, false}, {"waiting", 1, p05_waiting, false}};
    if (mode == "P15") h.scenarios = {{"client history", 2, client, true}, {"server history", 2, server, true}, {"refused handshake", 2, p05_bad, true}, {"introduction", 1, p05_hello, true}, {"abrupt end", 2, p15_abrupt, true}, {"both sides", 1, mot_pair, true}, {"kept objects", 1, p15_kept, true}};
    return h;
}
