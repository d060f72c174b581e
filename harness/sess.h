// A client and a server of the library connected to each other within one thread.
#pragma once
#include "ref.h"
#include "wrap.h"
namespace ref {

struct Got { int code = 0; Images images; bool has_images = false; Objects objects; bool has_objects = false; Region region; Map props; std::string error; };

// What the caller's variables point at before a wait: something that is not the library's to release.  "Set if ..., otherwise NULL"
// makes them pure results, so after a wait they are NULL or a new object, and nothing of the caller's was touched.
inline bool& pure_results() { static bool on = false; return on; }
inline void* stale() { static unsigned char b[1 << 14]; return pure_results() ? b : NULL; }
template <class T> inline void unset(T*& p, bool delivered, const char* what, int code) {
    if (p && (void*)p == stale()) { p = NULL; throw vh::Fail("stale-result", vh::fmt("%s still is what the caller's variable held before a wait that answered %d", what, code)); }
    if (!delivered && p) throw vh::Fail("stale-result", vh::fmt("%s is set after a wait that answered %d", what, code));
}

inline Got server_wait(trax_handle* s, bool mot, const Map& before = Map()) {
    Got g; trax_image_list* il = (trax_image_list*)stale(); Props p(before);
    if (mot) { trax_object_list* ol = (trax_object_list*)stale(); g.code = trax_server_wait_mot(s, &il, &ol, p); unset(il, g.code == TRAX_INITIALIZE || g.code == TRAX_FRAME, "the image list", g.code); unset(ol, g.code != TRAX_ERROR, "the object list", g.code); g.has_objects = ol != NULL; g.objects = from_lib(ol); if (ol) trax_object_list_release(&ol); }
    else { trax_region* r = (trax_region*)stale(); g.code = trax_server_wait_sot(s, &il, &r, p); unset(il, g.code == TRAX_INITIALIZE || g.code == TRAX_FRAME, "the image list", g.code); unset(r, g.code == TRAX_INITIALIZE, "the region", g.code); g.has_objects = r != NULL; g.region = from_lib(r); if (r) { g.objects.push_back({g.region, Map()}); trax_region_release(&r); } }
    g.has_images = il != NULL; { IL l(il); g.images = from_lib(il); }
    g.props = p.map(); const char* e = trax_get_error(s); g.error = e ? e : "";
    return g;
}
inline Got client_wait(trax_handle* c, const Map& before = Map()) {
    Got g; Props p(before); trax_object_list* ol = (trax_object_list*)stale(); g.code = trax_client_wait(c, &ol, p); unset(ol, g.code == TRAX_STATE, "the object list", g.code); g.has_objects = ol != NULL; g.objects = from_lib(ol); if (ol) trax_object_list_release(&ol);
    g.props = p.map(); const char* e = trax_get_error(c); g.error = e ? e : ""; return g;
}

struct Session {
    Pipe* a = NULL; Pipe* b = NULL; Listener* l = NULL; trax_handle* c = NULL; trax_handle* s = NULL; bool mot = false; int version = 0; bool tcp = false;
    Meta meta;
    // log receivers may be given for both sides
    void open(bool use_tcp, const Meta& m, int v, trax_logging clog = trax_no_log, trax_logging slog = trax_no_log, const std::string& noise = "") {
        tcp = use_tcp; meta = m; version = v; mot = v == 0 || v >= 4; trax_metadata* md = m.to_lib();
        if (tcp) {
            l = new Listener; static char env[40]; snprintf(env, sizeof env, "TRAX_SOCKET=%d", l->port); putenv(env); /* setenv would keep memory */
            s = trax_server_setup_v(md, slog, v); unsetenv("TRAX_SOCKET"); c = trax_client_setup_socket(l->fd, 5, clog);
        } else { a = new Pipe; b = new Pipe; put(b->w, noise); s = trax_server_setup_file_v(md, a->r, b->w, slog, v); c = trax_client_setup_file(b->r, a->w, clog); }
        trax_metadata_release(&md);
    }
    void close_client() { if (c) trax_cleanup(&c); if (a) a->close_w(); if (b) b->close_r(); }
    void close_server() { if (s) trax_cleanup(&s); if (a) a->close_r(); if (b) b->close_w(); }
    ~Session() { io::plan().reset(); if (c) trax_cleanup(&c); if (s) trax_cleanup(&s); delete a; delete b; delete l; }
};

// what a hello message declares; false if it is not one of a compatible tracker
inline int decode_list(const std::string& s, const std::vector<std::pair<std::string, int>>& names, int def) {
    int v = 0; size_t i = 0;
    while (i < s.size()) { size_t e = s.find_first_of(" ;,", i); if (e == std::string::npos) e = s.size(); std::string t = s.substr(i, e - i); i = e + 1; if (t.empty()) continue; bool known = false; for (auto& n : names) if (n.first == t) { v |= n.second; known = true; } if (!known) return -1; }
    return v ? v : def;
}
inline int integer(const Map& m, const char* key, int def) { auto i = m.find(key); if (i == m.end() || i->second.empty()) return def; char* e; double d = strtod(i->second.c_str(), &e); return *e || !(d > -2147483649.0 && d < 2147483648.0) ? def : (int) d; }
inline bool decode_hello(const Message& h, Meta& m, int& version) {
    if (h.type != TRAX_HELLO || !h.args.empty()) return false;
    auto val = [&](const char* k) { auto i = h.props.find(k); return i == h.props.end() ? std::string() : i->second; };
    version = integer(h.props, "trax.version", 1);
    m.regions = decode_list(val("trax.region"), {{"rectangle", TRAX_REGION_RECTANGLE}, {"polygon", TRAX_REGION_POLYGON}, {"mask", TRAX_REGION_MASK}}, TRAX_REGION_RECTANGLE);
    m.images = decode_list(val("trax.image"), {{"path", TRAX_IMAGE_PATH}, {"url", TRAX_IMAGE_URL}, {"memory", TRAX_IMAGE_MEMORY}, {"buffer", TRAX_IMAGE_BUFFER}}, TRAX_IMAGE_PATH);
    m.channels = version < 2 ? TRAX_CHANNEL_COLOR : decode_list(val("trax.channels"), {{"color", TRAX_CHANNEL_COLOR}, {"depth", TRAX_CHANNEL_DEPTH}, {"ir", TRAX_CHANNEL_IR}}, TRAX_CHANNEL_COLOR);
    m.flags = version > 3 && integer(h.props, "trax.multiobject", 0) ? TRAX_METADATA_MULTI_OBJECT : 0;
    m.hname = h.props.count("trax.name"); m.hdesc = h.props.count("trax.description"); m.hfam = h.props.count("trax.family"); m.name = val("trax.name"); m.desc = val("trax.description"); m.fam = val("trax.family");
    m.custom.clear(); for (auto& e : h.props) if (e.first.compare(0, 5, "trax.")) m.custom[e.first] = e.second;
    return m.regions >= 0 && m.images >= 0 && m.channels >= 0;
}

inline Meta gen_meta(Rng& r, int version, bool text = true) {
    Meta m; bool v4 = version == 0 || version >= 4; m.regions = 0; m.images = 0; m.channels = 0;
    for (int k : {TRAX_REGION_RECTANGLE, TRAX_REGION_POLYGON, TRAX_REGION_MASK}) if (r.chance(60)) m.regions |= k;
    if (!m.regions) m.regions = r.pick(std::vector<int>{TRAX_REGION_RECTANGLE, TRAX_REGION_POLYGON, TRAX_REGION_MASK});
    for (int k : {TRAX_IMAGE_PATH, TRAX_IMAGE_URL, TRAX_IMAGE_MEMORY, TRAX_IMAGE_BUFFER}) if (r.chance(60)) m.images |= k;
    if (!m.images) m.images = TRAX_IMAGE_MEMORY;
    for (int k : {TRAX_CHANNEL_COLOR, TRAX_CHANNEL_DEPTH, TRAX_CHANNEL_IR}) if (r.chance(45)) m.channels |= k;
    if (!m.channels || version == 1) m.channels = TRAX_CHANNEL_COLOR;
    if (v4 && r.chance(60)) m.flags = TRAX_METADATA_MULTI_OBJECT;
    if (text) { m.hname = r.chance(60); m.hdesc = r.chance(60); m.hfam = r.chance(60); m.name = gen_text(r, 60); m.desc = gen_text(r, 200); m.fam = gen_text(r, 60); m.custom = gen_props(r, 4, 60); if (r.below(1000) < 8) (r.chance(33) ? m.name : r.chance(50) ? m.desc : m.fam) = gen_text(r, 20000); if (r.below(1000) < 8) for (int i = r.range(4, 90); i > 0; i--) m.custom[gen_key(r)] = gen_text(r, 30); }
    return m;
}
}
