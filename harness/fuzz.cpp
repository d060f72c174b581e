// P08: hostile peers. The monitors are the sanitizers, a bound on the number of reports and a time limit for every case.
// Without VH_FUZZER: seeded generation and mutation; with it: a libFuzzer target.
#include "sess.h"
#include <thread>
using namespace ref; using namespace vh;

static int memory_file(const std::string& s) { int fd = memfd_create("in", MFD_CLOEXEC); size_t i = 0; while (i < s.size()) { ssize_t n = ::write(fd, s.data() + i, s.size() - i); if (n <= 0) abort(); i += n; } lseek(fd, 0, SEEK_SET); return fd; }
static volatile uint64_t sink; // keeps reads alive
static void touch(const void* p, size_t n) { const unsigned char* c = (const unsigned char*) p; uint64_t s = 0; for (size_t i = 0; i < n; i++) s += c[i]; sink += s; }
struct Stop { std::string key, msg; };
#define CHECK(c, key, msg) do { if (!(c)) throw Stop{key, msg}; } while (0)

// pixels that rasterisation of this region would need; -1 if it has to be refused
static double pixels(const trax_region* g) { if (trax_region_get_type(g) == TRAX_REGION_POLYGON && trax_region_get_polygon_count(g) > 1500) return 1e12; trax_bounds b = trax_region_bounds(g); double w = (double) b.right - b.left + 2, h = (double) b.bottom - b.top + 2; if (!(std::isfinite(w) && std::isfinite(h)) || fabs(b.left) > 2e9 || fabs(b.right) > 2e9 || fabs(b.top) > 2e9 || fabs(b.bottom) > 2e9 || w * h > 4e9) return -1; return w <= 0 || h <= 0 ? 0 : w * h; }
static long used_regions, used_images, used_props, reports, refusals;
static void use_region(trax_region* g, trax_region* other) {
    if (!g) return; used_regions++;
    int type = trax_region_get_type(g); Region m = from_lib(g); CHECK(m.type == type, "type", "the type changed");
    char* t = trax_region_encode(g); if (t) { touch(t, strlen(t)); trax_region* d = trax_region_decode(t); if (d) trax_region_release(&d); free(t); }
    trax_region* c = trax_region_clone(g); CHECK(c && from_lib(c).type == type, "clone", "the clone has another type"); trax_region_release(&c);
    trax_bounds b = trax_region_bounds(g); double p = type == TRAX_REGION_SPECIAL ? 0 : pixels(g);
    for (int k : {TRAX_REGION_RECTANGLE, TRAX_REGION_POLYGON, TRAX_REGION_SPECIAL, TRAX_REGION_MASK}) { if (k == TRAX_REGION_MASK && p > 4e6) continue; trax_region* x = trax_region_convert(g, k); if (x) { Region y = from_lib(x); CHECK(y.type == k, "convert", "converted to another type"); if (k != TRAX_REGION_MASK || p < 2e4) { char* e = trax_region_encode(x); free(e); } trax_region_release(&x); } }
    for (float x : {0.0f, b.left, b.right, (b.left + b.right) / 2, 1e30f, -3.5f}) for (float y : {0.0f, b.top, b.bottom, (b.top + b.bottom) / 2, -1e30f}) trax_region_contains(g, x, y);
    if (p <= 4e6) { float o = trax_region_overlap(g, g, trax_no_bounds); CHECK(o >= 0 && o <= 1, "overlap", fmt("%s overlaps itself by %g", m.str().c_str(), o)); trax_bounds q = trax_no_bounds; q.left = -5; q.top = -5; q.right = 700; q.bottom = 500; o = trax_region_overlap(g, g, q); CHECK(o >= 0 && o <= 1, "overlap", fmt("%s overlaps itself by %g within bounds", m.str().c_str(), o)); }
    if (other) { double po = trax_region_get_type(other) == TRAX_REGION_SPECIAL ? 0 : pixels(other); if (p <= 4e6 && po <= 4e6) { trax_bounds u = trax_region_bounds(other); double w = std::max((double) b.right, (double) u.right) - std::min((double) b.left, (double) u.left), h = std::max((double) b.bottom, (double) u.bottom) - std::min((double) b.top, (double) u.top); if (p < 0 || po < 0 || !(w * h > 4e7)) { float o = trax_region_overlap(g, other, trax_no_bounds); CHECK(o >= 0 && o <= 1, "overlap", fmt("the overlap is %g", o)); o = trax_region_overlap(other, g, trax_no_bounds); CHECK(o >= 0 && o <= 1, "overlap", fmt("the overlap is %g", o)); } } }
}
static void prop_use(const char* k, const char* v, const void* o) { touch(k, strlen(k)); touch(v, strlen(v)); ((std::vector<std::string>*) o)->push_back(k); }
static void use_props(trax_properties* p) {
    std::vector<std::string> keys; trax_properties_enumerate(p, prop_use, &keys); CHECK((int) keys.size() == trax_properties_count(p), "count", "properties are miscounted"); used_props += keys.size();
    for (auto& k : keys) { CHECK(valid_key(k), "key", "an invalid key was stored: " + show(k)); char* v = trax_properties_get(p, k.c_str()); CHECK(v, "key", "an enumerated key has no value"); free(v); sink += trax_properties_get_int(p, k.c_str(), 3) + (int64_t) (trax_properties_get_float(p, k.c_str(), 2) > 0); trax_properties_set(p, k.c_str(), "x"); }
    trax_properties* c = trax_properties_copy(p); trax_properties_append(p, c, 1); trax_properties_release(&c); trax_properties_clear(p);
}
static void use_image(trax_image* p) { if (!p) return; used_images++; Image g = from_lib(p); touch(g.data.data(), g.data.size()); if (g.type == TRAX_IMAGE_MEMORY) { CHECK(g.w > 0 && g.h > 0, "image", g.str()); touch(trax_image_write_memory_row(p, g.h - 1), (size_t) g.w * pixel(g.format)); } }
static void use_objects(trax_object_list* l) {
    if (!l) return; trax_region* last = NULL; int n = trax_object_list_count(l);
    for (int i = 0; i < n; i++) { trax_region* g = trax_object_list_get(l, i); if (i < 6) use_region(g, last); last = g; if (i < 20) use_props(trax_object_list_properties(l, i)); }
    if (n < 50) { trax_object_list* c = trax_object_list_create(1); trax_object_list_append(c, l); trax_object_list_append(c, c); trax_object_list_release(&c); }
}
// Masks and boxes that would need gigabytes are left out: memory is not what is checked here
static bool greedy(const std::string& s) { size_t i = 0; while ((i = s.find("mask:", i)) != std::string::npos) { i += 5; double v[4] = {0, 0, 0, 0}; const char* p = s.c_str() + i; for (int k = 0; k < 4; k++) { char* e; v[k] = strtod(p, &e); p = e; if (*p == ',') p++; } if (fabs(v[2] * v[3]) > 4e6 && fabs(v[2] * v[3]) < 4.3e9) return true; } return false; }

// setup: bits choose the role, the rest is the stream of the peer
struct Setup { int role = 0; /* 0 server sot, 1 server mot, 2 client */ int version = 3; int channels = 1; bool log = false; int reply = 0; };
static void ignore_log(const char* s, int n, void* d) { if (s) touch(s, n); ++*(long*) d; }
static void peer(const Setup& u, const std::string& stream) {
    if (greedy(stream)) return;
    long logged = 0; trax_logging log = u.log ? trax_logger_setup(ignore_log, &logged, 0) : trax_no_log; int in = memory_file(stream), out = memfd_create("out", MFD_CLOEXEC); long lines = std::count(stream.begin(), stream.end(), '\n') + 2; trax_handle* h = NULL;
    struct Guard { trax_handle*& h; int in, out; ~Guard() { if (h) trax_cleanup(&h); close(in); close(out); } } guard{h, in, out};
    if (u.role < 2) {
        Meta m; m.images = ALL_IMAGES; m.regions = GEOMETRY; m.channels = u.channels; m.flags = u.role ? TRAX_METADATA_MULTI_OBJECT : 0; trax_metadata* md = m.to_lib(); h = trax_server_setup_file_v(md, in, out, log, u.role ? 4 : u.version); trax_metadata_release(&md); CHECK(h, "setup", "the server could not be set up");
        bool mot = u.role || u.version >= 4; int errors = 0, ended = 0;
        for (long k = 0; ; k++) {
            CHECK(k <= 2 * lines + 10, "endless", fmt("%ld reports for %ld lines", k, lines));
            Props p; trax_image_list* il = NULL; trax_object_list* ol = NULL; trax_region* g = NULL; int c = mot ? trax_server_wait_mot(h, &il, &ol, p) : trax_server_wait_sot(h, &il, &g, p); reports++;
            CHECK(c == TRAX_ERROR || c == TRAX_QUIT || c == TRAX_INITIALIZE || c == TRAX_FRAME, "outcome", fmt("a server reported %d", c));
            struct Drop { trax_image_list* l; trax_object_list* o; trax_region* g; ~Drop() { if (l) { trax_image_list_clear(l); trax_image_list_release(&l); } if (o) trax_object_list_release(&o); if (g) trax_region_release(&g); } } drop{il, ol, g};
            if (c == TRAX_ERROR) { refusals++; CHECK(trax_get_error(h), "no-reason", "an error without a reason"); touch(trax_get_error(h), strlen(trax_get_error(h))); if (!trax_is_alive(h) || ++errors > lines || (lseek(in, 0, SEEK_CUR) >= (off_t) stream.size() && ++ended > 5000)) break; continue; }
            use_props(p); if (il) for (int i : {1, 2, 4}) use_image(trax_image_list_get(il, i)); use_region(g, NULL); use_objects(ol);
            if (c == TRAX_INITIALIZE) CHECK(mot ? ol != NULL : g != NULL, "no-object", "an initialization without an object");
            if (c == TRAX_QUIT) break;
            if (u.reply == 1 && k % 2) { trax_server_reply_sot(h, NULL, NULL); }
            if (mot) { trax_object_list* r = trax_object_list_create(ol ? trax_object_list_count(ol) : 1); trax_server_reply_mot(h, r); trax_object_list_release(&r); } else { trax_region* r = g ? trax_region_clone(g) : trax_region_create_special(1); trax_server_reply_sot(h, r, p); trax_region_release(&r); }
        }
    } else {
        h = trax_client_setup_file(in, out, log); reports++;
        if (!h) { refusals++; return; }
        trax_metadata* md = h->metadata; for (const char* s : {md->tracker_name, md->tracker_description, md->tracker_family}) if (s) touch(s, strlen(s)); use_props(md->custom);
        CHECK(!(md->channels & ~7) && !(md->format_region & ~GEOMETRY) && !(md->format_image & ~ALL_IMAGES), "metadata", fmt("unknown capabilities %d %d %d", md->channels, md->format_region, md->format_image));
        Images im; for (int c : channels_of(md->channels)) { Image x; x.type = md->format_image & TRAX_IMAGE_PATH ? TRAX_IMAGE_PATH : TRAX_IMAGE_URL; x.data = "x"; im[c] = x; }
        int alive = u.reply + 1; int errors = 0, ended = 0;
        for (long k = 0; ; k++) {
            CHECK(k <= 2 * lines + 10, "endless", fmt("%ld reports for %ld lines", k, lines));
            IL l(im); Props p; OL o(Objects(k ? 0 : alive, Object{rect(1, 2, 3, 4), Map()})); if (errors == 0) { int c = k ? trax_client_frame(h, l, NULL, NULL) : trax_client_initialize(h, l, o, NULL); if (c == TRAX_ERROR && k == 0 && alive > 1) { OL one(Objects(1, Object{rect(1, 2, 3, 4), Map()})); trax_client_initialize(h, l, one, NULL); alive = 1; } }
            trax_object_list* ol = NULL; int c = trax_client_wait(h, &ol, p); reports++; struct Drop { trax_object_list* o; ~Drop() { if (o) trax_object_list_release(&o); } } drop{ol};
            CHECK(c == TRAX_ERROR || c == TRAX_QUIT || c == TRAX_STATE, "outcome", fmt("a client reported %d", c));
            if (c == TRAX_ERROR) { refusals++; if (!trax_is_alive(h) || ++errors > lines || (lseek(in, 0, SEEK_CUR) >= (off_t) stream.size() && ++ended > 5000)) break; continue; }
            use_props(p); use_objects(ol); if (c == TRAX_QUIT) break; CHECK(ol && trax_object_list_count(ol) == alive, "objects", "a state without the objects"); errors = 0;
        }
        const char* e = trax_get_error(h); if (e) touch(e, strlen(e));
    }
    trax_terminate(h, "end"); int rc = trax_cleanup(&h); (void) rc; CHECK(!h, "cleanup", "cleanup left the handle");
}

#ifdef VH_FUZZER
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n) {
    if (n < 2) return 0; Setup u; u.role = d[0] % 3; u.version = 1 + d[0] / 3 % 4; u.reply = d[0] / 16 % 3; u.log = d[0] & 128; u.channels = d[1] % 7 + 1; std::string s((const char*) d + 2, n - 2);
    static const std::string hello = PREFIX + "hello \"trax.version=4\" \"trax.multiobject=1\" \"trax.region=rectangle;polygon;mask;\" \"trax.image=path;memory;buffer;url;\" \"trax.channels=color;\" \n"; if (u.role == 2 && !(d[1] & 128)) s = hello + s;
    try { peer(u, s); } catch (Stop& e) { fprintf(stderr, "FAIL %s: %s\n", e.key.c_str(), e.msg.c_str()); abort(); } return 0; }
#else
static std::string hostile_number(Rng& r) { return r.chance(50) ? fmt("%d", r.range(-50, 200)) : r.pick(std::vector<std::string>{"0", "-1", "1e9", "-1e9", "2147483647", "-2147483648", "2147483648", "1e30", "-1e30", "3.4e38", "1e300", "nan", "inf", "-inf", "-nan", "1e-30", "", "0.5", "46340", "46341", "65536", "4294967296", "99999999999999999999999999", "1.5.2", "0x7f", " ", "1e-400", "-0.49", "16777217"}); }
static std::string hostile_region(Rng& r) {
    switch (r.below(8)) { case 0: { std::string s; int n = r.pick(std::vector<int>{1, 2, 4, 5, 6, 8, 10, 1000}); for (int i = 0; i < n; i++) s += (i ? "," : "") + hostile_number(r); return s; } case 1: { std::string s = fmt("mask:%s,%s,%s,%s", hostile_number(r).c_str(), hostile_number(r).c_str(), hostile_number(r).c_str(), hostile_number(r).c_str()); int n = r.below(8); for (int i = 0; i < n; i++) s += "," + hostile_number(r); return s; }
        case 2: { int w = r.range(1, 60), h = r.range(1, 60); std::string s = fmt("mask:%s,%s,%d,%d", hostile_number(r).c_str(), hostile_number(r).c_str(), w, h); int n = r.below(20); for (int i = 0; i < n; i++) s += fmt(",%d", r.range(0, 1 + w * h / 4)); return s; }
        case 3: { std::string s; int n = r.range(3, 9); double scale = pow(10, r.range(0, 12)); for (int i = 0; i < 2 * n; i++) s += fmt("%s%.3f", i ? "," : "", (r.unit() - 0.5) * scale); return s; } case 4: return r.pick(std::vector<std::string>{"", ",", ",,,", "rect:", "poly:1,2", "special:", "mask:", "0,0,0,0", "1,1,-5,-5", "0,0,1e9,1e9", "a,b,c,d", "special:nan", "1,1,1,1,1,1", "0,0,0,0,0,0", "mask:0,0,1,1,0,1", "mask:-2147483648,-2147483648,3,3,0,9", "mask:2147483640,0,5,5,0,25"});
        default: return text(gen_region(r, ALL_REGIONS)); } }
static std::string hostile_image(Rng& r) {
    switch (r.below(7)) { case 0: return fmt("image:%s;%s;%s;", hostile_number(r).c_str(), hostile_number(r).c_str(), r.pick(std::vector<std::string>{"rgb", "gray8", "gray16", "x", ""}).c_str()) + (r.chance(50) ? b64(gen_bytes(r, r.below(40))) : gen_text(r, 30)); case 1: { Image g = gen_image(r, TRAX_IMAGE_MEMORY); std::string s = uri(g); if (r.chance(60)) s.erase(s.size() - r.below(5) - 1); if (r.chance(40)) s += r.pick(std::vector<std::string>{"=", "==", "A", "\xff", "===="}); return s; } case 2: return "data:" + r.pick(std::vector<std::string>{"image/png;", "image/jpeg;base64;", "image/png;base64;", ";", "image/jpeg", "image/png;;"}) + (r.chance(50) ? b64(gen_bytes(r, r.below(40))) : gen_text(r, 30)); case 3: return gen_text(r, 60); case 4: return r.pick(std::vector<std::string>{"", ":", "file:", "file:/", "file://", "file:///", "image:", "image:1", "image:1;", "image:1;1", "image:1;1;", "image:1;1;gray8", "image:1;1;gray8;", "data:", "data:;", "abcdefghijklmnopqrstuvwxyz:", "image:1;1;gray8;A", "image:1;1;gray8;AA", "image:1;1;gray8;AA==", "image:3;1;gray8;AAAA", "image:2147483647;2147483647;rgb;AAAA", "image:1;1;" + std::string(40, 'g') + ";AA=="}); default: return uri(gen_image(r, ALL_IMAGES)); } }
static std::string hostile_prop(Rng& r) { static const std::vector<std::string> k = {"trax.version", "trax.multiobject", "trax.region", "trax.image", "trax.channels", "trax.name", "trax.objects", "trax.reason", "trax.description", "trax.family", "a", ""}; return (r.chance(60) ? r.pick(k) : gen_key(r)) + "=" + (r.chance(40) ? hostile_number(r) : r.chance(30) ? r.pick(std::vector<std::string>{"color;depth;ir;", "color", "xyz", ";;;", "path;memory;buffer;url", "rectangle;polygon;mask", "rectangle;rectangle", ",", "color depth"}) : gen_text(r, 50)); }
static std::string hostile_stream(Rng& r, int role, int channels, bool mot) {
    std::string s; int n = r.range(1, 8); int nargs = channels_of(channels).size();
    if (role == 2 && r.chance(92)) { std::vector<std::string> p = {"trax.version=" + std::string(r.chance(80) ? fmt("%d", r.range(1, 4)) : hostile_number(r)), "trax.region=rectangle;polygon;mask;", "trax.image=path;memory;buffer;url;"}; if (r.chance(50)) p.push_back("trax.multiobject=1"); for (int k = r.below(4); k > 0; k--) p.push_back(hostile_prop(r)); s += PREFIX + "hello"; for (auto& x : p) s += " " + quote(x); s += " \n"; }
    for (int i = 0; i < n; i++) {
        int roll = r.below(100); std::string type = role == 2 ? (roll < 80 ? "state" : roll < 90 ? "quit" : r.pick(std::vector<std::string>{"hello", "frame", "initialize", "status", "x"})) : (roll < 45 || (i == 0 && roll < 85) ? "initialize" : roll < 85 ? "frame" : r.pick(std::vector<std::string>{"quit", "hello", "state", "fram", "initialize"}));
        std::vector<std::string> a; int extra = r.chance(15) ? r.range(-2, 3) : 0, objects = mot && type == "initialize" ? r.pick(std::vector<int>{0, 1, 1, 2, 5}) : 1;
        if (role == 2) { int k = mot ? r.pick(std::vector<int>{1, 1, 2, 3}) : 1; for (int j = 0; j < k + extra; j++) { a.push_back(hostile_region(r)); for (int q = r.below(3); q > 0; q--) a.push_back(hostile_prop(r)); } }
        else { for (int j = 0; j < nargs + std::min(extra, 0); j++) a.push_back(hostile_image(r)); if (type == "initialize" || r.chance(mot ? 50 : 5)) for (int j = 0; j < objects; j++) { a.push_back(hostile_region(r)); for (int q = r.below(3); q > 0; q--) a.push_back(hostile_prop(r)); } for (int j = 0; j < extra; j++) a.push_back(hostile_region(r)); }
        for (int q = r.below(3); q > 0; q--) a.push_back(hostile_prop(r));
        std::string l = PREFIX + type; for (auto& x : a) l += " " + (r.chance(90) ? quote(x) : x); l += " \n"; if (r.chance(8)) l = gen_text(r, 100) + "\n"; s += l;
    }
    if (r.chance(50)) for (int k = r.range(1, 6); k > 0 && s.size(); k--) { size_t p = r.below(s.size()); switch (r.below(8)) { case 0: s.erase(p, 1 + r.below(4)); break; case 1: s.insert(p, 1, (char) r.range(0, 255)); break; case 2: s[p] = (char) r.range(0, 255); break; case 3: s.insert(p, r.pick(std::vector<std::string>{"\"", "\\", "\n", " ", PREFIX, std::string(1, '\0'), "=", ";", ",", "\r\n", "\\\""})); break; case 4: s.insert(p, s.substr(r.below(s.size()), r.below(40))); break; case 5: s.insert(p, std::string(r.pick(std::vector<int>{63, 64, 65, 255, 1023, 1024, 1025, 4096, 70000}), r.pick(std::vector<char>{'a', '"', '\\', ' ', '=', '@', '1', ','}))); break; case 6: { size_t q = s.find_first_of("0123456789", p); if (q != std::string::npos) { size_t e = s.find_first_not_of("0123456789.", q); s.replace(q, (e == std::string::npos ? s.size() : e) - q, hostile_number(r)); } break; } case 7: s.resize(p); break; } }
    return s;
}
static void run(Ctx& cx, const Setup& u, const std::string& s) {
    used_regions = used_images = used_props = reports = refusals = 0; cx.log("role %d version %d channels %d: %s", u.role, u.version, u.channels, show(s, 20000).c_str());
    try { peer(u, s); } catch (Stop& e) { cx.fail(e.key, e.msg + fmt(", role %d version %d channels %d: [%s]", u.role, u.version, u.channels, show(s, 1500).c_str())); }
    cx.eval(reports); cx.ev("bytes received", s.size()); cx.ev("reports", reports); cx.ev("refusals", refusals); cx.ev("regions used", used_regions); cx.ev("images used", used_images); cx.ev("properties used", used_props); if (reports > 1) { cx.state(mix(hash_of(s), u.role)); if (cx.rng.chance(1)) cx.sample(fmt("role %d version %d, %zu reports: ", u.role, u.version, (size_t) reports) + show(s, 160)); }
}
static void p08_hostile(Ctx& cx) { Rng& r = cx.rng; Setup u; u.role = r.below(3); u.version = r.range(1, 4); u.channels = r.chance(60) ? 1 : r.range(1, 7); u.log = r.chance(20); u.reply = r.below(3); bool mot = u.role == 1 || (u.role == 2 ? r.chance(50) : u.version == 4); run(cx, u, hostile_stream(r, u.role, u.channels, mot)); }
static void p08_long(Ctx& cx) { // streams without an end in sight
    Rng& r = cx.rng; Setup u; u.role = r.below(3); u.version = r.range(1, 4); std::string head = u.role == 2 ? PREFIX + "hello \"trax.version=4\" \n" : PREFIX + "initialize \"file://x\" \"1,2,3,4\" \n", s = r.chance(70) ? head : ""; size_t n = r.range(100000, cx.thorough ? 6000000 : 1500000);
    switch (r.below(8)) { case 0: s += std::string(n, r.pick(std::vector<char>{'a', '@', ' ', '\n', '\\', '"', '\0', '\xff'})); break; case 1: s += PREFIX + "state \"" + std::string(n, r.pick(std::vector<char>{'a', ' ', ',', '1', '='})); break; case 2: s += PREFIX + "frame \"" + std::string(n, 'x') + "\" \n"; break; case 3: { s += PREFIX + (u.role == 2 ? "state \"1,2,3,4\"" : "frame \"file://x\""); for (size_t i = 0; i < n / 60; i++) s += fmt(" \"key%zu=%zu\"", i % 5000, i); s += "\n"; break; } case 4: { s += PREFIX + "state"; for (size_t i = 0; i < n / 50; i++) s += " \"1,2,3,4\""; s += "\n"; break; } case 5: { std::string p; for (size_t i = 0; i < n / 60; i++) p += fmt("%d,", r.range(0, 300)); s += PREFIX + (u.role == 2 ? "state \"" : "initialize \"file://x\" \"") + p + "1\" \n"; break; } case 6: { for (size_t i = 0; i < n / 100; i++) s += PREFIX + "\n"; break; } case 7: { std::string p = "mask:0,0,1000,1000"; for (size_t i = 0; i < n / 100; i++) p += fmt(",%d", r.range(0, 60)); s += PREFIX + (u.role == 2 ? "state \"" : "initialize \"file://x\" \"") + p + "\" \n"; break; } }
    run(cx, u, s); cx.ev("long streams"); }
static void p08_blob(Ctx& cx) { Rng& r = cx.rng; Setup u; u.role = r.below(3); u.version = r.range(1, 4); std::string s; int n = r.below(400); static const std::string a = std::string("@@TRAX:\n\n  \"\"\"\\\\==;,.:0123456789-einfrmstaqulohmask\xff", 50); for (int i = 0; i < n; i++) s += r.chance(10) ? PREFIX + r.pick(std::vector<std::string>{"hello ", "state ", "frame ", "initialize ", "quit "}) : std::string(1, a[r.below(a.size())]); run(cx, u, (r.chance(50) ? u.role == 2 ? PREFIX + "hello \"trax.version=2\" \n" : PREFIX + "initialize \"x\" \"1,2,3,4\" \n" : "") + s); }
// regions from text used with everything the library offers
static void p08_regions(Ctx& cx) { Rng& r = cx.rng; std::string s = hostile_region(r), t = hostile_region(r); if (greedy(s) || greedy(t)) return; used_regions = 0; cx.log("%s and %s", show(s).c_str(), show(t).c_str()); R a(trax_region_decode(s.c_str())), b(trax_region_decode(t.c_str())); try { use_region(a, b); use_region(b, a); } catch (Stop& e) { cx.fail(e.key, e.msg + ": " + show(s) + " and " + show(t)); } cx.ev("regions used", used_regions); cx.eval(); if (a.p || b.p) cx.state(mix(hash_of(s), hash_of(t))); }
static void p08_seed(Ctx& cx) { Rng& r = cx.rng; int role = r.below(3), version = r.range(1, 4), reply = r.below(3), channels = r.chance(60) ? 1 : r.range(1, 7); unsigned char d0 = 0; for (int k = 0; k < 128; k++) if (k % 3 == role && k / 3 % 4 == version - 1 && k / 16 % 3 == reply) { d0 = k; break; } std::string s = hostile_stream(r, role, channels, role == 1 || (role == 2 ? r.chance(50) : version == 4)); if (s.size() > 4000) s.resize(4000);
    std::string path = fmt("%s/s%llu", getenv("VH_SEEDS") ? getenv("VH_SEEDS") : ".", (unsigned long long) r.next()); FILE* f = fopen(path.c_str(), "wb"); if (!f) abort(); fputc(d0, f); fputc((channels - 1) | 128, f); fwrite(s.data(), 1, s.size(), f); fclose(f); cx.eval(); }
vh::Harness vh::make_harness(const std::string& mode) {
    Harness h;
    if (mode == "P08") h.scenarios = {{"hostile messages", 30, p08_hostile, true}, {"blobs", 8, p08_blob, true}, {"regions", 12, p08_regions, true}};
    if (mode == "P08l") h.scenarios = {{"long streams", 1, p08_long, true}};
    if (mode == "P08v") h.scenarios = {{"hostile messages", 6, p08_hostile, false}, {"regions", 3, p08_regions, false}, {"blobs", 1, p08_blob, false}};
    if (mode == "P08seeds") h.scenarios = {{"seeds", 1, p08_seed, false}};
    return h;
}
#endif
