// P07 images, P12 properties, P13 image and object lists
#include "sess.h"
#include <thread>
#include <memory>
using namespace ref; using namespace vh;

// ------------------------------------------------------------------------------------------- P07
static const std::vector<int> FORMATS = {TRAX_IMAGE_MEMORY_GRAY8, TRAX_IMAGE_MEMORY_GRAY16, TRAX_IMAGE_MEMORY_RGB};
static void p07_rows(Ctx& cx) { // accessors of one image against a model of its bytes
    Rng& r = cx.rng; int f = r.pick(FORMATS), w = r.chance(5) ? r.range(500, 3000) : r.chance(30) ? r.range(1, 4) : r.range(1, 70), h = r.chance(5) ? r.range(200, 1500) : r.chance(30) ? r.range(1, 4) : r.range(1, 70); size_t n = (size_t) w * pixel(f);
    trax_image* p = trax_image_create_memory(w, h, f); std::vector<std::string> rows(h); std::vector<int> order; for (int i = 0; i < h; i++) order.push_back(i); for (int i = h - 1; i > 0; i--) std::swap(order[i], order[r.below(i + 1)]);
    try {
    int ww = -1, hh = -1, ff = -1; trax_image_get_memory_header(p, &ww, &hh, &ff); REQUIRE(cx, trax_image_get_type(p) == TRAX_IMAGE_MEMORY && ww == w && hh == h && ff == f, "header", "created %dx%d format %d, header says %dx%d format %d", w, h, f, ww, hh, ff);
    for (int j : order) { rows[j] = gen_bytes(r, n); char* d = trax_image_write_memory_row(p, j); memcpy(d, rows[j].data(), n); }
    for (int k = r.below(20); k > 0; k--) { int j = r.below(h), x = r.below(n); char c = (char) r.range(0, 255); trax_image_write_memory_row(p, j)[x] = c; rows[j][x] = c; cx.ev("single bytes written"); }
    for (int j = 0; j < h; j++) REQUIRE(cx, !memcmp(trax_image_get_memory_row(p, j), rows[j].data(), n) && trax_image_write_memory_row(p, j) == trax_image_get_memory_row(p, j), "rows", "row %d of a %dx%d image of format %d does not have the bytes that were written", j, w, h, f);
    } catch (...) { trax_image_release(&p); throw; }
    trax_image_release(&p); REQUIRE(cx, !p, "not-cleared", "release left the pointer"); cx.ev("rows compared", h); cx.state(mix(mix(w, h), f));
}
static void p07_kinds(Ctx& cx) { // what is given is copied, whatever its contents are
    Rng& r = cx.rng; Image g = gen_image(r, ALL_IMAGES); I a(g);
    if (g.type == TRAX_IMAGE_BUFFER && r.chance(30)) { g.data = (r.chance(50) ? std::string("\xff\xd8\xff") + (char) r.range(0, 255) : std::string("\x89PNG", 4)) + gen_bytes(r, r.chance(20) ? r.below(70000) : r.below(9) + 1); g.format = g.data[0] == '\xff' ? TRAX_IMAGE_BUFFER_JPEG : TRAX_IMAGE_BUFFER_PNG; }
    std::unique_ptr<char[]> tmp(new char[g.data.size() + 1]); memcpy(tmp.get(), g.data.data(), g.data.size()); tmp[g.data.size()] = 0; trax_image* p = NULL;
    switch (g.type) { case TRAX_IMAGE_PATH: p = trax_image_create_path(tmp.get()); break; case TRAX_IMAGE_URL: p = trax_image_create_url(tmp.get()); break; case TRAX_IMAGE_BUFFER: p = trax_image_create_buffer(g.data.size(), tmp.get()); break; default: p = to_lib(g); }
    memset(tmp.get(), 'Z', g.data.size() + 1); tmp.reset(); Image h = from_lib(p); trax_image_release(&p);
    REQUIRE(cx, h == g, "copy", "%s was stored as %s", g.str().c_str(), h.str().c_str()); cx.ev("images stored"); cx.state(mix(g.shape(), hash_of(g.data)));
}
// One image of any kind and size through a session, the client in a thread of its own (messages exceed all buffers)
static void p07_session(Ctx& cx) {
    Rng& r = cx.rng; int version = r.pick(std::vector<int>{1, 2, 3, 4}); Meta m; m.images = r.chance(60) ? ALL_IMAGES : r.pick(std::vector<int>{TRAX_IMAGE_PATH, TRAX_IMAGE_URL, TRAX_IMAGE_MEMORY, TRAX_IMAGE_BUFFER, TRAX_IMAGE_MEMORY | TRAX_IMAGE_PATH, TRAX_IMAGE_BUFFER | TRAX_IMAGE_URL}); m.channels = version == 1 ? TRAX_CHANNEL_COLOR : r.range(1, 7); m.regions = GEOMETRY;
    bool big = r.chance(4); Session s; s.open(r.chance(20) && !big, m, version); REQUIRE(cx, s.c && s.s, "no-session", "the handshake failed");
    int steps = r.range(1, 3); Region g0 = rect(1, 2, 3, 4); int kinds = r.chance(70) ? m.images : ALL_IMAGES; int given = r.chance(80) ? m.channels : r.range(0, 7);
    for (int k = 0; k < steps; k++) {
        Images im = gen_images(r, given, kinds);
        if (big) for (auto& e : im) { if (e.second.type == TRAX_IMAGE_MEMORY) { Image& g = e.second; g.w = r.range(100, 900); g.h = r.range(100, 600); g.data = gen_bytes(r, (size_t) g.w * g.h * pixel(g.format)); } else if (e.second.type == TRAX_IMAGE_BUFFER) e.second.data += gen_bytes(r, r.below(1500000)); }
        bool complete = (given & m.channels) == m.channels, legal = true; Images want; for (int c : channels_of(m.channels)) if (im.count(c)) { want[c] = im[c]; if (!(im[c].type & m.images)) legal = false; }
        int rc = 0; std::string err; { IL l(im); Props p; OL o(Objects{{g0, Map()}}); auto send = [&] { rc = k ? trax_client_frame(s.c, l, NULL, p) : trax_client_initialize(s.c, l, o, p); const char* e = trax_get_error(s.c); err = e ? e : ""; };
          Got g; if (big && complete) { std::thread t(send); g = server_wait(s.s, s.mot); t.join(); } else { send(); if (complete && rc == TRAX_OK) g = server_wait(s.s, s.mot); }
          if (!complete) { REQUIRE(cx, rc == TRAX_ERROR && err.size(), "missing-channel", "images for channels %d were accepted for channels %d (%d)", given, m.channels, rc); std::string sent = s.a ? drain(s.a->r) : ""; REQUIRE(cx, sent.empty(), "missing-channel-sent", "[%s] was sent", show(sent).c_str()); cx.ev("missing channels refused"); cx.state(mix(given, m.channels)); return; }
          REQUIRE(cx, rc == TRAX_OK, "send", "sending failed: %s", err.c_str());
          if (!legal) { REQUIRE(cx, g.code == TRAX_ERROR && g.images.empty() && g.error.size(), "undeclared-kind", "a server that supports %d received %s (%d)", m.images, show_images(g.images).c_str(), g.code); cx.ev("undeclared kinds refused"); cx.state(mix(77, hash_of(show_images(want)))); return; }
          REQUIRE(cx, g.code == (k ? TRAX_FRAME : TRAX_INITIALIZE), "message", "the server reported %d: %s", g.code, g.error.c_str());
          REQUIRE(cx, g.images == want, "delivery", "sent %s received %s", show_images(want).c_str(), show_images(g.images).c_str());
          for (auto& e : want) { cx.ev(fmt("delivered kind %d", e.second.type).c_str()); cx.ev("bytes", e.second.data.size()); cx.state(mix(mix(e.second.shape(), e.first), e.second.data.size())); } }
        R reg(g0); Props p; OL o(Objects{{g0, Map()}}); int q = s.mot ? trax_server_reply_mot(s.s, o) : trax_server_reply_sot(s.s, reg, p); REQUIRE(cx, q == TRAX_OK && client_wait(s.c).code == TRAX_STATE, "reply", "the reply failed");
    }
}
static std::string caps(Rng& r, std::string s) { if (r.chance(20)) for (char& c : s) if (r.chance(50) && islower((unsigned char) c)) c -= 32; return s; }
static char foreign(Rng& r) { for (;;) { unsigned char c = r.range(1, 255); if (!isalnum(c) && c != '+' && c != '/' && c != '=') return (char) c; } } // not a letter of the encoding
static void p07_text(Ctx& cx) { // a raw client writes the image, well-formed or not
    Rng& r = cx.rng; Image g; std::string s; bool ok = true; int kind = r.below(10);
    if (kind < 4) { g = gen_image(r, TRAX_IMAGE_MEMORY); std::string f = g.format == TRAX_IMAGE_MEMORY_RGB ? "rgb" : g.format == TRAX_IMAGE_MEMORY_GRAY8 ? "gray8" : "gray16"; std::string d = g.data; std::string w = fmt("%d", g.w), h = fmt("%d", g.h);
        switch (r.below(12)) { case 0: d += (char) r.range(0, 255); ok = false; break; case 1: d.pop_back(); ok = false; break; case 2: f = r.pick(std::vector<std::string>{"gray", "rgba", "bgr", "", "gray32", "gray8x", "xrgb", "rgb "}); ok = false; break; case 3: w = r.pick(std::vector<std::string>{"0", "-1", "", "99999", "65536", "4294967297", "2147483648", "99999999999999999999"}); ok = false; break; case 4: h = r.pick(std::vector<std::string>{"0", "-3", "", "99999", "65536", "4294967297", "99999999999999999999"}); ok = false; break; case 5: w += r.pick(std::vector<std::string>{",", "x", ":", " ", ";", ".0", ";;"}); ok = false; break; case 6: h += r.pick(std::vector<std::string>{",", "x", ":", " ", ";", ".0"}); ok = false; break; default: break; }
        s = "image:" + w + ";" + h + ";" + caps(r, f) + ";"; std::string e = b64(d); if (ok && r.chance(15)) { size_t at = r.below(e.size()); e[at] = r.chance(10) ? '=' : foreign(r); ok = e == b64(d); } s += e;
        if (ok && r.chance(5)) { s = s.substr(0, s.rfind(';')); ok = false; } }
    else if (kind < 7) { g = gen_image(r, TRAX_IMAGE_BUFFER); std::string f = g.format == TRAX_IMAGE_BUFFER_JPEG ? "image/jpeg" : "image/png"; std::string e = b64(g.data); switch (r.below(8)) { case 0: f = r.pick(std::vector<std::string>{"image/gif", "", "text/plain", "image/jpg", "image/jpegx", "png"}); ok = false; break; case 1: e = ""; ok = false; break; case 2: { size_t at = r.below(e.size()); e[at] = foreign(r); ok = false; break; } default: break; }
        s = "data:" + caps(r, f) + ";" + (r.chance(50) ? "base64;" : "") + e; }
    else { g = gen_image(r, r.chance(50) ? TRAX_IMAGE_PATH : TRAX_IMAGE_URL); if (g.type == TRAX_IMAGE_PATH && (g.data.empty() || g.data[0] != '/')) g.data = "/" + g.data; s = g.type == TRAX_IMAGE_URL ? g.data : (r.chance(70) ? "file://" : "file:") + g.data; if (g.type == TRAX_IMAGE_PATH && s.compare(0, 7, "file://") == 0 && g.data.compare(0, 2, "//") == 0) s = "file://" + g.data; if (g.type == TRAX_IMAGE_PATH && s.compare(0, 7, "file://")) { if (g.data.compare(0, 2, "//") == 0) s = "file://" + g.data; } if (g.type == TRAX_IMAGE_PATH && r.chance(10) && g.data[0] == '/') s = g.data; }
    for (char& c : s) if (!c) c = '.';
    Pipe a, b; Meta m; m.images = ALL_IMAGES; trax_metadata* md = m.to_lib(); trax_handle* h = trax_server_setup_file_v(md, a.r, b.w, trax_no_log, 3); trax_metadata_release(&md); REQUIRE(cx, h, "no-server", "setup failed");
    put(a.w, PREFIX + "initialize " + quote(s) + " \"1,2,3,4\" \n"); a.close_w(); Got got = server_wait(h, false); std::string err = got.error; trax_cleanup(&h);
    REQUIRE(cx, (got.code == TRAX_INITIALIZE) == ok, ok ? "refused" : "accepted", "[%s] was %s: %s %s", show(s).c_str(), ok ? "refused" : "accepted", err.c_str(), show_images(got.images).c_str());
    if (ok) { Images want; want[TRAX_CHANNEL_COLOR] = g; REQUIRE(cx, got.images == want, "meaning", "[%s] was read as %s", show(s).c_str(), show_images(got.images).c_str()); cx.ev("image texts read"); } else { REQUIRE(cx, got.images.empty() && got.code == TRAX_ERROR, "half-read", "an error still gave %s (%d)", show_images(got.images).c_str(), got.code); cx.ev("image texts refused"); }
    cx.state(hash_of(s));
}

// ------------------------------------------------------------------------------------------- P12
struct Enum { std::vector<std::pair<std::string, std::string>> v; };
static void collect(const char* k, const char* v, const void* o) { ((Enum*) o)->v.push_back({k, v}); }
static void check_props(Ctx& cx, const trax_properties* p, const Map& m, const char* after) {
    Enum e; trax_properties_enumerate(p, collect, &e); Map seen; for (auto& x : e.v) { REQUIRE(cx, !seen.count(x.first), "enumerated-twice", "%s is enumerated twice after %s", show(x.first).c_str(), after); seen[x.first] = x.second; }
    REQUIRE(cx, seen == m, "contents", "after %s the set is %s instead of %s", after, show_map(seen).c_str(), show_map(m).c_str());
    REQUIRE(cx, trax_properties_count(p) == (int) m.size(), "count", "after %s the count is %d instead of %zu", after, trax_properties_count(p), m.size());
}
static std::string gen_number_text(Rng& r) {
    switch (r.below(9)) { case 0: return fmt("%d", r.range(-1000, 1000)); case 1: return r.pick(std::vector<std::string>{"0", "-0", "+5", "2147483647", "-2147483648", "2147483648", "-2147483649", "4294967296", "99999999999999999999", "1e400", "-1e400", "1e-400"}); case 2: return fmt("%.3f", r.unit() * 2000 - 1000); case 3: return fmt("%.8g", (r.unit() - 0.5) * pow(10, r.range(-20, 20))); case 4: return r.pick(std::vector<std::string>{"", " ", "abc", "12abc", "1 2", "-", "+", ".", "1,5", "--1", "1-", "e5", "1e", "true", "1.2.3", "\n5", "5 ", "5\n"}); case 5: return r.pick(std::vector<std::string>{"nan", "inf", "-inf", "0x10", "1e3", "NAN(1)", "infinity", "0x1p3", " 7"}); default: return gen_text(r, 20); }
}
static void check_number(Ctx& cx, trax_properties* p, const std::string& k, const Map& m, Rng& r) {
    int di = r.pick(std::vector<int>{0, -1, 7, INT_MAX, INT_MIN, r.range(-100, 100)}); float df = r.range(-500, 500) / 4.0f; int gi = trax_properties_get_int(p, k.c_str(), di); float gf = trax_properties_get_float(p, k.c_str(), df);
    auto i = m.find(k); if (i == m.end()) { REQUIRE(cx, gi == di && gf == df, "number-missing", "a missing entry is %d / %g instead of the default %d / %g", gi, gf, di, df); cx.ev("defaults"); return; }
    const std::string& t = i->second; size_t at = 0, digits = 0; if (at < t.size() && (t[at] == '-' || t[at] == '+')) at++; while (at < t.size() && isdigit((unsigned char) t[at])) at++, digits++; bool integer = digits && at == t.size(); bool dec = digits > 0; if (at < t.size() && t[at] == '.') { at++; while (at < t.size() && isdigit((unsigned char) t[at])) at++, digits++; dec = digits > 0; } bool plain = dec && at == t.size();
    bool exponent = false; if (dec && !plain && (t[at] == 'e' || t[at] == 'E')) { size_t q = at + 1; if (q < t.size() && (t[q] == '-' || t[q] == '+')) q++; size_t b = q; while (q < t.size() && isdigit((unsigned char) t[q])) q++; exponent = q > b && q == t.size(); }
    std::string l = lower(t); bool open = l.find("nan") != std::string::npos || l.find("inf") != std::string::npos || l.find("0x") != std::string::npos || (t.size() && isspace((unsigned char) t[0]));
    if (plain || exponent) { double d = strtod(t.c_str(), NULL); bool fits = d > -2147483649.0 && d < 2147483648.0; if (integer || !fits || plain) REQUIRE(cx, gi == (fits ? (int) d : di), "integer", "%s is read as %d (default %d)", t.c_str(), gi, di); float f = (float) d; REQUIRE(cx, gf == f || (std::isinf(f) && (gf == df || std::isinf(gf))) , "float", "%s is read as %.9g instead of %.9g", t.c_str(), gf, f); cx.ev("numbers read"); }
    else if (!open) { REQUIRE(cx, gi == di && gf == df, "not-a-number", "[%s] is read as %d / %g instead of the default %d / %g", show(t).c_str(), gi, gf, di, df); cx.ev("defaults"); }
}
static void p12_history(Ctx& cx) {
    Rng& r = cx.rng; struct Set { trax_properties* p; Map m; }; std::vector<Set> v; struct Free { std::vector<Set>& v; ~Free() { for (auto& s : v) trax_properties_release(&s.p); } } guard{v};
    bool many = r.chance(10); int steps = many ? r.range(100, cx.thorough ? 1500 : 400) : r.range(3, 40); std::vector<std::string> keys; int nk = many ? r.range(100, 600) : r.range(1, 12); for (int i = 0; i < nk; i++) keys.push_back(r.chance(20) && i ? keys[r.below(i)].substr(0, 63) + r.pick(std::vector<std::string>{"", "a", "A", ".", "_"}) : r.chance(10) ? "trax." + gen_key(r).substr(0, 40) : gen_key(r));
    v.push_back({trax_properties_create(), Map()}); check_props(cx, v[0].p, v[0].m, "creation");
    for (int k = 0; k < steps; k++) {
        size_t n = r.below(v.size()); Set& s = v[n]; std::string key = r.pick(keys); const char* what = "?";
        if (r.chance(8)) { key = r.pick(std::vector<std::string>{"", " ", "a b", "a=b", "a\"b", "a\nb", "k\xc3\xa4", std::string(65, 'k'), std::string(1000, 'k'), "a-b", "a:b", "a\\", "tab\t", "a/b", "@", "[", "`", "{", "/", ":"}); }
        bool valid = valid_key(key);
        switch (r.below(13)) {
        case 0: case 1: case 2: case 3: { what = "set"; std::string val = s.m.count(key) && r.chance(50) ? (r.chance(50) ? s.m[key] + gen_text(r, 5) : s.m[key].substr(0, r.below(s.m[key].size() + 1))) : r.chance(40) ? gen_number_text(r) : gen_text(r, r.chance(5) ? 5000 : 60); std::unique_ptr<char[]> a(new char[key.size() + 1]), b(new char[val.size() + 1]); strcpy(a.get(), key.c_str()); strcpy(b.get(), val.c_str()); val = b.get(); trax_properties_set(s.p, a.get(), b.get()); if (valid) s.m[key] = val; memset(a.get(), '?', key.size()); memset(b.get(), '?', val.size()); cx.ev(valid ? "entries set" : "invalid keys refused"); break; }
        case 4: { what = "set_int"; int x = r.pick(std::vector<int>{0, -1, INT_MAX, INT_MIN, r.range(-100000, 100000)}); trax_properties_set_int(s.p, key.c_str(), x); if (valid) { s.m[key] = fmt("%d", x); int back = trax_properties_get_int(s.p, key.c_str(), x == 5 ? 6 : 5); REQUIRE(cx, back == x, "integer-round-trip", "%d became %d", x, back); } cx.ev("integers set"); break; }
        case 5: { what = "set_float"; float x = r.chance(20) ? r.pick(std::vector<float>{0, 1e30f, -1e30f, 3.4e38f, 1e-10f, 16777216.0f}) : (float) (r.unit() * 2000 - 1000); trax_properties_set_float(s.p, key.c_str(), x); if (valid) { s.m[key] = fmt("%f", x); float back = trax_properties_get_float(s.p, key.c_str(), x == 5 ? 6 : 5); REQUIRE(cx, fabs(back - x) <= 1e-6 * std::max(1.0f, (float) fabs(x)), "float-round-trip", "%.9g became %.9g", x, back); } cx.ev("floats set"); break; }
        case 6: { what = "get"; char* g = trax_properties_get(s.p, key.c_str()); std::string got = g ? g : ""; bool has = g != NULL; if (g) { memset(g, '#', strlen(g)); free(g); } REQUIRE(cx, has == (s.m.count(key) > 0) && (!has || got == s.m[key]), "get", "%s is [%s] instead of [%s]", show(key).c_str(), has ? show(got).c_str() : "(missing)", s.m.count(key) ? show(s.m[key]).c_str() : "(missing)"); REQUIRE(cx, (trax_properties_has(s.p, key.c_str()) != 0) == has, "has", "has disagrees for %s", show(key).c_str()); cx.ev("entries read"); break; }
        case 7: what = "number"; check_number(cx, s.p, key, s.m, r); break;
        case 8: { what = "copy"; if (v.size() >= 5) break; Set c{trax_properties_copy(s.p), s.m}; v.push_back(c); check_props(cx, c.p, c.m, "copy"); cx.ev("copies"); break; }
        case 9: { what = "append"; size_t o = r.below(v.size()); bool over = r.chance(50); trax_properties_append(v[o].p, s.p, over); Map src = v[o].m; for (auto& e : src) if (over || !s.m.count(e.first)) s.m[e.first] = e.second; check_props(cx, v[o].p, v[o].m, "append (source)"); cx.ev(o == n ? "appended to itself" : "appended"); break; }
        case 10: what = "clear"; if (r.chance(30)) { trax_properties_clear(s.p); s.m.clear(); cx.ev("cleared"); } break;
        case 11: what = "release"; if (v.size() > 1 && r.chance(50)) { trax_properties_release(&s.p); bool gone = !s.p; v.erase(v.begin() + n); REQUIRE(cx, gone, "not-cleared", "release left the pointer"); cx.ev("released"); continue; } break;
        case 12: what = "create"; if (v.size() < 5) v.push_back({trax_properties_create(), Map()}); break;
        }
        Set& t = v[r.below(v.size())]; check_props(cx, v[std::min(n, v.size() - 1)].p, v[std::min(n, v.size() - 1)].m, what); check_props(cx, t.p, t.m, what); cx.state(mix(hash_of(show_map(t.m)), r.s & 0));
    }
    for (auto& s : v) for (auto& k : keys) { char* g = trax_properties_get(s.p, k.c_str()); std::string got = g ? g : "(missing)"; free(g); REQUIRE(cx, s.m.count(k) ? got == s.m[k] : !g, "get", "%s is [%s] in the end", show(k).c_str(), show(got).c_str()); }
}

// ------------------------------------------------------------------------------------------- P13
static void p13_images(Ctx& cx) {
    Rng& r = cx.rng; struct L { trax_image_list* l; trax_image* slot[3]; Image want[3]; }; std::vector<L> v; std::vector<trax_image*> loose; // images that are in no list belong to the caller
    struct Free { std::vector<L>& v; std::vector<trax_image*>& loose; ~Free() { for (auto& x : v) { trax_image_list_clear(x.l); trax_image_list_release(&x.l); } for (auto& i : loose) trax_image_release(&i); } } guard{v, loose};
    const int id[3] = {TRAX_CHANNEL_COLOR, TRAX_CHANNEL_DEPTH, TRAX_CHANNEL_IR}; v.push_back({trax_image_list_create(), {0, 0, 0}, {}});
    int steps = r.range(2, 25); uint64_t h = 3;
    for (int k = 0; k < steps; k++) {
        size_t n = r.below(v.size()); L& x = v[n]; int c = r.below(3), op = r.below(8); h = mix(h, op * 10 + c);
        switch (op) {
        case 0: case 1: case 2: { Image g = gen_image(r, ALL_IMAGES); trax_image* p = to_lib(g); if (x.slot[c]) loose.push_back(x.slot[c]); trax_image_list_set(x.l, p, id[c]); x.slot[c] = p; x.want[c] = g; cx.ev("images set"); break; }
        case 3: if (x.slot[c]) { loose.push_back(x.slot[c]); trax_image_list_set(x.l, NULL, id[c]); x.slot[c] = NULL; x.want[c] = Image(); cx.ev("slots emptied"); } break;
        case 4: { int bad = r.pick(std::vector<int>{0, 3, 5, 6, 7, 8, -1, INT_MAX, INT_MIN, 16}); trax_image* p = to_lib(gen_image(r, ALL_IMAGES)); loose.push_back(p); trax_image_list_set(x.l, p, bad); trax_image* g = trax_image_list_get(x.l, bad); REQUIRE(cx, !g, "bad-channel", "channel %d has an image", bad); cx.ev("illegal channels"); break; }
        case 5: if (r.chance(40)) { trax_image_list_clear(x.l); for (int i = 0; i < 3; i++) { x.slot[i] = NULL; x.want[i] = Image(); } cx.ev("lists cleared"); } break;
        case 6: if (v.size() < 4) v.push_back({trax_image_list_create(), {0, 0, 0}, {}}); break;
        case 7: if (v.size() > 1) { for (auto& s : x.slot) if (s) loose.push_back(s); trax_image_list_release(&x.l); bool gone = !x.l; v.erase(v.begin() + n); REQUIRE(cx, gone, "not-cleared", "release left the pointer"); cx.ev("lists released, images kept"); } break;
        }
        for (auto& y : v) for (int i = 0; i < 3; i++) { trax_image* g = trax_image_list_get(y.l, id[i]); REQUIRE(cx, g == y.slot[i], "slot", "channel %d has another image than was stored", id[i]); if (g) REQUIRE(cx, from_lib(g) == y.want[i], "contents", "the image of channel %d changed", id[i]); }
        for (auto& i : loose) if (r.chance(10)) REQUIRE(cx, trax_image_get_type(i) != 0, "released", "an image which the caller owns was changed");
    }
    int mask = r.chance(50) ? r.below(8) : (int) (r.next() >> 33); REQUIRE(cx, trax_image_list_count(mask) == __builtin_popcount(mask), "mask-count", "count of %x is %d", mask, trax_image_list_count(mask)); cx.state(h);
}
static void p13_objects(Ctx& cx) {
    Rng& r = cx.rng; struct L { trax_object_list* l; Objects m; }; std::vector<L> v; struct Free { std::vector<L>& v; ~Free() { for (auto& x : v) trax_object_list_release(&x.l); } } guard{v};
    auto add = [&](int n) { Objects m(n); for (auto& o : m) o.region = special(0); v.push_back({trax_object_list_create(n), m}); };
    add(r.chance(15) ? 0 : r.chance(10) ? r.range(30, 300) : r.range(1, 6)); int steps = r.range(2, 30); uint64_t h = 5;
    auto check = [&](L& x, const char* after) { REQUIRE(cx, trax_object_list_count(x.l) == (int) x.m.size(), "count", "after %s the count is %d instead of %zu", after, trax_object_list_count(x.l), x.m.size()); for (size_t i = 0; i < x.m.size(); i++) { Region g = from_lib(trax_object_list_get(x.l, i)); REQUIRE(cx, g == x.m[i].region, "region", "after %s object %zu is %s instead of %s", after, i, g.str().c_str(), x.m[i].region.str().c_str()); Map p = to_map(trax_object_list_properties(x.l, i)); REQUIRE(cx, p == x.m[i].props, "properties", "after %s object %zu has %s instead of %s", after, i, show_map(p).c_str(), show_map(x.m[i].props).c_str()); } };
    for (int k = 0; k < steps; k++) {
        size_t n = r.below(v.size()); L& x = v[n]; int size = x.m.size(), i = size ? r.below(size) : 0, op = r.below(9); h = mix(h, op * 1000 + size); const char* what = "?";
        switch (op) {
        case 0: case 1: if (size) { what = "set"; Region g = gen_region(r, ALL_REGIONS); R p(g); trax_object_list_set(x.l, i, p); x.m[i].region = g; /* the list keeps a copy */ if (g.type == TRAX_REGION_RECTANGLE) trax_region_set_rectangle(p, -1, -1, -1, -1); if (g.type == TRAX_REGION_POLYGON) trax_region_set_polygon_point(p, 0, -9999, 0); if (g.type == TRAX_REGION_MASK) trax_region_write_mask_row(p, 0)[0] ^= 1; if (g.type == TRAX_REGION_SPECIAL) trax_region_set_special(p, 99); cx.ev("regions set"); } break;
        case 2: if (size) { what = "properties"; Map m = gen_props(r, 3, 30); set_all(trax_object_list_properties(x.l, i), m); for (auto& e : m) x.m[i].props[e.first] = e.second; cx.ev("properties set"); } break;
        case 3: if (size) { what = "set from a list"; L& y = v[r.below(v.size())]; if (y.m.empty()) break; int j = r.below(y.m.size()); trax_object_list_set(x.l, i, trax_object_list_get(y.l, j)); x.m[i].region = y.m[j].region; cx.ev("regions set from lists"); } break;
        case 4: case 5: { what = "append"; L& y = v[r.below(v.size())]; if (x.m.size() + y.m.size() > 600) break; Objects add = y.m; int c = trax_object_list_append(x.l, y.l); x.m.insert(x.m.end(), add.begin(), add.end()); (void) c; check(y, "append (source)"); cx.ev(&x == &y ? "appended to itself" : "appended"); break; }
        case 6: { what = "illegal index"; int bad = r.pick(std::vector<int>{-1, size, size + 1, INT_MAX, INT_MIN}); R p(rect(1, 2, 3, 4)); trax_object_list_set(x.l, bad, p); REQUIRE(cx, !trax_object_list_get(x.l, bad) && !trax_object_list_properties(x.l, bad), "bad-index", "index %d of %d has an object", bad, size); cx.ev("illegal indices"); break; }
        case 7: what = "create"; if (v.size() < 4) add(r.below(5)); break;
        case 8: what = "release"; if (v.size() > 1) { trax_object_list_release(&x.l); bool gone = !x.l; v.erase(v.begin() + n); REQUIRE(cx, gone, "not-cleared", "release left the pointer"); cx.ev("lists released"); } break;
        }
        for (auto& y : v) check(y, what);
    }
    cx.state(h);
}

vh::Harness vh::make_harness(const std::string& mode) {
    Harness h;
    if (mode == "P07") h.scenarios = {{"rows", 2, p07_rows, true}, {"kinds", 2, p07_kinds, true}, {"session", 4, p07_session, false}, {"text", 4, p07_text, true}};
    if (mode == "P12") h.scenarios = {{"history", 1, p12_history, true}};
    if (mode == "P13") h.scenarios = {{"images", 1, p13_images, true}, {"objects", 1, p13_objects, true}};
    return h;
}
