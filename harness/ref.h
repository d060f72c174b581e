// Independent reference implementation of the protocol text, regions, images and properties,
// value generators, and conversion to and from the public API of the library.
#pragma once
#include "vh.h"
#include "trax.h"
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <poll.h>

namespace ref {
using vh::Ctx; using vh::Rng; using vh::fmt; using vh::show;
typedef std::map<std::string, std::string> Map;

// ---------------------------------------------------------------- properties
inline bool valid_key(const std::string& k) {
    if (k.empty() || k.size() > 64) return false;
    for (unsigned char c : k) if (!((c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '.' || c == '_')) return false;
    return true;
}
inline void map_enum(const char* k, const char* v, const void* o) { auto* m = (std::multimap<std::string, std::string>*) o; m->insert({k, v}); }
inline Map to_map(trax_properties* p) {
    std::multimap<std::string, std::string> m; if (p) trax_properties_enumerate(p, map_enum, &m);
    Map r; for (auto& e : m) { if (r.count(e.first)) r["!!duplicate " + e.first] = e.second; r[e.first] = e.second; } return r;
}
inline void set_all(trax_properties* p, const Map& m) { for (auto& e : m) trax_properties_set(p, e.first.c_str(), e.second.c_str()); }
inline std::string show_map(const Map& m) { std::string r = "{"; for (auto& e : m) r += show(e.first, 70) + "=" + show(e.second, 60) + ", "; return r + "}"; }
struct Props { // owned property set
    trax_properties* p; Props() : p(trax_properties_create()) {} explicit Props(const Map& m) : Props() { set_all(p, m); }
    ~Props() { trax_properties_release(&p); } Props(const Props&) = delete; operator trax_properties*() { return p; } Map map() { return to_map(p); }
};

// ---------------------------------------------------------------- base64
inline std::string b64(const std::string& s) {
    static const char* t = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string r; size_t i = 0;
    for (; i + 2 < s.size(); i += 3) { unsigned v = (unsigned char) s[i] << 16 | (unsigned char) s[i+1] << 8 | (unsigned char) s[i+2];
        r += t[v >> 18]; r += t[v >> 12 & 63]; r += t[v >> 6 & 63]; r += t[v & 63]; }
    if (s.size() - i == 1) { unsigned v = (unsigned char) s[i] << 16; r += t[v >> 18]; r += t[v >> 12 & 63]; r += "=="; }
    if (s.size() - i == 2) { unsigned v = (unsigned char) s[i] << 16 | (unsigned char) s[i+1] << 8; r += t[v >> 18]; r += t[v >> 12 & 63]; r += t[v >> 6 & 63]; r += '='; }
    return r;
}

// ---------------------------------------------------------------- regions
struct Region {
    int type = TRAX_REGION_EMPTY; int code = 0; float r[4] = {0,0,0,0}; std::vector<float> px, py; int x = 0, y = 0, w = 0, h = 0; std::string bits;
    bool operator==(const Region& o) const {
        if (type != o.type) return false;
        switch (type) { case TRAX_REGION_SPECIAL: return code == o.code; case TRAX_REGION_RECTANGLE: return !memcmp(r, o.r, sizeof r) || (r[0]==o.r[0]&&r[1]==o.r[1]&&r[2]==o.r[2]&&r[3]==o.r[3]);
            case TRAX_REGION_POLYGON: return px == o.px && py == o.py; case TRAX_REGION_MASK: return x == o.x && y == o.y && w == o.w && h == o.h && bits == o.bits; }
        return true;
    }
    std::string str() const {
        std::string s;
        switch (type) { case TRAX_REGION_SPECIAL: return fmt("special(%d)", code); case TRAX_REGION_RECTANGLE: return fmt("rect(%.9g,%.9g,%.9g,%.9g)", r[0], r[1], r[2], r[3]);
            case TRAX_REGION_POLYGON: s = "poly("; for (size_t i = 0; i < px.size() && i < 12; i++) s += fmt("%.9g,%.9g;", px[i], py[i]); return s + fmt(")%zu", px.size());
            case TRAX_REGION_MASK: s = fmt("mask(%d,%d,%d,%d:", x, y, w, h); for (size_t i = 0; i < bits.size() && i < 64; i++) s += bits[i] ? '1' : '0'; return s + ")"; }
        return "empty";
    }
    uint64_t shape() const { // class of the region, for coverage
        return type * 1000 + (type == TRAX_REGION_POLYGON ? px.size() : type == TRAX_REGION_MASK ? (w > 3 ? 3 : w) * 8 + (h > 3 ? 3 : h) + 100 * (std::count(bits.begin(), bits.end(), 1) > 0) : code); }
};
inline Region special(int c) { Region g; g.type = TRAX_REGION_SPECIAL; g.code = c; return g; }
inline Region rect(float x, float y, float w, float h) { Region g; g.type = TRAX_REGION_RECTANGLE; g.r[0] = x; g.r[1] = y; g.r[2] = w; g.r[3] = h; return g; }
inline Region mask(int x, int y, int w, int h, const std::string& bits) { Region g; g.type = TRAX_REGION_MASK; g.x = x; g.y = y; g.w = w; g.h = h; g.bits = bits; return g; }
// every value other than zero is foreground: some masks are filled with other values than one
inline void fill_row(const Region& g, int row, char* to) {
    unsigned k = (unsigned) g.x * 31 + (unsigned) g.y * 17 + (unsigned) g.w * 7 + (unsigned) g.h; const char* b = g.bits.data() + (size_t) row * g.w;
    for (int i = 0; i < g.w; i++) to[i] = !b[i] ? 0 : k % 5 == 0 ? (char) 255 : k % 5 == 1 ? (char) (1 + (k + i + row) % 200) : 1;
}
inline trax_region* to_lib(const Region& g) {
    switch (g.type) {
    case TRAX_REGION_SPECIAL: return trax_region_create_special(g.code);
    case TRAX_REGION_RECTANGLE: return trax_region_create_rectangle(g.r[0], g.r[1], g.r[2], g.r[3]);
    case TRAX_REGION_POLYGON: { trax_region* p = trax_region_create_polygon(g.px.size()); for (size_t i = 0; i < g.px.size(); i++) trax_region_set_polygon_point(p, i, g.px[i], g.py[i]); return p; }
    case TRAX_REGION_MASK: { trax_region* m = trax_region_create_mask(g.x, g.y, g.w, g.h); for (int j = 0; j < g.h; j++) fill_row(g, j, trax_region_write_mask_row(m, j)); return m; }
    }
    return NULL;
}
inline Region from_lib(const trax_region* p) {
    Region g; if (!p) return g; g.type = trax_region_get_type(p);
    switch (g.type) {
    case TRAX_REGION_SPECIAL: g.code = trax_region_get_special(p); break;
    case TRAX_REGION_RECTANGLE: trax_region_get_rectangle(p, &g.r[0], &g.r[1], &g.r[2], &g.r[3]); break;
    case TRAX_REGION_POLYGON: { int n = trax_region_get_polygon_count(p); g.px.resize(n); g.py.resize(n); for (int i = 0; i < n; i++) trax_region_get_polygon_point(p, i, &g.px[i], &g.py[i]); break; }
    case TRAX_REGION_MASK: trax_region_get_mask_header(p, &g.x, &g.y, &g.w, &g.h); for (int j = 0; j < g.h; j++) { std::string row(trax_region_get_mask_row(p, j), g.w); for (char& c : row) c = c ? 1 : 0; g.bits += row; } break;
    }
    return g;
}
struct R { trax_region* p; R(trax_region* p) : p(p) {} explicit R(const Region& g) : p(to_lib(g)) {} ~R() { if (p) trax_region_release(&p); } R(const R&) = delete; operator trax_region*() { return p; } };
// the documented text form
inline std::string text(const Region& g, const char* f = "%.4f") {
    std::string s;
    switch (g.type) {
    case TRAX_REGION_SPECIAL: return fmt("%d", g.code);
    case TRAX_REGION_RECTANGLE: for (int i = 0; i < 4; i++) s += (i ? "," : "") + fmt(f, g.r[i]); return s;
    case TRAX_REGION_POLYGON: for (size_t i = 0; i < g.px.size(); i++) s += (i ? "," : "") + fmt(f, g.px[i]) + "," + fmt(f, g.py[i]); return s;
    case TRAX_REGION_MASK: { s = fmt("mask:%d,%d,%d,%d", g.x, g.y, g.w, g.h); size_t i = 0; char v = 0;
        while (i < g.bits.size()) { size_t n = 0; while (i < g.bits.size() && (g.bits[i] != 0) == (v != 0)) { n++; i++; } if (i == g.bits.size() && !v) break; s += fmt(",%zu", n); v = !v; } return s; }
    }
    return s;
}
// the region that the text of g describes: coordinates in the printed precision
inline Region printed(const Region& g) {
    Region o = g; auto q = [](float v) { return (float) strtod(fmt("%.4f", v).c_str(), 0); };
    for (float& v : o.r) v = q(v);
    for (float& v : o.px) v = q(v);
    for (float& v : o.py) v = q(v);
    return o;
}

// ---------------------------------------------------------------- images
struct Image {
    int type = 0; std::string data; int w = 0, h = 0, format = 0;
    bool operator==(const Image& o) const { return type == o.type && data == o.data && (type != TRAX_IMAGE_MEMORY || (w == o.w && h == o.h && format == o.format)) && (type != TRAX_IMAGE_BUFFER || format == o.format); }
    std::string str() const { return fmt("image(type=%d %dx%d format=%d %zu bytes: %s)", type, w, h, format, data.size(), show(data, 40).c_str()); }
    uint64_t shape() const { return type * 10000 + format * 1000 + (w > 9 ? 9 : w) * 10 + (h > 9 ? 9 : h) + (type != TRAX_IMAGE_MEMORY ? data.size() % 3 : 0); }
};
inline int pixel(int format) { return format == TRAX_IMAGE_MEMORY_RGB ? 3 : format == TRAX_IMAGE_MEMORY_GRAY16 ? 2 : 1; }
inline trax_image* to_lib(const Image& g) {
    switch (g.type) {
    case TRAX_IMAGE_PATH: return trax_image_create_path(g.data.c_str());
    case TRAX_IMAGE_URL: return trax_image_create_url(g.data.c_str());
    case TRAX_IMAGE_BUFFER: return trax_image_create_buffer(g.data.size(), g.data.data());
    case TRAX_IMAGE_MEMORY: { trax_image* m = trax_image_create_memory(g.w, g.h, g.format); size_t n = (size_t) g.w * pixel(g.format); for (int j = 0; j < g.h; j++) memcpy(trax_image_write_memory_row(m, j), g.data.data() + j * n, n); return m; }
    }
    return NULL;
}
inline Image from_lib(const trax_image* p) {
    Image g; g.type = p ? trax_image_get_type(p) : 0;
    switch (g.type) {
    case TRAX_IMAGE_PATH: g.data = trax_image_get_path(p); break;
    case TRAX_IMAGE_URL: g.data = trax_image_get_url(p); break;
    case TRAX_IMAGE_BUFFER: { int n = 0; const char* d = trax_image_get_buffer(p, &n, &g.format); g.data.assign(d, n); break; }
    case TRAX_IMAGE_MEMORY: trax_image_get_memory_header(p, &g.w, &g.h, &g.format); for (int j = 0; j < g.h; j++) g.data.append(trax_image_get_memory_row(p, j), (size_t) g.w * pixel(g.format)); break;
    }
    return g;
}
struct I { trax_image* p; explicit I(const Image& g) : p(to_lib(g)) {} ~I() { if (p) trax_image_release(&p); } I(const I&) = delete; operator trax_image*() { return p; } };
// reference of the encoding on the wire
inline std::string uri(const Image& g) {
    switch (g.type) { case TRAX_IMAGE_PATH: return "file://" + g.data; case TRAX_IMAGE_URL: return g.data;
        case TRAX_IMAGE_MEMORY: return fmt("image:%d;%d;%s;", g.w, g.h, g.format == TRAX_IMAGE_MEMORY_RGB ? "rgb" : g.format == TRAX_IMAGE_MEMORY_GRAY8 ? "gray8" : "gray16") + b64(g.data);
        case TRAX_IMAGE_BUFFER: return fmt("data:%s;", g.format == TRAX_IMAGE_BUFFER_JPEG ? "image/jpeg" : "image/png") + b64(g.data); }
    return "";
}
typedef std::map<int, Image> Images; // by channel
struct IL { // image list that owns its images
    trax_image_list* l; IL() : l(trax_image_list_create()) {}
    explicit IL(const Images& m) : IL() { for (auto& e : m) trax_image_list_set(l, to_lib(e.second), e.first); }
    explicit IL(trax_image_list* t) : l(t) {}
    ~IL() { if (l) { trax_image_list_clear(l); trax_image_list_release(&l); } } IL(const IL&) = delete; operator trax_image_list*() { return l; }
};
inline Images from_lib(const trax_image_list* l) {
    Images m; if (!l) return m;
    for (int c : {TRAX_CHANNEL_COLOR, TRAX_CHANNEL_DEPTH, TRAX_CHANNEL_IR}) { trax_image* p = trax_image_list_get(l, c); if (p) m[c] = from_lib(p); }
    return m;
}
inline std::string show_images(const Images& m) { std::string s; for (auto& e : m) s += fmt("%d:", e.first) + e.second.str() + " "; return s; }

// ---------------------------------------------------------------- objects
struct Object { Region region; Map props; bool operator==(const Object& o) const { return region == o.region && props == o.props; } };
typedef std::vector<Object> Objects;
struct OL { trax_object_list* l; OL(trax_object_list* l) : l(l) {}
    explicit OL(const Objects& v) : l(trax_object_list_create(v.size())) { for (size_t i = 0; i < v.size(); i++) { R r(v[i].region); trax_object_list_set(l, i, r); set_all(trax_object_list_properties(l, i), v[i].props); } }
    ~OL() { if (l) trax_object_list_release(&l); } OL(const OL&) = delete; operator trax_object_list*() { return l; } };
inline Objects from_lib(trax_object_list* l) { Objects v; if (!l) return v; for (int i = 0; i < trax_object_list_count(l); i++) v.push_back({from_lib(trax_object_list_get(l, i)), to_map(trax_object_list_properties(l, i))}); return v; }
inline std::string show_objects(const Objects& v) { std::string s; for (auto& o : v) s += o.region.str() + show_map(o.props) + "; "; return s; }

// ---------------------------------------------------------------- messages
struct Message { int type = -1; std::vector<std::string> args; Map props; bool operator==(const Message& o) const { return type == o.type && args == o.args && props == o.props; }
    std::string str() const { std::string s = fmt("%d(", type); for (auto& a : args) s += "[" + show(a, 80) + "] "; return s + ")" + show_map(props); } };
static const std::string PREFIX = "@@TRAX:";
inline std::string lower(std::string s) { for (char& c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
inline int type_of(const std::string& n) { std::string s = lower(n); return s == "hello" ? TRAX_HELLO : s == "initialize" ? TRAX_INITIALIZE : s == "frame" ? TRAX_FRAME : (s == "state" || s == "status") ? TRAX_STATE : s == "quit" ? TRAX_QUIT : -1; }
inline std::string name_of(int t) { return t == TRAX_HELLO ? "hello" : t == TRAX_INITIALIZE ? "initialize" : t == TRAX_FRAME ? "frame" : t == TRAX_STATE ? "state" : "quit"; }

// Parses one complete line (without its end). Returns false if the line contributes nothing.
inline bool parse_line(const std::string& l, Message& m) {
    if (l.compare(0, PREFIX.size(), PREFIX)) return false;
    size_t i = PREFIX.size(), e = i; while (e < l.size() && isalnum((unsigned char) l[e])) e++;
    if (e < l.size() && l[e] != ' ') return false;
    m = Message(); m.type = type_of(l.substr(i, e - i)); if (m.type < 0) return false;
    i = e;
    while (i < l.size()) {
        if (l[i] == ' ') { i++; continue; }
        bool quoted = l[i] == '"', closed = false, prop = false; std::string key, value; if (quoted) i++;
        while (i < l.size()) {
            char c = l[i];
            if (c == '\\') { if (i + 1 >= l.size()) return false; char d = l[i+1]; (prop ? value : key) += d == 'n' ? '\n' : d; i += 2; continue; }
            if (quoted ? c == '"' : c == ' ') { closed = true; i++; break; }
            if (c == '=' && !prop && valid_key(key) ) { prop = true; i++; continue; }
            (prop ? value : key) += c; i++;
        }
        if (quoted && !closed) return false;
        if (quoted && i < l.size() && l[i] != ' ') return false;
        if (prop) m.props[key] = value; else m.args.push_back(key);
    }
    return true;
}
// All messages of a complete stream
inline std::vector<Message> parse_stream(const std::string& s) {
    std::vector<Message> r; size_t i = 0;
    while (true) { size_t e = s.find('\n', i); if (e == std::string::npos) break; Message m; if (parse_line(s.substr(i, e - i), m)) r.push_back(m); i = e + 1; }
    return r;
}
inline std::string escape(const std::string& s, bool space = false) { std::string r; for (char c : s) { if (c == '\n') r += "\\n"; else { if (c == '"' || c == '\\' || (space && c == ' ')) r += '\\'; r += c; } } return r; }
inline std::string quote(const std::string& s) { return "\"" + escape(s) + "\""; }
inline std::string encode(const Message& m) { std::string s = PREFIX + name_of(m.type) + " "; for (auto& a : m.args) s += quote(a) + " "; for (auto& e : m.props) s += "\"" + e.first + "=" + escape(e.second) + "\" "; return s + "\n"; }
// Would the value be taken for a property by the grammar?
inline bool looks_like_property(const std::string& s) { size_t e = s.find('='); return e != std::string::npos && valid_key(s.substr(0, e)); }

// Strict check of text that the library has written: every line is exactly one message in canonical form. Returns an error or an empty string.
inline std::string check_output(const std::string& s, std::vector<Message>& out) {
    size_t i = 0;
    while (i < s.size()) {
        size_t e = s.find('\n', i); if (e == std::string::npos) return "line is not ended: " + show(s.substr(i));
        std::string l = s.substr(i, e - i); i = e + 1; Message m; bool known = false; size_t p = 0;
        for (const char* n : {"hello", "initialize", "frame", "state", "quit"}) { std::string h = PREFIX + n + " "; if (!l.compare(0, h.size(), h)) { m.type = type_of(n); p = h.size(); known = true; } }
        if (!known) return "no known message: " + show(l);
        bool seenprop = false;
        while (p < l.size()) {
            if (l[p] != '"') return "argument is not quoted: " + show(l);
            std::string raw; p++; bool closed = false; size_t eq = std::string::npos;
            while (p < l.size()) { char c = l[p++];
                if (c == '\\') { if (p >= l.size() || !(l[p] == '\\' || l[p] == '"' || l[p] == 'n')) return "bad escape: " + show(l); raw += l[p] == 'n' ? '\n' : l[p]; p++; continue; }
                if (c == '"') { closed = true; break; }
                if (c == '=' && eq == std::string::npos) eq = raw.size();
                raw += c; }
            if (!closed || p >= l.size() || l[p] != ' ') return "argument is not closed: " + show(l);
            p++;
            if (eq != std::string::npos && valid_key(raw.substr(0, eq))) { seenprop = true; std::string k = raw.substr(0, eq); if (m.props.count(k)) return "key is repeated: " + k; m.props[k] = raw.substr(eq + 1); }
            else { if (seenprop) return "argument after properties: " + show(l); m.args.push_back(raw); }
        }
        out.push_back(m);
    }
    return "";
}

// ---------------------------------------------------------------- generators
inline std::string gen_bytes(Rng& r, size_t n) { std::string s; for (size_t i = 0; i < n; i++) s += (char) r.range(0, 255); return s; }
inline std::string gen_text(Rng& r, size_t max = 200) {
    std::string s; size_t n = r.below(max + 1); if (r.chance(10)) n = 0; else if (r.chance(40)) n = r.below(12);
    switch (r.below(8)) {
    case 0: for (size_t i = 0; i < n; i++) s += "\"\\\n =n,;:"[r.below(9)]; break;
    case 1: for (size_t i = 0; i < n; i++) s += (char) r.range(1, 255); break;
    case 2: for (size_t i = 0; i < n; i++) s += (char) r.range(128, 255); break;
    case 3: for (size_t i = 0; i < n; i++) s += (char) r.range(32, 126); break;
    case 4: s = r.pick(std::vector<std::string>{"\n@@TRAX:quit \n", "@@TRAX:quit ", "\" \"x=y", "a=b", "\\", "\"", "\n", " ", "=", "\\n", "\\\"", "\xff", "\x7f\x80", "\r\n", "\t", "trax.reason=x", "\"\n@@TRAX:state \"0\" \n"}); break;
    case 5: for (size_t i = 0; i < n; i++) s += r.pick(std::vector<std::string>{"\\", "\\n", "\"", " ", "a", "\xc3\xa4", "=", "\n"}); break;
    default: for (size_t i = 0; i < n; i++) s += "abcdefghij0123456789._ -/"[r.below(25)]; break;
    }
    return s;
}
inline std::string gen_key(Rng& r) {
    static const char* a = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789._"; size_t n = r.chance(15) ? 64 - r.below(2) : r.chance(40) ? 1 + r.below(3) : 1 + r.below(20);
    std::string s; for (size_t i = 0; i < n; i++) s += a[r.below(64)];
    if (!s.compare(0, 5, "trax.")) s[0] = 'x';
    return s;
}
inline Map gen_props(Rng& r, int max = 6, size_t text = 200) { Map m; int n = r.chance(25) ? 0 : r.range(0, max); for (int i = 0; i < n; i++) m[gen_key(r)] = gen_text(r, r.chance(5) ? 6000 : text); if (max > 1 && r.below(1000) < 4) { if (r.chance(50)) m[gen_key(r)] = gen_text(r, 70000); else for (int i = r.range(7, 150); i > 0; i--) m[gen_key(r)] = gen_text(r, 30); } return m; }
inline float gen_coord(Rng& r) {
    switch (r.below(6)) { case 0: return (float) r.range(-20, 20); case 1: return r.range(-1000, 1000) / 16.0f; case 2: return (float) (r.unit() * 2000 - 1000); case 3: return (float) r.range(-100000, 100000); case 4: return (float) (r.unit() * 100); default: return (float) r.range(0, 640); }
}
inline Region gen_region(Rng& r, int types) {
    std::vector<int> t; for (int k : {TRAX_REGION_SPECIAL, TRAX_REGION_RECTANGLE, TRAX_REGION_POLYGON, TRAX_REGION_MASK}) if (types & k) t.push_back(k);
    Region g; g.type = r.pick(t);
    switch (g.type) {
    case TRAX_REGION_SPECIAL: g.code = r.chance(20) ? r.pick(std::vector<int>{INT_MAX, INT_MIN, -1}) : r.range(0, 5); break;
    case TRAX_REGION_RECTANGLE: g.r[0] = gen_coord(r); g.r[1] = gen_coord(r); g.r[2] = fabsf(gen_coord(r)) + 1; g.r[3] = fabsf(gen_coord(r)) + 1; break;
    case TRAX_REGION_POLYGON: { int n = r.below(1000) < 5 ? r.range(200, 2500) : r.chance(10) ? r.range(3, 200) : r.range(3, 8); for (int i = 0; i < n; i++) { g.px.push_back(gen_coord(r)); g.py.push_back(gen_coord(r)); } break; }
    case TRAX_REGION_MASK: { g.x = r.range(-30, 100); g.y = r.range(-30, 100); g.w = r.chance(30) ? 1 + r.below(3) : 1 + r.below(40); g.h = r.chance(30) ? 1 + r.below(3) : 1 + r.below(40); int p = r.pick(std::vector<int>{0, 3, 50, 97, 100}); if (r.below(1000) < 7) { bool huge = r.chance(25) && p != 50; g.w = r.range(40, huge ? 500 : 250); g.h = r.range(40, huge ? 400 : 250); } g.bits.resize((size_t) g.w * g.h); char c = 0; bool runs = r.chance(50); for (char& b : g.bits) { if (!runs || r.chance(20)) c = r.chance(p); b = c; } break; }
    }
    return g;
}
inline Image gen_image(Rng& r, int types) {
    std::vector<int> t; for (int k : {TRAX_IMAGE_PATH, TRAX_IMAGE_URL, TRAX_IMAGE_MEMORY, TRAX_IMAGE_BUFFER}) if (types & k) t.push_back(k);
    Image g; g.type = r.pick(t);
    switch (g.type) {
    case TRAX_IMAGE_PATH: g.data = (r.chance(70) ? "/" : "") + gen_text(r, 100); break;
    case TRAX_IMAGE_URL: { g.data = r.pick(std::vector<std::string>{"http", "https", "ftp", "x", "rtsp", "s3", "svn+ssh"}); for (char& c : g.data) if (isdigit((unsigned char) c)) c = 'x'; if (r.chance(40)) { do { g.data = ""; for (int i = r.range(1, 15); i > 0; i--) g.data += "abcdefghijklmnopqrstuvwxyz+.-"[r.below(29)]; } while (g.data == "file" || g.data == "image" || g.data == "data"); } g.data += r.chance(80) ? "://" : ":"; g.data += gen_text(r, 100); break; }
    case TRAX_IMAGE_MEMORY: g.format = r.pick(std::vector<int>{TRAX_IMAGE_MEMORY_GRAY8, TRAX_IMAGE_MEMORY_GRAY16, TRAX_IMAGE_MEMORY_RGB}); g.w = r.chance(40) ? r.range(1, 4) : r.range(1, 30); g.h = r.chance(40) ? r.range(1, 4) : r.range(1, 30); if (r.below(1000) < 3) { int n = 20000 / pixel(g.format) * (r.chance(20) ? 4 : 1); g.w = r.chance(30) ? r.range(1, n) : r.range(1, 200); g.h = r.range(1, std::max(1, n / g.w)); } g.data = gen_bytes(r, (size_t) g.w * g.h * pixel(g.format)); break;
    case TRAX_IMAGE_BUFFER: if (r.chance(50)) { g.format = TRAX_IMAGE_BUFFER_JPEG; g.data = "\xff\xd8\xff"; g.data += r.pick(std::vector<std::string>{"\xe0", "\xe1", "\xdb", "\xee"}); } else { g.format = TRAX_IMAGE_BUFFER_PNG; g.data = std::string("\x89PNG\r\n\x1a\n", 8); } g.data += gen_bytes(r, 1 + r.below(300)); break;
    }
    return g;
}
inline std::vector<int> channels_of(int mask) { std::vector<int> v; for (int c : {TRAX_CHANNEL_COLOR, TRAX_CHANNEL_DEPTH, TRAX_CHANNEL_IR}) if (mask & c) v.push_back(c); return v; }
inline Images gen_images(Rng& r, int channels, int types) { Images m; for (int c : channels_of(channels)) m[c] = gen_image(r, types); return m; }

// ---------------------------------------------------------------- raw descriptors
inline void big(int fd) { fcntl(fd, F_SETPIPE_SZ, 1 << 20); }
struct Pipe { int r = -1, w = -1; Pipe() { int p[2]; if (pipe2(p, O_CLOEXEC)) { perror("pipe"); abort(); } r = p[0]; w = p[1]; big(w); } ~Pipe() { close_r(); close_w(); } Pipe(const Pipe&) = delete;
    void close_r() { if (r >= 0) ::close(r); r = -1; } void close_w() { if (w >= 0) ::close(w); w = -1; } };
extern "C" { ssize_t __real_read(int, void*, size_t) __attribute__((weak)); ssize_t __real_write(int, const void*, size_t) __attribute__((weak)); }
inline ssize_t sys_read(int fd, void* b, size_t n) { return __real_read ? __real_read(fd, b, n) : ::read(fd, b, n); }
inline ssize_t sys_write(int fd, const void* b, size_t n) { return __real_write ? __real_write(fd, b, n) : ::write(fd, b, n); }
inline void put(int fd, const std::string& s) { size_t i = 0; while (i < s.size()) { ssize_t n = sys_write(fd, s.data() + i, s.size() - i); if (n < 0) { if (errno == EINTR) continue; return; } i += n; } }
// everything that is available now
inline std::string drain(int fd) { std::string s; char b[65536]; while (true) { struct pollfd p = {fd, POLLIN, 0}; if (poll(&p, 1, 0) <= 0) break; if (!(p.revents & (POLLIN | POLLHUP | POLLERR))) break; ssize_t n = sys_read(fd, b, sizeof b); if (n <= 0) break; s.append(b, n); } return s; }

struct Listener { int fd = -1, port = 0; Listener() { fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); int one = 1; setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one); struct sockaddr_in a = {}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); if (bind(fd, (struct sockaddr*) &a, sizeof a) || listen(fd, 8)) { perror("listen"); abort(); } socklen_t l = sizeof a; getsockname(fd, (struct sockaddr*) &a, &l); port = ntohs(a.sin_port); } ~Listener() { if (fd >= 0) ::close(fd); } Listener(const Listener&) = delete; };
inline int tcp_connect(int port) { int s = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); struct sockaddr_in a = {}; a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); if (connect(s, (struct sockaddr*) &a, sizeof a)) { perror("connect"); abort(); } return s; }

struct Meta { int regions = TRAX_REGION_RECTANGLE, images = TRAX_IMAGE_PATH, channels = TRAX_CHANNEL_COLOR, flags = 0; bool hname = false, hdesc = false, hfam = false; std::string name, desc, fam; Map custom;
    trax_metadata* to_lib() const { trax_metadata* m = trax_metadata_create(regions, images, channels, hname ? name.c_str() : NULL, hdesc ? desc.c_str() : NULL, hfam ? fam.c_str() : NULL, flags); set_all(m->custom, custom); return m; } };

static const int ALL_IMAGES = TRAX_IMAGE_PATH | TRAX_IMAGE_URL | TRAX_IMAGE_MEMORY | TRAX_IMAGE_BUFFER;
static const int GEOMETRY = TRAX_REGION_RECTANGLE | TRAX_REGION_POLYGON | TRAX_REGION_MASK;
static const int ALL_REGIONS = GEOMETRY | TRAX_REGION_SPECIAL;
}
