// P09 text form of regions, P10 conversion and queries, P11 overlap, P22 streams and files of regions
#include "ref.h"
#include <sstream>
#include <fstream>
#ifdef VH_CLIENT
#include <trax/client.hpp>
#endif
using namespace ref; using namespace vh;

// ------------------------------------------------------------------------------------------- P09
struct Parsed { bool known = true, ok = false; Region region; };
// Numbers as in a list of the grammar; returns false if the text is none. integral: no value has a fraction
static bool numbers(const std::string& s, std::vector<double>& v, bool& strange) {
    size_t i = 0; strange = false;
    while (true) {
        while (i < s.size() && isspace((unsigned char) s[i])) i++;
        size_t b = i; if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++;
        if (lower(s.substr(i, 3)) == "nan") { i += 3; v.push_back(NAN); while (i < s.size() && isspace((unsigned char) s[i])) i++; if (i == s.size()) return true; if (s[i] != ',') return false; i++; continue; }
        size_t d = 0; while (i < s.size() && isdigit((unsigned char) s[i])) { i++; d++; }
        if (i < s.size() && s[i] == '.') { i++; while (i < s.size() && isdigit((unsigned char) s[i])) { i++; d++; } }
        if (!d) return false;
        if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) { size_t k = i + 1; if (k < s.size() && (s[k] == '+' || s[k] == '-')) k++; if (k < s.size() && isdigit((unsigned char) s[k])) { while (k < s.size() && isdigit((unsigned char) s[k])) k++; i = k; } }
        double x = strtod(s.substr(b, i - b).c_str(), NULL); if (std::isinf(x)) return false; if (x != floor(x)) strange = true; v.push_back(x);
        while (i < s.size() && isspace((unsigned char) s[i])) i++;
        if (i == s.size()) return true;
        if (s[i] != ',') return false;
        i++;
    }
}
static Parsed parse(const std::string& s) {
    Parsed p; std::string l = lower(s); if (l.find("nan(") != std::string::npos || l.find("inf") != std::string::npos || l.find("0x") != std::string::npos /* hexadecimal numbers are not documented */) { p.known = false; return p; }
    std::string data = s, prefix; size_t i = 0; while (i < s.size() && i < 16 && ((s[i] >= 'a' && s[i] <= 'z') || strchr("+.-", s[i]))) i++;
    if (i < s.size() && i < 16 && s[i] == ':') { prefix = s.substr(0, i); data = s.substr(i + 1); if (prefix != "rect" && prefix != "poly" && prefix != "mask" && prefix != "special") return p; }
    std::vector<double> v; bool strange; if (!numbers(data, v, strange)) return p;
    bool undefined = false; for (double x : v) if (std::isnan(x)) undefined = true;
    if (undefined) { // no region: zero, or the code of the old form of four values
        double c = v.size() == 4 && v[3] == v[3] && -v[3] >= INT_MIN && -v[3] <= INT_MAX ? -v[3] : 0; if (c != floor(c)) { p.known = false; return p; }
        p.region = special((int) c); p.ok = true; return p;
    }
    if (prefix.empty()) prefix = v.size() == 1 ? "special" : v.size() == 4 ? "rect" : v.size() >= 6 && v.size() % 2 == 0 ? "poly" : "";
    Region& g = p.region; auto fits = [](double x) { return x >= INT_MIN && x <= INT_MAX; };
    if (prefix == "rect" || prefix == "poly") for (double x : v) if (fabs(x) > 3.4028234663852886e38) return p;
    if (prefix == "special" && v.size() == 1) { if (strange) p.known = false; if (!fits(v[0])) return p; g = special((int) v[0]); p.ok = true; }
    else if (prefix == "rect" && v.size() == 4) { g = rect((float) v[0], (float) v[1], (float) v[2], (float) v[3]); p.ok = true; }
    else if (prefix == "poly" && v.size() >= 6 && v.size() % 2 == 0) { g.type = TRAX_REGION_POLYGON; for (size_t k = 0; k < v.size(); k += 2) { g.px.push_back((float) v[k]); g.py.push_back((float) v[k + 1]); } p.ok = true; }
    else if (prefix == "mask" && v.size() >= 4) {
        if (strange) p.known = false;
        for (double x : v) if (!fits(x)) return p;
        if (v[2] < 1 || v[3] < 1) return p;
        if (v[2] * v[3] > 4e6) { p.known = false; return p; } // whether it is accepted depends on the memory that is available
        for (size_t k = 4; k < v.size(); k++) if (v[k] < 0) return p;
        if (v[0] + v[2] >= INT_MAX || v[1] + v[3] >= INT_MAX) { p.known = false; return p; }
        g = mask((int) v[0], (int) v[1], (int) v[2], (int) v[3], ""); size_t n = (size_t) g.w * g.h; char c = 0; for (size_t k = 4; k < v.size(); k++) { g.bits.append(std::min((size_t) v[k], n - g.bits.size()), c); c = !c; } g.bits.resize(n, 0); p.ok = true; }
    return p;
}
static float any_float(Rng& r) {
    switch (r.below(8)) { case 0: return 0; case 1: return (float) ldexp(r.unit() - 0.5, r.range(-20, 20)); case 2: return (float) ldexp(r.unit() - 0.5, r.range(-140, 128)); case 3: return r.pick(std::vector<float>{3.4028235e38f, -3.4028235e38f, 1e-38f, -0.0f, 16777216.f, -16777217.f, 0.00005f, 0.99995f, 2147483648.f}); default: return gen_coord(r); }
}
static void p09_roundtrip(Ctx& cx) {
    Rng& r = cx.rng; Region g = gen_region(r, ALL_REGIONS);
    if (g.type == TRAX_REGION_RECTANGLE && r.chance(60)) for (float& v : g.r) v = any_float(r);
    if (g.type == TRAX_REGION_POLYGON && r.chance(60)) { for (float& v : g.px) v = any_float(r); for (float& v : g.py) v = any_float(r); }
    if (g.type == TRAX_REGION_MASK && r.chance(40)) { g.w = r.chance(30) ? r.range(1, 400) : r.range(1, 6); g.h = r.chance(30) ? r.range(1, 200) : r.range(1, 6); g.bits.assign((size_t) g.w * g.h, 0); int mode = r.below(5); for (size_t i = 0; i < g.bits.size(); i++) g.bits[i] = mode == 0 ? i == 0 : mode == 1 ? i == g.bits.size() - 1 : mode == 2 ? i % 2 : mode == 3 ? 1 : r.chance(50); if (r.chance(20)) { g.x = r.pick(std::vector<int>{-1000000, 2000000000, -2147483647, 1000000}); g.y = r.pick(std::vector<int>{-1000000, 2000000000, -2147483647, 1000000}); } }
    R a(g); Region g0 = from_lib(a); char* t = trax_region_encode(a); REQUIRE(cx, t, "no-text", "%s has no text form", g.str().c_str()); std::string s = t; free(t);
    REQUIRE(cx, s == text(g), "text-form", "%s is written as %s instead of %s", g.str().c_str(), show(s, 160).c_str(), show(text(g), 160).c_str());
    R b(trax_region_decode(s.c_str())); REQUIRE(cx, b.p, "not-readable", "the text of %s is refused: %s", g.str().c_str(), show(s).c_str());
    REQUIRE(cx, from_lib(b) == printed(g), "round-trip", "%s became %s", g.str().c_str(), from_lib(b).str().c_str());
    REQUIRE(cx, from_lib(a) == g0, "source-changed", "writing changed the region");
    cx.ev("regions written and read"); cx.state(mix(hash_of(s), g.type)); cx.sample(s.substr(0, 100));
}
static std::string gen_number(Rng& r) {
    switch (r.below(9)) { case 0: return fmt("%d", r.range(-5, 5)); case 1: return fmt("%.3f", r.unit() * 100); case 2: return fmt("%d", r.range(0, 300)); case 3: return r.pick(std::vector<std::string>{"", "-", "+", ".", "1e3", "1e400", "-1e400", "1.", ".5", "1e", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967297", "99999999999999999999", "1e39", "3.5e38", "-0", "00012", "+7", "1 ", " 1", "1 2", "a", "1a", "0.000", "1e-5", "\t3", "nan", "NaN", "-nan"}); case 4: return fmt("%.8g", any_float(r)); default: return fmt("%d", r.range(0, 20)); }
}
static void p09_text(Ctx& cx) {
    Rng& r = cx.rng; std::string s;
    int kind = r.below(7);
    if (kind < 2) { Region g = gen_region(r, ALL_REGIONS); s = text(g); if (r.chance(30)) s = (g.type == TRAX_REGION_RECTANGLE ? "rect:" : g.type == TRAX_REGION_POLYGON ? "poly:" : g.type == TRAX_REGION_SPECIAL ? "special:" : "") + s; int n = r.below(3); for (int k = 0; k < n && s.size(); k++) { size_t at = r.below(s.size()); switch (r.below(4)) { case 0: s.erase(at, 1); break; case 1: s.insert(at, 1, "0123456789,.-+e: "[r.below(17)]); break; case 2: s[at] = "0123456789,.-+e: ;abx"[r.below(21)]; break; default: s = s.substr(0, at); } } }
    else if (kind < 4) { s = r.pick(std::vector<std::string>{"", "", "", "rect:", "poly:", "mask:", "special:", "mas:", "masks:", "rectangle:", "Rect:", ":", "::", "mask", " mask:", "a:", "file://", "maskk:", "specia:"}); int n = r.pick(std::vector<int>{0, 1, 2, 3, 4, 4, 5, 6, 7, 8, 9, 10}); for (int k = 0; k < n; k++) s += (k ? "," : "") + gen_number(r); if (r.chance(10)) s += ","; }
    else if (kind < 6) { int w = r.range(-1, 12), h = r.range(-1, 12); s = fmt("mask:%d,%d,%d,%d", r.range(-9, 9), r.range(-9, 9), w, h); int n = r.below(10); for (int k = 0; k < n; k++) s += fmt(",%d", r.chance(5) ? r.pick(std::vector<int>{-1, INT_MAX, 1 << 30, 65536}) : r.chance(10) ? 0 : r.range(0, w > 0 && h > 0 ? 1 + w * h / 2 : 5)); }
    else { int n = r.below(24); for (int k = 0; k < n; k++) s += "0123456789,,,,..--+eE: \t;ab"[r.below(27)]; }
    for (char& c : s) if (!c) c = ' ';
    if (kind > 1 && kind < 4 && r.chance(5)) { s = r.chance(70) ? "" : "rect:"; int at = r.below(4); for (int k = 0; k < 4; k++) s += (k ? "," : "") + (k == at || r.chance(40) ? std::string(r.pick(std::vector<std::string>{"nan", "NaN", "NAN"})) : fmt("%d", r.range(-9, 9))); }
    Parsed p = parse(s); std::string copy = s; R a(trax_region_decode(s.c_str()));
    REQUIRE(cx, s == copy, "text-changed", "parsing changed the text");
    if (!p.known) { cx.ev("texts without a documented meaning"); if (a.p) { char* t = trax_region_encode(a); free(t); } return; }
    REQUIRE(cx, (a.p != NULL) == p.ok, p.ok ? "refused" : "accepted", "%s is %s%s", show(s).c_str(), p.ok ? "refused, but means " : "accepted as ", p.ok ? p.region.str().c_str() : from_lib(a).str().c_str());
    if (p.ok) REQUIRE(cx, from_lib(a) == p.region, "meaning", "%s was read as %s instead of %s", show(s).c_str(), from_lib(a).str().c_str(), p.region.str().c_str());
    cx.ev(p.ok ? "texts accepted" : "texts refused"); cx.state(mix(hash_of(s), p.ok));
}

// ------------------------------------------------------------------------------------------- geometry
// Pixels covered by a polygon with integer vertices: the points of the closed shape (even-odd) on the line of a row,
// rounded down to pixels. 0 no, 1 yes, 2 depends on the rounding of an inexact crossing.
struct Grid { long x0 = 0, y0 = 0, w = 0, h = 0; std::string v; char at(long x, long y) const { return x < x0 || y < y0 || x >= x0 + w || y >= y0 + h ? 0 : v[(size_t) (y - y0) * w + (x - x0)]; } char& ref(long x, long y) { return v[(size_t) (y - y0) * w + (x - x0)]; }
    void make(long a, long b, long c, long d) { x0 = a; y0 = b; w = c; h = d; v.assign((size_t) w * h, 0); } };
typedef __int128 i128;
struct Frac { i128 n, d; /* d > 0 */ bool operator<(const Frac& o) const { return n * o.d < o.n * d; } bool operator==(const Frac& o) const { return n * o.d == o.n * d; } long floor() const { i128 q = n / d; if (n % d && n < 0) q--; return (long) q; } bool integer() const { return n % d == 0; } };
static void raster(const std::vector<long>& X, const std::vector<long>& Y, Grid& g) {
    size_t n = X.size();
    for (long y = g.y0; y < g.y0 + g.h; y++) {
        auto fill = [&](long a, long b) { for (long x = std::max(a, g.x0); x <= std::min(b, g.x0 + g.w - 1); x++) g.ref(x, y) = 1; };
        std::vector<long> maybe; std::set<long> vertices;
        for (size_t i = 0; i < n; i++) { size_t j = (i + n - 1) % n; if (Y[i] == y) vertices.insert(X[i]); if (Y[i] == y && Y[j] == y) fill(std::min(X[i], X[j]), std::max(X[i], X[j])); }
        for (int side = 0; side < 2; side++) { // just below and just above of the row
            std::vector<std::pair<Frac, Frac>> c; // crossing of the row and of a line very close to it (for the order)
            for (size_t i = 0; i < n; i++) { size_t j = (i + n - 1) % n; bool a = side ? Y[i] < y : Y[i] <= y, b = side ? Y[j] < y : Y[j] <= y; if (a == b) continue;
                i128 d = Y[j] - Y[i], dx = X[j] - X[i]; Frac f = {(i128) X[i] * d + (i128) (y - Y[i]) * dx, d}; Frac s = {dx, d}; if (d < 0) { f.n = -f.n; f.d = -d; s.n = -s.n; s.d = -d; } if (side) s.n = -s.n; c.push_back({f, s}); }
            std::sort(c.begin(), c.end()); // the pairs of the sorted crossings enclose the inner parts
            for (size_t k = 0; k + 1 < c.size(); k += 2) { fill(c[k].first.floor(), c[k + 1].first.floor()); for (size_t q = k; q < k + 2; q++) { const Frac& f = c[q].first; if (f.integer() && c[q].second.n != 0 /* vertical lines are exact */ && !vertices.count(f.floor())) { maybe.push_back(f.floor()); maybe.push_back(f.floor() - 1); } } }
        }
        for (long x : maybe) if (x >= g.x0 && x < g.x0 + g.w) { bool sure = false; (void) sure; char& p = g.ref(x, y); // a neighbour of an inexact crossing may be lost or gained
            p = 2; }
        for (long x : vertices) fill(x, x);
    }
}
static long round_away(double v) { return (long) (v < 0 ? -floor(-v + 0.5) : floor(v + 0.5)); }
struct Shape { bool empty = true; long l = 0, t = 0, r = -1, b = -1; Grid g; }; // box and pixels
// The pixels of a region inside of this window (or inside of its own box)
static Shape shape(const Region& g) {
    Shape s;
    if (g.type == TRAX_REGION_MASK) { s.g.make(g.x, g.y, g.w, g.h); bool any = false; for (long j = 0; j < g.h; j++) for (long i = 0; i < g.w; i++) if (g.bits[(size_t) j * g.w + i]) { s.g.ref(g.x + i, g.y + j) = 1; long x = g.x + i, y = g.y + j; if (!any) { s.l = s.r = x; s.t = s.b = y; any = true; } s.l = std::min(s.l, x); s.r = std::max(s.r, x); s.t = std::min(s.t, y); s.b = std::max(s.b, y); } s.empty = !any; return s; }
    std::vector<double> px, py;
    if (g.type == TRAX_REGION_RECTANGLE) { double x = g.r[0], y = g.r[1], X = x + g.r[2] - 1, Y = y + g.r[3] - 1; px = {x, X, X, x}; py = {y, y, Y, Y}; if (X < x || Y < y) return s; }
    else if (g.type == TRAX_REGION_POLYGON) { px.assign(g.px.begin(), g.px.end()); py.assign(g.py.begin(), g.py.end()); }
    else return s;
    double l = px[0], r = px[0], t = py[0], b = py[0]; for (double v : px) { l = std::min(l, v); r = std::max(r, v); } for (double v : py) { t = std::min(t, v); b = std::max(b, v); }
    s.l = (long) floor(l); s.r = (long) ceil(r); s.t = (long) floor(t); s.b = (long) ceil(b); s.empty = false;
    std::vector<long> X, Y; for (double v : px) X.push_back(round_away(v)); for (double v : py) Y.push_back(round_away(v));
    s.g.make(s.l, s.t, s.r - s.l + 1, s.b - s.t + 1); raster(X, Y, s.g); return s;
}
static float quarter(Rng& r, int range, bool whole) { int v = r.range(-range, range) * 4; if (!whole) v += r.pick(std::vector<int>{0, 0, 1, 3}); return v / 4.0f; }
static bool simple(const Region& g) { // no two edges touch besides of neighbours
    size_t n = g.px.size(); auto cross = [&](double ax, double ay, double bx, double by) { return ax * by - ay * bx; };
    auto P = [&](size_t i) { return std::make_pair((double) round_away(g.px[i % n]), (double) round_away(g.py[i % n])); };
    for (size_t i = 0; i < n; i++) { if (P(i) == P(i + 1)) return false; for (size_t j = i + 1; j < n; j++) { if (j == i + 1 || (i == 0 && j == n - 1)) continue; auto a = P(i), b = P(i + 1), c = P(j), d = P(j + 1);
        double d1 = cross(b.first - a.first, b.second - a.second, c.first - a.first, c.second - a.second), d2 = cross(b.first - a.first, b.second - a.second, d.first - a.first, d.second - a.second), d3 = cross(d.first - c.first, d.second - c.second, a.first - c.first, a.second - c.second), d4 = cross(d.first - c.first, d.second - c.second, b.first - c.first, b.second - c.second);
        if ((d1 > 0) != (d2 > 0) || d1 == 0 || d2 == 0) if ((d3 > 0) != (d4 > 0) || d3 == 0 || d4 == 0) return false; } }
    return true;
}
// Regions in quarters of pixels around (cx, cy)
static Region gen_geometry(Rng& r, int size, int cx, int cy, bool any_polygon = false) {
    Region g; int kind = r.below(4); bool whole = r.chance(50);
    if (kind == 0) { g = rect(cx + quarter(r, size, whole), cy + quarter(r, size, whole), r.range(1, size) + (whole ? 0 : r.pick(std::vector<float>{0, 0.25f, 0.75f})), r.range(1, size) + (whole ? 0 : r.pick(std::vector<float>{0, 0.25f, 0.75f}))); for (int k = 0; k < 2; k++) { float e = g.r[k] + g.r[k + 2] - 1; if (fabs(e - floor(e) - 0.5) < 1e-6) g.r[k + 2] += 0.25f; } return g; }
    if (kind == 1) { g.type = TRAX_REGION_MASK; g.w = r.range(1, size); g.h = r.range(1, size); g.x = cx + r.range(-size, size / 2); g.y = cy + r.range(-size, size / 2); int p = r.pick(std::vector<int>{0, 2, 30, 80, 100}); g.bits.resize((size_t) g.w * g.h); for (char& c : g.bits) c = r.chance(p); return g; }
    for (int attempt = 0; attempt < 50; attempt++) {
        g = Region(); g.type = TRAX_REGION_POLYGON; int n = r.chance(30) ? r.range(5, 12) : r.range(3, 5), mode = r.below(4);
        if (mode == 0) { std::vector<std::pair<double, double>> v; double ox = quarter(r, size, true), oy = quarter(r, size, true); std::vector<double> a; for (int i = 0; i < n; i++) a.push_back(r.unit() * 2 * M_PI); std::sort(a.begin(), a.end()); for (double t : a) { double d = (0.1 + r.unit()) * size; g.px.push_back(cx + ox + floor(cos(t) * d) + (whole ? 0 : r.pick(std::vector<float>{0, 0.25f, 0.75f}))); g.py.push_back(cy + oy + floor(sin(t) * d) + (whole ? 0 : r.pick(std::vector<float>{0, 0.25f, 0.75f}))); } } // star-shaped
        else if (mode == 1) { // staircase with horizontal and vertical edges
            int x = 0, y = 0; std::vector<std::pair<int, int>> up; for (int i = 0; i < n / 2 + 1; i++) { up.push_back({x, y}); x += r.range(1, 1 + size / 4); up.push_back({x, y}); y += r.range(1, 1 + size / 4); } for (auto& p : up) { g.px.push_back(cx + p.first); g.py.push_back(cy + p.second); } g.px.push_back(cx + x); g.py.push_back(cy + y); g.px.push_back(cx); g.py.push_back(cy + y); }
        else for (int i = 0; i < n; i++) { g.px.push_back(cx + quarter(r, size, whole)); g.py.push_back(cy + quarter(r, size, whole)); }
        if (r.chance(30) && g.px.size() > 2) { size_t i = r.below(g.px.size()), j = (i + 1) % g.px.size(); double mx = (g.px[i] + g.px[j]) / 2, my = (g.py[i] + g.py[j]) / 2; if (mx == floor(mx) && my == floor(my)) { g.px.insert(g.px.begin() + i + 1, mx); g.py.insert(g.py.begin() + i + 1, my); } } // a redundant vertex
        if (any_polygon || simple(g)) return g;
    }
    return rect(cx, cy, 3, 2);
}

// ------------------------------------------------------------------------------------------- P10
static void p10_bounds(Ctx& cx) { // boxes and conversions that do not rasterise
    Rng& r = cx.rng; Region g = gen_region(r, ALL_REGIONS); int far = r.chance(20) ? 1000000 : r.chance(30) ? 1000 : 0; if (r.chance(50)) g = gen_geometry(r, r.range(2, 40), far ? r.range(-far, far) : 0, far ? r.range(-far, far) : 0, true);
    if (r.chance(10) && g.type == TRAX_REGION_POLYGON) for (float& v : g.px) v = -fabsf(v) - 1;
    R a(g); Region g0 = from_lib(a);
    bool fg = g.type != TRAX_REGION_MASK || g.bits.find(1) != std::string::npos; double l = 0, t = 0, rt = 0, b = 0;
    if (g.type == TRAX_REGION_POLYGON) { l = *std::min_element(g.px.begin(), g.px.end()); rt = *std::max_element(g.px.begin(), g.px.end()); t = *std::min_element(g.py.begin(), g.py.end()); b = *std::max_element(g.py.begin(), g.py.end()); }
    if (g.type == TRAX_REGION_RECTANGLE) { l = g.r[0]; t = g.r[1]; rt = (float) (g.r[0] + g.r[2] - 1); b = (float) (g.r[1] + g.r[3] - 1); }
    if (g.type == TRAX_REGION_MASK && fg) { Shape s = shape(g); l = s.l; rt = s.r; t = s.t; b = s.b; }
    auto near = [](double x, double y) { return fabs(x - y) <= 1e-6 * std::max(fabs(x), fabs(y)) + 1e-6; };
    if (g.type != TRAX_REGION_SPECIAL && fg) {
        trax_bounds q = trax_region_bounds(a); REQUIRE(cx, near(q.left, l) && near(q.right, rt) && near(q.top, t) && near(q.bottom, b), "bounds", "bounds of %s are left %g top %g right %g bottom %g instead of %g %g %g %g", g.str().c_str(), q.left, q.top, q.right, q.bottom, l, t, rt, b);
        { R c(trax_region_convert(a, TRAX_REGION_RECTANGLE)); Region h = from_lib(c); double w = rt - l, hh = b - t; if (g.type == TRAX_REGION_MASK) { w++; hh++; } Region want = g.type == TRAX_REGION_RECTANGLE ? g : rect(l, t, w, hh); REQUIRE(cx, h.type == TRAX_REGION_RECTANGLE && near(h.r[0], want.r[0]) && near(h.r[1], want.r[1]) && fabs(h.r[2] - want.r[2]) <= 1e-6 * (fabs(l) + fabs(rt)) + 1e-6 && fabs(h.r[3] - want.r[3]) <= 1e-6 * (fabs(t) + fabs(b)) + 1e-6, "to-rectangle", "%s converted to %s instead of %s", g.str().c_str(), h.str().c_str(), want.str().c_str()); }
        R c(trax_region_convert(a, TRAX_REGION_POLYGON)); Region h = from_lib(c); Region want = g;
        if (g.type != TRAX_REGION_POLYGON) { want = Region(); want.type = TRAX_REGION_POLYGON; want.px = {(float) l, (float) rt, (float) rt, (float) l}; want.py = {(float) t, (float) t, (float) b, (float) b}; }
        bool same = h.type == TRAX_REGION_POLYGON && h.px.size() == want.px.size(); for (size_t i = 0; same && i < h.px.size(); i++) same = near(h.px[i], want.px[i]) && near(h.py[i], want.py[i]); REQUIRE(cx, same, "to-polygon", "%s converted to %s instead of %s", g.str().c_str(), h.str().c_str(), want.str().c_str());
        cx.ev("boxes compared");
    }
    if (g.type == TRAX_REGION_MASK && !fg) { trax_bounds q = trax_region_bounds(a); REQUIRE(cx, std::isfinite(q.left) && !(q.right >= q.left && q.bottom >= q.top), "bounds-empty", "an empty mask has bounds %g %g %g %g", q.left, q.top, q.right, q.bottom); cx.ev("empty masks"); }
    R s(trax_region_convert(a, TRAX_REGION_SPECIAL)); REQUIRE(cx, from_lib(s) == special(g.type == TRAX_REGION_SPECIAL ? g.code : 0), "to-special", "%s", from_lib(s).str().c_str());
    R cl(trax_region_clone(a)); REQUIRE(cx, from_lib(cl) == g0, "clone", "the clone of %s is %s", g.str().c_str(), from_lib(cl).str().c_str());
    if (g.type == TRAX_REGION_SPECIAL) for (int k : {TRAX_REGION_RECTANGLE, TRAX_REGION_POLYGON, TRAX_REGION_MASK}) { R c(trax_region_convert(a, k)); REQUIRE(cx, !c.p, "special-converted", "a special region became %s", from_lib(c).str().c_str()); }
    REQUIRE(cx, from_lib(a) == g0, "source-changed", "%s became %s", g0.str().c_str(), from_lib(a).str().c_str()); cx.state(mix(hash_of(g.str()), g.shape()));
}
static void p10_mask(Ctx& cx) { // conversion to a mask
    Rng& r = cx.rng; int far = r.chance(20) ? 500000 : r.chance(30) ? 300 : 0; Region g = gen_geometry(r, r.chance(10) ? 150 : r.range(1, 30), far ? r.range(-far, far) : 0, far ? r.range(-far, far) : 0, r.chance(50)); R a(g); Region g0 = from_lib(a);
    R m(trax_region_convert(a, TRAX_REGION_MASK)); REQUIRE(cx, m.p, "no-mask", "%s could not be converted to a mask", g.str().c_str()); Region h = from_lib(m); Shape s = shape(g);
    if (g.type == TRAX_REGION_MASK) { REQUIRE(cx, h == g, "mask-to-mask", "%s became %s", g.str().c_str(), h.str().c_str()); }
    else {
        REQUIRE(cx, h.type == TRAX_REGION_MASK && h.x == s.l && h.y == s.t && h.w == s.r - s.l + 1 && h.h == s.b - s.t + 1, "mask-header", "the mask of %s is %s instead of %ld,%ld %ldx%ld", g.str().c_str(), h.str().c_str(), s.l, s.t, s.r - s.l + 1, s.b - s.t + 1);
        size_t set = 0, open = 0; for (long y = s.t; y <= s.b; y++) for (long x = s.l; x <= s.r; x++) { char want = s.g.at(x, y), got = h.bits[(size_t) (y - s.t) * h.w + (x - s.l)]; set += got; if (want == 2) { open++; continue; } REQUIRE(cx, want == got, "mask-pixel", "pixel %ld,%ld of %s is %d in the mask", x, y, g.str().c_str(), got); }
        cx.ev("pixels compared", h.bits.size() - open); cx.ev("pixels at inexact crossings", open); cx.ev("pixels set", set);
    }
    REQUIRE(cx, from_lib(a) == g0, "source-changed", "%s became %s", g0.str().c_str(), from_lib(a).str().c_str()); cx.state(mix(hash_of(g.str()), g.bits.size()));
}
static void p10_contains(Ctx& cx) {
    Rng& r = cx.rng; int far = r.chance(20) ? 100000 : r.chance(40) ? 300 : 0; Region g = r.chance(5) ? special(1) : gen_geometry(r, r.range(1, 30), far ? r.range(-far, far) : 0, far ? r.range(-far, far) : 0, r.chance(30)); R a(g); Region g0 = from_lib(a); Shape s;
    double l = 0, t = 0, w = 10, h = 10; if (g.type != TRAX_REGION_SPECIAL) { trax_bounds q = trax_region_bounds(a); if (q.right >= q.left) { l = q.left; t = q.top; w = q.right - q.left; h = q.bottom - q.top; } }
    for (int k = 0; k < 40; k++) {
        float x, y; if (g.type == TRAX_REGION_MASK && r.chance(60)) { x = g.x + r.range(-2, g.w + 1) + r.pick(std::vector<float>{0, 0.25f, 0.5f, 0.75f}); y = g.y + r.range(-2, g.h + 1) + r.pick(std::vector<float>{0, 0.25f, 0.5f, 0.75f}); }
        else { x = (float) (floor((l - 2 + r.unit() * (w + 4)) * 8) / 8 + 0.0625); y = (float) (floor((t - 2 + r.unit() * (h + 4)) * 8) / 8 + 0.0625); }
        if (r.chance(3)) { x *= 1000; } int want = -1;
        switch (g.type) {
        case TRAX_REGION_SPECIAL: want = 0; break;
        case TRAX_REGION_MASK: { long i = (long) floor(x) - g.x, j = (long) floor(y) - g.y; want = i >= 0 && j >= 0 && i < g.w && j < g.h && g.bits[(size_t) j * g.w + i]; break; }
        case TRAX_REGION_RECTANGLE: { double X = (double) g.r[0] + g.r[2], Y = (double) g.r[1] + g.r[3]; if (x > g.r[0] && x < X && y > g.r[1] && y < Y) want = 1; if (x < g.r[0] || x > X || y < g.r[1] || y > Y) want = 0; break; }
        case TRAX_REGION_POLYGON: { int c = 0; bool close = false; size_t n = g.px.size(); for (size_t i = 0; i < n; i++) { size_t j = (i + n - 1) % n; double xi = g.px[i], yi = g.py[i], xj = g.px[j], yj = g.py[j]; double len = hypot(xj - xi, yj - yi), d = len ? fabs((xj - xi) * (yi - y) - (xi - x) * (yj - yi)) / len : hypot(x - xi, y - yi); if (d < 0.02 + 1e-6 * (fabs(x) + fabs(y))) close = true; if ((yi > y) != (yj > y) && x < (xj - xi) * (y - yi) / (yj - yi) + xi) c = !c; } if (!close) want = c; break; }
        }
        int got = trax_region_contains(a, x, y); cx.ev("points queried");
        if (want >= 0) REQUIRE(cx, (got != 0) == (want != 0), "contains", "point %g,%g is %s %s", x, y, got ? "inside of" : "outside of", g.str().c_str()); else cx.ev("points on the border");
    }
    REQUIRE(cx, from_lib(a) == g0, "source-changed", "%s became %s", g0.str().c_str(), from_lib(a).str().c_str()); cx.state(hash_of(g.str()));
}

// ------------------------------------------------------------------------------------------- P11
static float overlap(const Region& a, const Region& b, trax_bounds q) { R x(a), y(b); return trax_region_overlap(x, y, q); }
static Region moved(const Region& g, int dx, int dy) { Region m = g; m.x += dx; m.y += dy; m.r[0] += dx; m.r[1] += dy; for (float& v : m.px) v += dx; for (float& v : m.py) v += dy; return m; }
static void p11_overlap(Ctx& cx) {
    Rng& r = cx.rng; int far = r.chance(15) ? 500000 : r.chance(30) ? 200 : 0, cx0 = far ? r.range(-far, far) : 0, cy0 = far ? r.range(-far, far) : 0; int size = r.chance(10) ? 120 : r.range(1, 25); bool self = r.chance(15);
    Region a = gen_geometry(r, size, cx0, cy0), b = self ? a : gen_geometry(r, r.chance(20) ? r.range(1, 60) : size, cx0 + (r.chance(20) ? r.range(-2 * size, 2 * size) : 0), cy0 + (r.chance(20) ? r.range(-2 * size, 2 * size) : 0));
    if (r.chance(10)) { // thin and touching
        int k = r.range(1, 30); a = rect(cx0, cy0, r.chance(50) ? 1 : k, r.chance(50) ? 1 : k); b = rect(cx0 + r.range(-1, k), cy0 + r.range(-1, k), r.range(1, 3), r.range(1, 3)); }
    if (self) b = a;
    trax_bounds q = trax_no_bounds; bool bounded = r.chance(40); long L = LONG_MIN, T = LONG_MIN, RR = LONG_MAX, B = LONG_MAX;
    if (bounded) { L = cx0 + r.range(-size, size); T = cy0 + r.range(-size, size); RR = L + r.range(0, 3 * size); B = T + r.range(0, 3 * size); if (r.chance(30)) { L = 0; T = 0; } q.left = L; q.top = T; q.right = RR; q.bottom = B; }
    Shape sa = shape(a), sb = shape(b); double lo = 0, hi = 0; long both[3] = {0, 0, 0}, any[3] = {0, 0, 0}, open = 0;
    { long x0 = std::max(std::min(sa.g.x0, sb.g.x0), L), x1 = std::min(std::max(sa.g.x0 + sa.g.w, sb.g.x0 + sb.g.w) - 1, RR), y0 = std::max(std::min(sa.g.y0, sb.g.y0), T), y1 = std::min(std::max(sa.g.y0 + sa.g.h, sb.g.y0 + sb.g.h) - 1, B);
        for (long y = y0; y <= y1; y++) for (long x = x0; x <= x1; x++) { char p = sa.g.at(x, y), s = sb.g.at(x, y); if (!p && !s) continue; if (self && p == 2) { open++; continue; } if (p != 2 && s != 2) { any[0]++; if (p && s) both[0]++; } else { /* 1: may be in both, 2: may be in either */ if (p && s) both[1]++; if (p == 1 || s == 1) any[0]++; else any[1]++; } } }
    lo = any[0] + any[1] ? (double) both[0] / (any[0] + any[1]) : 0; hi = both[0] + both[1] == 0 ? 0 : any[0] ? std::min(1.0, (double) (both[0] + both[1]) / any[0]) : 1;
    if (open && !any[0]) hi = 1;
    bool exact = !(open && !any[0]) && both[1] == 0 && any[1] == 0; if (exact) hi = lo;
    // a region without any pixel inside of the bounds does not overlap anything; so does a box that the bounds cut off
    float o = overlap(a, b, q), o2 = overlap(b, a, q);
    REQUIRE(cx, o == o2, "symmetry", "%s and %s: %g one way, %g the other", a.str().c_str(), b.str().c_str(), o, o2);
    REQUIRE(cx, o >= 0 && o <= 1, "range", "the overlap of %s and %s is %g", a.str().c_str(), b.str().c_str(), o);
    REQUIRE(cx, o >= lo - 1e-5 && o <= hi + 1e-5, "value", "the overlap of %s and %s within [%g,%g,%g,%g] is %.7g instead of %.7g%s (%ld of %ld pixels)", a.str().c_str(), b.str().c_str(), q.left, q.top, q.right, q.bottom, o, lo, exact ? "" : fmt(" to %.7g", hi).c_str(), both[0], any[0]);
    if (self && any[0]) REQUIRE(cx, o == 1, "self", "the overlap of %s with itself is %g", a.str().c_str(), o);
    if (!bounded) { int dx = r.range(-1000, 1000), dy = r.range(-1000, 1000); float m = overlap(moved(a, dx, dy), moved(b, dx, dy), q); if (exact) REQUIRE(cx, fabs(m - o) < 1e-6, "translation", "%s and %s: %g, moved by %d,%d: %g", a.str().c_str(), b.str().c_str(), o, dx, dy, m); }
    cx.ev(exact ? "overlaps compared exactly" : "overlaps compared with a range"); cx.ev("pixels", any[0]); if (o > 0 && o < 1) cx.ev("partial overlaps"); if (bounded) cx.ev("bounded"); cx.state(mix(mix(hash_of(a.str()), hash_of(b.str())), both[0] * 1000003 + any[0]));
}
static void p11_other(Ctx& cx) { // large, distant, special and missing regions
    Rng& r = cx.rng; Region a = gen_geometry(r, 20, 0, 0), b; int k = r.below(5); trax_bounds q = trax_no_bounds; float want = 0;
    switch (k) {
    case 0: b = special(r.range(0, 3)); break;
    case 1: b = moved(a, r.pick(std::vector<int>{-100000, 100000, 3000000}), r.range(-5, 5)); break;
    case 2: { int w = r.range(500, 3000), h = r.range(500, 1500), d = r.range(1, 400); a = rect(r.range(-500, 500), r.range(-500, 500), w, h); b = moved(a, d, 0); want = (float) (w - d) / (w + d); break; }
    case 3: { int w = r.range(100, 1000), h = r.range(100, 1000), f = r.range(2, 90); a = rect(7, -9, w, h); b = rect(7, -9, f, f); want = (float) f * f / ((float) w * h); break; }
    case 4: { trax_region* p = to_lib(a); R g(p); REQUIRE(cx, trax_region_overlap(p, NULL, q) == 0 && trax_region_overlap(NULL, p, q) == 0 && trax_region_overlap(NULL, NULL, q) == 0, "missing", "a missing region overlaps"); cx.state(hash_of(a.str())); return; }
    }
    float o = overlap(a, b, q), o2 = overlap(b, a, q); REQUIRE(cx, fabs(o - want) < 1e-5 && fabs(o2 - want) < 1e-5, k == 0 ? "special" : k == 1 ? "distant" : "large", "%s and %s: %g / %g instead of %g", a.str().c_str(), b.str().c_str(), o, o2, want); cx.ev(k == 0 ? "special regions" : k == 1 ? "distant regions" : "large regions"); cx.state(mix(hash_of(a.str()), hash_of(b.str())));
}

// ------------------------------------------------------------------------------------------- P22
static Region of(const trax::Region& g) { // through the interface of the C++ class
    Region o; o.type = g.type();
    switch (o.type) { case TRAX_REGION_SPECIAL: o.code = g.get(); break; case TRAX_REGION_RECTANGLE: g.get(&o.r[0], &o.r[1], &o.r[2], &o.r[3]); break;
        case TRAX_REGION_POLYGON: { int n = g.get_polygon_count(); for (int i = 0; i < n; i++) { float x, y; g.get_polygon_point(i, &x, &y); o.px.push_back(x); o.py.push_back(y); } break; }
        case TRAX_REGION_MASK: g.get_mask_header(&o.x, &o.y, &o.w, &o.h); for (int j = 0; j < o.h; j++) o.bits.append(g.get_mask_row(j), o.w); for (char& c : o.bits) c = c != 0; break; }
    return o;
}
static trax::Region make(const Region& g) {
    switch (g.type) { case TRAX_REGION_SPECIAL: return trax::Region::create_special(g.code); case TRAX_REGION_RECTANGLE: return trax::Region::create_rectangle(g.r[0], g.r[1], g.r[2], g.r[3]);
        case TRAX_REGION_POLYGON: { trax::Region p = trax::Region::create_polygon(g.px.size()); for (size_t i = 0; i < g.px.size(); i++) p.set_polygon_point(i, g.px[i], g.py[i]); return p; }
        case TRAX_REGION_MASK: { trax::Region m = trax::Region::create_mask(g.x, g.y, g.w, g.h); for (int j = 0; j < g.h; j++) fill_row(g, j, m.write_mask_row(j)); return m; } }
    return trax::Region();
}
static std::string temp_name() { const char* t = getenv("TMPDIR"); return fmt("%s/vh_region_%d", t ? t : "/tmp", (int) getpid()); }
static void p22_stream(Ctx& cx) {
    Rng& r = cx.rng; int n = r.chance(10) ? 0 : r.below(1000) < 5 ? r.range(13, 1500) : r.range(1, 12); std::vector<Region> v; std::string file; int end = r.below(3); // how the lines end: mixed, \n, \r\n
    bool own = r.chance(50); bool junk = !own && r.chance(40); std::vector<trax::Region> t; std::vector<bool> known;
    for (int i = 0; i < n; i++) v.push_back(r.chance(10) ? Region() : gen_region(r, ALL_REGIONS));
    if (own) { std::ostringstream o; for (auto& g : v) { std::string before = o.str(); o << make(g); std::string line = o.str().substr(before.size()); REQUIRE(cx, line == text(g) + "\n", "written", "%s is written as [%s]", g.str().c_str(), show(line).c_str()); } file = o.str(); cx.ev("regions written", n); }
    else for (int i = 0; i < n; i++) { std::string l = v[i].type == TRAX_REGION_EMPTY ? "" : text(v[i]); if (junk && r.chance(40)) { l = gen_text(r, 20); for (char& c : l) if (c == '\n' || c == '\r' || !c) c = ' '; } Parsed p = parse(l); if (!p.known) l = "x"; p = parse(l); v[i] = p.ok ? p.region : Region(); file += l + (end == 1 ? "\n" : end == 2 ? "\r\n" : l.empty() && file.size() && file.back() == '\r' ? "\r" : r.pick(std::vector<std::string>{"\n", "\r\n", "\r"})); }
    bool cut = r.chance(40) && file.size() && n && v.back().type != TRAX_REGION_EMPTY; if (cut) while (file.size() && (file.back() == '\n' || file.back() == '\r')) file.pop_back();
    for (auto& g : v) g = printed(g);
    auto compare = [&](std::vector<trax::Region>& got, const char* how) { REQUIRE(cx, got.size() == v.size(), "count", "%s: %zu regions were read from %zu lines: [%s]", how, got.size(), v.size(), show(file).c_str()); for (size_t i = 0; i < v.size(); i++) REQUIRE(cx, of(got[i]) == v[i], "region", "%s: line %zu is %s instead of %s", how, i, of(got[i]).str().c_str(), v[i].str().c_str()); cx.ev("regions read", v.size()); };
    { std::istringstream in(file); std::vector<trax::Region> got; while (true) { trax::Region g; in >> g; if (!in.good()) break; got.push_back(g); if (got.size() > v.size() + 3) break; } compare(got, "stream"); }
    { std::istringstream in(file); trax::Region g = make(rect(1, 2, 3, 4)); for (size_t i = 0; i < v.size(); i++) { in >> g; REQUIRE(cx, of(g) == v[i], "reused", "line %zu read into a used object is %s instead of %s", i, of(g).str().c_str(), v[i].str().c_str()); } }
#ifdef VH_CLIENT
    { std::string name = temp_name(); if (r.chance(50)) { std::ofstream o(name.c_str(), std::ios::binary); o << file; } else { std::vector<trax::Region> w; for (auto& g : v) w.push_back(make(g)); trax::save_trajectory(name, w); std::ifstream i(name.c_str()); std::stringstream s; s << i.rdbuf(); std::string want; for (auto& g : v) want += text(g) + "\n"; REQUIRE(cx, s.str() == want, "saved", "the file has [%s] instead of [%s]", show(s.str()).c_str(), show(want).c_str()); cx.ev("trajectories saved"); }
      std::vector<trax::Region> got; if (r.chance(20)) got.clear(); int c = trax::load_trajectory(name, got); unlink(name.c_str()); REQUIRE(cx, c == (int) v.size(), "load-count", "%d elements were reported for %zu lines", c, v.size()); compare(got, "file"); cx.ev("trajectories loaded");
      if (r.chance(10)) { got.clear(); REQUIRE(cx, trax::load_trajectory(name + ".missing", got) == 0 && got.empty(), "missing-file", "a file that does not exist was read"); } }
#endif
    cx.state(mix(hash_of(file), cut)); cx.ev(cut ? "files without last line end" : "files");
}

vh::Harness vh::make_harness(const std::string& mode) {
    Harness h;
    if (mode == "P09") h.scenarios = {{"round trip", 1, p09_roundtrip, true}, {"text", 2, p09_text, true}};
    if (mode == "P10") h.scenarios = {{"boxes", 2, p10_bounds, true}, {"to mask", 2, p10_mask, true}, {"points", 1, p10_contains, true}};
    if (mode == "P11") h.scenarios = {{"overlap", 5, p11_overlap, true}, {"other", 1, p11_other, true}};
    if (mode == "P22") h.scenarios = {{"streams and files", 1, p22_stream, true}};
    return h;
}
