// P14: value semantics of the C++ classes: every variable has a model beside it, no operation on one may show in another.
#include "ref.h"
#include <sstream>
#include <thread>
using namespace ref; using namespace vh;

// ------------------------------------------------------------ values of C++ objects
static Region value(const trax::Region& t) {
    Region g; g.type = t.type();
    switch (g.type) {
    case TRAX_REGION_SPECIAL: g.code = t.get(); break;
    case TRAX_REGION_RECTANGLE: t.get(&g.r[0], &g.r[1], &g.r[2], &g.r[3]); break;
    case TRAX_REGION_POLYGON: { int n = t.get_polygon_count(); g.px.resize(n); g.py.resize(n); for (int i = 0; i < n; i++) t.get_polygon_point(i, &g.px[i], &g.py[i]); break; }
    case TRAX_REGION_MASK: t.get_mask_header(&g.x, &g.y, &g.w, &g.h); for (int j = 0; j < g.h; j++) { std::string row(t.get_mask_row(j), g.w); for (char& c : row) c = c ? 1 : 0; g.bits += row; } break;
    }
    return g;
}
static trax::Region make(const Region& g) {
    switch (g.type) {
    case TRAX_REGION_SPECIAL: return trax::Region::create_special(g.code);
    case TRAX_REGION_RECTANGLE: return trax::Region::create_rectangle(g.r[0], g.r[1], g.r[2], g.r[3]);
    case TRAX_REGION_POLYGON: { trax::Region p = trax::Region::create_polygon(g.px.size()); for (size_t i = 0; i < g.px.size(); i++) p.set_polygon_point(i, g.px[i], g.py[i]); return p; }
    case TRAX_REGION_MASK: { trax::Region m = trax::Region::create_mask(g.x, g.y, g.w, g.h); for (int j = 0; j < g.h; j++) fill_row(g, j, m.write_mask_row(j)); return m; }
    }
    return trax::Region();
}
static Image value(const trax::Image& t) {
    Image g; g.type = t.type();
    switch (g.type) {
    case TRAX_IMAGE_PATH: g.data = t.get_path(); break;
    case TRAX_IMAGE_URL: g.data = t.get_url(); break;
    case TRAX_IMAGE_BUFFER: { int n = 0; const char* d = t.get_buffer(&n, &g.format); g.data.assign(d, n); break; }
    case TRAX_IMAGE_MEMORY: t.get_memory_header(&g.w, &g.h, &g.format); for (int j = 0; j < g.h; j++) g.data.append(t.get_memory_row(j), (size_t) g.w * pixel(g.format)); break;
    }
    return g;
}
static trax::Image make(const Image& g) {
    switch (g.type) {
    case TRAX_IMAGE_PATH: return trax::Image::create_path(g.data);
    case TRAX_IMAGE_URL: return trax::Image::create_url(g.data);
    case TRAX_IMAGE_BUFFER: return trax::Image::create_buffer(g.data.size(), g.data.data());
    case TRAX_IMAGE_MEMORY: { trax::Image m = trax::Image::create_memory(g.w, g.h, g.format); size_t n = (size_t) g.w * pixel(g.format); for (int j = 0; j < g.h; j++) memcpy(m.write_memory_row(j), g.data.data() + j * n, n); return m; }
    }
    return trax::Image();
}
static Map value(const trax::Properties& t) { Map m; t.to_map(m); std::vector<std::string> v; t.to_vector(v); if (v.size() != m.size() || (int) m.size() != t.size()) m["!!size"] = fmt("%zu %zu %d", v.size(), m.size(), t.size()); for (auto& k : v) if (!m.count(k)) m["!!key"] = k; return m; }
static trax::Properties make(const Map& m) { trax::Properties p; p.from_map(m); return p; }
static Images value(const trax::ImageList& t) { Images m; int n = 0; for (int c : channels_of(7)) { trax::Image g = t.get(c); if (t.has(c) != !g.empty()) m[-1].data = "has() is wrong"; if (!g.empty()) { m[c] = value(g); n++; } } if (n != t.size()) m[-2].data = fmt("size() is %d", t.size()); return m; }
static trax::ImageList make(const Images& m) { trax::ImageList l; for (auto& e : m) l.set(make(e.second), e.first); return l; }
static Objects value(const trax::ObjectList& t) { Objects v; for (int i = 0; i < t.size(); i++) v.push_back({value(t.get(i)), value(t.properties(i))}); return v; }
struct MetaM { int regions = 0, images = 0, channels = 1; std::string name, desc, fam; Map custom; bool operator==(const MetaM& o) const { return regions == o.regions && images == o.images && channels == o.channels && name == o.name && desc == o.desc && fam == o.fam && custom == o.custom; } };
static const std::vector<std::string> KEYS = {"a", "b", "key.one", "key_two", "Z9"};
static MetaM value(const trax::Metadata& t) { MetaM m; m.regions = t.region_formats(); m.images = t.image_formats(); m.channels = t.channels(); m.name = t.tracker_name(); m.desc = t.tracker_description(); m.fam = t.tracker_family(); for (auto& k : KEYS) { std::string s = t.get_custom(k); if (!s.empty()) m.custom[k] = s; } return m; }

static std::string str(const Region& g) { return g.str(); } static std::string str(const Image& g) { return g.str(); } static std::string str(const Map& g) { return show_map(g); }
static std::string str(const Images& g) { return show_images(g); } static std::string str(const Objects& g) { return show_objects(g); } static std::string str(const MetaM& m) { return fmt("meta %d %d %d ", m.regions, m.images, m.channels) + show(m.name) + show(m.desc) + show(m.fam) + show_map(m.custom); }

// ------------------------------------------------------------ variables
template<class T, class M> struct Var { std::unique_ptr<T> t; M m; };
struct World {
    Ctx& cx; Rng& r; uint64_t h = 0; size_t ops = 0;
    std::vector<Var<trax::Region, Region>> regions; std::vector<Var<trax::Image, Image>> images; std::vector<Var<trax::Properties, Map>> props; std::vector<Var<trax::ImageList, Images>> lists; std::vector<Var<trax::ObjectList, Objects>> objects; std::vector<Var<trax::Metadata, MetaM>> metas;
    World(Ctx& cx) : cx(cx), r(cx.rng) {}
    template<class T, class M> void check(std::vector<Var<T, M>>& v, const char* what) { for (size_t i = 0; i < v.size(); i++) { M got = value(*v[i].t); REQUIRE(cx, got == v[i].m, std::string("value:") + what, "after %zu operations %s %zu is %s instead of %s", ops, what, i, str(got).c_str(), str(v[i].m).c_str()); } }
    void check() { check(regions, "region"); check(images, "image"); check(props, "properties"); check(lists, "image list"); check(objects, "object list"); check(metas, "metadata"); }

    void fresh(Var<trax::Region, Region>& v) { if (r.chance(15)) { v.t.reset(new trax::Region); v.m = Region(); } else { v.m = gen_region(r, ALL_REGIONS); v.t.reset(new trax::Region(make(v.m))); } }
    void fresh(Var<trax::Image, Image>& v) { if (r.chance(15)) { v.t.reset(new trax::Image); v.m = Image(); } else { v.m = gen_image(r, ALL_IMAGES); v.t.reset(new trax::Image(make(v.m))); } }
    void fresh(Var<trax::Properties, Map>& v) { v.m = r.chance(20) ? Map() : gen_props(r, 5, 40); v.t.reset(new trax::Properties(make(v.m))); }
    void fresh(Var<trax::ImageList, Images>& v) { v.m = gen_images(r, r.range(0, 7), ALL_IMAGES); v.t.reset(new trax::ImageList(make(v.m))); }
    void fresh(Var<trax::ObjectList, Objects>& v) { if (r.chance(15)) { v.t.reset(new trax::ObjectList); v.m.clear(); return; } int n = r.range(1, 5); v.t.reset(new trax::ObjectList(n)); v.m.assign(n, Object()); for (int i = 0; i < n; i++) { v.m[i].region = gen_region(r, ALL_REGIONS); v.t->set(i, make(v.m[i].region)); } }
    void fresh(Var<trax::Metadata, MetaM>& v) { v.m = MetaM(); if (r.chance(15)) { v.t.reset(new trax::Metadata); return; } v.m.regions = r.range(1, 7); v.m.images = r.pick(std::vector<int>{TRAX_IMAGE_PATH, ALL_IMAGES, TRAX_IMAGE_MEMORY}); v.m.channels = r.range(1, 7); if (r.chance(50)) v.m.name = gen_text(r, 20); if (r.chance(50)) v.m.desc = gen_text(r, 60); if (r.chance(50)) v.m.fam = gen_text(r, 20); v.t.reset(new trax::Metadata(v.m.regions, v.m.images, v.m.channels, v.m.name, v.m.desc, v.m.fam, r.below(2))); }

    template<class V> V& any(std::vector<V>& v) { return v[r.below(v.size())]; }
    void mutate(Var<trax::Region, Region>& v) {
        switch (r.below(6)) {
        case 0: v.m = special(r.range(-3, 9)); v.t->set(v.m.code); break;
        case 1: v.m = rect(gen_coord(r), gen_coord(r), r.range(1, 90), r.range(1, 90)); v.t->set(v.m.r[0], v.m.r[1], v.m.r[2], v.m.r[3]); break;
        case 2: if (v.m.type == TRAX_REGION_POLYGON) { int i = r.below(v.m.px.size()); v.m.px[i] = gen_coord(r); v.m.py[i] = gen_coord(r); v.t->set_polygon_point(i, v.m.px[i], v.m.py[i]); } break;
        case 3: if (v.m.type == TRAX_REGION_MASK && v.m.w && v.m.h) { int i = r.below(v.m.h); std::string b(v.m.w, 0); for (char& c : b) c = r.below(2); memcpy(v.t->write_mask_row(i), b.data(), b.size()); v.m.bits.replace((size_t) i * v.m.w, v.m.w, b); } break;
        case 4: { // text form into this object
            Region g = gen_region(r, ALL_REGIONS); std::stringstream s; s << make(g); s >> *v.t; v.m = printed(g); break; }
        case 5: { int k = r.pick(std::vector<int>{TRAX_REGION_RECTANGLE, TRAX_REGION_POLYGON, TRAX_REGION_SPECIAL}); if (v.m.type == TRAX_REGION_MASK && k == TRAX_REGION_POLYGON) break; // judged by P10
            trax::Region c = v.t->convert(k); R a(v.m); R b(a.p ? trax_region_convert(a, k) : NULL); Region want = from_lib(b.p); REQUIRE(cx, value(c) == want, "convert", "%s is converted to %s", v.m.str().c_str(), value(c).str().c_str()); *v.t = std::move(c); v.m = want; break; }
        }
        // queries agree with the library
        if (v.m.type != TRAX_REGION_EMPTY) { R a(v.m); char* e = trax_region_encode(a); std::string s = e ? e : ""; free(e); REQUIRE(cx, (std::string) *v.t == s, "text", "%s is written as %s", v.m.str().c_str(), show((std::string) *v.t).c_str()); trax::Bounds b = v.t->bounds(); trax_bounds w = trax_region_bounds(a); REQUIRE(cx, b.left == w.left && b.top == w.top && b.right == w.right && b.bottom == w.bottom, "bounds", "the bounds of %s differ", v.m.str().c_str()); float x = gen_coord(r), y = gen_coord(r); REQUIRE(cx, v.t->contains(x, y) == (trax_region_contains(a, x, y) != 0), "contains", "contains of %s differs", v.m.str().c_str()); }
        else REQUIRE(cx, v.t->empty() && !v.t->contains(1, 1) && ((std::string) *v.t).empty() && v.t->convert(TRAX_REGION_MASK).empty() && v.t->overlap(*v.t) == 0, "empty", "an empty region is not harmless");
    }
    void mutate(Var<trax::Image, Image>& v) { if (v.m.type == TRAX_IMAGE_MEMORY) { int i = r.below(v.m.h); std::string b = gen_bytes(r, (size_t) v.m.w * pixel(v.m.format)); memcpy(v.t->write_memory_row(i), b.data(), b.size()); v.m.data.replace(i * b.size(), b.size(), b); } else { Image g = gen_image(r, ALL_IMAGES); *v.t = make(g); v.m = g; } }
    void mutate(Var<trax::Properties, Map>& v) {
        std::string k = v.m.size() && r.chance(50) ? std::next(v.m.begin(), r.below(v.m.size()))->first : gen_key(r);
        switch (r.below(6)) { case 0: v.t->clear(); v.m.clear(); break; case 1: { int n = r.range(-1000, 1000); v.t->set(k, n); v.m[k] = fmt("%d", n); REQUIRE(cx, v.t->get(k, 5) == n, "get", "an integer is not read back"); break; } case 2: { float f = r.range(-1000, 1000) / 8.0f; v.t->set(k, f); REQUIRE(cx, v.t->get(k, 5.0f) == f && v.t->get(k, 5.0) == f, "get", "%g is read as %g", f, v.t->get(k, 5.0f)); v.m[k] = v.t->get(k, std::string()); break; }
            case 3: { Map m = gen_props(r, 4, 30); v.t->from_map(m); for (auto& e : m) v.m[e.first] = e.second; break; } default: { std::string s = gen_text(r, 60); v.t->set(k, s); v.m[k] = s; REQUIRE(cx, v.t->get(k, std::string("?")) == s, "get", "a text is not read back"); break; } }
        std::stringstream s; s << *v.t; size_t lines = 0, nl = 0; for (auto& e : v.m) { nl += std::count(e.second.begin(), e.second.end(), '\n') + 1; REQUIRE(cx, s.str().find(e.first + "=" + e.second + "\n") != std::string::npos, "print", "%s is not printed", e.first.c_str()); } lines = 0; for (char c : s.str()) lines += c == '\n'; REQUIRE(cx, lines == nl, "print", "%zu lines instead of %zu", lines, nl);
        REQUIRE(cx, v.t->get("no.such.key", 7) == 7 && v.t->get("no.such.key", 1.5f) == 1.5f && v.t->get("no.such.key", true) && v.t->get("no.such.key", "d") == "d", "default", "a default is not used");
    }
    void mutate(Var<trax::ImageList, Images>& v) { int c = r.pick(std::vector<int>{1, 2, 4}); auto& i = any(images); if (r.chance(85)) { v.t->set(*i.t, c); if (i.m.type) v.m[c] = i.m; else v.m.erase(c); } else v.t->set(*i.t, r.pick(std::vector<int>{0, 3, 8, -1})); if (r.chance(40)) { trax::Image g = v.t->get(c); if (g.type() == TRAX_IMAGE_MEMORY) { int w, h, f; g.get_memory_header(&w, &h, &f); memset(g.write_memory_row(0), 0x5a, w * pixel(f)); } } }
    void mutate(Var<trax::ObjectList, Objects>& v) { if (v.m.empty()) { REQUIRE(cx, v.t->get(0).empty() && v.t->properties(0).size() == 0, "empty", "an empty list has objects"); v.t->set(0, *any(regions).t); return; } int i = r.chance(10) ? r.pick(std::vector<int>{-1, (int) v.m.size(), INT_MAX, INT_MIN}) : r.below(v.m.size()); auto& g = any(regions);
        if (i < 0 || i >= (int) v.m.size()) { v.t->set(i, *g.t); REQUIRE(cx, v.t->get(i).empty(), "index", "there is an object %d", i); } else { if (g.m.type == TRAX_REGION_EMPTY) return; v.t->set(i, *g.t); v.m[i].region = g.m; if (r.chance(40)) { trax::Region q = v.t->get(i); q.set(3.0f, 4, 5, 6); trax::Properties p = v.t->properties(i); p.set("zz", 4); } } }
    void mutate(Var<trax::Metadata, MetaM>& v) { std::string k = r.pick(KEYS), s = gen_text(r, 30); v.t->set_custom(k, s); if (s.empty()) v.m.custom.erase(k); else v.m.custom[k] = s; }

    template<class T, class M> void step(std::vector<Var<T, M>>& v, int kind) {
        auto& a = any(v); auto& b = any(v); int op = r.below(12); h = mix(h, kind * 100 + op * 4 + (&a == &b));
        switch (op) {
        case 0: fresh(a); break;
        case 1: { std::unique_ptr<T> c(new T(*b.t)); a.t = std::move(c); a.m = b.m; cx.ev("copies"); break; } // also destroys the old one
        case 2: { std::unique_ptr<T> c(new T(std::move(*b.t))); M m = b.m; b.m = value(*b.t); a.t = std::move(c); a.m = m; cx.ev("moves"); break; }
        case 3: case 4: *a.t = *b.t; a.m = b.m; cx.ev(&a == &b ? "assignments to itself" : "assignments"); break;
        case 5: { M m = b.m; *a.t = std::move(*b.t); if (&a == &b) { M now = value(*a.t); REQUIRE(cx, now == m || now == M(), "self-move", "moving to itself gives another value"); a.m = now; } else { a.m = m; b.m = value(*b.t); } cx.ev("moves"); break; }
        case 6: std::swap(*a.t, *b.t); if (&a != &b) std::swap(a.m, b.m); cx.ev("swaps"); break;
        case 7: { T c(*a.t); Var<T, M> v2; v2.t.reset(new T(c)); v2.m = a.m; mutate(v2); cx.ev("changes of copies"); break; } // the copies die here
        case 8: { std::vector<T> many; for (int i = r.range(1, 9); i > 0; i--) many.push_back(*any(v).t); std::vector<T> other(many); size_t q = r.below(many.size()); M m = value(many[q]); std::swap(many[q], other[r.below(other.size())]); *b.t = many[q]; b.m = value(many[q]); (void) m; cx.ev("containers"); break; }
        case 9: { auto f = [](T t) { return t; }; *a.t = f(f(*b.t)); a.m = b.m; break; }
        default: mutate(a); cx.ev("changes"); break;
        }
        ops++;
    }
    void run(int n) {
        for (int i = 0; i < n; i++) { switch (r.below(6)) { case 0: step(regions, 0); break; case 1: step(images, 1); break; case 2: step(props, 2); break; case 3: step(lists, 3); break; case 4: step(objects, 4); break; case 5: step(metas, 5); break; } check(); }
        cx.ev("operations", n); cx.state(h);
    }
};
static void p14_program(Ctx& cx) {
    World w(cx); w.regions.resize(4); w.images.resize(4); w.props.resize(4); w.lists.resize(3); w.objects.resize(3); w.metas.resize(3);
    for (auto& v : w.regions) w.fresh(v); for (auto& v : w.images) w.fresh(v); for (auto& v : w.props) w.fresh(v); for (auto& v : w.lists) w.fresh(v); for (auto& v : w.objects) w.fresh(v); for (auto& v : w.metas) w.fresh(v);
    w.check(); w.run(cx.rng.range(5, cx.rng.chance(10) ? 200 : 40));
    while (w.regions.size() + w.images.size() + w.lists.size() + w.objects.size()) { switch (cx.rng.below(4)) { case 0: if (w.regions.size()) w.regions.erase(w.regions.begin() + cx.rng.below(w.regions.size())); break; case 1: if (w.images.size()) w.images.erase(w.images.begin() + cx.rng.below(w.images.size())); break; case 2: if (w.lists.size()) w.lists.erase(w.lists.begin() + cx.rng.below(w.lists.size())); break; case 3: if (w.objects.size()) w.objects.erase(w.objects.begin() + cx.rng.below(w.objects.size())); break; } w.check(); }
}

// A session between the C++ classes; what was received lives on after the handles
struct Step { Images images; Objects objects; Map props; Objects reply; Map rprops; unsigned vary = 0; Images other; Objects others; };
// Lists that are sent while changed copies of them exist, or that are changed copies themselves: only the wire shows what they share
static trax::ImageList sent(const Step& s, std::vector<trax::ImageList>& keep) {
    if (s.vary & 1) { trax::ImageList il = make(s.images); keep.assign(1 + (s.vary >> 8 & 1), il); for (auto& c : keep) for (auto& e : s.other) c.set(make(e.second), e.first); return il; }
    if (s.vary & 2) { trax::ImageList base = make(s.other); auto kept = [&](int c) { return (s.vary >> 12 & c) && s.images.count(c); }; for (auto& e : s.images) if (kept(e.first)) base.set(make(e.second), e.first); trax::ImageList il(base); keep.push_back(base); for (int c : channels_of(7)) if (!kept(c)) { auto e = s.images.find(c); il.set(e == s.images.end() ? trax::Image() : make(e->second), c); } return il; }
    return make(s.images);
}
static trax::ObjectList sent(const Objects& objects, const Step& s, std::vector<trax::ObjectList>& keep) {
    int n = objects.size(); trax::ObjectList o(n); bool base = s.vary & 2;
    for (int i = 0; i < n; i++) o.set(i, make(base && i % 2 == 0 ? s.others[i].region : objects[i].region));
    if (s.vary & 1) { keep.assign(1 + (s.vary >> 8 & 1), o); for (auto& c : keep) for (int i = 0; i < n; i++) if (s.vary >> (9 + i) & 1) c.set(i, make(s.others[i].region)); }
    if (base) { keep.push_back(o); trax::ObjectList c(o); for (int i = 0; i < n; i += 2) c.set(i, make(objects[i].region)); return c; }
    return o;
}
struct Seen { int code = 0; trax::ImageList images; trax::ObjectList objects; trax::Region region; trax::Properties props; };
static void p14_session(Ctx& cx) {
    Rng& r = cx.rng; bool mot = r.chance(60), many = mot && r.chance(60); int steps = r.range(1, 6), n = many ? r.range(1, 4) : 1, channels = r.range(1, 7), end = r.below(3); bool copies = r.chance(50);
    std::vector<Step> plan(steps); for (auto& s : plan) { s.images = gen_images(r, channels, ALL_IMAGES); s.props = gen_props(r, 3, 40); s.rprops = gen_props(r, 3, 40); s.other = gen_images(r, channels, ALL_IMAGES); s.vary = r.next(); if (many && &s != &plan[0] && (s.vary & 4)) for (int i = r.range(1, 3); i > 0; i--) s.objects.push_back({gen_region(r, GEOMETRY), Map()}); }
    for (int i = 0; i < n; i++) plan[0].objects.push_back({gen_region(r, GEOMETRY), Map()});
    size_t total = 0; for (auto& s : plan) { total += s.objects.size(); for (size_t i = 0; i < total; i++) { s.reply.push_back({gen_region(r, GEOMETRY), Map()}); s.others.push_back({gen_region(r, GEOMETRY), Map()}); } } // frames add objects
    auto many_at = [&](const Step& s) { return many && s.reply.size() > 1 && (s.vary & 192) == 192; };
    cx.log("%s, %d objects, %d steps, end %d", mot ? "multi" : "single", n, steps, end);
    Listener l; static char env[40]; snprintf(env, sizeof env, "TRAX_SOCKET=%d", l.port); putenv(env);
    std::vector<Seen> server(steps + 1), client(steps); std::string problem; MetaM declared; declared.regions = GEOMETRY; declared.images = ALL_IMAGES; declared.channels = channels; declared.name = gen_text(r, 20); declared.custom["a"] = "1 2";
    trax::Metadata md(declared.regions, declared.images, channels, declared.name, "", "", many ? TRAX_METADATA_MULTI_OBJECT : 0); md.set_custom("a", "1 2");
    size_t answered = 0;
    auto serve = [&](auto& first) {
        auto handle = std::unique_ptr<std::decay_t<decltype(first)>>(copies ? new std::decay_t<decltype(first)>(first) : NULL); auto& h = copies ? *handle : first;
        for (int k = 0; k <= steps; k++) {
            Seen& s = server[k]; if (k) s.props = server[k - 1].props; // a copy of what was received before must not change
            if constexpr (std::is_same<std::decay_t<decltype(first)>, trax::ServerMOT>::value) { if (k < steps && plan[k].objects.size() > 1 && (plan[k].vary & 48) == 48) { int c = h.wait(s.images, s.region, s.props); if (c != TRAX_ERROR || !s.region.empty()) problem = fmt("%zu objects are received as one: %d", plan[k].objects.size(), c); s.code = k ? TRAX_FRAME : TRAX_INITIALIZE; } else s.code = many ? h.wait(s.images, s.objects, s.props) : h.wait(s.images, s.region, s.props); } else s.code = h.wait(s.images, s.region, s.props);
            if (s.code != TRAX_INITIALIZE && s.code != TRAX_FRAME) break;
            if (k == steps) break; trax::Properties p = make(plan[k].rprops); int rc;
            if (many) { std::vector<trax::ObjectList> keep; trax::ObjectList o = sent(plan[k].reply, plan[k], keep); if constexpr (std::is_same<std::decay_t<decltype(first)>, trax::ServerMOT>::value) rc = h.reply(o); } else rc = h.reply(make(plan[k].reply[0].region), p);
            if (rc != TRAX_OK) { problem = fmt("reply %d gives %d: %s", k, rc, h.get_error().c_str()); break; }
            answered++; if (end == 1 && k + 1 == steps) { h.terminate("enough"); break; }
            if (copies && k == 1) { std::decay_t<decltype(first)> other(h); if (!other.is_alive()) problem = "a copy of a living handle is dead"; } }
    };
    std::thread t([&] { if (mot) { trax::ServerMOT h(md, trax::Logging()); if (h.is_alive()) serve(h); } else { trax::ServerSOT h(md, trax::Logging()); if (h.is_alive()) serve(h); } });
    std::string failure, key; try {
        trax::Client h(l.fd, trax::Logging(), 20); std::unique_ptr<trax::Client> copy(copies ? new trax::Client(h) : NULL);
        REQUIRE(cx, h.is_alive(), "session", "no session: %s", h.get_error().c_str());
        { trax::Metadata m = h.metadata(); MetaM got = value(m); REQUIRE(cx, got == declared, "metadata", "declared %s, received %s", str(declared).c_str(), str(got).c_str()); }
        for (int k = 0; k < steps; k++) {
            std::vector<trax::ImageList> lists; std::vector<trax::ObjectList> olists; trax::ImageList il = sent(plan[k], lists); trax::Properties p = make(plan[k].props); int rc; if (k == 0) { if (many) { trax::ObjectList o = sent(plan[0].objects, plan[0], olists); rc = h.initialize(il, o, p); } else rc = h.initialize(il, make(plan[0].objects[0].region), p); } else if (plan[k].objects.size()) { trax::ObjectList o = sent(plan[k].objects, plan[k], olists); rc = h.frame(il, o, p); cx.ev("frames with objects"); } else rc = h.frame(il, p);
            REQUIRE(cx, rc == TRAX_OK, "send", "step %d gives %d: %s", k, rc, h.get_error().c_str()); REQUIRE(cx, value(il) == plan[k].images && value(p) == plan[k].props, "sent-changed", "sending changes what is sent");
            Seen& s = client[k]; if (k) s.props = client[k - 1].props; if (many_at(plan[k])) { int c = h.wait(s.region, s.props); REQUIRE(cx, c == TRAX_ERROR && s.region.empty(), "one-of-many", "%zu objects are received as one: %d", plan[k].reply.size(), c); cx.ev("lists read as one object"); continue; } s.code = many ? h.wait(s.objects, s.props) : h.wait(s.region, s.props); REQUIRE(cx, s.code == TRAX_STATE, "wait", "step %d is answered with %d: %s", k, s.code, h.get_error().c_str()); }
        if (end == 1) { trax::Properties p; trax::Region g; int rc = h.wait(g, p); REQUIRE(cx, rc == TRAX_QUIT && !h.is_alive(), "quit", "the end is reported as %d", rc); }
        if (end == 2) { REQUIRE(cx, h.terminate("done"), "terminate", "terminate fails"); REQUIRE(cx, !h.is_alive(), "alive", "alive after the end"); if (copy) REQUIRE(cx, !copy->is_alive(), "alive", "the copy is alive after the end"); }
    } catch (Fail& f) { key = f.key; failure = f.msg; }
    t.join(); unsetenv("TRAX_SOCKET"); if (!failure.empty()) cx.fail(key, failure + (problem.empty() ? "" : ", server: " + problem)); REQUIRE(cx, problem.empty(), "server", "%s", problem.c_str());
    REQUIRE(cx, answered == (size_t) steps, "count", "%zu of %d steps arrived", answered, steps); if (end != 1) REQUIRE(cx, server[steps].code == TRAX_QUIT, "quit", "the end is reported as %d", server[steps].code);
    // all that was received, after the handles are gone; copies of properties that were reused are independent
    auto expect = [&](std::vector<Seen>& v, bool at_server) { Map all; for (int k = 0; k < steps; k++) { Step& s = plan[k]; for (auto& e : at_server ? s.props : s.rprops) all[e.first] = e.second; // received properties are added to those which are there
        if (at_server) { REQUIRE(cx, value(v[k].images) == s.images, "images", "step %d: %s instead of %s", k, show_images(value(v[k].images)).c_str(), show_images(s.images).c_str()); REQUIRE(cx, value(v[k].props) == all, "properties", "step %d: %s instead of %s", k, show_map(value(v[k].props)).c_str(), show_map(all).c_str()); if (many && s.objects.size() && !(s.objects.size() > 1 && (s.vary & 48) == 48)) { Objects o = value(v[k].objects), w = s.objects; for (auto& x : w) x.region = printed(x.region); REQUIRE(cx, o == w, "objects", "%s instead of %s", show_objects(o).c_str(), show_objects(w).c_str()); } if (k == 0 && !many) REQUIRE(cx, value(v[0].region) == printed(s.objects[0].region), "region", "%s instead of %s", value(v[0].region).str().c_str(), s.objects[0].region.str().c_str()); }
        else if (many) { if (many_at(s)) continue; Objects o = value(v[k].objects), w = s.reply; for (auto& x : w) x.region = printed(x.region); REQUIRE(cx, o == w, "objects", "state %d: %s instead of %s", k, show_objects(o).c_str(), show_objects(w).c_str()); }
        else { REQUIRE(cx, value(v[k].region) == printed(s.reply[0].region), "region", "state %d: %s instead of %s", k, value(v[k].region).str().c_str(), s.reply[0].region.str().c_str()); REQUIRE(cx, value(v[k].props) == all, "properties", "state %d: %s instead of %s", k, show_map(value(v[k].props)).c_str(), show_map(all).c_str()); } } };
    expect(server, true); expect(client, false); cx.ev("sessions"); cx.ev("states", steps); cx.state(mix(mot + 2 * many + 4 * copies + 8 * end, mix(steps * 10 + n, channels)));
    // then they are ordinary values
    World w(cx); for (auto& s : server) { w.objects.push_back({std::make_unique<trax::ObjectList>(s.objects), value(s.objects)}); w.lists.push_back({std::make_unique<trax::ImageList>(s.images), value(s.images)}); w.regions.push_back({std::make_unique<trax::Region>(s.region), value(s.region)}); w.props.push_back({std::make_unique<trax::Properties>(s.props), value(s.props)}); }
    w.images.resize(2); w.metas.resize(1); for (auto& v : w.images) w.fresh(v); w.fresh(w.metas[0]); if (r.chance(50)) { server.clear(); client.clear(); } w.run(r.range(3, 20));
}
// Handles without a session: every operation is refused
static void p14_empty(Ctx& cx) {
    Rng& r = cx.rng; Listener l; trax::Client none(l.fd, trax::Logging(), 0); trax::Client copy(none), other(none);
    trax::Region g; trax::Properties p; trax::ObjectList o(1); trax::ImageList il; int v = 77, want = -1;
    for (int i = r.range(1, 12); i > 0; i--) { trax::Client& h = *r.pick(std::vector<trax::Client*>{&none, &copy, &other}); int op = r.below(11), rc = want;
        switch (op) { case 0: rc = h.wait(g, p); break; case 1: rc = h.wait(o, p); break; case 2: rc = h.initialize(il, g, p); break; case 3: rc = h.initialize(il, o, p); break; case 4: rc = h.frame(il, p); break; case 5: rc = h.frame(il, o, p); break;
            case 6: rc = h.set_parameter(0, 1); break; case 7: rc = h.get_parameter(0, &v); REQUIRE(cx, v == 77, "empty-handle", "a parameter of no session is %d", v); break; case 8: rc = h.terminate("x") ? 0 : -1; break; case 9: rc = h.is_alive() || !h.get_error().empty() ? 0 : -1; break;
            case 10: { trax::Metadata m = h.metadata(); rc = m.tracker_name().empty() ? -1 : 0; break; } }
        REQUIRE(cx, rc == want, "empty-handle", "operation %d without a session gives %d", op, rc); cx.ev("operations without a session"); cx.state(op); }
}
vh::Harness vh::make_harness(const std::string& mode) { Harness h; if (mode == "P14") h.scenarios = {{"programs", 9, p14_program, true}, {"sessions", 1, p14_session, true}, {"empty handles", 1, p14_empty, true}}; return h; }
