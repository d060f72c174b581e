// P25: conversions between the types of the library and those of OpenCV.
#include "ref.h"
#include <opencv2/core/core.hpp>
#include <opencv2/imgproc/imgproc.hpp>
#include <opencv2/imgcodecs/imgcodecs.hpp>
#include <trax/opencv.hpp>
using namespace ref; using namespace vh;

static std::string top;
static void remove_top() { if (top.empty()) return; for (auto n : {"/a.ppm", "/a.png", "/a.pgm", "/a.jpg", "/a.bmp"}) ::unlink((top + n).c_str()); ::rmdir(top.c_str()); }

// ------------------------------------------------------------ values
static Region value(const trax::Region& t) {
    Region g; g.type = t.type();
    switch (g.type) {
    case TRAX_REGION_SPECIAL: g.code = t.get(); break;
    case TRAX_REGION_RECTANGLE: t.get(&g.r[0], &g.r[1], &g.r[2], &g.r[3]); break;
    case TRAX_REGION_POLYGON: { int n = t.get_polygon_count(); g.px.resize(n); g.py.resize(n); for (int i = 0; i < n; i++) t.get_polygon_point(i, &g.px[i], &g.py[i]); break; }
    case TRAX_REGION_MASK: t.get_mask_header(&g.x, &g.y, &g.w, &g.h); for (int j = 0; j < g.h; j++) g.bits.append(t.get_mask_row(j), g.w); break;
    }
    return g;
}
static trax::Region make(const Region& g) {
    switch (g.type) {
    case TRAX_REGION_SPECIAL: return trax::Region::create_special(g.code);
    case TRAX_REGION_RECTANGLE: return trax::Region::create_rectangle(g.r[0], g.r[1], g.r[2], g.r[3]);
    case TRAX_REGION_POLYGON: { trax::Region p = trax::Region::create_polygon(g.px.size()); for (size_t i = 0; i < g.px.size(); i++) p.set_polygon_point(i, g.px[i], g.py[i]); return p; }
    case TRAX_REGION_MASK: { trax::Region m = trax::Region::create_mask(g.x, g.y, g.w, g.h); for (int j = 0; j < g.h; j++) memcpy(m.write_mask_row(j), g.bits.data() + (size_t) j * g.w, g.w); return m; }
    }
    return trax::Region();
}
static Image value(const trax::Image& t) {
    Image g; g.type = t.type();
    if (g.type == TRAX_IMAGE_MEMORY) { t.get_memory_header(&g.w, &g.h, &g.format); for (int j = 0; j < g.h; j++) g.data.append(t.get_memory_row(j), (size_t) g.w * pixel(g.format)); }
    return g;
}
static trax::Image make(const Image& g) {
    switch (g.type) {
    case TRAX_IMAGE_PATH: return trax::Image::create_path(g.data);
    case TRAX_IMAGE_URL: return trax::Image::create_url(g.data);
    case TRAX_IMAGE_BUFFER: return trax::Image::create_buffer(g.data.size(), g.data.data());
    case TRAX_IMAGE_MEMORY: { trax::Image m = trax::Image::create_memory(g.w, g.h, g.format); size_t n = (size_t) g.w * pixel(g.format); for (int j = 0; j < g.h; j++) memcpy(m.write_memory_row(j), g.data.data() + j * n, n); return m; }
    }
    return trax::Image();
}
static std::string bytes(const cv::Mat& m) { std::string s; for (int i = 0; i < m.rows; i++) s.append((const char*) m.ptr(i), m.cols * m.elemSize()); return s; }
static std::string swapped(std::string s) { for (size_t i = 0; i + 2 < s.size(); i += 3) std::swap(s[i], s[i + 2]); return s; }
static int cv_type(int f) { return f == TRAX_IMAGE_MEMORY_RGB ? CV_8UC3 : f == TRAX_IMAGE_MEMORY_GRAY8 ? CV_8UC1 : CV_16UC1; }
static const char* kind(int t) { return t == CV_8UC3 ? "color" : t == CV_8UC1 ? "gray8" : "gray16"; }
static int size(Rng& r) { return r.chance(35) ? r.range(1, 4) : r.chance(5) ? r.range(200, 1200) : r.range(1, 70); }
// a matrix of the type and size with random contents that is continuous, a part of a larger one, or has padded rows
static cv::Mat gen_mat(Rng& r, int type, int w, int h, cv::Mat& whole, std::string& layout) {
    int kind = r.below(4); cv::Mat m; cv::Rect at(0, 0, w, h);
    if (kind == 0) { layout = "continuous"; whole = cv::Mat(h, w, type); }
    else if (kind == 1) { layout = "part"; at.x = r.range(0, 9); at.y = r.range(0, 9); whole = cv::Mat(at.y + h + r.range(0, 9), at.x + w + r.range(1, 9), type); }
    else if (kind == 2) { layout = "rows"; at.y = r.range(0, 9); whole = cv::Mat(at.y + h + r.range(0, 9), w, type); }
    else { layout = "columns"; at.x = r.range(0, 9); whole = cv::Mat(h, at.x + w + r.range(1, 9), type); }
    std::string b = gen_bytes(r, whole.total() * whole.elemSize()); memcpy(whole.data, b.data(), b.size()); m = whole(at); return m;
}

// ------------------------------------------------------------ images
static void memory_to_mat(Ctx& cx) {
    Rng& r = cx.rng; Image g; g.type = TRAX_IMAGE_MEMORY; g.format = r.pick(std::vector<int>{TRAX_IMAGE_MEMORY_GRAY8, TRAX_IMAGE_MEMORY_GRAY16, TRAX_IMAGE_MEMORY_RGB}); g.w = size(r); g.h = size(r); g.data = gen_bytes(r, (size_t) g.w * g.h * pixel(g.format));
    cv::Mat m; std::string want = g.format == TRAX_IMAGE_MEMORY_RGB ? swapped(g.data) : g.data;
    { trax::Image a = make(g); trax::Image copy = r.chance(50) ? a : trax::Image(); m = trax::image_to_mat(a); REQUIRE(cx, value(a) == g, "source", "the image changed");
      REQUIRE(cx, m.cols == g.w && m.rows == g.h && m.type() == cv_type(g.format), "header", "%s became %dx%d of type %d", g.str().c_str(), m.cols, m.rows, m.type()); REQUIRE(cx, bytes(m) == want, "pixels", "%s has other pixels as matrix", g.str().c_str());
      if (r.chance(50)) { m.setTo(cv::Scalar::all(7)); REQUIRE(cx, value(a) == g && (copy.empty() || value(copy) == g), "shared", "changing the matrix changes the image"); m = trax::image_to_mat(a); } }
    REQUIRE(cx, bytes(m) == want, "released", "the pixels are lost with the image");
    trax::Image back = trax::mat_to_image(m); Image b = value(back); REQUIRE(cx, b == g, "round-trip", "%s became %s", g.str().c_str(), b.str().c_str());
    cx.ev(fmt("%s images", kind(m.type())).c_str()); cx.ev("pixels", g.w * g.h); cx.state(mix(mix(g.w, g.h), g.format)); cx.sample(g.str());
}
static void mat_to_memory(Ctx& cx) {
    Rng& r = cx.rng; int type = r.pick(std::vector<int>{CV_8UC1, CV_16UC1, CV_8UC3}), w = size(r), h = size(r); cv::Mat whole; std::string layout; cv::Mat m = gen_mat(r, type, w, h, whole, layout); std::string before = bytes(whole), want = bytes(m); if (type == CV_8UC3) want = swapped(want);
    trax::Image a = trax::mat_to_image(m); REQUIRE(cx, bytes(whole) == before, "source", "the matrix changed"); Image g = value(a);
    REQUIRE(cx, g.type == TRAX_IMAGE_MEMORY && g.w == w && g.h == h && cv_type(g.format) == type, "header", "a %s %s matrix of %dx%d became %s", layout.c_str(), kind(type), w, h, g.str().c_str()); REQUIRE(cx, g.data == want, "pixels", "a %s %s matrix of %dx%d became %s", layout.c_str(), kind(type), w, h, g.str().c_str());
    whole.setTo(cv::Scalar::all(9)); REQUIRE(cx, value(a) == g, "shared", "changing the matrix changes the image");
    cv::Mat n = trax::image_to_mat(a); REQUIRE(cx, n.type() == type && bytes(n) == (type == CV_8UC3 ? swapped(want) : want), "round-trip", "a %s matrix changed", kind(type));
    cx.ev(fmt("%s matrices, %s", kind(type), layout.c_str()).c_str()); cx.ev("pixels", w * h); cx.state(mix(mix(mix(w, h), type), hash_of(layout)));
}
static void refused(Ctx& cx) { // what has no counterpart is refused
    Rng& r = cx.rng; int type = r.pick(std::vector<int>{CV_8UC2, CV_8UC4, CV_8SC1, CV_16SC1, CV_32SC1, CV_32FC1, CV_64FC1, CV_16UC3, CV_32FC3, -1}); bool thrown = false; std::string what;
    cv::Mat m = type < 0 ? cv::Mat() : cv::Mat(r.range(1, 9), r.range(1, 9), type, cv::Scalar::all(1));
    try { trax::Image a = trax::mat_to_image(m); what = value(a).str(); } catch (const std::exception& e) { thrown = true; REQUIRE(cx, strlen(e.what()) > 0, "text", "no text"); }
    REQUIRE(cx, thrown, "accepted", "a matrix of type %d became %s", type, what.c_str());
    thrown = false; try { cv::Mat u = trax::image_to_mat(r.chance(50) ? trax::Image() : trax::Image::create_url("http://a/b.png")); REQUIRE(cx, u.empty(), "accepted", "an image without pixels became a matrix"); } catch (const std::exception&) {}
    cv::Mat e = trax::image_to_mat(trax::Image::create_path(top + "/none.png")); REQUIRE(cx, e.empty(), "accepted", "a missing file became a matrix"); cx.ev("refusals"); cx.state(mix(type + 1, m.rows * 16 + m.cols));
}
static void encoded(Ctx& cx) { // files and buffers
    Rng& r = cx.rng; int w = size(r), h = size(r), type = r.pick(std::vector<int>{CV_8UC1, CV_8UC3}); cv::Mat whole; std::string layout; cv::Mat m = gen_mat(r, type, w, h, whole, layout).clone(); if (type == CV_8UC1 || r.chance(50)) for (int i = 0; i < m.rows; i++) for (int j = 0; j < (int) (m.cols * m.elemSize()); j++) m.ptr(i)[j] = i * 3 + j * 2;
    static const char* EXT[] = {".png", ".ppm", ".bmp", ".jpg"}; bool buffer = r.chance(50); const char* ext = EXT[buffer ? (r.chance(50) ? 0 : 3) : r.below(4)]; if (type == CV_8UC1 && !strcmp(ext, ".ppm")) ext = ".pgm"; std::vector<uchar> data; REQUIRE(cx, cv::imencode(ext, m, data), "setup", "cannot encode"); cv::Mat want; if (type == CV_8UC3) want = m; else cv::cvtColor(m, want, cv::COLOR_GRAY2BGR); if (!strcmp(ext, ".jpg")) want = cv::imdecode(data, cv::IMREAD_COLOR);
    trax::Image a; if (buffer) a = trax::Image::create_buffer(data.size(), (const char*) data.data()); else { std::string p = top + "/a" + ext; FILE* f = fopen(p.c_str(), "wb"); fwrite(data.data(), 1, data.size(), f); fclose(f); a = trax::Image::create_path(p); }
    cv::Mat n = trax::image_to_mat(a); a = trax::Image(); REQUIRE(cx, n.type() == CV_8UC3 && n.size() == want.size() && bytes(n) == bytes(want), "pixels", "a %s %s of %dx%d became a matrix %dx%d of type %d", ext, buffer ? "buffer" : "file", w, h, n.cols, n.rows, n.type());
    if (!buffer) ::unlink((top + "/a" + ext).c_str()); cx.ev(buffer ? "buffers" : "files"); cx.state(mix(mix(w, h), hash_of(std::string(ext)) + buffer));
}

// ------------------------------------------------------------ regions
static void boxes(Ctx& cx) {
    Rng& r = cx.rng; auto c = [&]() -> float { int k = r.below(4); return k == 0 ? r.range(-50, 400) : k == 1 ? r.range(-500, 4000) / 8.0f : k == 2 ? (float) ((r.unit() - .2) * 1000) : r.range(-30000, 30000); };
    if (r.chance(40)) { cv::Rect q(c(), c(), fabs(c()), fabs(c())); trax::Region g = trax::rect_to_region(q); Region v = value(g); REQUIRE(cx, v == rect(q.x, q.y, q.width, q.height), "rectangle", "%d,%d %dx%d became %s", q.x, q.y, q.width, q.height, v.str().c_str()); cv::Rect b = trax::region_to_rect(g); REQUIRE(cx, b == q, "round-trip", "%d,%d %dx%d became %d,%d %dx%d", q.x, q.y, q.width, q.height, b.x, b.y, b.width, b.height); cx.state(mix(mix(q.x, q.y), mix(q.width, q.height))); cx.ev("rectangles"); return; }
    int type = r.pick(std::vector<int>{TRAX_REGION_RECTANGLE, TRAX_REGION_POLYGON, TRAX_REGION_MASK, TRAX_REGION_SPECIAL, TRAX_REGION_EMPTY}); Region g; double want[4] = {0, 0, 0, 0};
    if (type == TRAX_REGION_RECTANGLE) { g = rect(c(), c(), fabs(c()), fabs(c())); for (int k = 0; k < 4; k++) want[k] = g.r[k]; }
    else if (type == TRAX_REGION_POLYGON) { g.type = type; int n = r.range(3, 9); for (int k = 0; k < n; k++) { g.px.push_back(c()); g.py.push_back(c()); } auto x = std::minmax_element(g.px.begin(), g.px.end()), y = std::minmax_element(g.py.begin(), g.py.end()); want[0] = *x.first; want[1] = *y.first; want[2] = (double) *x.second - *x.first; want[3] = (double) *y.second - *y.first; }
    else if (type == TRAX_REGION_MASK) { int w = r.range(2, 20), h = r.range(2, 20); g = mask(r.range(-50, 400), r.range(-50, 400), w, h, std::string(w * h, 1)); want[0] = g.x; want[1] = g.y; want[2] = w; want[3] = h; }
    else if (type == TRAX_REGION_SPECIAL) g = special(r.range(0, 3));
    trax::Region t = make(g); cv::Rect b = trax::region_to_rect(t); REQUIRE(cx, value(t) == g, "source", "the region changed"); int got[4] = {b.x, b.y, b.width, b.height};
    double slack = type == TRAX_REGION_MASK ? 1.01 : type == TRAX_REGION_POLYGON ? .51 + 2e-3 : .5 + 1e-9; for (int k = 0; k < 4; k++) REQUIRE(cx, fabs(got[k] - want[k]) <= slack, "rectangle", "%s became %d,%d %dx%d", g.str().c_str(), b.x, b.y, b.width, b.height); cx.ev("rectangles"); cx.state(mix(g.shape(), hash_of(g.str())));
}
static void points(Ctx& cx) {
    Rng& r = cx.rng; int n = r.chance(10) ? r.range(50, 300) : r.range(3, 12); std::vector<cv::Point2f> p; for (int k = 0; k < n; k++) p.push_back({gen_coord(r), gen_coord(r)});
    trax::Region g = trax::points_to_region(p); Region v = value(g); REQUIRE(cx, v.type == TRAX_REGION_POLYGON && (int) v.px.size() == n, "points", "%d points became %s", n, v.str().c_str()); for (int k = 0; k < n; k++) REQUIRE(cx, v.px[k] == p[k].x && v.py[k] == p[k].y, "points", "point %d of %d changed", k, n);
    std::vector<cv::Point2f> b = trax::region_to_points(g); REQUIRE(cx, b == p, "round-trip", "%d points changed", n);
    // corners of a rectangle, and regions without corners
    float x = r.range(-300, 300), y = r.range(-300, 300), w = r.range(1, 300), h = r.range(1, 300); auto q = trax::region_to_points(trax::Region::create_rectangle(x, y, w, h)); REQUIRE(cx, q.size() == 4, "corners", "a rectangle has %zu corners", q.size()); double mx[2] = {1e9, -1e9}, my[2] = {1e9, -1e9}; for (auto& e : q) { mx[0] = std::min<double>(mx[0], e.x); mx[1] = std::max<double>(mx[1], e.x); my[0] = std::min<double>(my[0], e.y); my[1] = std::max<double>(my[1], e.y); }
    REQUIRE(cx, mx[0] == x && my[0] == y && fabs(mx[1] - x - w) <= 1 && fabs(my[1] - y - h) <= 1, "corners", "the rectangle %g,%g,%g,%g has its corners in %g,%g - %g,%g", x, y, w, h, mx[0], my[0], mx[1], my[1]);
    REQUIRE(cx, trax::region_to_points(r.chance(50) ? trax::Region() : trax::Region::create_special(1)).empty(), "corners", "a region without geometry has points"); cx.ev("points", n); cx.state(hash_of(v.str()));
}
static void masks(Ctx& cx) {
    Rng& r = cx.rng; int w = size(r), h = size(r), x = r.chance(30) ? 0 : r.range(-40, 60), y = r.chance(30) ? 0 : r.range(-40, 60); std::string bits = gen_bytes(r, w * h); int ones = r.range(0, 100); for (char& c : bits) c = r.chance(ones) ? (r.chance(50) ? 1 : (char) r.range(1, 255)) : 0; Region g = mask(x, y, w, h, bits); trax::Region t = make(g); cv::Mat m = trax::region_to_mat(t); REQUIRE(cx, value(t) == g, "source", "the region changed");
    // pixels that are stored anywhere else are not set, those with negative coordinates are lost
    size_t lost = 0; for (int i = 0; i < h; i++) for (int j = 0; j < w; j++) { int a = x + j, b = y + i; char c = bits[(size_t) i * w + j]; if (a < 0 || b < 0) { lost++; continue; } REQUIRE(cx, a < m.cols && b < m.rows && m.type() == CV_8UC1, "mask-size", "%s became a matrix of %dx%d", g.str().c_str(), m.cols, m.rows); if ((m.ptr(b)[a] != 0) != (c != 0)) REQUIRE(cx, false, "mask-pixel", "pixel %d,%d of %s is %d", j, i, g.str().c_str(), m.ptr(b)[a]); }
    for (int b = 0; b < m.rows; b++) for (int a = 0; a < m.cols; a++) if (m.ptr(b)[a] && (a < x || b < y || a >= x + w || b >= y + h)) REQUIRE(cx, false, "mask-pixel", "%s sets the pixel %d,%d", g.str().c_str(), a, b);
    if (!m.empty()) REQUIRE(cx, m.cols == std::max(0, x + w) && m.rows == std::max(0, y + h), "mask-size", "%s became a matrix of %dx%d", g.str().c_str(), m.cols, m.rows);
    cv::Mat whole; std::string layout; cv::Mat n = gen_mat(r, CV_8UC1, w, h, whole, layout); std::string before = bytes(whole), want = bytes(n); trax::Region back = trax::mat_to_region(n); REQUIRE(cx, bytes(whole) == before, "source", "the matrix changed"); Region v = value(back); REQUIRE(cx, v.type == TRAX_REGION_MASK && v.x == 0 && v.y == 0 && v.w == w && v.h == h, "mask-size", "a %s matrix of %dx%d became %s", layout.c_str(), w, h, v.str().c_str());
    for (size_t k = 0; k < want.size(); k++) if ((v.bits[k] != 0) != (want[k] != 0)) REQUIRE(cx, false, "mask-pixel", "a %s matrix of %dx%d: pixel %zu changed", layout.c_str(), w, h, k);
    whole.setTo(cv::Scalar::all(0)); REQUIRE(cx, value(back) == v, "shared", "changing the matrix changes the region"); cv::Mat again = trax::region_to_mat(back); REQUIRE(cx, again.cols == w && again.rows == h, "round-trip", "size"); for (int i = 0; i < h; i++) for (int j = 0; j < w; j++) if ((again.ptr(i)[j] != 0) != (want[(size_t) i * w + j] != 0)) REQUIRE(cx, false, "round-trip", "pixel %d,%d", j, i);
    bool thrown = false; try { trax::mat_to_region(cv::Mat(3, 3, r.pick(std::vector<int>{CV_8UC3, CV_16UC1, CV_32FC1}))); } catch (const std::exception&) { thrown = true; } REQUIRE(cx, thrown, "accepted", "a matrix of another type became a mask");
    cx.ev("mask pixels", w * h); cx.ev("lost pixels", lost); cx.state(mix(mix(w, h), mix(x, y)));
}
static void drawing(Ctx& cx) { // only what belongs to the region is painted
    Rng& r = cx.rng; int W = r.range(1, 120), H = r.range(1, 120), type = r.pick(std::vector<int>{CV_8UC1, CV_8UC3, CV_8UC3}); cv::Mat canvas(H, W, type, cv::Scalar(10, 20, 30)); cv::Mat part; if (r.chance(30)) { part = cv::Mat(H + 7, W + 9, type, cv::Scalar(10, 20, 30)); canvas = part(cv::Rect(3, 2, W, H)); } cv::Scalar color(200, 150, 100); cv::Mat before = canvas.clone();
    int k = r.below(4); Region g; int width = r.pick(std::vector<int>{1, 1, 2, 3}); auto px = [&](const cv::Mat& m, int x, int y) { return std::string((const char*) m.ptr(y) + x * m.elemSize(), m.elemSize()); }; std::string paint = type == CV_8UC3 ? std::string("\xc8\x96\x64", 3) : std::string("\xc8", 1);
    if (k == 0) { g = rect(r.range(-20, W), r.range(-20, H), r.range(1, 80), r.range(1, 80)); if (r.chance(50)) for (float& v : g.r) v += (float) r.unit() * .4f; }
    else if (k == 1) { g.type = TRAX_REGION_POLYGON; for (int n = r.range(3, 7); n > 0; n--) { g.px.push_back(r.range(-20, W + 20)); g.py.push_back(r.range(-20, H + 20)); } if (r.chance(50)) width = -1; }
    else if (k == 2) { int w = r.range(1, 60), h = r.range(1, 60); std::string b; for (int n = w * h; n > 0; n--) b += (char) r.chance(50); g = mask(r.range(-30, W + 5), r.range(-30, H + 5), w, h, b); }
    else g = r.chance(50) ? special(1) : Region();
    trax::Region t = make(g); uchar* data = canvas.data; trax::draw_region(canvas, t, color, width); REQUIRE(cx, value(t) == g, "source", "the region changed"); REQUIRE(cx, canvas.rows == H && canvas.cols == W && canvas.type() == type && canvas.data == data, "canvas", "the canvas was replaced by one of %dx%d", canvas.cols, canvas.rows);
    double lo[2] = {1e9, 1e9}, hi[2] = {-1e9, -1e9}; if (k == 0) { lo[0] = g.r[0]; lo[1] = g.r[1]; hi[0] = g.r[0] + g.r[2]; hi[1] = g.r[1] + g.r[3]; } if (k == 1) for (size_t i = 0; i < g.px.size(); i++) { lo[0] = std::min<double>(lo[0], g.px[i]); hi[0] = std::max<double>(hi[0], g.px[i]); lo[1] = std::min<double>(lo[1], g.py[i]); hi[1] = std::max<double>(hi[1], g.py[i]); }
    size_t painted = 0; for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) { std::string p = px(canvas, x, y); bool on = p != px(before, x, y); painted += on; if (on && p != paint) REQUIRE(cx, false, "color", "pixel %d,%d of %s has another color", x, y, g.str().c_str());
        if (k == 2) { int a = x - g.x, b = y - g.y; bool want = a >= 0 && b >= 0 && a < g.w && b < g.h && g.bits[(size_t) b * g.w + a]; if (on != want) REQUIRE(cx, false, "drawn-mask", "pixel %d,%d of %s is %spainted", x, y, g.str().c_str(), on ? "" : "not "); }
        else if (k == 3) { if (on) REQUIRE(cx, false, "drawn-nothing", "%s is painted", g.str().c_str()); }
        else { double s = std::max(1, width) + 1.5; if (on && (x < lo[0] - s || x > hi[0] + s || y < lo[1] - s || y > hi[1] + s)) REQUIRE(cx, false, "drawn-outside", "pixel %d,%d is painted for %s", x, y, g.str().c_str()); if (on && k == 0 && x > lo[0] + s && x < hi[0] - s && y > lo[1] + s && y < hi[1] - s) REQUIRE(cx, false, "drawn-inside", "pixel %d,%d is painted for %s", x, y, g.str().c_str()); } }
    auto near_painted = [&](double x, double y) { for (int b = -1; b <= 1; b++) for (int a = -1; a <= 1; a++) { int X = std::lround(x) + a, Y = std::lround(y) + b; if (X >= 0 && Y >= 0 && X < W && Y < H && px(canvas, X, Y) == paint) return true; } return false; };
    if (k == 0 || (k == 1 && width > 0)) { std::vector<std::pair<double, double>> c; if (k == 0) c = {{lo[0], lo[1]}, {hi[0], lo[1]}, {hi[0], hi[1]}, {lo[0], hi[1]}}; else for (size_t i = 0; i < g.px.size(); i++) c.push_back({g.px[i], g.py[i]}); for (size_t i = 0; i < c.size(); i++) { auto a = c[i], b = c[(i + 1) % c.size()]; for (double f : {0.0, .25, .5, .75}) { double x = a.first + f * (b.first - a.first), y = a.second + f * (b.second - a.second); if (x >= 1 && y >= 1 && x < W - 2 && y < H - 2) REQUIRE(cx, near_painted(x, y), "not-drawn", "the line of %s is missing near %g,%g", g.str().c_str(), x, y); } } }
    if (k == 1 && width < 1) { std::vector<cv::Point2f> q; for (size_t i = 0; i < g.px.size(); i++) q.push_back({g.px[i], g.py[i]}); if (q.size() == 3) for (int n = 0; n < 30; n++) { int x = r.below(W), y = r.below(H); double d = cv::pointPolygonTest(q, cv::Point2f(x, y), true); if (fabs(d) > 2) REQUIRE(cx, (px(canvas, x, y) == paint) == (d > 0), "not-filled", "pixel %d,%d of %s", x, y, g.str().c_str()); } }
    if (!part.empty()) { cv::Mat border = part.clone(); border(cv::Rect(3, 2, W, H)).setTo(cv::Scalar(10, 20, 30)); REQUIRE(cx, bytes(border) == bytes(cv::Mat(H + 7, W + 9, type, cv::Scalar(10, 20, 30))), "drawn-outside", "painted outside of the canvas"); }
    cx.ev("drawings"); cx.ev("painted pixels", painted); cx.state(mix(mix(W, H), hash_of(g.str())));
}
static void init() {
    cv::setNumThreads(0); char t[] = "/tmp/vhk_XXXXXX"; if (!mkdtemp(t)) { perror("mkdtemp"); exit(2); } top = t; atexit(remove_top);
    for (auto e : {".png", ".ppm", ".bmp", ".jpg"}) { cv::Mat m(9, 9, CV_8UC3, cv::Scalar(1, 2, 3)), n; std::vector<uchar> d; cv::imencode(e, m, d); n = cv::imdecode(d, cv::IMREAD_COLOR); cv::cvtColor(m, n, cv::COLOR_BGR2RGB); } // what is done once
}
vh::Harness vh::make_harness(const std::string& mode) {
    Harness h; h.init = init;
    if (mode == "P25") h.scenarios = {{"memory-to-matrix", 4, memory_to_mat, true}, {"matrix-to-memory", 4, mat_to_memory, true}, {"refused", 1, refused, false}, {"encoded", 2, encoded, false}, {"boxes", 3, boxes, true}, {"points", 2, points, true}, {"masks", 4, masks, false}, {"drawing", 5, drawing, false}};
    return h;
}
