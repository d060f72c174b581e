// P23: the command-line programs with a tracker program that is played by the probe.
#include "ref.h"
#include <fstream>
#include <sstream>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
using namespace vh; using namespace ref;

static const char* need(const char* n) { const char* p = getenv(n); if (!p) { fprintf(stderr, "%s is not set\n", n); exit(2); } return p; }
static std::string top, dir; static std::string own_probe; // a case has a directory of its own
static void remove_tree(const std::string& d) { DIR* h = opendir(d.c_str()); if (!h) return; while (dirent* e = readdir(h)) { std::string n = e->d_name; if (n == "." || n == "..") continue; std::string p = d + "/" + n; struct stat s; if (!lstat(p.c_str(), &s) && S_ISDIR(s.st_mode)) remove_tree(p); else ::unlink(p.c_str()); } closedir(h); ::rmdir(d.c_str()); }
static void remove_top() { if (!top.empty()) remove_tree(top); }
static void init() { char t[] = "/tmp/vhk_XXXXXX"; if (!mkdtemp(t)) { perror("mkdtemp"); exit(2); } top = t; atexit(remove_top); need("VH_PROBE"); need("VH_TRAXCLIENT"); prctl(PR_SET_CHILD_SUBREAPER, 1); }
struct Scratch { Scratch() { dir = top + "/case"; remove_tree(dir); mkdir(dir.c_str(), 0700); } ~Scratch() { remove_tree(dir); } };
static void put_file(const std::string& p, const std::string& s) { FILE* f = fopen(p.c_str(), "wb"); if (!f) { perror(p.c_str()); exit(2); } fwrite(s.data(), 1, s.size(), f); fclose(f); }
static std::string get_file(const std::string& p, bool* there = NULL) { FILE* f = fopen(p.c_str(), "rb"); if (there) *there = f; std::string s; if (!f) return s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f))) s.append(b, n); fclose(f); return s; }
static std::vector<std::string> lines_of(const std::string& s) { std::vector<std::string> v; size_t i = 0; while (i < s.size()) { size_t e = s.find('\n', i); if (e == std::string::npos) e = s.size(); v.push_back(s.substr(i, e - i)); i = e + 1; } return v; }
static std::string join(const std::vector<std::string>& v) { std::string s; for (auto& a : v) s += (s.empty() ? "" : " ") + a; return s; }

// ---------------------------------------------------------------- running a program
struct Outcome { int status = 0; bool ended = false; double seconds = 0; std::string out, err; int code() const { return WIFEXITED(status) ? WEXITSTATUS(status) : -WTERMSIG(status); } };
static std::string children() { std::string r; FILE* f = fopen(fmt("/proc/self/task/%d/children", getpid()).c_str(), "r"); if (f) { char b[400]; size_t n = fread(b, 1, sizeof b - 1, f); b[n] = 0; r = b; fclose(f); } return r; }
static std::string living_children() { // reaps the ended ones
    double t0 = now(); std::string c; while (true) { while (waitpid(-1, NULL, WNOHANG) > 0) {} c = children(); if (c.empty() || now() - t0 > 3) return c; ::usleep(3000); } }
static void kill_children() { std::stringstream s(children()); int p; while (s >> p) kill(p, SIGKILL); while (waitpid(-1, NULL, 0) > 0) {} }
static Outcome run(Ctx& cx, const std::vector<std::string>& argv, const std::vector<std::string>& env, double limit, int interrupt_ms = -1) {
    Outcome o; std::string po = dir + "/stdout", pe = dir + "/stderr"; double t0 = now(); pid_t p = fork();
    if (!p) {
        int n = open("/dev/null", O_RDONLY), a = open(po.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), b = open(pe.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(n, 0); dup2(a, 1); dup2(b, 2); for (int k = 3; k < 64; k++) close(k);
        if (chdir(dir.c_str())) _exit(126); for (auto& e : env) putenv(strdup(e.c_str()));
        std::vector<char*> v; for (auto& x : argv) v.push_back((char*) x.c_str()); v.push_back(NULL); execv(v[0], v.data()); _exit(127);
    }
    bool sent = false;
    while (true) { pid_t w = waitpid(p, &o.status, WNOHANG); if (w == p) { o.ended = true; break; } double t = now() - t0; if (interrupt_ms >= 0 && !sent && t * 1000 > interrupt_ms) { kill(p, SIGINT); sent = true; } if (t > limit) { kill(p, SIGKILL); waitpid(p, &o.status, 0); break; } ::usleep(2000); }
    o.seconds = now() - t0; o.out = get_file(po); o.err = get_file(pe); cx.ev("program runs");
    cx.log("%s -> %d in %.2f s\n--- stdout\n%s--- stderr\n%s", join(argv).c_str(), o.code(), o.seconds, o.out.substr(0, 3000).c_str(), o.err.substr(0, 6000).c_str());
    return o;
}
// whatever the outcome is: it ends, it does not crash and leaves nothing behind
static void require_clean(Ctx& cx, const Outcome& o, const std::string& what, bool interrupted = false) {
    std::string c = living_children(); if (!c.empty()) { kill_children(); }
    REQUIRE(cx, o.ended, "late", "%s: it did not end within %.0f s", what.c_str(), o.seconds);
    bool bad = o.err.find("AddressSanitizer") != std::string::npos || o.err.find("runtime error") != std::string::npos || (WIFSIGNALED(o.status) && !(interrupted && WTERMSIG(o.status) == SIGINT)) || o.err.find("terminate called") != std::string::npos;
    size_t at = std::min(o.err.find("AddressSanitizer"), o.err.find("runtime error")); REQUIRE(cx, !bad, "crash", "%s: it crashed (%d): %s", what.c_str(), o.code(), show(o.err.substr(at == std::string::npos ? 0 : at > 100 ? at - 100 : 0), 500).c_str());
    REQUIRE(cx, c.empty(), "child-left", "%s: processes are left: %s", what.c_str(), c.c_str());
}

// ---------------------------------------------------------------- images with a size
static std::string be(unsigned v, int n) { std::string s; for (int k = n - 1; k >= 0; k--) s += (char) (v >> (8 * k)); return s; }
static std::string le(unsigned v, int n) { std::string s; for (int k = 0; k < n; k++) s += (char) (v >> (8 * k)); return s; }
static std::string make_image(Rng& r, int kind, int w, int h) {
    std::string tail = gen_bytes(r, r.range(30, 300));
    switch (kind) {
    case 0: return std::string("\x89PNG\r\n\x1a\n", 8) + be(13, 4) + "IHDR" + be(w, 4) + be(h, 4) + tail;
    case 1: return "GIF89a" + le(w, 2) + le(h, 2) + tail;
    case 2: case 3: { // segments before the frame header
        std::string s = "\xff\xd8"; auto seg = [&](int m, const std::string& c) { s += "\xff"; s += (char) m; s += be(c.size() + 2, 2) + c; };
        if (kind == 2) seg(0xe0, std::string("JFIF\0\1\1\0\0\1\0\1\0\0", 14)); else { seg(0xe1, std::string("Exif\0\0", 6) + gen_bytes(r, r.range(10, 200))); }
        for (int n = r.range(0, 3); n > 0; n--) seg(r.pick(std::vector<int>{0xdb, 0xc4, 0xfe, 0xe2}), gen_bytes(r, r.range(0, 400)));
        seg(r.pick(std::vector<int>{0xc0, 0xc2, 0xc1}), std::string("\x08") + be(h, 2) + be(w, 2) + "\3\1\x22\0\2\x11\1\3\x11\1"); return s + tail; }
    default: return "unknown" + tail; // the size is not known
    }
}

// ---------------------------------------------------------------- geometry of boxes
struct Box { double x = 0, y = 0, w = 0, h = 0; };
static double iou(Box a, Box b, double bw, double bh) { // clipped to the image if it has a size
    auto clip = [&](Box c) { if (bw > 0) { double x2 = std::min(c.x + c.w, bw), y2 = std::min(c.y + c.h, bh); c.x = std::max(c.x, 0.0); c.y = std::max(c.y, 0.0); c.w = std::max(0.0, x2 - c.x); c.h = std::max(0.0, y2 - c.y); } return c; };
    a = clip(a); b = clip(b); double iw = std::min(a.x + a.w, b.x + b.w) - std::max(a.x, b.x), ih = std::min(a.y + a.h, b.y + b.h) - std::max(a.y, b.y); double i = std::max(0.0, iw) * std::max(0.0, ih), u = a.w * a.h + b.w * b.h - i; return u > 0 ? i / u : 0; }
static bool tiny(Box c, double bw, double bh) { return std::min(c.x + c.w, bw) - std::max(c.x, 0.0) < 25 || std::min(c.y + c.h, bh) - std::max(c.y, 0.0) < 25; } // the overlap is too much influenced by the pixels at the border
static Region box_region(Rng& r, const Box& b, int type) {
    if (type == TRAX_REGION_MASK) return mask(b.x, b.y, b.w, b.h, std::string((size_t) b.w * b.h, 1));
    if (type == TRAX_REGION_POLYGON) { Region g; g.type = type; bool mid = r.chance(30); g.px = {(float) b.x, (float) (b.x + b.w), (float) (b.x + b.w), (float) b.x}; g.py = {(float) b.y, (float) b.y, (float) (b.y + b.h), (float) (b.y + b.h)}; if (mid) { g.px.insert(g.px.begin() + 1, (float) (b.x + b.w / 2)); g.py.insert(g.py.begin() + 1, (float) b.y); } return g; }
    return rect(b.x, b.y, b.w, b.h);
}
static bool bounds_of(const std::string& s, double* b) { // of a region text
    std::vector<double> v; const char* p = s.c_str(); bool m = !strncmp(p, "mask:", 5) || (*p == 'm' && (p[1] >= '0' || p[1] == ':')); if (m) { p = strpbrk(p, "-0123456789"); if (!p) return false; } while (*p) { char* e; v.push_back(strtod(p, &e)); if (e == p) return false; p = e; if (*p == ',') p++; else if (*p) return false; }
    if (m || v.size() == 4) { if (v.size() < 4) return false; b[0] = v[0]; b[1] = v[1]; b[2] = v[0] + v[2]; b[3] = v[1] + v[3]; return true; }
    if (v.size() < 6 || v.size() % 2) return false; b[0] = b[1] = 1e18; b[2] = b[3] = -1e18; for (size_t k = 0; k < v.size(); k += 2) { b[0] = std::min(b[0], v[k]); b[2] = std::max(b[2], v[k]); b[1] = std::min(b[1], v[k + 1]); b[3] = std::max(b[3], v[k + 1]); } return true;
}

// ---------------------------------------------------------------- sequences
struct Frame { std::string paths[3]; std::string contents[3]; int sw = 0, sh = 0; Region truth, start; Box box; bool has_truth = true, has_start = true; };
struct Fatal { const char* ops; const char* name; bool silent; };
static const Fatal FATAL[] = {{"x0", "exits", false}, {"x1", "exits with an error", false}, {"k9", "is killed", false}, {"k11", "crashes", false}, {"k15", "is terminated", false}, {"O,z", "closes its output", false}, {"I,O,R,z", "closes all streams", false}, {"g1,z", "sends an illegal region", false}, {"g2,z", "sends no region", false}, {"g3,z", "sends a wrong message", false}, {"g5,z", "sends too many regions", false}, {"Q,q", "ends the session", false}, {"Q,x0", "ends the session and exits", false}, {"t,x0", "exits within a message", false}, {"z", "hangs", true}, {"b", "reads only", true}, {"t,z", "hangs within a message", true}};
struct Setup { int version = 4, formats = 1, channels = 1, regions = 2; std::string name, description, family; };
static std::string hello_text(const Setup& s) {
    Message m; m.type = TRAX_HELLO; std::string f, c, g; if (s.formats & 1) f += "path;"; if (s.formats & 2) f += "url;"; if (s.formats & 4) f += "memory;"; if (s.formats & 8) f += "buffer;"; if (s.channels & 1) c += "color;"; if (s.channels & 2) c += "depth;"; if (s.channels & 4) c += "ir;"; if (s.regions & 2) g += "rectangle;"; if (s.regions & 4) g += "polygon;"; if (s.regions & 8) g += "mask;";
    m.props["trax.version"] = fmt("%d", s.version); m.props["trax.image"] = f; m.props["trax.region"] = g; if (s.version > 1) m.props["trax.channels"] = c; if (!s.name.empty()) m.props["trax.name"] = s.name; if (!s.description.empty()) m.props["trax.description"] = s.description; if (!s.family.empty()) m.props["trax.family"] = s.family;
    return encode(m);
}
static std::string simple_text(Rng& r, int max) { static const std::string c = "abc XYZ0189-_./:;,+*()[]{}|&<>!?%$#@~^'"; std::string s; for (int n = r.range(1, max); n > 0; n--) s += c[r.below(c.size())]; while (!s.empty() && s.back() == ' ') s.pop_back(); return s.empty() ? "t" : s; }

struct Sequence {
    std::vector<Frame> frames; int listed_images = 0, listed_truth = 0, listed_start = -1;
    std::string images_text, truth_text, start_text;
};
static Sequence gen_sequence(Ctx& cx, const Setup& su, int n, bool separate, bool empties, bool sizes, bool buffered, bool large) {
    Rng& r = cx.rng; Sequence q; int w = r.range(60, 400), h = r.range(60, 300), kind = sizes ? r.range(0, 4) : r.pick(std::vector<int>{0, 2, 3, 4}); if (buffered) kind = r.pick(std::vector<int>{0, 2, 3});
    int ttype = r.pick(std::vector<int>{TRAX_REGION_RECTANGLE, TRAX_REGION_RECTANGLE, TRAX_REGION_POLYGON, TRAX_REGION_MASK}); bool vary = r.chance(30); bool fixed = r.chance(40);
    Box b; b.w = r.range(large ? 30 : 20, 90); b.h = r.range(large ? 30 : 20, 90); b.x = r.range(-30, w); b.y = r.range(-30, h);
    for (int k = 0; k < n; k++) {
        Frame f; if (vary) { w = r.range(60, 400); h = r.range(60, 300); } f.sw = kind == 4 ? 0 : w; f.sh = kind == 4 ? 0 : h;
        for (int c = 0; c < 3; c++) { f.paths[c] = fmt("%s/i%d.%d%s.img", dir.c_str(), c, k, r.chance(10) ? r.pick(std::vector<std::string>{" a b", "%20", "\xc3\xa9", "=x", "'q'"}).c_str() : ""); f.contents[c] = make_image(r, kind, w, h); put_file(f.paths[c], f.contents[c]); }
        if (!fixed) { b.x += r.range(-5, 5); b.y += r.range(-5, 5); } f.box = b; f.truth = box_region(r, b, vary ? r.pick(std::vector<int>{TRAX_REGION_RECTANGLE, TRAX_REGION_POLYGON, TRAX_REGION_MASK}) : ttype);
        f.has_truth = !(empties && !separate && r.chance(k == 0 ? 50 : 20)); f.has_start = separate ? !(empties && r.chance(k == 0 ? 40 : 25)) : f.has_truth;
        Box s = b; if (separate) { s.x += r.range(-9, 9); s.y += r.range(-9, 9); } f.start = separate ? box_region(r, s, r.pick(std::vector<int>{TRAX_REGION_RECTANGLE, TRAX_REGION_POLYGON, TRAX_REGION_MASK})) : f.truth;
        q.frames.push_back(f);
    }
    // the lists may be of different length
    int mode = r.below(10); q.listed_images = q.listed_truth = n; if (separate) q.listed_start = n; int extra = r.range(1, 3); int real = n;
    if (mode == 0) q.listed_truth = real = std::max(1, n - extra); if (mode == 1) q.listed_images = real = std::max(1, n - extra); if (separate && r.chance(30)) q.listed_start = r.range(1, n);
    bool end = r.chance(70);
    for (int k = 0; k < q.listed_images; k++) { auto& f = q.frames[k]; q.images_text += (k ? "\n" : "") + f.paths[0]; if (su.channels > 1) q.images_text += ";" + f.paths[1] + ";" + f.paths[2]; else if (r.chance(20)) q.images_text += r.pick(std::vector<std::string>{";", ";" + f.paths[1], ";;"}); } if (end) q.images_text += "\n";
    end = r.chance(70) ; std::string eol = r.chance(15) ? "\r\n" : "\n";
    for (int k = 0; k < q.listed_truth; k++) q.truth_text += (k ? eol : "") + (q.frames[k].has_truth ? text(q.frames[k].truth, r.chance(50) ? "%.4f" : "%g") : ""); if (end || !q.frames[q.listed_truth - 1].has_truth) q.truth_text += eol;
    for (int k = 0; k < q.listed_start; k++) q.start_text += (k ? eol : "") + (q.frames[k].has_start ? text(q.frames[k].start) : ""); if (q.listed_start > 0 && (end || !q.frames[q.listed_start - 1].has_start)) q.start_text += eol;
    if (separate) for (int k = q.listed_start; k < n; k++) q.frames[k].has_start = false;
    q.frames.resize(real); return q;
}

static void p23_sequence(Ctx& cx) {
    Rng& r = cx.rng; Scratch scratch; int mode = r.chance(60) ? 0 : r.range(1, 2); Setup su;
    su.version = r.chance(60) ? 4 : r.range(2, 3); su.formats = r.pick(std::vector<int>{1, 1, 8, 9, 3, 5, 12, 15}); if (su.formats == 12 || su.formats == 8) su.formats = r.chance(50) ? 8 : 12; su.channels = r.chance(60) ? 1 : r.range(1, 7); su.regions = r.pick(std::vector<int>{2, 4, 8, 6, 14, 10}); su.name = simple_text(r, 10);
    bool buffered = !(su.formats & 1); int n = r.chance(5) ? r.range(20, 60) : r.range(1, 9); bool separate = r.chance(30); int use_threshold = r.below(3); double threshold = -1; std::string threshold_text;
    if (use_threshold) { static const std::vector<std::pair<std::string, double>> t = {{"0", 0}, {"0.1", .1}, {"0.3", .3}, {"0.5", .5}, {".75", .75}, {"1", 1}, {"3", 1}, {"-2", 0}, {"0.0", 0}}; auto& e = r.pick(t); threshold_text = e.first; threshold = e.second; }
    bool empties = r.chance(40) && (separate || threshold < 0), bounded = threshold >= 0 && r.chance(40); int reinit = r.chance(50) ? r.range(1, 5) : 0; std::string reinit_text = reinit == 1 && r.chance(30) ? "0" : fmt("%d", reinit);
    Sequence q = gen_sequence(cx, su, n, separate, empties, bounded && !buffered, buffered, bounded); n = q.frames.size();
    // one file of an image is missing, or is not listed
    std::string input_fault; if (r.chance(6)) { int k = r.below(n), c = -1; for (int j = 0; j < 3; j++) if (su.channels & (1 << j)) c = j; if (buffered) { unlink(q.frames[k].paths[c].c_str()); input_fault = fmt("image %d is missing", k); if (r.chance(30)) mkdir(q.frames[k].paths[c].c_str(), 0700); else if (r.chance(50)) { put_file(q.frames[k].paths[c], r.chance(30) ? std::string() : r.chance(40) ? gen_bytes(r, r.range(1, 8)) : make_image(r, 4, 9, 9)); input_fault = fmt("image %d is no image", k); } } else if (c > 0 && su.channels > 1) { size_t p = q.images_text.find(q.frames[k].paths[c]); q.images_text.erase(p, q.frames[k].paths[c].size()); input_fault = fmt("image %d is not listed", k); } if (!input_fault.empty()) q.frames[k].sw = -77; }
    std::map<std::string, std::string> props; for (int k = r.range(0, 3); k > 0; k--) props[r.pick(std::vector<std::string>{"a", "speed", "p.x", "k_1", "Z_9"})] = r.chance(10) ? "" : simple_text(r, 12) + (r.chance(20) ? "=1" : "");
    std::string variable = r.chance(30) ? simple_text(r, 15) + (r.chance(20) ? "=b" : "") : "";
    // what the tracker does, and what has to come out: the documented loop is played
    std::vector<std::string> expected; std::vector<double> timing; // -1: a skipped frame, otherwise the least time
    struct Sent { bool start; int frame; }; std::vector<std::vector<Sent>> sessions; std::vector<std::string> scripts; std::vector<std::string> replies; std::string fatal; bool silent = false, overlap_fails = false; const Fatal* ft = r.chance(25) ? &FATAL[r.below(sizeof FATAL / sizeof *FATAL)] : NULL; if (ft && ft->silent && r.chance(60)) ft = &FATAL[r.below(6)]; int fatal_in = r.range(0, n + 1), steps = 0, startups = 0; int fatal_start = ft && r.chance(20) ? r.range(0, 2) : -1; double total = 0;
    const char* wait_start = su.version == 4 ? "w0," : "W,"; size_t frame = 0; std::string noise = r.chance(15) ? "e3x40," : ""; bool session_open = false; int end_kind = r.below(12);
    auto open_session = [&]() -> bool { sessions.push_back({}); std::string s = mode == 2 ? "c," : ""; session_open = true; if (fatal_start == startups++) { fatal = ft->name; silent = ft->silent; scripts.push_back(s + (r.chance(20) && !silent ? "v,z" : ft->ops)); return false; } scripts.push_back(s + "H," + noise); return true; };
    bool ok = open_session();
    while (ok && frame < q.frames.size()) {
        for (; frame < q.frames.size() && !q.frames[frame].has_start; frame++) { expected.push_back("0"); timing.push_back(-1); }
        if (frame == q.frames.size()) break;
        bool first = true;
        while (true) {
            Frame& f = q.frames[frame];
            if (f.sw == -77) { fatal = input_fault; ok = false; break; }
            sessions.back().push_back({first, (int) frame}); scripts.back() += first ? wait_start : "w1,";
            if (ft && fatal_start < 0 && steps++ == fatal_in) { fatal = ft->name; silent = ft->silent; scripts.back() += ft->ops; ok = false; break; }
            double sleep = 0; if (r.chance(15)) { int ms = r.range(1, 30); scripts.back() += fmt("s%d,", ms); sleep = ms * 1e-3; total += sleep; } if (r.chance(5)) scripts.back() += "e1x20,";
            // a reply whose overlap is clearly on one side of the threshold
            Box b = f.box; double o = -1; bool fails = false; for (int tries = 0;; tries++) { b = f.box; if (r.chance(threshold < 0 ? 50 : 35) || tries > 60) b.x += tries > 100 ? 0 : 500; else { double d = r.unit(); b.x += r.range(-1, 1) * std::floor(b.w * d); if (r.chance(50)) b.y += std::floor(b.h * (1 - d) / 2); } if (tries > 100) b = f.box; if (threshold < 0) break; o = iou(f.box, b, bounded && f.sw > 0 ? f.sw : 0, f.sh); bool none = iou(f.box, b, 0, 0) == 0; if (none) o = 0; else if (bounded && f.sw > 0 && threshold > 0 && threshold < 1 && (tiny(f.box, f.sw, f.sh) || tiny(b, f.sw, f.sh))) { if (tries > 160) { b.x = f.box.x + 5000; fails = true; break; } continue; } if (threshold >= 1 || none || (o > threshold + .13) || (o < threshold - .13)) { fails = threshold >= 1 || o <= threshold; if (!none && threshold == 0 && !fails) break; if (none || threshold > 0) break; } if (tries > 160) { b.x = f.box.x + 5000; fails = true; break; } }
            Region reply = box_region(r, b, r.pick(std::vector<int>{TRAX_REGION_RECTANGLE, TRAX_REGION_RECTANGLE, TRAX_REGION_POLYGON, TRAX_REGION_MASK})); Message m; m.type = TRAX_STATE; m.args = {text(reply, r.chance(50) ? "%.4f" : "%g")}; if (r.chance(30)) m.props["confidence"] = "0.5"; replies.push_back(encode(m)); scripts.back() += fmt("y%zu,", replies.size() - 1);
            if (threshold >= 0 && fails) { overlap_fails = true; break; }
            expected.push_back(first ? "1" : text(printed(reply))); timing.push_back(sleep); first = false; frame++;
            if (frame >= q.frames.size()) break;
        }
        if (!ok) break;
        if (frame < q.frames.size()) {
            cx.ev("failures by overlap"); size_t stop = reinit ? std::min(frame + (size_t) std::max(1, reinit), q.frames.size()) : q.frames.size(); expected.push_back("2"); timing.push_back(-1); for (size_t j = frame + 1; j < stop; j++) { expected.push_back("0"); timing.push_back(-1); } frame = stop;
            scripts.back() += "q"; session_open = false; if (frame < q.frames.size()) ok = open_session(); else break;
        }
    }
    if (ok && session_open) scripts.back() += end_kind == 0 ? "z" : end_kind == 1 ? "q,x3" : "q";
    (void) overlap_fails;
    if (ft && fatal.empty()) ft = NULL;
    // files and arguments
    std::string images = "images.txt", truth = "groundtruth.txt", output = "output.txt", start = dir + "/start file.txt", timings = dir + "/t.txt"; std::vector<std::string> a = {need("VH_TRAXCLIENT")}; std::vector<std::vector<std::string>> opts;
    auto option = [&](char c, const std::string& v) { if (!v.empty() && r.chance(25)) opts.push_back({std::string("-") + c + v}); else opts.push_back({std::string("-") + c, v}); };
    if (r.chance(60)) { images = "list of images"; option('I', images); } if (r.chance(60)) { truth = dir + "/gt.txt"; option('G', truth); } if (r.chance(60)) { output = r.chance(50) ? "result" : dir + "/o u t"; option('O', output); } bool timed = r.chance(50); if (timed) option('T', timings); if (separate) option('S', start);
    if (!threshold_text.empty()) option('f', threshold_text); if (reinit) option('r', reinit_text); option('t', silent ? "1" : r.chance(10) ? "0" : "25"); if (opts.back().back() == "0" && mode == 2) opts.back() = {"-t", "25"}; if (mode == 1) opts.push_back({"-x"}); if (mode == 2) opts.push_back({"-X"}); bool debug = r.chance(15), quiet = !debug && r.chance(20); if (debug) opts.push_back({"-d"}); if (quiet) opts.push_back({"-s"});
    for (auto& e : props) option('p', e.first + "=" + e.second); if (!variable.empty()) option('e', "VHVAR=" + variable);
    for (size_t k = opts.size(); k > 1; k--) std::swap(opts[k - 1], opts[r.below(k)]); for (auto& o : opts) a.insert(a.end(), o.begin(), o.end());
    put_file(dir + "/" + images, q.images_text); put_file(truth[0] == '/' ? truth : dir + "/" + truth, q.truth_text); if (separate) put_file(start, q.start_text);
    std::string opath = output[0] == '/' ? output : dir + "/" + output; if (r.chance(20)) put_file(opath, "9,9,9,9\nold\nold\n" + std::string(2000, '\n')); std::string output_fault; if (r.chance(4)) { remove_tree(opath); unlink(opath.c_str()); mkdir(opath.c_str(), 0700); output_fault = "output is a directory"; } else if (r.chance(3)) { unlink(opath.c_str()); if (symlink("/dev/full", opath.c_str())) {} output_fault = "no space for the output"; }
    put_file(dir + "/hello", hello_text(su)); std::string rt; for (auto& s : replies) rt += s; put_file(dir + "/replies", rt); std::string script; for (auto& s : scripts) script += (script.empty() ? "" : "/") + s;
    a.push_back("--"); std::vector<std::string> tracker = {need("VH_PROBE"), script}; if (mode) tracker.push_back(mode == 2 ? "-s" : "-e"); for (auto& s : {std::string("-n"), dir + "/count", std::string("-l"), dir + "/received", std::string("-H"), dir + "/hello", std::string("-y"), dir + "/replies", std::string("-D"), dir + "/record"}) tracker.push_back(s); if (r.chance(30)) tracker.push_back(simple_text(r, 8) + "."); a.insert(a.end(), tracker.begin(), tracker.end());
    std::vector<std::string> env; if (bounded) env.push_back(r.chance(50) ? "TRAX_BOUNDED_OVERLAP=true" : "TRAX_BOUNDED_OVERLAP=TRUE"); else if (r.chance(10)) env.push_back("TRAX_BOUNDED_OVERLAP=false"); if (r.chance(8)) env.push_back("TRAX_REGION_LEGACY=true");
    int interrupt = -1; if (fatal.empty() && r.chance(5)) { interrupt = r.range(0, 300); }
    std::string what = fmt("%zu frames, %s, f=%s r=%s %s%s%s%s%s%s", q.frames.size(), mode == 0 ? "default" : mode == 1 ? "explicit" : "sockets", threshold_text.c_str(), reinit ? reinit_text.c_str() : "-", separate ? "S " : "", bounded ? "bounded " : "", fatal.c_str(), input_fault.c_str(), output_fault.c_str(), interrupt >= 0 ? "interrupted" : ""); cx.log("%s\nscript %s\n%s", what.c_str(), script.c_str(), join(env).c_str());
    bool busy_port = false; Outcome o; int attempts = 0;
    do { unlink((dir + "/count").c_str()); unlink((dir + "/received").c_str()); o = run(cx, a, env, 60, interrupt); busy_port = mode == 2 && o.err.find("TCP server socket") != std::string::npos; } while (busy_port && ++attempts < 20 && (::usleep(100000), true));
    require_clean(cx, o, what, interrupt >= 0); int code = o.code();
    bool good = fatal.empty() && output_fault.empty();
    if (interrupt >= 0) { REQUIRE(cx, o.seconds < interrupt * 1e-3 + total + 12, "late", "%s: interrupted after %d ms, ended after %.1f s", what.c_str(), interrupt, o.seconds); cx.ev("interruptions"); if (code != 0) { cx.state(hash_of(what)); return; } }
    if (!good) { REQUIRE(cx, code != 0 || (expected.empty() && fatal.empty()), "failure-not-told", "%s: the exit code is 0", what.c_str()); cx.ev("failures told"); REQUIRE(cx, o.seconds < 25, "late", "%s: it took %.1f s", what.c_str(), o.seconds); }
    else REQUIRE(cx, code == 0, "healthy-fails", "%s: the exit code is %d: %s", what.c_str(), code, show(o.err, 300).c_str());
    // what the tracker was told
    std::vector<std::vector<Message>> got; for (auto& l : lines_of(get_file(dir + "/received"))) { if (l == "S") { got.push_back({}); continue; } Message m; if (!parse_line(l, m)) REQUIRE(cx, false, "wrong-message", "%s: the tracker received %s", what.c_str(), show(l, 200).c_str()); if (got.empty()) continue; got.back().push_back(m); }
    REQUIRE(cx, got.size() <= sessions.size() && (!good || got.size() == sessions.size()), "wrong-sessions", "%s: %zu trackers were started instead of %zu", what.c_str(), got.size(), sessions.size());
    auto images_of = [&](int k) { std::vector<std::string> v; for (int c = 0; c < 3; c++) if (su.channels & (1 << c)) { auto& f = q.frames[k]; if (!buffered) v.push_back("file://" + f.paths[c]); else { Image g; g.type = TRAX_IMAGE_BUFFER; g.data = f.contents[c]; g.format = (unsigned char) f.contents[c][0] == 0x89 ? TRAX_IMAGE_BUFFER_PNG : TRAX_IMAGE_BUFFER_JPEG; v.push_back(uri(g)); } } return v; };
    for (size_t s = 0; s < got.size(); s++) {
        size_t i = 0; auto& v = got[s];
        for (size_t k = 0; k < sessions[s].size(); k++) {
            auto& e = sessions[s][k]; Map user(props.begin(), props.end()); auto im = images_of(e.frame); Map told; // in the newest version the parameters come with the images
            for (int part = 0; part < (e.start && su.version == 4 ? 2 : 1); part++) {
                if (i >= v.size() || v[i].type == TRAX_QUIT) { REQUIRE(cx, !good, "message-missing", "%s: session %zu has only %zu messages", what.c_str(), s, i); break; }
                Message& m = v[i++]; bool starts = e.start && part == 0; REQUIRE(cx, m.type == (starts ? TRAX_INITIALIZE : TRAX_FRAME), "wrong-message", "%s: message %zu of session %zu is %s", what.c_str(), i, s, name_of(m.type).c_str());
                std::vector<std::string> args = m.args; if (starts) { REQUIRE(cx, !args.empty(), "wrong-message", "%s: no region", what.c_str()); std::string g = args.back(); args.pop_back(); double b1[4], b2[4]; std::string want = text(printed(q.frames[e.frame].start)); bool type = su.regions & q.frames[e.frame].start.type; REQUIRE(cx, !type || g == want, "wrong-initialization", "%s: frame %d starts with %s instead of %s", what.c_str(), e.frame, show(g, 100).c_str(), show(want, 100).c_str()); bool near = bounds_of(g, b1) && bounds_of(want, b2); for (int k = 0; k < 4; k++) near = near && fabs(b1[k] - b2[k]) < 1.6; REQUIRE(cx, near, "wrong-initialization", "%s: frame %d starts with %s instead of %s", what.c_str(), e.frame, show(g, 100).c_str(), show(want, 100).c_str()); cx.ev("initializations"); if (su.version == 4) { told = m.props; REQUIRE(cx, args.empty(), "wrong-message", "%s: %zu more arguments", what.c_str(), args.size()); continue; } }
                REQUIRE(cx, args == im, "wrong-images", "%s: frame %d has the images %s instead of %s", what.c_str(), e.frame, show(join(args), 200).c_str(), show(join(im), 200).c_str()); cx.ev("frames"); told.insert(m.props.begin(), m.props.end()); if (!e.start) user.clear();
                REQUIRE(cx, told == user, "wrong-properties", "%s: the parameters are %s instead of %s", what.c_str(), show_map(told).c_str(), show_map(user).c_str());
            }
        }
        while (i < v.size()) { REQUIRE(cx, v[i].type == TRAX_QUIT, "wrong-message", "%s: additional message %s in session %zu", what.c_str(), name_of(v[i].type).c_str(), s); i++; }
    }
    if (!variable.empty() && !got.empty()) { std::string rec = get_file(dir + "/record"); REQUIRE(cx, rec.find(std::string(1, '\0') + "VHVAR=" + variable + std::string(1, '\0')) != std::string::npos, "environment", "%s: the variable %s is missing", what.c_str(), variable.c_str()); cx.ev("environments"); }
    if (code == 0 && good) {
        bool there; std::string text_ = get_file(opath, &there); auto lines = lines_of(text_); REQUIRE(cx, there || expected.empty(), "output-missing", "%s: there is no output", what.c_str());
        if (!expected.empty()) { REQUIRE(cx, lines.size() == expected.size(), "output-length", "%s: the output has %zu entries instead of %zu", what.c_str(), lines.size(), expected.size()); for (size_t k = 0; k < lines.size(); k++) { std::string e = expected[k].size() == 1 ? expected[k] : expected[k]; REQUIRE(cx, lines[k] == e, "output-entry", "%s: entry %zu of the output is %s instead of %s", what.c_str(), k, show(lines[k], 100).c_str(), show(e, 100).c_str()); } REQUIRE(cx, lines.size() == q.frames.size(), "output-length", "%s: %zu entries", what.c_str(), lines.size()); cx.ev("output entries", lines.size()); }
        if (timed) { auto t = lines_of(get_file(timings)); REQUIRE(cx, t.size() == timing.size(), "timing-length", "%s: there are %zu timings instead of %zu", what.c_str(), t.size(), timing.size()); double sum = 0; for (size_t k = 0; k < t.size(); k++) { char* e; double d = strtod(t[k].c_str(), &e); sum += d; REQUIRE(cx, !t[k].empty() && !*e && (timing[k] < 0 ? d == 0 : d >= timing[k] - 1e-4 && d > 0), "timing-entry", "%s: timing %zu is %s, the tracker took at least %g", what.c_str(), k, t[k].c_str(), timing[k]); } REQUIRE(cx, sum <= o.seconds, "timing-entry", "%s: %g s are reported in %g s", what.c_str(), sum, o.seconds); cx.ev("timings", t.size()); }
        cx.ev("complete sequences");
    }
    cx.state(hash_of(fmt("%s|%d|%d|%d|%d|", what.c_str(), su.version, su.formats, su.channels, su.regions) + script)); cx.sample(what + " " + script.substr(0, 200));
}

// wrong usage, missing files, help and queries
static void p23_usage(Ctx& cx) {
    Rng& r = cx.rng; Scratch scratch; Setup su; std::vector<std::string> a = {need("VH_TRAXCLIENT")}; std::string what; int want = 1; int kind = r.below(11); int mode = r.chance(60) ? 0 : r.range(1, 2); std::string script = std::string(mode == 2 ? "c," : "") + "H,w0,y0,w1,y0,q";
    su.name = simple_text(r, 20); su.description = r.chance(50) ? simple_text(r, 60) : ""; su.family = r.chance(50) ? simple_text(r, 20) : ""; su.formats = r.range(1, 15); su.channels = r.range(1, 7);
    put_file(dir + "/hello", hello_text(su)); put_file(dir + "/replies", "@@TRAX:state \"1,2,30,40\"\n"); put_file(dir + "/a.img", make_image(r, 0, 100, 100)); put_file(dir + "/images.txt", dir + "/a.img\n" + dir + "/a.img\n"); put_file(dir + "/groundtruth.txt", "1,2,30,40\n1,2,30,40\n");
    std::vector<std::string> tracker = {need("VH_PROBE"), script}; if (mode) tracker.push_back(mode == 2 ? "-s" : "-e"); for (auto& s : {std::string("-l"), dir + "/received", std::string("-H"), dir + "/hello", std::string("-y"), dir + "/replies"}) tracker.push_back(s);
    std::vector<std::string> m; if (mode == 1) m.push_back("-x"); if (mode == 2) m.push_back("-X"); if (r.chance(20)) m.push_back("-d"); bool command = true;
    switch (kind) {
    case 0: what = "help"; a.push_back("-h"); want = 0; break;
    case 1: what = "unknown option"; m.push_back(r.pick(std::vector<std::string>{"-z", "-q", "-7", "-dK"})); break;
    case 2: what = "no command"; command = false; break;
    case 3: what = "option without its value"; command = false; m.push_back(r.pick(std::vector<std::string>{"-I", "-G", "-O", "-S", "-f", "-r", "-t", "-T", "-p", "-e"})); break;
    case 4: what = "no images"; m.push_back("-I"); m.push_back(dir + "/none"); break;
    case 5: what = "no groundtruth"; m.push_back("-G"); m.push_back(dir + "/none"); break;
    case 6: what = "no initialization"; m.push_back("-S"); m.push_back(dir + "/none"); break;
    case 7: what = "unknown program"; tracker[0] = dir + "/none"; if (r.chance(40)) m.push_back("-Q"); break;
    case 8: case 9: what = "query"; m.push_back("-Q"); want = 0; break;
    default: { what = "failing query"; m.push_back("-Q"); const Fatal& f = FATAL[r.below(sizeof FATAL / sizeof *FATAL)]; tracker[1] = r.chance(20) ? mode == 2 ? "c,v,z" : "v,z" : std::string(mode == 2 && r.chance(50) ? "c," : "") + f.ops; if (r.chance(70) || f.silent) { m.push_back("-t"); m.push_back("1"); } what += std::string(" ") + tracker[1]; break; }
    }
    a.insert(a.end(), m.begin(), m.end()); if (command) { if (r.chance(70)) a.push_back("--"); a.insert(a.end(), tracker.begin(), tracker.end()); if (kind < 8 && kind != 7 && std::find(a.begin(), a.end(), "--") == a.end()) { what += ", without --"; } }
    if (std::find(a.begin(), a.end(), "--") == a.end() && command) { // options of the tracker would be taken as options of the client by some implementations
        std::vector<std::string> b; for (auto& s : a) { if (s == tracker[0]) b.push_back("--"); b.push_back(s); } a = b; }
    Outcome o; int attempts = 0; do { o = run(cx, a, {}, 45); } while (mode == 2 && o.err.find("TCP server socket") != std::string::npos && ++attempts < 20 && (::usleep(100000), true));
    require_clean(cx, o, what); REQUIRE(cx, want ? o.code() != 0 : o.code() == 0, want ? "failure-not-told" : "healthy-fails", "%s: the exit code is %d: %s", what.c_str(), o.code(), show(o.err, 200).c_str());
    if (kind == 0) { for (auto s : {"-h", "-d", "-I", "-G", "-O", "-S", "-T", "-f", "-r", "-t", "-p", "-e", "-x", "-X", "-Q"}) REQUIRE(cx, o.out.find(s) != std::string::npos, "help", "the option %s is not explained", s); }
    if (kind == 8 || kind == 9) { REQUIRE(cx, o.out.find("Tracker name: " + su.name + "\n") != std::string::npos && o.out.find("Tracker description: " + su.description + "\n") != std::string::npos && o.out.find("Tracker family: " + su.family + "\n") != std::string::npos, "query", "%s of %s: %s", what.c_str(), show(hello_text(su), 300).c_str(), show(o.out, 300).c_str()); for (auto& l : lines_of(get_file(dir + "/received"))) REQUIRE(cx, l == "S" || l.compare(0, 11, "@@TRAX:quit") == 0, "query", "the tracker received %s", l.c_str()); cx.ev("queries"); }
    if (want && kind != 10 && kind != 7) { bool there; get_file(dir + "/output.txt", &there); REQUIRE(cx, !there, "output-of-nothing", "%s: there is an output", what.c_str()); }
    cx.ev("usages"); cx.state(hash_of(what + fmt("%d %d", mode, kind) + join(m) + su.name));
}

// the test program
static void p23_tester(Ctx& cx) {
    Rng& r = cx.rng; Scratch scratch; Setup su; int mode = r.chance(60) ? 0 : r.range(1, 2); su.version = r.chance(70) ? 4 : r.range(2, 3); su.formats = r.pick(std::vector<int>{1, 4, 8, 9, 15, 2}); bool multi = su.version == 4 && r.chance(40); std::string hello = hello_text(su); if (multi) hello.insert(hello.rfind('\n'), " \"trax.multiobject=1\" "); su.name = "t";
    int rounds = r.chance(40) ? r.range(2, 3) : 1; const Fatal* ft = r.chance(45) ? &FATAL[r.below(sizeof FATAL / sizeof *FATAL)] : NULL; if (ft && ft->silent && r.chance(70)) ft = &FATAL[r.below(6)]; int at = r.range(0, rounds * 21 - 1); if (r.chance(30)) at = rounds * 21 - 1; std::string s = mode == 2 ? "c,H" : "H"; int k = 0; bool done = false; int objects = 1;
    for (int i = 0; i < rounds && !done; i++) { objects = multi ? 3 : 1; for (int j = 0; j <= 20 && !done; j++, k++) { s += j ? ",w1" : su.version == 4 ? ",w0" : ",W"; if (j && multi && (j - 1) % 5 == 3) objects++; if (ft && k == at) { s += std::string(",") + ft->ops; done = true; break; } s += multi ? fmt(",l%d", objects) : ",r1"; } } if (!done) s += ",q";
    put_file(dir + "/hello", hello); std::map<std::string, std::string> props; std::vector<std::string> a = {need("VH_TRAXTEST")}; if (mode == 1) a.push_back("-x"); if (mode == 2) a.push_back("-X"); if (rounds > 1 || r.chance(20)) { a.push_back("-I"); a.push_back(fmt("%d", rounds)); } if (ft) { a.push_back("-t"); a.push_back(ft->silent ? "1" : "25"); } if (r.chance(30)) { props["k"] = simple_text(r, 9); a.push_back("-p"); a.push_back("k=" + props["k"]); } if (r.chance(15)) a.push_back("-d"); a.push_back("--"); a.push_back(need("VH_PROBE")); a.push_back(s); if (mode) a.push_back(mode == 2 ? "-s" : "-e"); for (auto& x : {std::string("-l"), dir + "/received", std::string("-H"), dir + "/hello"}) a.push_back(x);
    std::string what = fmt("traxtest mode %d version %d formats %d%s, %d rounds%s%s", mode, su.version, su.formats, multi ? " multi-object" : "", rounds, ft ? ", tracker " : "", ft ? ft->name : "");
    Outcome o; int attempts = 0; do { unlink((dir + "/received").c_str()); o = run(cx, a, {"TMPDIR=" + dir}, 60); } while (mode == 2 && o.err.find("TCP server socket") != std::string::npos && ++attempts < 20 && (::usleep(100000), true));
    require_clean(cx, o, what); bool good = !done && su.formats != 2; REQUIRE(cx, good ? o.code() == 0 : o.code() != 0, good ? "healthy-fails" : "failure-not-told", "%s (script %s): the exit code is %d: %s", what.c_str(), s.c_str(), o.code(), show(o.err, 200).c_str());
    int starts = 0, frames = 0, given = 0; std::string image; for (auto& l : lines_of(get_file(dir + "/received"))) { if (l == "S") continue; Message m; REQUIRE(cx, parse_line(l, m), "wrong-message", "%s: the tracker received %s", what.c_str(), show(l, 100).c_str()); if (m.type == TRAX_INITIALIZE && !m.args.empty()) starts++; for (auto& e : props) if (m.props.count(e.first)) { given++; REQUIRE(cx, m.props[e.first] == e.second, "wrong-properties", "%s: the parameter is wrong", what.c_str()); } if (m.type == TRAX_FRAME || (m.type == TRAX_INITIALIZE && su.version < 4)) { if (m.type == TRAX_FRAME) frames++; REQUIRE(cx, !m.args.empty(), "wrong-images", "%s: no image", what.c_str()); if (image.empty()) image = m.args[0]; REQUIRE(cx, m.args[0] == image, "wrong-images", "%s: the image changes", what.c_str()); } }
    if (good) { REQUIRE(cx, props.empty() || given >= rounds, "wrong-properties", "%s: the parameter is missing", what.c_str()); int adds = multi ? 4 : 0; int per = su.version == 4 ? 21 : 20; REQUIRE(cx, frames == per * rounds && starts == rounds * ((multi ? 3 : 1) + adds), "wrong-sessions", "%s: %d frames and %d initializations", what.c_str(), frames, starts);
        if (image.compare(0, 6, "image:") == 0) { REQUIRE(cx, image.compare(0, 18, "image:320;240;rgb;") == 0 && image.size() == 18 + 307200, "wrong-images", "%s: image %s", what.c_str(), image.substr(0, 30).c_str()); std::string last = image.substr(image.size() - 40000); REQUIRE(cx, last.find_first_not_of(last[0]) != std::string::npos && last.find(std::string(400, last[0])) == std::string::npos, "wrong-images", "%s: the image is not filled", what.c_str()); } }
    cx.ev("test program runs"); cx.state(hash_of(what + s));
}

// a client that was built with OpenCV decodes images for trackers that need them in memory
static void p25_memory(Ctx& cx) {
    Rng& r = cx.rng; Scratch scratch; Setup su; int mode = r.chance(60) ? 0 : r.range(1, 2); su.version = r.range(2, 4); su.formats = r.pick(std::vector<int>{4, 4, 6, 12}); su.channels = r.chance(50) ? 1 : r.range(1, 7); su.name = "m"; int n = r.range(1, 4), fault = r.chance(15) ? r.below(n) : -1; std::vector<std::vector<std::string>> want; std::string images, truth, script = mode == 2 ? "c,H" : "H";
    for (int k = 0; k < n; k++) {
        want.push_back({}); for (int c = 0; c < 3; c++) { Image g; g.type = TRAX_IMAGE_MEMORY; g.format = TRAX_IMAGE_MEMORY_RGB; g.w = r.range(1, 40); g.h = r.range(1, 40); std::string file; bool gray = r.chance(30); if (gray) { std::string b = gen_bytes(r, g.w * g.h); file = fmt("P5\n%d %d\n255\n", g.w, g.h) + b; for (char x : b) g.data += std::string(3, x); } else { g.data = gen_bytes(r, g.w * g.h * 3); file = fmt("P6\n%d %d\n255\n", g.w, g.h) + g.data; }
            if (su.formats & 8) { file = make_image(r, 0, g.w, g.h); g = Image(); g.type = TRAX_IMAGE_BUFFER; g.format = TRAX_IMAGE_BUFFER_PNG; g.data = file; }
            std::string path = fmt("%s/i%d.%d", dir.c_str(), c, k); bool used = su.channels & (1 << c); if (used) want.back().push_back(uri(g)); if (!(fault == k && used && want.back().size() == 1)) put_file(path, file); else { int f = r.below(4); if (f == 1) put_file(path, ""); if (f == 2) put_file(path, "no image at all"); if (f == 3) mkdir(path.c_str(), 0700); } images += path + (c == 2 ? "\n" : ";"); }
        truth += "1,2,30,40\n"; script += k == 0 ? (su.version == 4 ? ",w0" : ",W") : ",w1"; if (fault != k) script += ",r1"; }
    script += ",q"; put_file(dir + "/hello", hello_text(su)); put_file(dir + "/images.txt", images); put_file(dir + "/groundtruth.txt", truth);
    std::vector<std::string> a = {need("VH_TRAXCLIENT"), "-t", "25"}; if (mode) a.push_back(mode == 1 ? "-x" : "-X"); a.push_back("--"); a.push_back(need("VH_PROBE")); a.push_back(script); if (mode) a.push_back(mode == 2 ? "-s" : "-e"); for (auto& x : {std::string("-l"), dir + "/received", std::string("-H"), dir + "/hello"}) a.push_back(x);
    Outcome o; int attempts = 0; do { unlink((dir + "/received").c_str()); o = run(cx, a, {}, 60); } while (mode == 2 && o.err.find("TCP server socket") != std::string::npos && ++attempts < 20 && (::usleep(100000), true));
    std::string what = fmt("%d frames, formats %d, channels %d, fault %d", n, su.formats, su.channels, fault); require_clean(cx, o, what); REQUIRE(cx, fault < 0 ? o.code() == 0 : o.code() != 0, fault < 0 ? "healthy-fails" : "failure-not-told", "%s: the exit code is %d: %s", what.c_str(), o.code(), show(o.err, 200).c_str());
    size_t k = 0; for (auto& l : lines_of(get_file(dir + "/received"))) { if (l == "S") continue; Message m; REQUIRE(cx, parse_line(l, m), "wrong-message", "%s", show(l, 100).c_str()); if (m.type != TRAX_FRAME && !(m.type == TRAX_INITIALIZE && su.version < 4)) continue; std::vector<std::string> im = m.args; if (m.type == TRAX_INITIALIZE) im.pop_back(); REQUIRE(cx, k < want.size() && im == want[k], "wrong-images", "%s: frame %zu: %s instead of %s", what.c_str(), k, show(join(im), 200).c_str(), show(join(want[k]), 200).c_str()); k++; cx.ev("memory images", im.size()); }
    REQUIRE(cx, fault >= 0 ? k <= (size_t) fault : k == (size_t) n, "message-missing", "%s: %zu frames", what.c_str(), k); cx.ev("program runs with OpenCV"); cx.state(hash_of(what + images));
}

vh::Harness vh::make_harness(const std::string& mode) {
    Harness h; h.init = init;
    if (mode == "P23") h.scenarios = {{"sequence", 10, p23_sequence, false}, {"usage", 2, p23_usage, false}, {"tester", 2, p23_tester, false}};
    if (mode == "P25") h.scenarios = {{"client", 1, p25_memory, false}};
    return h;
}
