// P21: threads that use only their own sessions and objects. ThreadSanitizer watches, the results are compared with a run of the same work one after another.
#include "sess.h"
#include <thread>
#include <atomic>
using namespace ref; using namespace vh;

struct Digest { uint64_t h = 1; long ops = 0; void add(uint64_t v) { h = mix(h, v); ops++; } void add(const std::string& s) { add(hash_of(s)); } };
static void add(Digest& d, const Map& m) { for (auto& e : m) { d.add(e.first); d.add(e.second); } d.add(m.size()); }
static void add(Digest& d, const Region& g) { d.add(g.str()); d.add(g.bits); } static void add(Digest& d, const Images& m) { for (auto& e : m) { d.add(e.first); d.add(e.second.data); d.add(e.second.str()); } }
static void add(Digest& d, const Objects& v) { for (auto& o : v) { add(d, o.region); add(d, o.props); } d.add(v.size()); }
static void add(Digest& d, const Got& g) { d.add(g.code); add(d, g.images); add(d, g.objects); add(d, g.region); add(d, g.props); d.add(g.error); }
static void log_to(const char* s, int n, void* o) { if (s) ((std::string*) o)->append(s, n); }

static void work_session(Rng& r, Digest& d) {
    int version = r.pick(std::vector<int>{1, 2, 3, 4, 0}); Meta m = gen_meta(r, version); std::string clog, slog; Session s; bool log = r.chance(50);
    s.open(false, m, version, log ? trax_logger_setup(log_to, &clog, 0) : trax_no_log, log ? trax_logger_setup(log_to, &slog, 0) : trax_no_log, r.chance(30) ? gen_text(r, 40) + "\n" : "");
    d.add(s.c != NULL); d.add(s.s != NULL); if (!s.c || !s.s) return; d.add(s.c->version); add(d, to_map(s.c->metadata->custom)); const char* n = s.c->metadata->tracker_name; d.add(std::string(n ? n : "-"));
    int count = m.flags && s.mot ? r.range(1, 4) : 1, steps = r.range(1, 4);
    if (r.chance(20)) { io::plan().active = true; io::plan().rng = r.next(); io::plan().short_percent = 60; io::plan().max_chunk = 200; io::plan().eintr_percent = 10; }
    for (int k = 0; k < steps; k++) {
        IL il(gen_images(r, m.channels, m.images)); Objects v; for (int i = 0; i < count; i++) { v.push_back({gen_region(r, m.regions), Map()}); if (count > 1) v.back().props = gen_props(r, 2, 30); } Props p(gen_props(r, 3, 60)); OL o(v);
        int rc = k ? trax_client_frame(s.c, il, NULL, p) : trax_client_initialize(s.c, il, o, p); d.add(rc); if (rc != TRAX_OK) { d.add(std::string(trax_get_error(s.c) ? trax_get_error(s.c) : "")); break; }
        Got g = server_wait(s.s, s.mot); add(d, g); if (g.code != TRAX_INITIALIZE && g.code != TRAX_FRAME) break;
        if (r.chance(8)) { put(s.b->w, "@@TRAX:frame \"x\" \n"); } // a mistake of the tracker
        if (s.mot) { Objects w; for (int i = 0; i < count; i++) w.push_back({gen_region(r, m.regions), gen_props(r, 2, 30)}); OL ol(w); d.add(trax_server_reply_mot(s.s, ol)); } else { R q(gen_region(r, m.regions)); Props w(gen_props(r, 2, 30)); d.add(trax_server_reply_sot(s.s, q, w)); }
        Got a = client_wait(s.c); add(d, a); if (a.code != TRAX_STATE) break;
    }
    d.add(r.chance(50) ? trax_terminate(s.c, "over") : trax_terminate(s.s, NULL)); s.close_client(); s.close_server(); d.add(clog); d.add(slog);
}
static void work_client(Rng& r, Digest& d) { // a client over TCP with a tracker written by hand
    Listener l; int t = tcp_connect(l.port); put(t, PREFIX + "hello \"trax.version=4\" \"trax.region=rectangle;polygon;mask;\" \"trax.image=path;\" \"x.y=" + escape(gen_text(r, 20)) + "\" \n" + PREFIX + "state " + quote(text(gen_region(r, GEOMETRY))) + " \n" + PREFIX + "quit \n");
    trax_handle* c = trax_client_setup_socket(l.fd, 5, trax_no_log); d.add(c != NULL); if (!c) { ::close(t); return; } add(d, to_map(c->metadata->custom)); Image x; x.type = TRAX_IMAGE_PATH; x.data = "/" + fmt("%d", r.range(1, 1000)); Images im; im[TRAX_CHANNEL_COLOR] = x; IL il(im); OL o(Objects(1, Object{gen_region(r, GEOMETRY), Map()})); d.add(trax_client_initialize(c, il, o, NULL)); for (int k = 0; k < 3; k++) add(d, client_wait(c)); trax_cleanup(&c); d.add(drain(t)); ::close(t);
}
static void work_regions(Rng& r, Digest& d) {
    for (int k = r.range(3, 12); k > 0; k--) {
        R a(gen_region(r, GEOMETRY)), b(gen_region(r, GEOMETRY)); char* e = trax_region_encode(a); if (e) { d.add(std::string(e)); R q(trax_region_decode(e)); add(d, from_lib(q.p)); free(e); }
        for (int t : {TRAX_REGION_RECTANGLE, TRAX_REGION_POLYGON}) { R q(trax_region_convert(a, t)); if (q.p) add(d, from_lib(q.p)); }
        trax_bounds q = trax_region_bounds(a); if ((q.right - q.left) * (q.bottom - q.top) < 60000) { R m(trax_region_convert(a, TRAX_REGION_MASK)); if (m.p) add(d, from_lib(m.p)); q = trax_no_bounds; q.left = 0; q.top = 0; q.right = 100; q.bottom = 100; d.add(fmt("%.9g", trax_region_overlap(a, b, q))); }
        for (int i = 0; i < 10; i++) d.add(trax_region_contains(a, gen_coord(r), gen_coord(r)));
        R bad(trax_region_decode(gen_text(r, 30).c_str())); d.add(bad.p != NULL);
    }
}
static void work_props(Rng& r, Digest& d) { Props p; for (int k = r.range(5, 60); k > 0; k--) { std::string key = gen_key(r); switch (r.below(4)) { case 0: trax_properties_set(p, key.c_str(), gen_text(r, 40).c_str()); break; case 1: trax_properties_set_int(p, key.c_str(), r.range(-9, 9)); break; case 2: trax_properties_set_float(p, key.c_str(), r.range(-90, 90) / 4.0f); break; case 3: { trax_properties* c = trax_properties_copy(p); add(d, to_map(c)); trax_properties_append(c, p, 1); trax_properties_release(&c); break; } } d.add(trax_properties_get_int(p, key.c_str(), 1)); d.add(fmt("%g", trax_properties_get_float(p, key.c_str(), 1))); } add(d, p.map()); }
static void work_images(Rng& r, Digest& d) { for (int k = r.range(2, 10); k > 0; k--) { I g(gen_image(r, ALL_IMAGES)); add(d, Images{{1, from_lib(g.p)}}); if (trax_image_get_type(g) == TRAX_IMAGE_MEMORY) trax_image_write_memory_row(g, 0)[0] = 7; add(d, Images{{1, from_lib(g.p)}}); } }
static void work_cpp(Rng& r, Digest& d) {
    std::vector<trax::Region> v; for (int k = r.range(2, 20); k > 0; k--) { trax::Region g = trax::Region::create_rectangle(r.range(0, 50), r.range(0, 50), r.range(1, 50), r.range(1, 50)); v.push_back(g); trax::Region c = v[r.below(v.size())]; c.set((float) r.range(0, 9), 1, 2, 3); d.add((std::string) v[r.below(v.size())]); d.add(fmt("%g", v[r.below(v.size())].overlap(c))); v[r.below(v.size())] = c; }
    trax::Properties p; for (int k = r.range(1, 20); k > 0; k--) { p.set(gen_key(r), gen_text(r, 20)); trax::Properties q = p; q.set("a", k); d.add(p.size()); d.add(q.get("a", 0)); } trax::ObjectList o(3); o.set(1, v[0]); trax::ObjectList w = o; w.set(2, v.back()); d.add((std::string) o.get(2)); trax::ImageList il; il.set(trax::Image::create_path("x"), 1); trax::ImageList i2 = il; i2.set(trax::Image::create_url("http://x"), 2); d.add(il.size() * 10 + i2.size()); }
static Digest work(uint64_t seed, int items, std::atomic<int>* noise) {
    Digest d; Rng r(seed); r.next();
    for (int k = 0; k < items; k++) { if (noise) { int z = (noise->fetch_add(1, std::memory_order_relaxed) * 7919 + (int) (seed & 63)) % 8; if (z < 3) std::this_thread::yield(); else if (z == 3) usleep(50); }
        switch (r.below(8)) { case 0: case 1: case 2: work_session(r, d); break; case 3: work_regions(r, d); break; case 4: work_props(r, d); break; case 5: work_images(r, d); break; case 6: work_cpp(r, d); break; case 7: work_client(r, d); break; } }
    return d;
}
static void p21_threads(Ctx& cx) {
    Rng& r = cx.rng; int n = r.range(2, 6), items = r.range(1, 6); std::vector<uint64_t> seeds(n); bool same = r.chance(30); uint64_t first = r.next(); for (auto& s : seeds) s = same ? first : r.next();
    std::vector<Digest> together(n); std::atomic<int> ready(0), noise(0), inside(0), most(0); std::vector<std::thread> t;
    for (int i = 0; i < n; i++) t.emplace_back([&, i] { ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < n) std::this_thread::yield(); int in = inside.fetch_add(1, std::memory_order_relaxed) + 1, m = most.load(std::memory_order_relaxed); while (m < in && !most.compare_exchange_weak(m, in, std::memory_order_relaxed)); together[i] = work(seeds[i], items, &noise); inside.fetch_sub(1, std::memory_order_relaxed); });
    for (auto& x : t) x.join();
    uint64_t all = 0; for (int i = 0; i < n; i++) { Digest alone = work(seeds[i], items, NULL); REQUIRE(cx, alone.h == together[i].h && alone.ops == together[i].ops, "differs", "thread %d of %d: %ld results that differ from those of a run alone (%ld)", i, n, together[i].ops, alone.ops); all = mix(all, alone.h); cx.ev("results", alone.ops); cx.eval(alone.ops); }
    cx.ev("threads", n); cx.ev("threads at once", most.load()); cx.state(all);
}
vh::Harness vh::make_harness(const std::string& mode) { Harness h; h.init = [] { signal(SIGPIPE, SIG_IGN); }; if (mode == "P21") h.scenarios = {{"threads", 1, p21_threads, false}}; return h; }
