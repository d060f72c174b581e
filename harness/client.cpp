// P18, P19, P20, P27: the client support library with tracker programs that are played by the probe.
#include "vh.h"
#include "probe.h"
#include <trax.h>
#include <trax/client.hpp>
#include <sstream>
#include <fstream>
#include <memory>
#include <thread>
#include <atomic>
#include <mutex>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
using namespace vh;
using trax::TrackerProcess;
extern char** environ;

// ---------------------------------------------------------------- delays (linked with --wrap in the schedules mode)
struct Delays { std::atomic<int> active{0}, sleep_percent{100}; std::atomic<unsigned long> points{0}; } delays;
#ifdef VH_DELAYS
static unsigned delay_random() { static thread_local unsigned s = 0; static std::atomic<unsigned> n{1}; if (!s) s = n.fetch_add(1, std::memory_order_relaxed) * 2654435761u + getpid(); return probe_random(&s); }
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t* m); int __real_usleep(useconds_t u); pid_t __real_waitpid(pid_t p, int* s, int o); int __real_kill(pid_t p, int s); int __real_close(int f);
static void perturb() { if (!delays.active.load(std::memory_order_relaxed)) return; delays.points.fetch_add(1, std::memory_order_relaxed); unsigned r = delay_random() % 100; if (r < 4) __real_usleep(delay_random() % 1500); else if (r < 15) sched_yield(); }
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { perturb(); int r = __real_pthread_mutex_lock(m); perturb(); return r; }
int __wrap_usleep(useconds_t u) { int p = delays.active.load(std::memory_order_relaxed) ? delays.sleep_percent.load(std::memory_order_relaxed) : 100; return __real_usleep(p == 100 ? u : (useconds_t) (u / 100 * (1 + delay_random() % p))); }
pid_t __wrap_waitpid(pid_t p, int* s, int o) { perturb(); pid_t r = __real_waitpid(p, s, o); int e = errno; perturb(); errno = e; return r; }
int __wrap_kill(pid_t p, int s) { perturb(); int r = __real_kill(p, s); int e = errno; perturb(); errno = e; return r; }
int __wrap_close(int f) { perturb(); return __real_close(f); }
}
#endif

static const char* PROBE() { static const char* p = getenv("VH_PROBE"); if (!p) { fprintf(stderr, "VH_PROBE is not set\n"); exit(2); } return p; }
static const char* MODES[] = {"default", "explicit", "sockets"};
static std::string dir; // scratch directory of this process
static void remove_dir() { if (dir.empty()) return; for (auto& d : {dir + "/w d", dir}) { DIR* h = opendir(d.c_str()); if (!h) continue; while (dirent* e = readdir(h)) if (e->d_name[0] != '.') ::unlink((d + "/" + e->d_name).c_str()); closedir(h); ::rmdir(d.c_str()); } }
static void init() {
    std::thread([] {}).join(); // the sanitizer starts its own thread with the first one
    signal(SIGPIPE, SIG_DFL); char t[] = "/tmp/vhc_XXXXXX"; if (!mkdtemp(t)) { perror("mkdtemp"); exit(2); } dir = t; mkdir((dir + "/w d").c_str(), 0700); atexit(remove_dir); PROBE();
}
static std::string quoted(const std::string& s) { return s.find(' ') != std::string::npos || s.empty() ? "\"" + s + "\"" : s; }
static std::string command(const std::string& script, int mode, const std::string& counter = "") { return quoted(PROBE()) + " " + script + (mode == 2 ? " -s" : mode == 1 ? " -e" : "") + (counter.empty() ? "" : " -n " + counter); }
static int threads() { int n = 0; DIR* d = opendir("/proc/self/task"); while (dirent* e = readdir(d)) if (e->d_name[0] != '.') n++; closedir(d); return n; }
static std::string children() { // children of this process, alive or not
    std::string r; FILE* f = fopen(fmt("/proc/self/task/%d/children", getpid()).c_str(), "r"); if (f) { char b[400]; size_t n = fread(b, 1, sizeof b - 1, f); b[n] = 0; r = b; fclose(f); }
    siginfo_t info; memset(&info, 0, sizeof info); if (waitid(P_ALL, 0, &info, WEXITED | WNOHANG | WNOWAIT) == 0 && info.si_pid) r += fmt("(%d ended)", info.si_pid); else if (r.empty() && errno != ECHILD && false) r = "?";
    return r;
}
struct Before { int fds = open_fds(), tasks = threads();
    void require(Ctx& cx, const std::string& what) {
        std::string c = children(); REQUIRE(cx, c.empty(), "child-left", "%s: processes are left: %s", what.c_str(), c.c_str());
        int f = open_fds(); REQUIRE(cx, f <= fds, "descriptor-left", "%s: %d descriptors are left", what.c_str(), f - fds);
        int t = 0; for (int k = 0; k < 200; k++) { t = threads(); if (t <= tasks) break; ::usleep(5000); }
        REQUIRE(cx, t <= tasks, "thread-left", "%s: %d threads are left", what.c_str(), t - tasks); cx.ev("clean ends"); } };

struct Log : std::stringbuf { std::mutex m; int delay = 0; int sync() override { if (delay) usleep(delay); return 0; } }; // written by the library with its own lock
static trax::ImageList image(int n = 0) { trax::ImageList l; l.set(trax::Image::create_path(fmt("/img/%d.jpg", n)), TRAX_CHANNEL_COLOR); return l; }
static trax::ImageList big_image(int size) { trax::ImageList l; std::vector<char> b(size, 'x'); b[0] = (char) 0xff; b[1] = (char) 0xd8; b[2] = (char) 0xff; trax::Image g = trax::Image::create_buffer((int) b.size(), b.data()); l.set(g, TRAX_CHANNEL_COLOR); return l; }
static trax::Region rect() { return trax::Region::create_rectangle(1, 2, 3, 4); }
static bool is_reply(const trax::Region& g, int n) { float x, y, w, h; if (g.empty()) return false; g.get(&x, &y, &w, &h); return x == n && y == n + 1 && w == 10 && h == 20; }

// ---------------------------------------------------------------- P18: failures
enum Kind { IMMEDIATE, SILENT, ANY };
struct Failure { const char* ops; Kind kind; const char* name; int before_hello /* 2: nothing else */; };
static const Failure FAILURES[] = {
    {"x0", IMMEDIATE, "exit", true}, {"x3", IMMEDIATE, "exit code", true}, {"k9", IMMEDIATE, "killed", true}, {"k11", IMMEDIATE, "segmentation fault", true}, {"k6", IMMEDIATE, "abort", true}, {"k15", IMMEDIATE, "terminated", true},
    {"O,z", IMMEDIATE, "closes its output", true}, {"I,O,R,Z", IMMEDIATE, "closes everything", true}, {"t,x1", IMMEDIATE, "dies within a message", false}, {"t,O,Z", IMMEDIATE, "ends its output within a message", false}, {"u300,k9", IMMEDIATE, "killed a bit later", true}, {"e2000x60,x7", IMMEDIATE, "prints and exits", true}, {"R,x1", IMMEDIATE, "closes the error stream and exits", true},
    {"z", SILENT, "hangs", true}, {"Z", SILENT, "hangs and ignores SIGTERM", true}, {"p", SILENT, "is stopped", true}, {"b", SILENT, "reads and never answers", true}, {"t,z", SILENT, "hangs within a message", false}, {"R,Z", SILENT, "closes the error stream and hangs", true}, {"E", SILENT, "floods the error stream", true}, {"F", SILENT, "floods the output stream", true}, {"I,z", ANY, "closes its input", true}, {"I,i15,z", ANY, "closes its input and hangs", false},
    {"g1,z", ANY, "illegal region", false}, {"g2,z", ANY, "no region", false}, {"g3,z", ANY, "message of the other side", false}, {"g4,z", ANY, "second introduction", false}, {"g5,z", ANY, "too many regions", false}, {"Q,x0", IMMEDIATE, "quits", false}, {"Q,Z", IMMEDIATE, "quits and stays", false},
    {"v,z", IMMEDIATE, "has an unsupported version", 2}, {"v,q", IMMEDIATE, "has an unsupported version and obeys", 2}, {"V0,z", IMMEDIATE, "is introduced with an argument", 2}, {"V1,Z", IMMEDIATE, "is introduced with an unknown format", 2}, {"V2,z", IMMEDIATE, "is introduced with an unknown channel", 2}, {"V3,z", IMMEDIATE, "starts with a reply", 2},
};
enum Stage { S_CONNECT, S_HELLO, S_IDLE, S_BUSY, S_END };

// The ports may be used by other processes
struct Tracker { std::unique_ptr<TrackerProcess> t;
    template<class... A> Tracker(const A&... a) { for (int k = 0; ; k++) { try { t.reset(new TrackerProcess(a...)); return; } catch (std::runtime_error& e) { if (k > 300 || !strstr(e.what(), "TCP server socket")) throw; ::usleep(1000 * (k + 1)); } } }
    TrackerProcess* operator->() { return t.get(); } TrackerProcess* operator&() { return t.get(); } };

struct Call { std::string name; bool ok = false, threw = false; double t = 0; std::string what; };
template<class F> static Call call(const char* name, F f) { Call c; c.name = name; double t0 = now(); try { c.ok = f(); } catch (std::runtime_error& e) { c.threw = true; c.what = e.what(); } c.t = now() - t0; return c; }

struct Runner {
    Ctx& cx; TrackerProcess* t; std::string trail; double limit; int timeout; bool tight;
    Runner(Ctx& cx, TrackerProcess* t, double limit, int timeout) : cx(cx), t(t), limit(limit), timeout(timeout), tight(true) {}
    void note(const Call& c) { trail += fmt("%s:%s(%.1f) ", c.name.c_str(), c.ok ? "ok" : c.threw ? "throws" : "no", c.t); cx.log("%s -> %s %.2f s %s", c.name.c_str(), c.ok ? "ok" : c.threw ? "throws" : "no", c.t, c.what.c_str()); cx.ev("calls"); }
    Call run(const char* name, std::function<bool()> f) { Call c = call(name, f); note(c); REQUIRE(cx, c.t < limit, "late", "%s: %s returned after %.1f s, limit %.1f s", trail.c_str(), name, c.t, limit); return c; }
    Call query() { return run("query", [&] { return t->query(); }); }
    Call initialize(bool big = false) { return run("initialize", [&] { return t->initialize(big ? big_image(3000000) : image(), rect()); }); }
    Call wait(int n) { trax::Region g; trax::Properties p; Call c = run("wait", [&] { return t->wait(g, p); }); if (c.ok) { REQUIRE(cx, is_reply(g, n), "wrong-reply", "%s: reply %d was expected, got %s", trail.c_str(), n, g.empty() ? "none" : ((std::string) g).c_str()); REQUIRE(cx, p.get("n", -1) == n, "wrong-reply", "property of reply %d is missing", n); cx.ev("replies"); } return c; }
    Call frame(int n, bool big = false) { return run("frame", [&] { return t->frame(big ? big_image(3000000) : image(n)); }); }
    void require(const Call& c, bool ok, const std::string& what) { REQUIRE(cx, c.ok == ok, ok ? "healthy-fails" : "failure-not-noticed", "%s: %s %s (%s) %s", what.c_str(), c.name.c_str(), ok ? "failed" : "succeeded", trail.c_str(), c.what.c_str()); }
    // a whole healthy session
    void healthy(int frames, const std::string& what) { require(initialize(), true, what); require(wait(0), true, what); for (int k = 1; k <= frames; k++) { require(frame(k), true, what); require(wait(k), true, what); } REQUIRE(cx, t->ready() && t->tracking(), "healthy-fails", "%s: not ready (%s)", what.c_str(), trail.c_str()); }
};
static std::string healthy_script(int mode, int frames, const std::string& end = "q") { std::string s = mode == 2 ? "c,h" : "h"; s += ",w0,r0"; for (int k = 1; k <= frames; k++) s += fmt(",w1,r%d", k); return s + "," + end; }

static void p18_failure(Ctx& cx) {
    Rng& r = cx.rng; Before before; int mode = r.below(3), frames = r.range(0, 3); const Failure& f = FAILURES[r.below(sizeof FAILURES / sizeof *FAILURES)];
    Stage stage = (Stage) r.range(mode == 2 ? S_CONNECT : S_HELLO, S_END); if (!f.before_hello && (stage == S_CONNECT || stage == S_HELLO)) stage = S_BUSY; if (f.before_hello == 2) stage = S_HELLO;
    int at = r.range(0, frames); // after which reply, or while which request is processed
    std::string pre = r.chance(25) ? fmt("u%d,", r.range(1, 120000)) : ""; // a random delay before the failure
    std::string s = mode == 2 && stage != S_CONNECT ? "c," : "";
    if (stage > S_HELLO) { s += "h,"; int replies = stage == S_IDLE ? at : stage == S_BUSY ? at : frames + 1; for (int k = 0; k < replies; k++) s += fmt("w%d,r%d,", k ? 1 : 0, k); if (stage == S_BUSY) s += at ? "w1," : "w0,"; }
    s += pre + f.ops;
    bool again = r.chance(30); std::string counter; if (again) { counter = dir + fmt("/n%d", (int) r.below(1 << 30)); s += "/" + healthy_script(mode, frames); }
    // A tracker that dies must be noticed without any timeout, a silent one by the timeout
    bool big = r.chance(15) && !(f.kind == IMMEDIATE && (strchr(f.ops, 'z') || strchr(f.ops, 'Z'))); // nobody reads it
    int timeout = f.kind == IMMEDIATE && stage != S_CONNECT ? r.pick(std::vector<int>{30, 60, 0}) : big ? 4 : 1; double limit = f.kind == IMMEDIATE && stage != S_CONNECT ? 12 : timeout + 11;
    if (mode == 2 && timeout == 0) timeout = 30; // the connection is not waited for otherwise
    trax::VerbosityMode verbosity = (trax::VerbosityMode) r.below(3); Log log; std::ostream os(&log);
    std::string what = fmt("%s, %s, stage %d.%d", MODES[mode], f.name, stage, at); cx.log("script %s timeout %d verbosity %d", s.c_str(), timeout, verbosity);
    int order = 0; // the calls that succeeded
    {
        Tracker t(command(s, mode, counter), std::map<std::string, std::string>(), timeout, (trax::ConnectionMode) mode, verbosity, "", (std::ostream*) &os); Runner u(cx, &t, limit, timeout);
        Call c = u.query(); bool failed = false;
        if (stage <= S_HELLO) { u.require(c, false, what); REQUIRE(cx, c.threw, "failure-not-noticed", "%s: query does not throw", what.c_str()); failed = true; }
        else if (!c.ok) { // it may die within the first moments, in which the program is watched
            REQUIRE(cx, stage == S_IDLE && at == 0 && f.kind == IMMEDIATE, "healthy-fails", "%s: query failed: %s", what.c_str(), c.what.c_str()); failed = true;
        } else order = 1;
        for (int k = 0; !failed && k <= frames; k++) {
            bool here = stage != S_END && at == k;
            Call a = k ? u.frame(k, big) : u.initialize(big);
            if (!a.ok) { REQUIRE(cx, here, "healthy-fails", "%s: %s failed: %s (%s)", what.c_str(), a.name.c_str(), a.what.c_str(), u.trail.c_str()); failed = true; break; }
            order++;
            Call b = u.wait(k);
            if (here) { u.require(b, false, what); failed = true; break; }
            bool gone = f.kind == IMMEDIATE && ((stage == S_IDLE && at == k + 1) || (stage == S_END && k == frames)); // a reply may be lost if the process is gone when it is asked for
            if (gone && !b.ok) { failed = true; break; }
            u.require(b, true, what); order++;
        }
        if (failed) { cx.ev("failures noticed"); cx.ev(f.kind == IMMEDIATE ? "immediate failures" : "silent failures");
            bool stays = !strncmp(f.ops, "Q,", 2); // the session is over for both sides
            REQUIRE(cx, !t->ready() && !t->tracking() && !t->multiobject(), "ready-after-failure", "%s: still ready (%s)", what.c_str(), u.trail.c_str());
            if (!stays) { std::string ch = children(); REQUIRE(cx, ch.empty(), "child-left", "%s: processes are left after the failure: %s", what.c_str(), ch.c_str()); }
            for (int k = r.below(3); k > 0; k--) { Call c = r.chance(50) ? u.wait(0) : u.frame(1); u.require(c, false, what + ", after the failure"); }
        }
        if (again && failed) { Call c = u.run("reset", [&] { return t->reset(); }); u.require(c, true, what + ", restarted"); u.healthy(frames, what + ", restarted"); cx.ev("restarts"); }
        else if (again && r.chance(50)) { Call c = u.run("reset", [&] { return t->reset(); }); u.require(c, true, what + ", restarted"); u.healthy(frames, what + ", restarted"); cx.ev("restarts"); }
        u.run("ready", [&] { t->ready(); return true; });
        double t0 = now(); (void) t0;
    }
    before.require(cx, what); cx.state(hash_of(fmt("%d %s %d %d %d %s", mode, f.ops, stage, at, order, pre.c_str())));
    cx.sample(what);
}
// the destructor in any state
static void p18_destroy(Ctx& cx) {
    if (cx.rng.chance(20)) { // nothing but the end of the session does not fit in the pipe any more
        Rng& r = cx.rng; Before before; int mode = r.below(2), room = r.range(0, 20); std::string end = r.pick(std::vector<std::string>{"z", "Z", "p"}), what = fmt("%s destroyed, %d bytes of the pipe are free, then %s", MODES[mode], room, end.c_str()); double t0;
        { Tracker t(command(healthy_script(mode, 0, end), mode), std::map<std::string, std::string>(), 2, (trax::ConnectionMode) mode, trax::VERBOSITY_SILENT); Runner u(cx, &t, 12, 2); u.require(u.query(), true, what); u.healthy(0, what); ::usleep(50000);
            trax::ImageList l; l.set(trax::Image::create_path("/" + std::string(14 * 4096 + 100 - 8, 'i')), TRAX_CHANNEL_COLOR); trax::Properties p; p.set("k", std::string(4088 - room, 'v')); /* the image fills 15 pages, the property the last one */
            Call f = u.run("frame", [&] { return t->frame(l, p); }); cx.ev(f.ok && f.t < 1 ? "full pipes" : "pipes of another size"); t0 = now(); }
        REQUIRE(cx, now() - t0 < 8, "late", "%s: the destructor took %.1f s", what.c_str(), now() - t0);
        before.require(cx, what); cx.state(hash_of(what)); cx.ev("destroyed sessions with full pipes"); return;
    }
    Rng& r = cx.rng; Before before; int mode = r.below(3), frames = r.range(0, 2), stop = r.range(0, 2 * frames + 3); std::string end = r.pick(std::vector<std::string>{"q", "z", "Z", "x0", "k9", "p", "b", "E", "F", "I,Z"});
    std::string s = healthy_script(mode, frames, end); int timeout = r.pick(std::vector<int>{1, 30}); double t0; std::string what = fmt("%s destroyed after step %d, then %s", MODES[mode], stop, end.c_str()); cx.log("%s", s.c_str());
    Log log; std::ostream os(&log);
    {
        Tracker t(command(s, mode), std::map<std::string, std::string>(), timeout, (trax::ConnectionMode) mode, (trax::VerbosityMode) r.below(3), "", (std::ostream*) &os); Runner u(cx, &t, 12, timeout); int step = 0;
        if (step++ < stop) u.require(u.query(), true, what);
        for (int k = 0; k <= frames && step < stop; k++) { step++; u.require(k ? u.frame(k) : u.initialize(), true, what); if (step++ < stop) { Call w = u.wait(k); if (!w.ok && k == frames && (end == "x0" || end == "k9")) break; /* the last reply may be lost if the process is gone when it is asked for */ u.require(w, true, what); } }
        t0 = now();
    }
    REQUIRE(cx, now() - t0 < 8, "late", "%s: the destructor took %.1f s", what.c_str(), now() - t0);
    before.require(cx, what); cx.state(hash_of(s + fmt("%d", stop))); cx.ev("destroyed sessions");
}
// a tracker that is slow but within the timeout
static void p18_slow(Ctx& cx) {
    Rng& r = cx.rng; Before before; int mode = r.below(3), where = r.below(4); std::string d = fmt("s%d,", r.range(300, 1000)); std::string s = where == 0 ? d : ""; if (mode == 2) s += "c,"; s += (where == 1 ? d : "") + "h,w0," + (where == 2 ? d : "") + "r0,w1," + (where == 3 ? d : "") + "r1,q";
    if (r.chance(25)) { int frames = r.range(40, 300); std::string w = fmt("%s, %d frames", MODES[mode], frames); { Tracker t(command(healthy_script(mode, frames), mode), std::map<std::string, std::string>(), 10, (trax::ConnectionMode) mode, trax::VERBOSITY_SILENT); Runner u(cx, &t, 12, 3); u.require(u.query(), true, w); u.healthy(frames, w); } before.require(cx, w); cx.state(hash_of(w)); cx.ev("long sessions"); return; }
    std::string what = std::string(MODES[mode]) + " slow: " + s; { Tracker t(command(s, mode), std::map<std::string, std::string>(), 3, (trax::ConnectionMode) mode, trax::VERBOSITY_SILENT); Runner u(cx, &t, 12, 3); u.require(u.query(), true, what); u.healthy(1, what); }
    before.require(cx, what); cx.state(hash_of(s)); cx.ev("slow replies");
}
// in a process with many open descriptors
static void p18_crowded(Ctx& cx) {
    Rng& r = cx.rng; Before before; int mode = r.below(3), frames = r.range(0, 2); Log log; std::ostream os(&log); std::string end = r.pick(std::vector<std::string>{"q", "w1,x3", "w1,O,z", "w1,I,O,R,Z", "w1,z"}); bool silent = end == "w1,z"; int limit = silent ? 12 : 11; std::string what = fmt("%s beside many descriptors, ends with %s", MODES[mode], end.c_str()), out = mode == 2 ? "e3000x60,o3000x60," : "e3000x60,"; { Crowd crowd(true); if (!crowd.there) { cx.ev("descriptors are limited"); return; }
        Tracker t(command(out + healthy_script(mode, frames, end), mode), std::map<std::string, std::string>(), silent ? 1 : 20, (trax::ConnectionMode) mode, trax::VERBOSITY_DEFAULT, "", (std::ostream*) &os); Runner u(cx, &t, limit, 20); u.require(u.query(), true, what); u.healthy(frames, what);
        if (end != "q") { Call f = u.frame(frames + 1); if (f.ok) u.require(u.wait(frames + 1), false, what); REQUIRE(cx, !t->ready(), "ready-after-failure", "%s", what.c_str()); } }
    before.require(cx, what); cx.state(hash_of(what + fmt("%d", frames))); cx.ev("sessions with large descriptors");
}
// several trackers at once: the end of one is noticed while the others live on
static void p18_several(Ctx& cx) {
    Rng& r = cx.rng; Before before; int n = r.range(2, 3), victim = r.below(n), mode[3]; std::string what = "several:"; std::string kill = r.pick(std::vector<std::string>{"x1", "k9", "O,Z", "I,O,R,Z"});
    {
        std::vector<Tracker*> t; std::vector<std::string> s; Log log; std::ostream os(&log);
        for (int k = 0; k < n; k++) { mode[k] = r.below(3); what += fmt(" %s%s", MODES[mode[k]], k == victim ? "*" : ""); s.push_back(k == victim ? std::string(mode[k] == 2 ? "c," : "") + "h,w0,r0,w1," + kill : healthy_script(mode[k], 2)); }
        what += " " + kill; cx.log("%s", what.c_str());
        struct Del { std::vector<Tracker*>& t; ~Del() { for (auto p : t) delete p; } } del{t};
        for (int k = 0; k < n; k++) { t.push_back(new Tracker(command(s[k], mode[k]), std::map<std::string, std::string>(), 30, (trax::ConnectionMode) mode[k], trax::VERBOSITY_SILENT, "", (std::ostream*) &os)); Runner u(cx, &*t[k], 12, 30); u.require(u.query(), true, what); if (r.chance(50)) { /* may be initialised before or after the others start */ } }
        for (int k = 0; k < n; k++) { Runner u(cx, &*t[k], 12, 30); u.require(u.initialize(), true, what); u.require(u.wait(0), true, what); }
        Runner v(cx, &*t[victim], 12, 30); Call f = v.frame(1); if (f.ok) v.require(v.wait(1), false, what); REQUIRE(cx, !(*t[victim])->ready(), "ready-after-failure", "%s", what.c_str());
        for (int k = 0; k < n; k++) if (k != victim) { Runner u(cx, &*t[k], 12, 30); for (int i = 1; i < 3; i++) { u.require(u.frame(i), true, what); u.require(u.wait(i), true, what); } }
    }
    before.require(cx, what); cx.state(hash_of(what)); cx.ev("sessions side by side", n);
}
static void p18_multi(Ctx& cx) { // multi-object sessions
    Rng& r = cx.rng; Before before; int mode = r.below(3), n = r.range(1, 4), frames = r.range(0, 2), fail = r.chance(60) ? r.range(0, frames) : -1; std::string kill = r.pick(std::vector<std::string>{"x1", "k9", "O,Z", "g1,z", "Q,x0"}); std::string s = mode == 2 ? "c,m" : "m";
    for (int k = 0; k <= frames; k++) s += fmt(",w%d,", k ? 1 : 0) + (k == fail ? kill : fmt("l%d", n)); s += ",q"; std::string what = "multi-object " + s;
    {
        Tracker t(command(s, mode), std::map<std::string, std::string>(), 30, (trax::ConnectionMode) mode, trax::VERBOSITY_SILENT); Runner u(cx, &t, 12, 30); u.require(u.query(), true, what); REQUIRE(cx, t->multiobject(), "metadata", "%s: not multi-object", what.c_str());
        for (int k = 0; k <= frames; k++) {
            trax::ObjectList o(k ? 0 : n); if (!k) for (int i = 0; i < n; i++) o.set(i, rect()); trax::ObjectList e(0);
            Call c = u.run(k ? "frame" : "initialize", [&] { return k ? t->frame(image(k), e) : t->initialize(image(), o); }); u.require(c, true, what);
            trax::ObjectList got(0); trax::Properties p; Call w = u.run("wait", [&] { return t->wait(got, p); });
            if (k == fail) { u.require(w, false, what); REQUIRE(cx, !t->ready(), "ready-after-failure", "%s", what.c_str()); break; }
            u.require(w, true, what); REQUIRE(cx, got.size() == n, "wrong-reply", "%s: %d objects instead of %d", what.c_str(), got.size(), n); for (int i = 0; i < n; i++) { float x, y, a, b; got.get(i).get(&x, &y, &a, &b); REQUIRE(cx, x == i && y == 1, "wrong-reply", "%s: object %d is wrong", what.c_str(), i); }
        }
    }
    before.require(cx, what); cx.state(hash_of(what)); cx.ev("multi-object sessions");
}
static void p18_leak(Ctx& cx) { // repeated: the heap must not grow
    Rng& r = cx.rng; int mode = r.below(3); std::string end = r.pick(std::vector<std::string>{"q", "x0", "k9", "O,z"}); std::string s = r.chance(30) ? std::string(mode == 2 ? "c," : "") + end : r.chance(50) ? healthy_script(mode, 1, end) : healthy_script(mode, 0, "x0"); Log log; std::ostream os(&log);
    int reset = r.below(2);
    { Tracker t(r.chance(10) ? "\"unbalanced" : r.chance(10) ? std::string("/nonexistent/tracker") : command(s, mode), std::map<std::string, std::string>(), 30, (trax::ConnectionMode) mode, (trax::VerbosityMode) r.below(3), "", (std::ostream*) &os);
      try { t->query(); t->initialize(image(), rect()); trax::Region g; trax::Properties p; t->wait(g, p); t->frame(image(1)); t->wait(g, p); if (reset) { t->reset(); t->initialize(image(), rect()); t->wait(g, p); } } catch (std::runtime_error&) { cx.ev("exceptions"); } }
    cx.state(hash_of(s)); cx.ev("sessions");
}

// ---------------------------------------------------------------- P19: how the program is launched
struct Record { bool there = false; std::vector<std::string> args; std::string cwd; std::vector<std::string> env; };
static Record read_record(const std::string& path) {
    Record r; FILE* f = fopen(path.c_str(), "rb"); if (!f) return r; std::string s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f))) s.append(b, n); fclose(f); ::unlink(path.c_str());
    std::vector<std::string> v; size_t i = 0; while (i < s.size()) { size_t e = s.find('\0', i); v.push_back(s.substr(i, e - i)); i = e + 1; }
    if (v.empty()) return r; size_t argc = atoi(v[0].c_str()); if (v.size() < argc + 2) return r; r.args.assign(v.begin() + 1, v.begin() + 1 + argc); r.cwd = v[1 + argc]; r.env.assign(v.begin() + 2 + argc, v.end()); r.there = true; return r;
}
static std::string gen_argument(Rng& r) {
    static const std::string chars = "abcXYZ019-_=/.,:;|&$*?[](){}<>!#%^~`\\'@+\t\n";
    switch (r.below(8)) { case 0: return r.pick(std::vector<std::string>{"-t", "--opt=1", "a\\b", "it's", "$HOME", "*", "|", ">x", "&&", ";", "~", "%d%s", "\xc3\xa9", "'", "\\"}); case 1: return std::string(r.range(900, 3000), 'a' + r.below(26)); default: { std::string s; for (int n = r.range(1, 20); n > 0; n--) s += chars[r.below(chars.size())]; return s; } }
}
static std::string gen_spaced(Rng& r) { std::string s; for (int n = r.range(0, 5); n > 0; n--) { s += gen_argument(r); if (r.chance(70)) s += std::string(r.range(1, 3), ' '); } return s; }
static void p19_launch(Ctx& cx) {
    Rng& r = cx.rng; Before before; int mode = r.chance(70) ? 0 : r.range(1, 2); std::string path = dir + fmt("/r%d", (int) r.below(1 << 30)); std::string script = std::string("d") + path + (mode == 2 ? ",c" : "") + ",h,q";
    std::vector<std::string> want = {PROBE(), script}; if (mode == 2) want.push_back("-s"); if (mode == 1) want.push_back("-e"); std::string line = std::string(r.range(0, 2), ' '); std::string opts;
    for (int n = r.chance(4) ? r.range(7, 150) : r.range(0, 6); n > 0; n--) { if (r.chance(35)) { std::string s = gen_spaced(r); if (!s.empty() && s.back() == '\'') s += "."; want.push_back(s); } else { std::string s = gen_argument(r); want.push_back(s); } }
    for (size_t k = 0; k < want.size(); k++) { bool q = want[k].find(' ') != std::string::npos || want[k].empty() || (r.chance(20) && want[k].back() != '\''); line += (k ? std::string(r.chance(20) ? r.range(1, 4) : 1, ' ') : "") + (q ? "\"" + want[k] + "\"" : want[k]); }
    if (r.chance(20)) line += std::string(r.range(1, 3), ' ');
    // environment: inherited and given
    std::map<std::string, std::string> expected, given; for (char** e = environ; *e; e++) { const char* q = strchr(*e, '='); if (q) expected[std::string(*e, q - *e)] = q + 1; }
    for (int n = r.chance(4) ? r.range(7, 150) : r.range(0, 6); n > 0; n--) { std::string k = r.chance(20) && !expected.empty() ? std::next(expected.begin(), r.below(expected.size()))->first : r.chance(15) ? r.pick(std::vector<std::string>{"TRAX_IN", "TRAX_OUT", "TRAX_SOCKET", "TRAX", "PATHX"}) : fmt("V%d", r.chance(80) ? r.range(0, 9) : r.range(10, 99)); if (k == "LD_PRELOAD" || k == "PATH" || (mode && k.compare(0, 5, "TRAX_") == 0)) continue; std::string v; for (int m = r.range(0, 40); m > 0; m--) v += (char) (r.chance(10) ? r.range(128, 255) : r.range(1, 126)); given[k] = v; }
    for (auto& e : given) expected[e.first] = e.second;
    char here[4096]; if (!getcwd(here, sizeof here)) here[0] = 0; std::string cwd = here, directory; if (r.chance(40)) { directory = cwd = r.chance(50) ? dir + "/w d" : dir; }
    std::vector<std::string> inherited; bool nested = mode == 1 && r.chance(50); static char n1[] = "TRAX_IN=77", n2[] = "TRAX_OUT=78"; if (nested) { putenv(n1); putenv(n2); }
    std::string what = "command " + show(line, 600);
    { Tracker t(line, given, 20, (trax::ConnectionMode) mode, trax::VERBOSITY_SILENT, directory); Runner u(cx, &t, 15, 20); Call c = u.query(); if (nested) { unsetenv("TRAX_IN"); unsetenv("TRAX_OUT"); } u.require(c, true, what); }
    char after[4096]; REQUIRE(cx, getcwd(after, sizeof after) && !strcmp(here, after), "own-directory", "%s: the directory of the client changed", what.c_str());
    Record got = read_record(path); REQUIRE(cx, got.there, "not-launched", "%s: the program did not run", what.c_str());
    REQUIRE(cx, got.args == want, "arguments", "%s: %zu arguments instead of %zu%s", what.c_str(), got.args.size(), want.size(), [&] { std::string s; for (size_t k = 0; k < std::max(want.size(), got.args.size()); k++) { std::string a = k < want.size() ? want[k] : "-none-", b = k < got.args.size() ? got.args[k] : "-none-"; if (a != b) { s = fmt(", number %zu is %s instead of %s", k, show(b, 100).c_str(), show(a, 100).c_str()); break; } } return s; }().c_str());
    REQUIRE(cx, got.cwd == cwd, "directory", "%s: started in %s instead of %s", what.c_str(), got.cwd.c_str(), cwd.c_str());
    std::map<std::string, std::string> seen; for (auto& e : got.env) { size_t q = e.find('='); std::string k = e.substr(0, q); REQUIRE(cx, q != std::string::npos && !seen.count(k), "environment", "%s: %s is given twice", what.c_str(), k.c_str()); seen[k] = e.substr(q + 1); }
    if (mode == 1) { for (auto k : {"TRAX_IN", "TRAX_OUT"}) { REQUIRE(cx, seen.count(k) && atoi(seen[k].c_str()) > 2 && (!nested || (seen[k] != "77" && seen[k] != "78")), "environment", "%s: %s is %s", what.c_str(), k, seen.count(k) ? seen[k].c_str() : "missing"); seen.erase(k); expected.erase(k); } }
    if (mode == 2) { REQUIRE(cx, seen.count("TRAX_SOCKET") && atoi(seen["TRAX_SOCKET"].c_str()) > 1023, "environment", "%s: TRAX_SOCKET is missing", what.c_str()); seen.erase("TRAX_SOCKET"); expected.erase("TRAX_SOCKET"); }
    for (auto& e : expected) REQUIRE(cx, seen.count(e.first) && seen[e.first] == e.second, "environment", "%s: variable %s is %s instead of %s", what.c_str(), e.first.c_str(), seen.count(e.first) ? show(seen[e.first], 100).c_str() : "missing", show(e.second, 100).c_str());
    for (auto& e : seen) REQUIRE(cx, expected.count(e.first), "environment", "%s: additional variable %s", what.c_str(), e.first.c_str());
    before.require(cx, what); cx.ev("launches"); cx.ev("arguments", want.size()); cx.ev("variables", given.size()); cx.state(hash_of(line, expected.size() + mode)); cx.sample(show(line.substr(line.find("\"") == std::string::npos ? 0 : 0), 200));
}
// Trackers that are launched at once from several threads
static void p19_parallel(Ctx& cx) {
    Rng& r = cx.rng; Before before; int n = r.range(2, 5); struct One { int mode; std::string record, pipes, line, directory; std::vector<std::string> want; std::map<std::string, std::string> given; bool ok = false; std::string error; std::unique_ptr<Tracker> t; }; std::vector<One> v(n); std::string what = "at once:";
    char here[4096]; if (!getcwd(here, sizeof here)) here[0] = 0; std::string inherited; { DIR* d = opendir("/proc/self/fd"); while (dirent* e = readdir(d)) { char l[256]; ssize_t m = readlink((std::string("/proc/self/fd/") + e->d_name).c_str(), l, sizeof l - 1); if (m > 0) inherited += std::string(l, m) + " "; } closedir(d); }
    for (int k = 0; k < n; k++) { One& o = v[k]; o.mode = r.below(3); o.record = dir + fmt("/q%d.%d", (int) r.below(1 << 30), k); o.pipes = o.record + "p"; std::string script = "d" + o.record + ",P" + o.pipes + (o.mode == 2 ? ",c" : "") + ",h,w0,r0,q";
        o.want = {PROBE(), script}; if (o.mode) o.want.push_back(o.mode == 1 ? "-e" : "-s"); for (int m = r.range(0, 3); m > 0; m--) { std::string a; for (int i = r.range(1, 30); i > 0; i--) a += (char) ('a' + r.below(26)); o.want.push_back(a); } for (auto& a : o.want) o.line += (o.line.empty() ? "" : " ") + quoted(a);
        int where = r.below(4); o.directory = where == 0 ? "" : where == 1 ? dir : where == 2 ? dir + "/w d" : "/"; for (int m = r.range(0, 4); m > 0; m--) o.given[fmt("V%d", r.range(0, 9))] = fmt("%d of %d", m, k); what += fmt(" %s in %s", MODES[o.mode], o.directory.empty() ? "the same directory" : o.directory.c_str()); }
    {
        for (auto& o : v) o.t.reset(new Tracker(o.line, o.given, 20, (trax::ConnectionMode) o.mode, trax::VERBOSITY_SILENT, o.directory));
        std::atomic<int> ready{0}; std::vector<std::thread> ts; std::vector<int> delay(n); for (auto& d : delay) d = r.chance(50) ? 0 : r.below(400);
        for (int k = 0; k < n; k++) ts.emplace_back([&, k] { One& o = v[k]; ready++; while (ready < n) sched_yield(); if (delay[k]) ::usleep(delay[k]); try { o.ok = (*o.t)->query(); if (o.ok) { o.ok = (*o.t)->initialize(image(), rect()); trax::Region g; trax::Properties p; if (o.ok) o.ok = (*o.t)->wait(g, p) && is_reply(g, 0); } } catch (std::runtime_error& e) { o.error = e.what(); } });
        for (auto& t : ts) t.join();
        for (auto& o : v) o.t.reset();
    }
    char after[4096]; REQUIRE(cx, getcwd(after, sizeof after) && !strcmp(here, after), "own-directory", "%s: the directory of the client is %s", what.c_str(), after);
    std::map<std::string, int> owner;
    for (int k = 0; k < n; k++) { One& o = v[k]; REQUIRE(cx, o.ok, "not-launched", "%s: tracker %d fails: %s", what.c_str(), k, o.error.c_str()); Record got = read_record(o.record); REQUIRE(cx, got.there && got.args == o.want, "arguments", "%s: wrong arguments of tracker %d", what.c_str(), k);
        REQUIRE(cx, got.cwd == (o.directory.empty() ? here : o.directory), "directory", "%s: tracker %d was started in %s", what.c_str(), k, got.cwd.c_str());
        std::map<std::string, std::string> expected = o.given; for (auto& e : got.env) { size_t q = e.find('='); std::string name = e.substr(0, q); auto i = expected.find(name); if (i != expected.end()) { REQUIRE(cx, e.substr(q + 1) == i->second, "environment", "%s: tracker %d has %s", what.c_str(), k, e.c_str()); expected.erase(i); } else REQUIRE(cx, name.size() != 2 || name[0] != 'V', "environment", "%s: tracker %d has %s", what.c_str(), k, e.c_str()); }
        REQUIRE(cx, expected.empty(), "environment", "%s: tracker %d does not have %s", what.c_str(), k, expected.empty() ? "" : expected.begin()->first.c_str());
        std::ifstream f(o.pipes); std::string fd, name; int pipes = 0; while (f >> fd >> name) { if (inherited.find(name) != std::string::npos) continue; pipes++; auto i = owner.find(name); REQUIRE(cx, i == owner.end() || i->second == k, "streams", "%s: tracker %d has a stream (%s) of tracker %d", what.c_str(), k, fd.c_str(), i == owner.end() ? -1 : i->second); owner[name] = k; } f.close(); ::unlink(o.pipes.c_str()); REQUIRE(cx, pipes >= 3, "not-launched", "%s: tracker %d recorded %d streams", what.c_str(), k, pipes); }
    before.require(cx, what); cx.ev("launches at once", n); cx.state(hash_of(what));
}
static void p19_refused(Ctx& cx) { // what can not be started
    Rng& r = cx.rng; Before before; std::string line, what; int mode = r.below(3);
    switch (r.below(6)) {
    case 0: line = std::string(r.range(0, 3), ' '); what = "empty"; break;
    case 1: line = command("h,q", 0) + " \"" + gen_argument(r); what = "unbalanced"; if (line.back() == '"') line += "x"; break;
    case 2: line = "\"" + std::string(PROBE()); what = "unbalanced program"; break;
    case 3: line = dir + "/missing" + fmt("%d", r.range(0, 99)) + " a b"; what = "missing program"; break;
    case 4: line = "vh-no-such-program-" + fmt("%d", r.range(0, 99)); what = "not in the path"; break;
    case 5: line = dir; what = "directory as a program"; break;
    }
    { Tracker t(line, std::map<std::string, std::string>(), 20, (trax::ConnectionMode) mode, trax::VERBOSITY_SILENT); Runner u(cx, &t, 15, 20);
      for (int k = r.range(1, 3); k > 0; k--) { Call c = r.chance(70) ? u.query() : u.initialize(); REQUIRE(cx, c.threw, "start-not-refused", "%s: %s %s", what.c_str(), c.name.c_str(), c.ok ? "succeeded" : "failed silently"); std::string ch = children(); REQUIRE(cx, ch.empty(), "child-left", "%s: processes are left: %s", what.c_str(), ch.c_str()); }
      REQUIRE(cx, !t->ready() && !t->tracking(), "ready-after-failure", "%s", what.c_str()); }
    before.require(cx, what); cx.ev("refused commands"); cx.state(hash_of(line + fmt("%d", mode)));
}

// ---------------------------------------------------------------- P20: schedules (ThreadSanitizer watches, time is compressed)
static std::atomic<int> watch{0}; static bool watch_callback() { int v = watch.load(); if (v <= 0) return false; return watch.fetch_sub(1) == 1; }
static void one_schedule(Rng& r, Ctx* cx, uint64_t* trace) {
    int mode = r.below(3), frames = r.range(0, 3); static const std::vector<std::string> ends = {"q", "z", "Z", "x0", "k9", "O,z", "I,z", "E", "F", "b", "Q,z", "t,x0", "g1,z", "u300,k9", "u900,x0"};
    std::string a = healthy_script(mode, frames, r.pick(ends)), b = healthy_script(mode, r.range(0, 3), r.pick(ends)); if (r.chance(30)) { size_t p = a.find(r.pick(std::vector<std::string>{"h,", "w0", "r0", "w1", "r1"})); if (p != std::string::npos) a = a.substr(0, p) + (r.chance(50) ? fmt("u%d,", r.range(1, 3000)) : "") + r.pick(ends); }
    if (r.chance(30)) { a = "e" + fmt("%d", r.range(1, 3000)) + "x60," + a; }
    std::string counter = dir + fmt("/s%d.%d", (int) r.below(1 << 30), (int) (size_t) pthread_self() & 0xffff); Log log; std::ostream os(&log); uint64_t h = 7;
    {
        Tracker t(command(a + "/" + b, mode, counter), std::map<std::string, std::string>(), r.pick(std::vector<int>{1, 2, 30}), (trax::ConnectionMode) mode, (trax::VerbosityMode) r.below(3), "", (std::ostream*) &os);
        if (r.chance(40)) { t->register_watchdog(watch_callback); if (r.chance(50)) watch.store(r.range(1, 8)); }
        for (int n = r.range(0, 10); n > 0; n--) { int op = r.below(12); bool ok = false; h = mix(h, op);
            try { trax::Region g; trax::Properties p; switch (op) { case 0: ok = t->query(); break; case 1: case 2: ok = t->initialize(image(), rect()); break; case 3: case 4: case 5: ok = t->wait(g, p); break; case 6: case 7: ok = t->frame(image(n)); break; case 8: if (r.chance(40)) ok = t->reset(); break; case 9: ok = t->ready(); t->tracking(); t->multiobject(); break; case 10: t->register_watchdog(watch_callback); watch.store(r.range(0, 5)); break; case 11: ::usleep(r.below(3000)); break; } } catch (std::runtime_error&) { ok = false; h = mix(h, 99); }
            h = mix(h, ok); }
        watch.store(0);
    }
    ::unlink(counter.c_str()); h = mix(h, hash_of(a + b)); *trace = h; (void) cx;
}
static void p20_schedule(Ctx& cx) {
    Rng& r = cx.rng; Before before; delays.active = 1; delays.sleep_percent = r.pick(std::vector<int>{2, 5, 15}); unsigned long p0 = delays.points; uint64_t t = 0; one_schedule(r, &cx, &t); delays.active = 0; before.require(cx, "schedule"); cx.ev("delay points", delays.points - p0); cx.ev("sessions"); cx.state(t); cx.sample(fmt("one session, %lu delay points, calls and outcomes %016lx", delays.points - p0, (unsigned long) t));
}
static void p20_parallel(Ctx& cx) { // sessions in threads
    Rng& r = cx.rng; Before before; int n = r.range(2, 4); delays.active = 1; delays.sleep_percent = r.pick(std::vector<int>{2, 5, 15}); std::vector<uint64_t> seeds(n), traces(n); for (auto& s : seeds) s = r.next(); unsigned long p0 = delays.points;
    { std::vector<std::thread> v; for (int k = 0; k < n; k++) v.emplace_back([&, k] { Rng q(seeds[k]); q.next(); one_schedule(q, NULL, &traces[k]); }); for (auto& x : v) x.join(); }
    delays.active = 0; before.require(cx, "parallel schedules"); cx.ev("delay points", delays.points - p0); cx.ev("sessions", n); for (auto x : traces) cx.state(x);
}

// ---------------------------------------------------------------- P27: output of the program
static void require_lines(Ctx& cx, const std::string& log, char tag, unsigned count, unsigned total, const std::vector<int>& maxlen, const std::string& what) {
    size_t pos = 0; char b[70000];
    for (unsigned k = 0; k < count; k++) {
        probe_line(b, tag, k, maxlen[k]); std::string line = b; bool cut = line.size() > 250; if (cut) line.resize(200); else line += "\n";
        size_t p = log.compare(pos, line.size(), line) == 0 ? pos : log.find(line, pos);
        if (p == std::string::npos) { bool before = log.find(line) != std::string::npos; REQUIRE(cx, false, before ? "log-order" : "log-lost", "%s: line %u of %u of stream %c %s (log has %zu bytes, continues with %s)", what.c_str(), k, count, tag, before ? "is out of order" : "is missing or damaged", log.size(), show(log.substr(pos, 200), 200).c_str()); }
        pos = p + line.size();
    }
    unsigned n = 0; for (size_t p = log.find(tag); p != std::string::npos; p = log.find(tag, p + 1)) { if (p + 8 < log.size() && log[p + 8] == ':' && (p == 0 || log[p - 1] == '\n')) { bool d = true; for (int k = 1; k < 8; k++) d &= log[p + k] >= '0' && log[p + k] <= '9'; n += d; } }
    REQUIRE(cx, n <= total, "log-twice", "%s: stream %c has %u lines in the log, %u were written", what.c_str(), tag, n, count); cx.eval(count); cx.ev(tag == 'E' ? "error lines" : "output lines", count); cx.ev("bytes compared", pos);
}
static void p27_output(Ctx& cx) {
    Rng& r = cx.rng; Before before; int mode = r.below(3), frames = r.range(0, 3); std::string s; unsigned counts[2] = {0, 0}, sure = 0 /* read for certain if it is the channel of the protocol */; std::vector<int> lens[2]; bool huge = r.chance(cx.thorough ? 15 : 8);
    bool unread = false; /* the channel of the protocol is not read any more */ auto noise = [&]() { for (int n = r.chance(60) ? r.range(1, 3) : 0; n > 0; n--) { bool e = r.chance(60); if (!e && (mode == 1 || (mode == 0 && unread))) continue; int count = huge ? r.range(2000, 30000) : r.chance(20) ? r.range(300, 3000) : r.range(1, 40), len = r.pick(std::vector<int>{0, 20, 60, 60, 200, 400, 900}); if (huge) len = r.range(20, 120); s += fmt("%c%dx%d,", e ? 'e' : 'o', count, len); counts[!e] += count; for (int k = 0; k < count; k++) lens[!e].push_back(len); } if (r.chance(20)) s += fmt("u%d,", r.range(1, 30000)); };
    noise(); if (mode == 2) { s += "c,"; noise(); } s += "h,"; noise();
    for (int k = 0; k <= frames; k++) { s += k ? "w1," : "w0,"; noise(); s += fmt("r%d,", k); unread = k == frames; noise(); }
    int end = r.below(5); s += end == 0 ? "q" : end == 1 ? "w1,x0" : end == 2 ? "w1," : end == 3 ? "w1,x5" : "w1,"; if (end == 2) { noise(); s += "k9"; } if (end == 4) { noise(); s += "R,x1"; }
    trax::VerbosityMode verbosity = r.chance(12) ? trax::VERBOSITY_SILENT : r.chance(20) ? trax::VERBOSITY_DEBUG : trax::VERBOSITY_DEFAULT; bool again = r.chance(15); Log log; std::ostream os(&log); if (counts[0] + counts[1] < 1200 && r.chance(25)) log.delay = 150000 / (20 + counts[0] + counts[1]) /* the reader of the log takes its time */; std::string what = fmt("%s %s%s", MODES[mode], s.c_str(), log.delay ? ", slow log" : ""); cx.log("%s", what.c_str());
    std::string counter; if (again) { counter = dir + fmt("/o%d", (int) r.below(1 << 30)); }
    {
        Tracker t(command(again ? s + "/" + healthy_script(mode, 0) : s, mode, counter), std::map<std::string, std::string>(), 40, (trax::ConnectionMode) mode, verbosity, "", (std::ostream*) &os); Runner u(cx, &t, 45, 40);
        u.require(u.query(), true, what); u.healthy(frames, what); if (end && r.chance(70)) { Call f = u.frame(frames + 1); if (f.ok) u.require(u.wait(0), false, what); } else if (end) { /* the end of the stream ends it */ s += " (not asked)"; }
        bool asked = s.find("(not asked)") == std::string::npos; if (end && !asked) { // what comes after the last reply is not written
            return; }
        if (again) { Call c = u.run("reset", [&] { return t->reset(); }); u.require(c, true, what); u.healthy(0, what); }
    }
    std::string text = log.str(); before.require(cx, what);
    if (verbosity == trax::VERBOSITY_SILENT) { REQUIRE(cx, text.empty(), "log-silent", "%s: something is written in spite of silence: %s", what.c_str(), show(text, 100).c_str()); }
    else { require_lines(cx, text, 'E', counts[0], counts[0], lens[0], what); if (mode != 1) require_lines(cx, text, 'O', mode == 0 ? sure : counts[1], counts[1], lens[1], what); }
    cx.ev("sessions"); cx.state(hash_of(what));
}

vh::Harness vh::make_harness(const std::string& mode) {
    Harness h; h.init = init;
    if (mode == "P18") h.scenarios = {{"failure", 12, p18_failure, false}, {"destroy", 4, p18_destroy, false}, {"slow", 1, p18_slow, false}, {"crowded", 1, p18_crowded, false}, {"several", 3, p18_several, false}, {"multi", 2, p18_multi, false}};
    if (mode == "P18m") h.scenarios = {{"leak", 1, p18_leak, true}};
    if (mode == "P19") h.scenarios = {{"launch", 5, p19_launch, false}, {"refused", 1, p19_refused, false}, {"parallel", 1, p19_parallel, false}};
    if (mode == "P20") h.scenarios = {{"schedule", 3, p20_schedule, false}, {"parallel", 1, p20_parallel, false}};
    if (mode == "P27") h.scenarios = {{"output", 1, p27_output, false}};
    return h;
}
