// Common runtime of all harnesses: seeded cases, coverage counters, failure records, leak monitor.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <climits>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <stdexcept>
#include <algorithm>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <errno.h>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/resource.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VH_ASAN 1
#include <sanitizer/allocator_interface.h>
#endif
#endif

namespace vh {

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 0) : s(seed) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int a, int b) { return a + (int) below((uint64_t) b - a + 1); } // inclusive
    bool chance(int percent) { return (int) below(100) < percent; }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    template<class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }
inline uint64_t hash_of(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
    const unsigned char* c = (const unsigned char*) p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
    return h;
}
inline uint64_t hash_of(const std::string& s, uint64_t h = 1469598103934665603ull) { return hash_of(s.data(), s.size(), h); }

struct Fail : std::exception { std::string key, msg; Fail(std::string k, std::string m) : key(k), msg(m) {} const char* what() const noexcept override { return msg.c_str(); } };

inline std::string fmt(const char* f, ...) {
    char buf[4096]; va_list a; va_start(a, f); vsnprintf(buf, sizeof buf, f, a); va_end(a); return buf;
}
inline std::string show(const std::string& s, size_t max = 300) {
    std::string r; for (size_t i = 0; i < s.size() && i < max; i++) { unsigned char c = s[i];
        if (c == '\n') r += "\\n"; else if (c == '\\') r += "\\\\"; else if (c >= 32 && c < 127) r += c; else r += fmt("\\x%02x", c); }
    if (s.size() > max) r += fmt("...(%zu)", s.size());
    return r;
}
inline std::string json(const std::string& s) {
    std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) r += fmt("\\u%04x", c); else r += c; } return r + "\"";
}

struct Stats {
    std::map<std::string, uint64_t> counters;
    std::unordered_set<uint64_t> states, cases;
    std::vector<std::string> samples;
    uint64_t evaluations = 0;
};
inline Stats& stats() { static Stats s; return s; }

struct Ctx {
    Rng rng; uint64_t seed, index, signature = 0; bool verbose = false; bool thorough = false;
    Ctx(uint64_t seed, uint64_t index) : rng(0), seed(seed), index(index) { rng.s = mix(mix(0x7261785f766572ull, seed), index); rng.next(); }
    // n events of this kind were observed
    void ev(const char* name, uint64_t n = 1) { stats().counters[name] += n; }
    // the oracle was evaluated once
    void eval(uint64_t n = 1) { stats().evaluations += n; }
    // a distinct nontrivial state, input class or interleaving
    void state(uint64_t h) { signature = mix(signature ? signature : 1, h); if (stats().states.size() < 400000) stats().states.insert(h); }
    void sample(const std::string& s) { auto& v = stats().samples; if (v.size() < 6 && std::find(v.begin(), v.end(), s) == v.end()) v.push_back(s); }
    void log(const char* f, ...) { if (!verbose) return; va_list a; va_start(a, f); vfprintf(stderr, f, a); va_end(a); fputc('\n', stderr); }
    [[noreturn]] void fail(const std::string& key, const std::string& msg) { throw Fail(key, msg); }
};

#define REQUIRE(cx, cond, key, ...) do { (cx).eval(); if (!(cond)) (cx).fail(key, vh::fmt(__VA_ARGS__)); } while (0)

inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// So many descriptors that those which are opened next have large values (beyond the limit of select)
struct Crowd { std::vector<int> v; bool there = false;
    explicit Crowd(bool on) { if (!on) return; struct rlimit l; if (getrlimit(RLIMIT_NOFILE, &l) || l.rlim_max < 1200) return; if (l.rlim_cur < 1200) { l.rlim_cur = l.rlim_max < 4096 ? l.rlim_max : 4096; if (setrlimit(RLIMIT_NOFILE, &l)) return; } int f = ::open("/dev/null", O_RDONLY | O_CLOEXEC); while (f >= 0 && f < 1030) { v.push_back(f); f = fcntl(f, F_DUPFD_CLOEXEC, 0); } if (f >= 0) { v.push_back(f); there = true; } }
    ~Crowd() { for (int f : v) ::close(f); } };
inline int open_fds() {
    int n = 0; DIR* d = opendir("/proc/self/fd"); if (!d) return -1;
    while (readdir(d)) n++;
    closedir(d); return n;
}
inline size_t live_bytes() {
#ifdef VH_ASAN
    return __sanitizer_get_current_allocated_bytes();
#else
    return 0;
#endif
}

struct Scenario {
    const char* name; int weight; std::function<void(Ctx&)> run;
    bool leaks; // the case must give back all memory and descriptors
};

struct Harness {
    std::vector<Scenario> scenarios;
    std::function<void()> init;
};
Harness make_harness(const std::string& mode); // defined by each harness

struct Progress { volatile uint64_t current, done; };

inline const Scenario& select(const Harness& h, uint64_t index) {
    int total = 0; for (auto& s : h.scenarios) total += s.weight;
    int r = (int) (index % total);
    for (auto& s : h.scenarios) { if (r < s.weight) return s; r -= s.weight; }
    return h.scenarios.back();
}

#ifndef VH_FUZZER
inline int main_loop(int argc, char** argv) {
    std::string mode, out, progress; uint64_t seed = 1, from = 0, to = 100, step = 1; long long only = -1; double limit = 1e9; bool thorough = false;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto val = [&]() { return std::string(argv[++i]); };
        if (a == "--mode") mode = val(); else if (a == "--seed") seed = strtoull(val().c_str(), 0, 10);
        else if (a == "--from") from = strtoull(val().c_str(), 0, 10); else if (a == "--to") to = strtoull(val().c_str(), 0, 10);
        else if (a == "--step") step = strtoull(val().c_str(), 0, 10); else if (a == "--case") only = atoll(val().c_str());
        else if (a == "--out") out = val(); else if (a == "--progress") progress = val(); else if (a == "--limit") limit = atof(val().c_str());
        else if (a == "--thorough") thorough = true;
        else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
    }
    Harness h = make_harness(mode);
    if (h.scenarios.empty()) { fprintf(stderr, "unknown mode %s\n", mode.c_str()); return 2; }
    if (h.init) h.init();
    Progress dummy{}; Progress* prog = &dummy;
    if (!progress.empty()) {
        int fd = open(progress.c_str(), O_RDWR | O_CREAT | O_CLOEXEC, 0600); if (fd < 0 || ftruncate(fd, sizeof(Progress))) { perror("progress"); return 2; }
        prog = (Progress*) mmap(0, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close(fd);
    }
    FILE* o = out.empty() ? stdout : fopen(out.c_str(), "a"); if (!o) { perror("out"); return 2; }
    fcntl(fileno(o), F_SETFD, FD_CLOEXEC);
    if (only >= 0) { from = only; to = only + 1; step = 1; }
    double start = now(); int failures = 0; uint64_t cases = 0; std::set<std::string> warmed; std::map<std::string, uint64_t> per;
    for (uint64_t i = from; i < to; i += step) {
        if (now() - start > limit) break;
        const Scenario& s = select(h, i);
        prog->current = i;
        std::string fkey, fmsg;
        auto once = [&]() {
            Ctx cx(seed, i); cx.verbose = only >= 0; cx.thorough = thorough;
            try { s.run(cx); } catch (Fail& f) { fkey = f.key; fmsg = f.msg; }
            if (cx.signature) stats().cases.insert(cx.signature);
        };
        if (!warmed.count(s.name) && s.leaks) { warmed.insert(s.name); once(); once(); }
        if (fkey.empty()) {
            size_t b0 = live_bytes(); int f0 = s.leaks ? open_fds() : 0;
            once();
            if (s.leaks && fkey.empty()) {
                stats().evaluations++;
                long grow[3]; int fgrow[3]; bool mem = live_bytes() > b0, fds = open_fds() > f0;
                for (int k = 0; k < 3 && (mem || fds) && fkey.empty(); k++) {
                    b0 = live_bytes(); f0 = open_fds();
                    once();
                    grow[k] = (long) live_bytes() - (long) b0; fgrow[k] = open_fds() - f0;
                    if (grow[k] <= 0) mem = false;
                    if (fgrow[k] <= 0) fds = false;
                }
                if (fkey.empty() && mem) { fkey = std::string("leak-memory:") + s.name; fmsg = fmt("each run of the case leaks %ld bytes", grow[2]); }
                else if (fkey.empty() && fds) { fkey = std::string("leak-fd:") + s.name; fmsg = fmt("each run of the case leaks %d descriptors", fgrow[2]); }
            }
        }
        cases++; per[s.name]++;
        prog->done = cases;
        if (!fkey.empty()) {
            fprintf(o, "{\"fail\":1,\"case\":%llu,\"scenario\":%s,\"key\":%s,\"msg\":%s}\n", (unsigned long long) i, json(s.name).c_str(), json(fkey).c_str(), json(fmsg).c_str());
            fflush(o);
            if (only >= 0) fprintf(stderr, "FAIL %s: %s\n", fkey.c_str(), fmsg.c_str());
            if (++failures >= 10) break;
        }
    }
    fprintf(o, "{\"summary\":1,\"cases\":%llu,\"evaluations\":%llu,\"wall\":%.3f,\"scenarios\":{", (unsigned long long) cases, (unsigned long long) stats().evaluations, now() - start);
    bool first = true; for (auto& p : per) { fprintf(o, "%s%s:%llu", first ? "" : ",", json(p.first).c_str(), (unsigned long long) p.second); first = false; }
    fprintf(o, "},\"counters\":{"); first = true;
    for (auto& p : stats().counters) { fprintf(o, "%s%s:%llu", first ? "" : ",", json(p.first).c_str(), (unsigned long long) p.second); first = false; }
    fprintf(o, "},\"samples\":["); first = true;
    for (auto& p : stats().samples) { fprintf(o, "%s%s", first ? "" : ",", json(p).c_str()); first = false; }
    fprintf(o, "],\"states\":%zu}\n", stats().states.size());
    fclose(o);
    if (!out.empty()) { // distinct states, merged by the driver
        FILE* b = fopen((out + ".states").c_str(), "ab"); if (b) { for (uint64_t v : stats().states) fwrite(&v, 8, 1, b); fclose(b); }
        b = fopen((out + ".cases").c_str(), "ab"); if (b) { for (uint64_t v : stats().cases) fwrite(&v, 8, 1, b); fclose(b); }
    }
    return failures ? 3 : 0;
}
#endif

}

#if !defined(VH_NO_MAIN) && !defined(VH_FUZZER)
int main(int argc, char** argv) { return vh::main_loop(argc, argv); }
#endif
