// Stand-ins for the system calls of the library (linked with --wrap): short transfers, interruptions and failures.
#pragma once
#include "vh.h"
#include <sys/types.h>
#include <sys/socket.h>
#include <poll.h>
#include <sys/uio.h>

extern "C" {
ssize_t __real_read(int, void*, size_t); ssize_t __real_write(int, const void*, size_t);
ssize_t __real_recv(int, void*, size_t, int); ssize_t __real_send(int, const void*, size_t, int);
ssize_t __real_recvfrom(int, void*, size_t, int, struct sockaddr*, socklen_t*); ssize_t __real_sendto(int, const void*, size_t, int, const struct sockaddr*, socklen_t);
}

namespace io {
struct Plan { // for the descriptors of one thread
    bool active = false; uint64_t rng = 1;
    int short_percent = 0, max_chunk = 4096, eintr_percent = 0;
    long fail_after_in = -1, fail_after_out = -1; int fail_errno = 0; bool eof = false; bool once = false; bool dry_eof = false; /* a stream without data has ended */ // fail once that many bytes were transferred
    std::set<int> fds; // affected descriptors, all if empty
    long in = 0, out = 0, eintrs = 0, shorts = 0, fails = 0;
    uint64_t rnd(uint64_t n) { rng = rng * 6364136223846793005ull + 1442695040888963407ull; return n ? (rng >> 33) % n : 0; }
    bool applies(int fd) { return active && (fds.empty() || fds.count(fd)); }
    void reset() { *this = Plan(); }
};
inline Plan& plan() { static thread_local Plan p; return p; }

inline ssize_t input(int fd, size_t n, std::function<ssize_t(size_t)> real) {
    Plan& p = plan(); if (!p.applies(fd)) return real(n);
    if (p.dry_eof) { struct pollfd f = {fd, POLLIN, 0}; if (poll(&f, 1, 0) == 0) return 0; }
    if (p.eintr_percent && (int) p.rnd(100) < p.eintr_percent) { p.eintrs++; errno = EINTR; return -1; }
    if (p.fail_after_in >= 0) { if (p.in >= p.fail_after_in) { p.fails++; if (p.once) p.fail_after_in = -1; if (p.eof) return 0; errno = p.fail_errno; return -1; } n = std::min(n, (size_t) (p.fail_after_in - p.in)); }
    if (p.short_percent && (int) p.rnd(100) < p.short_percent) { size_t m = 1 + p.rnd(p.max_chunk); if (m < n) { n = m; p.shorts++; } }
    ssize_t r = real(n); if (r > 0) p.in += r; return r;
}
inline ssize_t output(int fd, size_t n, std::function<ssize_t(size_t)> real) {
    Plan& p = plan(); if (!p.applies(fd)) return real(n);
    if (p.eintr_percent && (int) p.rnd(100) < p.eintr_percent) { p.eintrs++; errno = EINTR; return -1; }
    if (p.fail_after_out >= 0) { if (p.out >= p.fail_after_out) { p.fails++; if (p.once) p.fail_after_out = -1; errno = p.fail_errno; return -1; } n = std::min(n, (size_t) (p.fail_after_out - p.out)); }
    if (p.short_percent && (int) p.rnd(100) < p.short_percent) { size_t m = 1 + p.rnd(p.max_chunk); if (m < n) { n = m; p.shorts++; } }
    ssize_t r = real(n); if (r > 0) p.out += r; return r;
}
struct Scope { Scope() { plan().reset(); } ~Scope() { plan().reset(); } Plan* operator->() { return &plan(); } };
}
extern "C" {
ssize_t __wrap_read(int fd, void* b, size_t n) { return io::input(fd, n, [=](size_t m) { return __real_read(fd, b, m); }); }
ssize_t __wrap_recv(int fd, void* b, size_t n, int f) { return io::input(fd, n, [=](size_t m) { return __real_recv(fd, b, m, f); }); }
ssize_t __wrap_write(int fd, const void* b, size_t n) { return io::output(fd, n, [=](size_t m) { return __real_write(fd, b, m); }); }
ssize_t __wrap_send(int fd, const void* b, size_t n, int f) { return io::output(fd, n, [=](size_t m) { return __real_send(fd, b, m, f); }); }
ssize_t __wrap_recvfrom(int fd, void* b, size_t n, int f, struct sockaddr* a, socklen_t* l) { return io::input(fd, n, [=](size_t m) { return __real_recvfrom(fd, b, m, f, a, l); }); }
ssize_t __wrap_sendto(int fd, const void* b, size_t n, int f, const struct sockaddr* a, socklen_t l) { return io::output(fd, n, [=](size_t m) { return __real_sendto(fd, b, m, f, a, l); }); }
// vectors are transferred as one piece
ssize_t __wrap_writev(int fd, const struct iovec* v, int c) { std::string s; for (int i = 0; i < c; i++) s.append((const char*) v[i].iov_base, v[i].iov_len); return io::output(fd, s.size(), [&](size_t m) { return __real_write(fd, s.data(), m); }); }
ssize_t __wrap_sendmsg(int fd, const struct msghdr* h, int f) { std::string s; for (size_t i = 0; i < h->msg_iovlen; i++) s.append((const char*) h->msg_iov[i].iov_base, h->msg_iov[i].iov_len); return io::output(fd, s.size(), [&](size_t m) { return __real_send(fd, s.data(), m, f); }); }
static ssize_t vh_scatter(const std::string& s, ssize_t r, const struct iovec* v, size_t c) { size_t at = 0; for (size_t i = 0; i < c && r > 0 && at < (size_t) r; i++) { size_t k = std::min(v[i].iov_len, (size_t) r - at); memcpy(v[i].iov_base, s.data() + at, k); at += k; } return r; }
ssize_t __wrap_readv(int fd, const struct iovec* v, int c) { size_t n = 0; for (int i = 0; i < c; i++) n += v[i].iov_len; std::string s(n, 0); ssize_t r = io::input(fd, n, [&](size_t m) { return __real_read(fd, &s[0], m); }); return vh_scatter(s, r, v, c); }
ssize_t __wrap_recvmsg(int fd, struct msghdr* h, int f) { size_t n = 0; for (size_t i = 0; i < h->msg_iovlen; i++) n += h->msg_iov[i].iov_len; std::string s(n, 0); ssize_t r = io::input(fd, n, [&](size_t m) { return __real_recv(fd, &s[0], m, f); }); return vh_scatter(s, r, h->msg_iov, h->msg_iovlen); }
}
