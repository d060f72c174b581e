// A tracker program under full control of the monitors: plays a script of elementary actions.
//   probe SCRIPT[/SCRIPT...] [-s|-e] [-n COUNTERFILE] [-l RECEIVED] [-H HELLO] [-y REPLIES] [-D RECORD] [anything]
// The counter file selects which script is played by the n-th instance (the last one is repeated).
// Actions (separated by commas): see play().
#define _GNU_SOURCE
#include "probe.h"
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <signal.h>
#include <sys/types.h>
#include <sys/file.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>

extern char** environ;
static int in = 0, out = 1, is_socket = 0, argc_; static char** argv_;
static unsigned seed = 1, serial_e = 0, serial_o = 0;

static void put_all(int fd, const char* b, size_t n) {
    while (n) { ssize_t l = write(fd, b, n); if (l < 0) { if (errno == EINTR) continue; return; } b += l; n -= l; }
}
static void say(const char* s) { put_all(out, s, strlen(s)); }

static FILE* received = NULL; static const char *hello_file = NULL, *reply_file = NULL;
static char line[1 << 20], input[1 << 16]; static ssize_t input_at = 0, input_n = 0;
static int read_line(void) { // 0: end of stream
    size_t n = 0;
    for (;;) {
        char c;
        if (input_at == input_n) { ssize_t l = read(in, input, sizeof input); if (l < 0 && errno == EINTR) continue; if (l <= 0) return 0; input_n = l; input_at = 0; }
        c = input[input_at++];
        if (c == '\n') break;
        if (n < sizeof line - 1) line[n++] = c;
    }
    line[n] = 0; if (received) { fprintf(received, "%s\n", line); fflush(received); } return 1;
}
static int wait_for(const char* type) { // 1 it came, 0 end of stream, 2 quit
    char want[64]; snprintf(want, sizeof want, "@@TRAX:%s", type);
    while (read_line()) {
        if (!strncmp(line, want, strlen(want))) return 1;
        if (!strncmp(line, "@@TRAX:quit", 11)) return 2;
    }
    return 0;
}
static void text(int fd, char tag, unsigned* serial, int count, int maxlen, int delays) {
    char* b = malloc((size_t) count * (maxlen + 16) + 16); size_t n = 0, i = 0; int k;
    for (k = 0; k < count; k++) { n += probe_line(b + n, tag, (*serial)++, maxlen); b[n++] = '\n'; }
    while (i < n) {
        size_t l = 1 + probe_random(&seed) % (probe_random(&seed) % 3 ? 4096 : 40); if (l > n - i) l = n - i;
        put_all(fd, b + i, l); i += l;
        if (delays && probe_random(&seed) % 4 == 0) usleep(probe_random(&seed) % 500);
    }
    free(b);
}
static void record(const char* path) {
    char tmp[8192]; FILE* f; int i; char** e; char* cwd = getcwd(NULL, 0);
    snprintf(tmp, sizeof tmp, "%s.tmp", path);
    f = fopen(tmp, "wb"); if (!f) _exit(99);
    fprintf(f, "%d", argc_); fputc(0, f);
    for (i = 0; i < argc_; i++) { fputs(argv_[i], f); fputc(0, f); }
    fputs(cwd ? cwd : "?", f); fputc(0, f);
    for (e = environ; *e; e++) { fputs(*e, f); fputc(0, f); }
    fclose(f); rename(tmp, path);
}
static void record_pipes(const char* path) { // the pipes that were inherited
    char tmp[8192], l[64], name[64]; int k; FILE* f; snprintf(tmp, sizeof tmp, "%s.tmp", path); f = fopen(tmp, "wb"); if (!f) _exit(99);
    for (k = 0; k < 256; k++) { ssize_t n; snprintf(name, sizeof name, "/proc/self/fd/%d", k); n = readlink(name, l, sizeof l - 1); if (n > 0) { l[n] = 0; if (!strncmp(l, "pipe:", 5)) fprintf(f, "%d %s\n", k, l); } }
    fclose(f); rename(tmp, path);
}
// sends the n-th line of a file, or all of them
static void say_file(const char* path, int n) {
    FILE* f = fopen(path, "rb"); static char b[1 << 20]; int k = 0; if (!f) _exit(96);
    while (fgets(b, sizeof b, f)) if (n < 0 || k++ == n) say(b);
    fclose(f);
}
static const char* HELLO = "@@TRAX:hello \"trax.version=4\" \"trax.name=probe\" \"trax.image=path;memory;buffer;url;\" \"trax.region=rectangle;polygon;\" \"trax.channels=color;\" \n";

static void play(char* script) {
    char* save = NULL; char* a;
    for (a = strtok_r(script, ",", &save); a; a = strtok_r(NULL, ",", &save)) {
        int n = atoi(a + 1); const char* x = strchr(a, 'x'); int m = x ? atoi(x + 1) : 60;
        switch (a[0]) {
        case 'c': { // connect
            int fd, one = 1; struct sockaddr_in s; const char* p = getenv("TRAX_SOCKET");
            if (!is_socket || !p) break;
            memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_port = htons(atoi(p)); s.sin_addr.s_addr = inet_addr("127.0.0.1");
            fd = socket(AF_INET, SOCK_STREAM, 0); setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
            if (connect(fd, (struct sockaddr*) &s, sizeof s)) _exit(98);
            in = out = fd; break; }
        case 'h': say(HELLO); break;
        case 'H': say_file(hello_file, -1); break;
        case 'y': say_file(reply_file, n); break;
        case 'W': { int r = wait_for("initialize"); if (r == 2) exit(0); if (!r) exit(41); break; }
        case 'm': say("@@TRAX:hello \"trax.version=4\" \"trax.name=probe\" \"trax.image=path;\" \"trax.region=rectangle;\" \"trax.multiobject=1\" \n"); break;
        case 'v': say("@@TRAX:hello \"trax.version=99\" \"trax.name=probe\" \"trax.image=path;\" \"trax.region=rectangle;\" \n"); break;
        case 'V': say(n == 0 ? "@@TRAX:hello \"x\" \"trax.version=4\" \n" : n == 1 ? "@@TRAX:hello \"trax.version=4\" \"trax.region=blob;\" \n" : n == 2 ? "@@TRAX:hello \"trax.version=4\" \"trax.channels=smell;\" \n" : "@@TRAX:state \"1,2,3,4\" \n"); break;
        case 'w': { int r = wait_for(n == 1 ? "frame" : "initialize"); if (r == 1 && n == 0) r = wait_for("frame"); if (r == 2) exit(0); if (!r) exit(41); break; } // wait for a request: w0 initialization (and the frame that belongs to it), w1 frame
        case 'r': { char b[128]; snprintf(b, sizeof b, "@@TRAX:state \"%d,%d,10,20\" \"n=%d\" \n", n, n + 1, n); say(b); break; } // state, told apart by the number
        case 'l': { char b[128]; int k; for (k = 0; k < n; k++) { snprintf(b, sizeof b, "@@TRAX:state \"%d,1,10,20\" \n", k); say(b); } break; }
        case 'q': { int r = wait_for("quit"); exit(r == 1 || r == 2 ? 0 : 42); }
        case 'x': exit(n);
        case 'k': signal(n, SIG_DFL); raise(n); pause(); break;
        case 'I': close(in); if (is_socket) { shutdown(in, SHUT_RD); } break;
        case 'O': if (is_socket) shutdown(out, SHUT_RDWR); close(out); break;
        case 'R': close(2); break;
        case 'z': for (;;) pause();
        case 'Z': signal(SIGTERM, SIG_IGN); signal(SIGPIPE, SIG_IGN); for (;;) pause();
        case 'b': { char buf[4096]; signal(SIGTERM, SIG_IGN); while (1) { ssize_t l = read(in, buf, sizeof buf); if (l == 0 || (l < 0 && errno != EINTR)) pause(); } } // reads, never answers
        case 's': usleep(n * 1000); break;
        case 'u': usleep(n); break;
        case 'i': signal(n, SIG_IGN); break;
        case 'e': text(2, 'E', &serial_e, n, m, 1); break;
        case 'o': text(1, 'O', &serial_o, n, m, 1); break;
        case 'E': for (;;) text(2, 'E', &serial_e, 100, 60, 0);
        case 'F': for (;;) text(1, 'O', &serial_o, 100, 60, 0);
        case 't': say("@@TRAX:state \"1,2,"); break;
        case 'g': say(n == 1 ? "@@TRAX:state \"abc\" \n" : n == 2 ? "@@TRAX:state \n" : n == 3 ? "@@TRAX:initialize \"file:///a\" \"1,2,3,4\" \n" : n == 4 ? "@@TRAX:hello \"trax.version=4\" \n" : "@@TRAX:state \"1,2,3,4\" \"1,2,3,4\" \n"); break;
        case 'Q': say("@@TRAX:quit \"trax.reason=enough\" \n"); break;
        case 'p': raise(SIGSTOP); break;
        case 'd': { record(a + 1); break; }
        case 'P': { record_pipes(a + 1); break; }
        default: _exit(97);
        }
    }
}

int main(int argc, char** argv) {
    char* script = argc > 1 ? strdup(argv[1]) : "x96"; int i, mode_e = 0; const char* counter = NULL;
    argc_ = argc; argv_ = argv;
    for (i = 2; i < argc && argv[i][0] == '-'; i++) {
        if (!strcmp(argv[i], "-s")) is_socket = 1; else if (!strcmp(argv[i], "-e")) mode_e = 1;
        else if (!strcmp(argv[i], "-n") && i + 1 < argc) counter = argv[++i];
        else if (!strcmp(argv[i], "-l") && i + 1 < argc) { received = fopen(argv[++i], "ab"); fprintf(received, "S\n"); fflush(received); }
        else if (!strcmp(argv[i], "-H") && i + 1 < argc) hello_file = argv[++i];
        else if (!strcmp(argv[i], "-y") && i + 1 < argc) reply_file = argv[++i];
        else if (!strcmp(argv[i], "-D") && i + 1 < argc) record(argv[++i]);
        else break;
    }
    seed = (unsigned) getpid();
    if (mode_e) { const char* a = getenv("TRAX_IN"); const char* b = getenv("TRAX_OUT"); if (!a || !b) _exit(95); in = atoi(a); out = atoi(b); }
    if (counter) {
        int fd = open(counter, O_RDWR | O_CREAT, 0600), n; struct { off_t size; } s; char* part;
        flock(fd, LOCK_EX); s.size = lseek(fd, 0, SEEK_END); if (write(fd, "x", 1) != 1) _exit(94); close(fd);
        for (n = 0; n < (int) s.size && (part = strchr(script, '/')); n++) script = part + 1;
        part = strchr(script, '/'); if (part) *part = 0;
    }
    play(script);
    return 0;
}
