// Child program of the subprocess checks: what it does depends on the name of its file.
#define _GNU_SOURCE
#include <dirent.h>
#include <errno.h>
#include <poll.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <time.h>
#include <unistd.h>
extern char **environ;
static void put(int fd, const void *p, size_t n)
{
    const char *c = p;
    while (n) { ssize_t w = write(fd, c, n); if (w < 0) { if (errno == EINTR) continue; if (errno == EAGAIN) { struct pollfd q = {fd, POLLOUT, 0}; poll(&q, 1, -1); continue; } _exit(120); } c += w; n -= w; }
}
static void item(const char *s) { uint32_t l = strlen(s); put(1, &l, 4); put(1, s, l); }
static uint64_t mix(uint64_t z) { z += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
// byte i of stream s; text has no zero bytes
static unsigned char gen(uint64_t s, uint64_t i, int text) { unsigned char c = mix(s * 1000003 + i / 8) >> (i % 8 * 8); return text && !c ? 1 : c; }
static void nap(long us) { struct timespec t = {us / 1000000, us % 1000000 * 1000}; nanosleep(&t, 0); }
static long arg(int c, char **v, int i) { return i < c ? atol(v[i]) : 0; }
static void finish(long code, long sig) { if (sig) { signal(sig, SIG_DFL); sigset_t e; sigemptyset(&e); sigprocmask(SIG_SETMASK, &e, 0); raise(sig); pause(); } _exit(code); }
static void tell(int s) { char b[16]; int n = snprintf(b, sizeof b, "%d\n", s); put(1, b, n); }
int main(int c, char **v)
{
    struct rlimit no = {0, 0}; setrlimit(RLIMIT_CORE, &no); char self[512]; ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1); if (n < 0) _exit(121); self[n] = 0; const char *m = strrchr(self, '/') + 1;
    if (!strcmp(m, "p-report"))
    {
        uint32_t k = c; put(1, &k, 4); for (int i = 0; i < c; ++i) item(v[i]);
        k = 0; while (environ[k]) ++k; put(1, &k, 4); for (uint32_t i = 0; i < k; ++i) item(environ[i]); _exit(0);
    }
    if (!strcmp(m, "p-emit"))   // seed out err chunk delay_us code sig text how: 1 closes what it has finished, 2 leaves a process behind that has the same descriptors
    {
        uint64_t s = strtoull(v[1], 0, 10), at[2] = {0, 0}, len[2] = {arg(c, v, 2), arg(c, v, 3)}, chunk = arg(c, v, 4), r = s; long d = arg(c, v, 5); int text = arg(c, v, 8), how = arg(c, v, 9), shut[2] = {0, 0}; char *b = malloc(chunk + 1);
        if (how & 2 && fork() == 0) { while (read(0, b, 1) > 0) ; _exit(0); }
        while (at[0] < len[0] || at[1] < len[1])
        {
            for (int e = 0; e < 2; ++e) if (how & 1 && !shut[e] && at[e] == len[e]) { close(1 + e); shut[e] = 1; }
            r = mix(r); int e = r & 1; if (at[e] == len[e]) e = !e; uint64_t k = 1 + (r >> 8) % chunk; if (k > len[e] - at[e]) k = len[e] - at[e];
            for (uint64_t i = 0; i < k; ++i) b[i] = gen(s + e, at[e] + i, text); put(1 + e, b, k); at[e] += k; if (d && (r >> 40) % 4 == 0) nap((r >> 42) % d);
        }
        finish(arg(c, v, 6), arg(c, v, 7));
    }
    if (!strcmp(m, "p-cat"))    // bytes chunk every_nth_block_to_stderr delay_us code in_letters
    {
        uint64_t want = arg(c, v, 1), chunk = arg(c, v, 2), nth = arg(c, v, 3), got = 0; long d = arg(c, v, 4); int letters = arg(c, v, 6); char *b = malloc(chunk), *l = malloc(chunk * 2);
        while (got < want)
        {
            ssize_t k = read(0, b, chunk < want - got ? chunk : want - got); if (k < 0) { if (errno == EINTR) continue; _exit(122); } if (k == 0) _exit(123);
            for (ssize_t i = 0; letters && i < k; ++i) { unsigned char x = b[i]; l[2 * i] = 'a' + (x >> 4); l[2 * i + 1] = 'a' + (x & 15); }
            int w = letters ? 2 : 1; char *t = letters ? l : b;
            if (!nth) put(1, t, k * w); else for (ssize_t i = 0; i < k; ++i) put((got + i) / 64 % nth == nth - 1 ? 2 : 1, t + i * w, w);
            got += k; if (d) nap(got * 7919 % d);
        }
        finish(arg(c, v, 5), 0);
    }
    if (!strcmp(m, "p-early")) finish(arg(c, v, 1), arg(c, v, 2));  // reads nothing
    if (!strcmp(m, "p-eof")) { char b[4096]; ssize_t k; while ((k = read(0, b, sizeof b)) > 0) ; _exit(k == 0 ? 7 : 8); }
    if (!strcmp(m, "p-line")) { char b; put(1, "ready\n", 6); ssize_t k = read(0, &b, 1); finish(k == 1 ? arg(c, v, 1) : 99, k == 1 ? arg(c, v, 2) : 0); }   // ends after a byte of input
    if (!strcmp(m, "p-sleep")) { put(1, "ready\n", 6); while (1) pause(); }
    if (!strcmp(m, "p-sig"))
    {
        sigset_t all; sigfillset(&all); sigprocmask(SIG_BLOCK, &all, 0); put(1, "ready\n", 6);
        while (1) { int s; if (sigwait(&all, &s) == 0) { tell(s); if (s == SIGTERM) _exit(33); } }
    }
    if (!strcmp(m, "p-fds"))
    {
        DIR *d = opendir("/proc/self/fd"); struct dirent *e; char p[300], t[512];
        while ((e = readdir(d))) { if (e->d_name[0] == '.' || atoi(e->d_name) == dirfd(d)) continue; snprintf(p, sizeof p, "/proc/self/fd/%s", e->d_name); ssize_t k = readlink(p, t, sizeof t - 1); if (k < 0) continue; t[k] = 0; dprintf(1, "%s %s\n", e->d_name, t); }
        if (arg(c, v, 1)) { char b; if (read(0, &b, 1) != 1) _exit(99); }
        _exit(0);
    }
    _exit(119);
}
