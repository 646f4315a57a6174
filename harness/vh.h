// Common part of all monitoring harnesses: case loop, event/violation log, watchdog,
// deterministic randomness, raw system calls and fault injection controls.
#ifndef VH_H
#define VH_H
#include <atomic>
#include <cerrno>
#include <chrono>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <vector>
#include <fcntl.h>
#include <poll.h>
#include <sys/socket.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <unistd.h>

namespace vh
{
struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) { next(); next(); }
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    // inclusive
    int64_t range(int64_t a, int64_t b) { return a + static_cast<int64_t>(below(static_cast<uint64_t>(b - a + 1))); }
    bool chance(int percent) { return static_cast<int>(below(100)) < percent; }
    template <typename T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
    std::string bytes(size_t n)
    {
        std::string r(n, 0);
        size_t i = 0;
        while (i + 8 <= n) { uint64_t x = next(); memcpy(&r[i], &x, 8); i += 8; }
        for (; i < n; ++i) r[i] = static_cast<char>(next());
        return r;
    }
    // text with few distinct bytes, so that repetitions and zero bytes are common
    std::string text(size_t n, const std::string &alpha)
    {
        std::string r(n, 0);
        for (auto &c : r) c = alpha[below(alpha.size())];
        return r;
    }
};

extern uint64_t seed;
extern bool thorough;
extern std::string mode;        // extra argument of the harness
extern std::string scratch;     // private directory of this process
extern uint64_t cur_case;

inline uint64_t mix(uint64_t h, uint64_t v) { return (h ^ v) * 0x100000001B3ull + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); }
inline uint64_t hash(const std::string &s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; return h; }

void tick();                                    // progress, feeds the watchdog
void set_patience(int seconds);                 // watchdog limit
[[noreturn]] void viol(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void broken(const char *fmt, ...) __attribute__((format(printf, 1, 2)));   // harness cannot work here
void known(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));    // a fault that does not end the run; it is a violation unless known-findings.txt lists its key
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void ev(const char *counter, uint64_t n = 1);   // observed events
void distinct(uint64_t sig);                    // signature of a non-trivial case
void sample(const std::string &text);
std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
std::string show(const std::string &s, size_t max = 48);

#define CHECK(cond, key, ...) do { if (!(cond)) ::vh::viol(key, __VA_ARGS__); } while (0)

// Raw system calls: bypass interposition
int sys_close(int fd);
ssize_t sys_read(int fd, void *p, size_t n);
ssize_t sys_write(int fd, const void *p, size_t n);
int sys_pipe(int fds[2], int flags = 0);
int sys_poll(int fd, short ev, int timeout_ms);      // returns revents
bool fd_open(int fd);
int fd_count();
int thread_count();
long maps_count(const std::string &substr);
void msleep(double ms);
double now();                                   // monotonic seconds
// waits until pred or watchdog; ticks only on change of the progress value
bool wait_until(const std::function<bool()> &pred, double seconds);
// as wait_until, but reports a hang violation when it does not happen
void must(const char *key, const std::string &what, const std::function<bool()> &pred, double seconds = 20);
int free_port(int family, bool udp = false);

// Whether f, run several times, sleeps or spins every time: true means that it waits for something
bool waits(const std::function<void()> &f);

// Fork a child that is killed with its parent; the child runs f and _exit()s with its result
pid_t spawn(const std::function<int()> &f);
// adds what a child observed (counters, cases, samples) to its parent's
void report_child();
int reap(pid_t pid, double seconds = 30);       // wait status, -1 on timeout (child killed)
// Waits for children that have to exit with 0; their violations end this process as well. Without a change of
// the progress value for that long it is a hang of the given key.
void expect_ok(const std::vector<pid_t> &pids, const char *key, const std::string &what, const std::function<uint64_t()> &progress, double seconds = 20);

}   // namespace vh

// Fault injection on library system calls
namespace inj
{
enum Fn { F_READ, F_WRITE, F_CLOSE, F_ACCEPT, F_CONNECT, F_RECVFROM, F_SENDTO, F_EPOLL_WAIT, F_EPOLL_CTL,
    F_PIPE, F_SOCKET, F_SEM_WAIT, F_SEM_OPEN, F_SHM_OPEN, F_FTRUNCATE, F_MMAP, F_FORK, F_MUTEX, F_COND, F_SEM_POST, F_OPEN, F_FCNTL, F_EPOLL_NEW, F_NUM };
struct Rates { int shorten = 0, eintr = 0, eagain = 0, delay = 0, delay_us = 0, mutex_delay = 0, spurious = 0; bool std_fds = false; bool eagain_sockets_only = false; };
void reset();
void random(uint64_t seed, const Rates &r);     // rates in permille
void fail(Fn fn, int fd, int err, int count = 1, int skip = 0);     // fd -1: any
int armed(Fn fn, int fd);      // failures scripted for this descriptor still to come
void clear_fail();
void clear_fd(int fd);              // rules for this descriptor only
uint64_t injected();                            // faults injected so far
uint64_t calls(Fn fn);
uint64_t scripted_hits();          // how often fail() rules applied
bool last_would_block(int fd);                  // last real read/write on fd returned EAGAIN
}

void run_case(uint64_t k, vh::Rng &rng);        // supplied by the harness
void harness_init();                            // supplied by the harness
void harness_fini();

#endif
