// Interposers linked with --wrap: every system-level call of the library passes here.
#include "vh.h"
#include <sys/epoll.h>
#include <sys/mman.h>
#include <semaphore.h>
#include <pthread.h>
#include <condition_variable>
#include <mutex>
#include <sys/syscall.h>

namespace inj
{
static std::atomic<int> r_short{0}, r_eintr{0}, r_eagain{0}, r_delay{0}, r_delay_us{0}, r_mutex{0}, r_spurious{0};
static std::atomic<bool> r_std{false}, r_again_sock{false};
static std::atomic<uint64_t> epoch{0}, rseed{0}, n_injected{0}, thr_no{0};
static std::atomic<uint64_t> n_calls[F_NUM];
struct Rule { Fn fn; int fd; int err; int count; int skip; };
static std::atomic<bool> have_rules{false};
static std::atomic_flag rule_lock = ATOMIC_FLAG_INIT;
static std::vector<Rule> *rules = new std::vector<Rule>;
struct Guard { Guard() { while (rule_lock.test_and_set()) ; } ~Guard() { rule_lock.clear(); } };

static std::atomic<bool> wb[1024];

struct Local { uint64_t ep = ~0ull; vh::Rng rng{1}; uint64_t no; Local() : no(thr_no.fetch_add(1, std::memory_order_relaxed)) {} };
static Local &local()
{
    static thread_local Local l;
    uint64_t e = epoch.load(std::memory_order_relaxed);
    if (l.ep != e) { l.ep = e; l.rng = vh::Rng(rseed.load(std::memory_order_relaxed) + l.no * 7919); }
    return l;
}
void reset() { random(0, Rates()); clear_fail(); }
void random(uint64_t s, const Rates &r)
{
    r_short = r.shorten; r_eintr = r.eintr; r_eagain = r.eagain; r_delay = r.delay; r_delay_us = r.delay_us; r_mutex = r.mutex_delay; r_spurious = r.spurious; r_std = r.std_fds; r_again_sock = r.eagain_sockets_only;
    rseed = s; epoch.fetch_add(1);
}
void fail(Fn fn, int fd, int err, int count, int skip) { Guard g; rules->push_back({fn, fd, err, count, skip}); have_rules = true; }
void clear_fail() { if (!have_rules) return; Guard g; rules->clear(); have_rules = false; }
void clear_fd(int fd)
{
    if (!have_rules) return;
    Guard g;
    for (auto it = rules->begin(); it != rules->end();) if (it->fd == fd) it = rules->erase(it); else ++it;
}
int armed(Fn fn, int fd)
{
    if (!have_rules) return 0;
    Guard g; int n = 0;
    for (auto &r : *rules) if (r.fn == fn && r.fd == fd) n += r.count;
    return n;
}
// descriptors just accepted or connecting: the first watch on them is a site of its own (F_EPOLL_NEW)
static std::atomic<bool> fresh[1024];
static void set_fresh(int fd, bool f) { if (fd >= 0 && fd < 1024) fresh[fd].store(f, std::memory_order_relaxed); }
static bool is_socket(int fd) { struct stat st; return syscall(SYS_fstat, fd, &st) == 0 && S_ISSOCK(st.st_mode); }
uint64_t injected() { return n_injected.load(); }
static std::atomic<uint64_t> n_scripted{0};
uint64_t scripted_hits() { return n_scripted.load(); }
uint64_t calls(Fn fn) { return n_calls[fn].load(); }
bool last_would_block(int fd) { return fd >= 0 && fd < 1024 && wb[fd].load(std::memory_order_relaxed); }

static bool scripted(Fn fn, int fd)
{
    if (!have_rules.load(std::memory_order_relaxed)) return false;
    Guard g;
    for (auto &r : *rules)
    {
        if (r.fn != fn || (r.fd != -1 && r.fd != fd) || r.count == 0) continue;
        if (r.skip > 0) { --r.skip; continue; }
        --r.count; errno = r.err; n_scripted.fetch_add(1, std::memory_order_relaxed); n_injected.fetch_add(1, std::memory_order_relaxed);
        return true;
    }
    return false;
}
static bool roll(const std::atomic<int> &rate)
{
    int p = rate.load(std::memory_order_relaxed);
    return p > 0 && static_cast<int>(local().rng.below(1000)) < p;
}
static void delay(const std::atomic<int> &rate)
{
    if (!roll(rate)) return;
    int us = r_delay_us.load(std::memory_order_relaxed);
    int e = errno;
    if (us > 0) vh::msleep(local().rng.below(us) / 1000.0); else syscall(SYS_sched_yield);
    errno = e;
}
static bool excluded(int fd) { return fd <= 2 && !r_std.load(std::memory_order_relaxed); }
static void count(Fn f) { n_calls[f].fetch_add(1, std::memory_order_relaxed); }
static bool rw_fault(Fn fn, int fd)
{
    if (scripted(fn, fd)) return true;
    if (excluded(fd)) return false;
    if (roll(r_eintr)) { errno = EINTR; n_injected.fetch_add(1, std::memory_order_relaxed); return true; }
    if (roll(r_eagain) && (!r_again_sock.load(std::memory_order_relaxed) || is_socket(fd))) { errno = EAGAIN; n_injected.fetch_add(1, std::memory_order_relaxed); return true; }
    return false;
}
static size_t rw_len(int fd, size_t n)
{
    if (n > 1 && !excluded(fd) && roll(r_short))
    {
        n_injected.fetch_add(1, std::memory_order_relaxed);
        return 1 + local().rng.below(local().rng.chance(50) ? (n < 8 ? n : 8) : n);
    }
    return n;
}
static void seen(int fd, ssize_t r) { if (fd >= 0 && fd < 1024) { wb[fd].store(r < 0 && (errno == EAGAIN), std::memory_order_relaxed); } }
}   // namespace inj
using namespace inj;

extern "C" {
ssize_t __real_read(int, void *, size_t);
ssize_t __wrap_read(int fd, void *p, size_t n)
{
    count(F_READ); delay(r_delay);
    if (rw_fault(F_READ, fd)) return -1;
    ssize_t r = __real_read(fd, p, rw_len(fd, n)); int e = errno;
    seen(fd, r); delay(r_delay); errno = e; return r;
}
ssize_t __real_write(int, const void *, size_t);
ssize_t __wrap_write(int fd, const void *p, size_t n)
{
    count(F_WRITE); delay(r_delay);
    if (rw_fault(F_WRITE, fd)) return -1;
    ssize_t r = __real_write(fd, p, rw_len(fd, n)); int e = errno;
    seen(fd, r); delay(r_delay); errno = e; return r;
}
ssize_t __real_recv(int, void *, size_t, int);
ssize_t __wrap_recv(int fd, void *p, size_t n, int f)
{
    count(F_READ); delay(r_delay);
    if (rw_fault(F_READ, fd)) return -1;
    ssize_t r = __real_recv(fd, p, rw_len(fd, n), f); int e = errno; seen(fd, r); errno = e; return r;
}
ssize_t __real_send(int, const void *, size_t, int);
ssize_t __wrap_send(int fd, const void *p, size_t n, int f)
{
    count(F_WRITE); delay(r_delay);
    if (rw_fault(F_WRITE, fd)) return -1;
    ssize_t r = __real_send(fd, p, rw_len(fd, n), f); int e = errno; seen(fd, r); errno = e; return r;
}
int __real_close(int);
int __wrap_close(int fd)
{
    count(F_CLOSE); delay(r_delay);
    int r = __real_close(fd); int e = errno;
    if (r == -1 && e == EBADF && fd >= 0) vh::viol("double-close", "close(%d) of a descriptor that is not open", fd);
    if (r == 0 && scripted(F_CLOSE, fd)) return -1;     // as Linux does it: the descriptor is closed in any case
    errno = e; return r;
}
int __real_accept(int, sockaddr *, socklen_t *);
int __wrap_accept(int fd, sockaddr *a, socklen_t *l)
{
    count(F_ACCEPT); delay(r_delay);
    if (scripted(F_ACCEPT, fd)) return -1;
    int r = __real_accept(fd, a, l); set_fresh(r, true); return r;
}
int __real_accept4(int, sockaddr *, socklen_t *, int);
int __wrap_accept4(int fd, sockaddr *a, socklen_t *l, int f)
{
    count(F_ACCEPT); delay(r_delay);
    if (scripted(F_ACCEPT, fd)) return -1;
    int r = __real_accept4(fd, a, l, f); set_fresh(r, true); return r;
}
int __real_connect(int, const sockaddr *, socklen_t);
int __wrap_connect(int fd, const sockaddr *a, socklen_t l)
{
    count(F_CONNECT); delay(r_delay);
    if (scripted(F_CONNECT, fd)) return -1;
    set_fresh(fd, true);
    return __real_connect(fd, a, l);
}
ssize_t __real_recvfrom(int, void *, size_t, int, sockaddr *, socklen_t *);
ssize_t __wrap_recvfrom(int fd, void *p, size_t n, int f, sockaddr *a, socklen_t *l)
{
    count(F_RECVFROM); delay(r_delay);
    if (scripted(F_RECVFROM, fd)) return -1;
    return __real_recvfrom(fd, p, n, f, a, l);
}
ssize_t __real_sendto(int, const void *, size_t, int, const sockaddr *, socklen_t);
ssize_t __wrap_sendto(int fd, const void *p, size_t n, int f, const sockaddr *a, socklen_t l)
{
    count(F_SENDTO); delay(r_delay);
    if (scripted(F_SENDTO, fd)) return -1;
    return __real_sendto(fd, p, n, f, a, l);
}
int __real_epoll_wait(int, epoll_event *, int, int);
int __wrap_epoll_wait(int fd, epoll_event *e, int n, int t)
{
    count(F_EPOLL_WAIT); delay(r_delay);
    if (scripted(F_EPOLL_WAIT, fd)) return -1;
    if (roll(r_eintr)) { errno = EINTR; n_injected.fetch_add(1, std::memory_order_relaxed); return -1; }
    int r = __real_epoll_wait(fd, e, n, t); int er = errno;
    delay(r_delay); errno = er; return r;
}
int __real_epoll_ctl(int, int, int, epoll_event *);
int __wrap_epoll_ctl(int e, int op, int fd, epoll_event *ev)
{
    count(F_EPOLL_CTL); delay(r_delay);
    if (scripted(F_EPOLL_CTL, fd)) return -1;
    if (op == EPOLL_CTL_ADD && fd >= 0 && fd < 1024 && fresh[fd].exchange(false, std::memory_order_relaxed) && scripted(F_EPOLL_NEW, fd)) return -1;
    int r = __real_epoll_ctl(e, op, fd, ev); int er = errno;
    delay(r_delay); errno = er; return r;
}
int __real_pipe(int *);
int __wrap_pipe(int *f) { count(F_PIPE); delay(r_delay); if (scripted(F_PIPE, -1)) return -1; return __real_pipe(f); }
int __real_pipe2(int *, int);
int __wrap_pipe2(int *f, int fl) { count(F_PIPE); delay(r_delay); if (scripted(F_PIPE, -1)) return -1; return __real_pipe2(f, fl); }
int __real_socket(int, int, int);
int __wrap_socket(int a, int b, int c) { count(F_SOCKET); if (scripted(F_SOCKET, -1)) return -1; return __real_socket(a, b, c); }
int __real_sem_wait(sem_t *);
int __wrap_sem_wait(sem_t *s)
{
    count(F_SEM_WAIT); delay(r_delay);
    if (scripted(F_SEM_WAIT, -1)) return -1;
    if (roll(r_eintr)) { errno = EINTR; n_injected.fetch_add(1, std::memory_order_relaxed); return -1; }
    return __real_sem_wait(s);
}
int __real_sem_post(sem_t *);
int __wrap_sem_post(sem_t *s) { count(F_SEM_POST); delay(r_delay); if (scripted(F_SEM_POST, -1)) return -1; return __real_sem_post(s); }
int __real_shm_open(const char *, int, mode_t);
int __wrap_shm_open(const char *n, int f, mode_t m)
{
    count(F_SHM_OPEN); delay(r_delay);
    if (scripted(F_SHM_OPEN, -1)) return -1;
    int r = __real_shm_open(n, f, m); int e = errno; delay(r_delay); errno = e; return r;
}
int __real_ftruncate(int, off_t);
int __wrap_ftruncate(int fd, off_t n)
{
    count(F_FTRUNCATE); delay(r_delay);
    if (scripted(F_FTRUNCATE, fd)) return -1;
    int r = __real_ftruncate(fd, n); int e = errno; delay(r_delay); errno = e; return r;
}
void *__real_mmap(void *, size_t, int, int, int, off_t);
void *__wrap_mmap(void *a, size_t l, int p, int f, int fd, off_t o)
{
    count(F_MMAP); delay(r_delay);
    if (fd >= 0 && scripted(F_MMAP, fd)) return MAP_FAILED;
    void *r = __real_mmap(a, l, p, f, fd, o); int e = errno; delay(r_delay); errno = e; return r;
}
void (*vh_kill_hook)(pid_t, int);
int __real_kill(pid_t, int);
int __wrap_kill(pid_t p, int s) { if (vh_kill_hook) vh_kill_hook(p, s); return __real_kill(p, s); }
int (*vh_nanosleep_hook)(const timespec *, timespec *);     // -2: not handled
int __real_nanosleep(const timespec *, timespec *);
int __wrap_nanosleep(const timespec *a, timespec *b)
{
    if (vh_nanosleep_hook) { int r = vh_nanosleep_hook(a, b); if (r != -2) return r; }
    return __real_nanosleep(a, b);
}
pid_t __real_fork(void);
pid_t __wrap_fork(void) { count(F_FORK); delay(r_delay); if (scripted(F_FORK, -1)) return -1; return __real_fork(); }
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { delay(r_mutex); int r = __real_pthread_mutex_lock(m); delay(r_mutex); return r; }
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { int r = __real_pthread_mutex_unlock(m); delay(r_mutex); return r; }
// wake-ups for no reason, as both standards allow them: the mutex is released and taken again
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __real_pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *);
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
    if (!roll(r_spurious)) return __real_pthread_cond_wait(c, m);
    n_injected.fetch_add(1, std::memory_order_relaxed); n_calls[F_COND].fetch_add(1, std::memory_order_relaxed);
    int e = __real_pthread_mutex_unlock(m); if (e) return e;
    syscall(SYS_sched_yield);
    return __real_pthread_mutex_lock(m);
}
void __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(std::condition_variable *, std::unique_lock<std::mutex> &);
void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(std::condition_variable *c, std::unique_lock<std::mutex> &l)
{
    if (!roll(r_spurious)) return __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(c, l);
    n_injected.fetch_add(1, std::memory_order_relaxed); n_calls[F_COND].fetch_add(1, std::memory_order_relaxed);
    l.unlock(); syscall(SYS_sched_yield); l.lock();
}
int __real_pthread_cond_signal(pthread_cond_t *);
int __wrap_pthread_cond_signal(pthread_cond_t *c) { delay(r_mutex); return __real_pthread_cond_signal(c); }
int __real_pthread_cond_broadcast(pthread_cond_t *);
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { delay(r_mutex); return __real_pthread_cond_broadcast(c); }
}
