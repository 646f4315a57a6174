#include "vh.h"
#include <dirent.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <netinet/in.h>
#include <time.h>
#include <sys/resource.h>

namespace vh
{
uint64_t seed = 1; bool thorough = false; std::string mode, scratch; uint64_t cur_case = 0;
static int log_fd = -1;
static std::atomic<uint64_t> ticks{0};
static std::atomic<int> patience{25};
static std::atomic<uint64_t> shown_case{0};
static std::mutex mx;       // counters
static std::map<std::string, uint64_t> counters;
static std::set<uint64_t> sigs;
static std::vector<std::string> samples;
static pid_t main_pid;

static std::string esc(const std::string &s)
{
    std::string r;
    for (unsigned char c : s)
    {
        char b[8];
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r;
}
static void emit(const std::string &line)
{
    std::string l = line + "\n";
    size_t off = 0;
    while (off < l.size())
    {
        ssize_t n = sys_write(log_fd, l.data() + off, l.size() - off);
        if (n < 0 && errno == EINTR) continue;
        if (n <= 0) break;
        off += n;
    }
}
void tick() { ticks.fetch_add(1, std::memory_order_relaxed); }
void set_patience(int s) { patience = s; }
static std::string vf(const char *fmt, va_list ap)
{
    char b[4096]; vsnprintf(b, sizeof b, fmt, ap); return b;
}
std::string strf(const char *fmt, ...) { va_list ap; va_start(ap, fmt); auto s = vf(fmt, ap); va_end(ap); return s; }
std::string show(const std::string &s, size_t max)
{
    std::string r = "\"";
    for (size_t i = 0; i < s.size() && i < max; ++i)
    {
        unsigned char c = s[i];
        if (c < 32 || c > 126 || c == '"') r += strf("\\x%02x", c); else r += c;
    }
    r += "\""; if (s.size() > max) r += strf("...(%zu)", s.size());
    return r;
}
void viol(const char *key, const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt); auto s = vf(fmt, ap); va_end(ap);
    emit(strf("{\"t\":\"viol\",\"case\":%llu,\"key\":\"", (unsigned long long)shown_case.load()) + esc(key) + "\",\"msg\":\"" + esc(s) + "\"}");
    syscall(SYS_exit_group, 98);
    __builtin_unreachable();
}
void broken(const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt); auto s = vf(fmt, ap); va_end(ap);
    emit(strf("{\"t\":\"broken\",\"case\":%llu,\"msg\":\"", (unsigned long long)shown_case.load()) + esc(s) + "\"}");
    syscall(SYS_exit_group, 96);
    __builtin_unreachable();
}
void known(const char *key, const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt); auto s = vf(fmt, ap); va_end(ap);
    emit(strf("{\"t\":\"known\",\"case\":%llu,\"key\":\"", (unsigned long long)shown_case.load()) + esc(key) + "\",\"msg\":\"" + esc(s) + "\"}");
}
void note(const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt); auto s = vf(fmt, ap); va_end(ap);
    emit(strf("{\"t\":\"note\",\"case\":%llu,\"msg\":\"", (unsigned long long)shown_case.load()) + esc(s) + "\"}");
}
void ev(const char *c, uint64_t n) { std::lock_guard<std::mutex> _(mx); counters[c] += n; }
void distinct(uint64_t s) { std::lock_guard<std::mutex> _(mx); sigs.insert(s); }
void sample(const std::string &t) { std::lock_guard<std::mutex> _(mx); if (samples.size() < 4) samples.push_back(t); }

int sys_close(int fd) { return syscall(SYS_close, fd); }
ssize_t sys_read(int fd, void *p, size_t n) { return syscall(SYS_read, fd, p, n); }
ssize_t sys_write(int fd, const void *p, size_t n) { return syscall(SYS_write, fd, p, n); }
int sys_pipe(int fds[2], int flags) { return syscall(SYS_pipe2, fds, flags); }
int sys_poll(int fd, short e, int to) { pollfd p{fd, e, 0}; syscall(SYS_poll, &p, 1, to); return p.revents; }
bool fd_open(int fd) { return syscall(SYS_fcntl, fd, F_GETFD) != -1; }
static int count_dir(const char *d)
{
    // raw, since directory streams allocate and open descriptors of their own
    int fd = syscall(SYS_openat, AT_FDCWD, d, O_RDONLY | O_DIRECTORY | O_CLOEXEC);
    if (fd < 0) broken("cannot open %s", d);
    char buf[8192]; int n = 0; long r;
    while ((r = syscall(SYS_getdents64, fd, buf, sizeof buf)) > 0)
        for (long o = 0; o < r;)
        {
            unsigned short len; memcpy(&len, buf + o + 16, 2);
            if (buf[o + 19] != '.') ++n;
            o += len;
        }
    sys_close(fd);
    return n;
}
int fd_count() { return count_dir("/proc/self/fd") - 1; }
int thread_count() { return count_dir("/proc/self/task"); }
long maps_count(const std::string &sub)
{
    int fd = syscall(SYS_openat, AT_FDCWD, "/proc/self/maps", O_RDONLY | O_CLOEXEC);
    std::string all; char b[65536]; ssize_t r;
    while ((r = sys_read(fd, b, sizeof b)) > 0) all.append(b, r);
    sys_close(fd);
    long n = 0; size_t p = 0;
    while ((p = all.find(sub, p)) != std::string::npos) { ++n; p += sub.size(); }
    return n;
}
void msleep(double ms)
{
    timespec ts; ts.tv_sec = ms / 1000; ts.tv_nsec = (ms - ts.tv_sec * 1000.0) * 1e6;
    syscall(SYS_nanosleep, &ts, nullptr);
}
double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
bool waits(const std::function<void()> &f)
{
#if defined(__SANITIZE_THREAD__)
    f(); return false;      // the sanitizer sleeps itself
#else
    for (int i = 0; i < 8; ++i)
    {
        rusage a, b; timespec s, e; getrusage(RUSAGE_THREAD, &a); clock_gettime(CLOCK_THREAD_CPUTIME_ID, &s);
        f();
        clock_gettime(CLOCK_THREAD_CPUTIME_ID, &e); getrusage(RUSAGE_THREAD, &b);
        if (a.ru_nvcsw == b.ru_nvcsw && (e.tv_sec - s.tv_sec) * 1e3 + (e.tv_nsec - s.tv_nsec) / 1e6 < 5) return false;
    }
    return true;
#endif
}
bool wait_until(const std::function<bool()> &pred, double seconds)
{
    // counts iterations, not wall time, so that a stopped or starved machine is no alarm
    double waited = 0, step = 0.2;
    while (!pred())
    {
        if (waited > seconds * 1000) return pred();
        msleep(step); waited += step;
        if (step < 5) step *= 1.3;
    }
    return true;
}
void must(const char *key, const std::string &what, const std::function<bool()> &pred, double seconds)
{
    double waited = 0, step = 0.2;
    while (!pred())
    {
        if (waited > seconds * 1000) { if (pred()) break; viol(key, "did not happen within %.0f s: %s", seconds, what.c_str()); }
        msleep(step); waited += step;
        if (step < 5) step *= 1.3;
        tick();
    }
    tick();
}
int free_port(int fam, bool udp)
{
    int s = ::socket(fam, (udp ? SOCK_DGRAM : SOCK_STREAM) | SOCK_CLOEXEC, 0);
    if (s < 0) broken("socket");
    sockaddr_storage a; memset(&a, 0, sizeof a); a.ss_family = fam; socklen_t l;
    if (fam == AF_INET) { l = sizeof(sockaddr_in); ((sockaddr_in *)&a)->sin_addr.s_addr = htonl(INADDR_ANY); }
    else { l = sizeof(sockaddr_in6); ((sockaddr_in6 *)&a)->sin6_addr = in6addr_any; }
    int one = 1;
    ::setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
    if (::bind(s, (sockaddr *)&a, l) != 0) broken("bind for free port");
    l = sizeof a; ::getsockname(s, (sockaddr *)&a, &l);
    int p = ntohs(fam == AF_INET ? ((sockaddr_in *)&a)->sin_port : ((sockaddr_in6 *)&a)->sin6_port);
    sys_close(s);
    return p;
}
pid_t spawn(const std::function<int()> &f)
{
    pid_t parent = getpid();
    pid_t p = syscall(SYS_getpid) == parent ? ::fork() : -1;
    if (p == 0)
    {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        if (getppid() != parent) syscall(SYS_exit_group, 95);
        counters.clear(); sigs.clear(); samples.clear();    // of the child's own, see report_child
        int r = 94;
        try { r = f(); } catch (const std::exception &e) { note("child exception: %s", e.what()); r = 93; }
        syscall(SYS_exit_group, r);
    }
    if (p < 0) broken("fork: errno %d", errno);
    return p;
}
int reap(pid_t pid, double seconds)
{
    int st = 0; double waited = 0, step = 0.2;
    while (true)
    {
        pid_t r = syscall(SYS_wait4, pid, &st, WNOHANG, nullptr);
        if (r == pid) return st;
        if (r < 0 && errno != EINTR) broken("wait4 errno %d", errno);
        if (waited > seconds * 1000) { syscall(SYS_kill, pid, SIGKILL); syscall(SYS_wait4, pid, &st, 0, nullptr); return -1; }
        msleep(step); waited += step; if (step < 5) step *= 1.3;
        tick();
    }
}
void expect_ok(const std::vector<pid_t> &pids, const char *key, const std::string &what, const std::function<uint64_t()> &progress, double seconds)
{
    std::vector<pid_t> left = pids; double waited = 0, step = 0.2; uint64_t last = progress();
    auto kill_all = [&] { for (auto p : left) syscall(SYS_kill, p, SIGKILL); };
    while (!left.empty())
    {
        for (size_t i = 0; i < left.size();)
        {
            int st = 0; pid_t r = syscall(SYS_wait4, left[i], &st, WNOHANG, nullptr);
            if (r != left[i]) { if (r < 0 && errno != EINTR) broken("wait4 errno %d", errno); ++i; continue; }
            left.erase(left.begin() + i); waited = 0;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
            kill_all();
            if (WIFEXITED(st) && (WEXITSTATUS(st) == 98 || WEXITSTATUS(st) == 96)) syscall(SYS_exit_group, WEXITSTATUS(st));
            if (WIFEXITED(st) && (WEXITSTATUS(st) == 99 || WEXITSTATUS(st) == 66)) syscall(SYS_exit_group, WEXITSTATUS(st));   // reported by a sanitizer
            viol("child-died", "%s: a participating process ended with wait status 0x%x", what.c_str(), st);
        }
        if (left.empty()) break;
        uint64_t p = progress(); if (p != last) { last = p; waited = 0; }
        if (waited > seconds * 1000) { kill_all(); viol(key, "%s: %zu of %zu processes do not get on for %.0f s", what.c_str(), left.size(), pids.size(), seconds); }
        msleep(step); waited += step; if (step < 3) step *= 1.2;
        tick();
    }
}
static std::string observed()
{
    std::string js = "\"counters\":{"; bool first = true;
    for (auto &c : counters) { js += strf("%s\"%s\":%llu", first ? "" : ",", c.first.c_str(), (unsigned long long)c.second); first = false; }
    js += "},\"samples\":["; first = true;
    for (auto &s : samples) { js += (first ? "\"" : ",\"") + esc(s) + "\""; first = false; }
    js += "],\"sigs\":["; first = true;
    for (auto s : sigs) { js += strf("%s\"%llx\"", first ? "" : ",", (unsigned long long)s); first = false; }
    return js + "]";
}
void report_child() { emit("{\"t\":\"part\"," + observed() + "}"); }
static std::string proc_text(const std::string &path) { char b[400]; int f = syscall(SYS_openat, AT_FDCWD, path.c_str(), O_RDONLY | O_CLOEXEC); if (f < 0) return "?"; ssize_t n = sys_read(f, b, sizeof b - 1); sys_close(f); std::string s(b, n > 0 ? n : 0); for (auto &c : s) if (c == 0 || c == '\n') c = ' '; return s.substr(0, 150); }
// what the threads and children of a process that makes no progress are doing
static std::string activity()
{
    std::string r; int budget = 3000;
    std::function<void(pid_t, int)> show_process = [&](pid_t p, int depth) {
        std::string base = strf("/proc/%d/task", p); DIR *d = opendir(base.c_str()); if (!d) return; std::vector<int> kids;
        while (auto e = readdir(d)) { if (e->d_name[0] == '.' || --budget < 0) continue; std::string t = base + "/" + e->d_name; r += strf("%*s%s stat %s | syscall %s | wchan %s | %s\n", depth * 2, "", e->d_name, proc_text(t + "/stat").substr(0, 60).c_str(), proc_text(t + "/syscall").c_str(), proc_text(t + "/wchan").c_str(), proc_text(t + "/cmdline").c_str()); std::string k = proc_text(t + "/children"); size_t at = 0; while (at < k.size()) { int q = atoi(&k[at]); if (q > 0) kids.push_back(q); at = k.find(' ', at); if (at == k.npos) break; ++at; } }
        closedir(d); if (depth < 4) for (int q : kids) show_process(q, depth + 1); };
    show_process(getpid(), 0); return r;
}
static void watchdog()
{
    sigset_t all; sigfillset(&all); pthread_sigmask(SIG_BLOCK, &all, nullptr);
    uint64_t last = ~0ull; int still = 0;
    while (true)
    {
        msleep(100);
        uint64_t t = ticks.load(std::memory_order_relaxed);
        if (t != last) { last = t; still = 0; continue; }
        if (++still >= patience.load() * 10)
        {
            emit(strf("{\"t\":\"hang\",\"case\":%llu}", (unsigned long long)shown_case.load()));
            signal(SIGALRM, SIG_DFL); sigset_t al; sigemptyset(&al); sigaddset(&al, SIGALRM); pthread_sigmask(SIG_UNBLOCK, &al, nullptr); alarm(5);     // in case memory is not to be had
            std::string a = activity(); sys_write(2, a.data(), a.size());
            syscall(SYS_exit_group, 97);
        }
    }
}
}   // namespace vh

using namespace vh;

// Sanitizers do not protect their allocator's locks over fork(), so threads that are just starting (watchdog, loggers)
// have to settle before anything forks
static void quiesce()
{
    int calm = 0;
    for (int i = 0; i < 400 && calm < 3; ++i)
    {
        bool idle = true; long me = syscall(SYS_gettid);
        int d = syscall(SYS_openat, AT_FDCWD, "/proc/self/task", O_RDONLY | O_DIRECTORY | O_CLOEXEC); char buf[4096]; long r = syscall(SYS_getdents64, d, buf, sizeof buf);
        for (long o = 0; o < r;)
        {
            unsigned short len; memcpy(&len, buf + o + 16, 2); long tid = atol(buf + o + 19); o += len;
            if (tid <= 0 || tid == me) continue;
            char path[64], st[256]; snprintf(path, sizeof path, "/proc/self/task/%ld/stat", tid); int f = syscall(SYS_openat, AT_FDCWD, path, O_RDONLY | O_CLOEXEC); if (f < 0) continue;
            ssize_t n = sys_read(f, st, sizeof st - 1); sys_close(f); if (n <= 0) continue; st[n] = 0; char *q = strrchr(st, ')'); if (q && q[2] != 'S') idle = false;
        }
        sys_close(d); calm = idle ? calm + 1 : 0; msleep(1);
    }
}

int main(int argc, char **argv)
{
    uint64_t from = 0, step = 1, count = 1; double budget = 1e9; std::string out;
    for (int i = 1; i + 1 < argc; i += 2)
    {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--from") from = std::stoull(v);
        else if (a == "--step") step = std::stoull(v);
        else if (a == "--count") count = std::stoull(v);
        else if (a == "--seed") seed = std::stoull(v);
        else if (a == "--budget") budget = std::stod(v);
        else if (a == "--out") out = v;
        else if (a == "--mode") mode = v;
        else if (a == "--thorough") thorough = v == "1";
        else if (a == "--scratch") scratch = v;
    }
    main_pid = getpid();
    int fd = ::open(out.c_str(), O_CREAT | O_WRONLY | O_APPEND | O_CLOEXEC, 0600);
    if (fd < 0) { perror("out"); return 96; }
    // out of the way of small descriptor numbers
    rlimit rl; getrlimit(RLIMIT_NOFILE, &rl);
    int high = rl.rlim_cur > 1000 ? 900 : static_cast<int>(rl.rlim_cur) - 2;
    log_fd = ::fcntl(fd, F_DUPFD_CLOEXEC, high);
    sys_close(fd);
    for (int i = 1; i < 32; ++i) { struct sigaction sa; if (!sigaction(i, nullptr, &sa) && sa.sa_handler == SIG_IGN) signal(i, SIG_DFL); }     // nothing of what started this
    sigset_t none; sigemptyset(&none); pthread_sigmask(SIG_SETMASK, &none, nullptr);
    signal(SIGPIPE, SIG_IGN);
    std::thread(watchdog).detach();
    double start = now(); uint64_t done = 0;
    try
    {
        harness_init();
        quiesce();
        for (uint64_t k = from; k < count; k += step)
        {
            if (now() - start > budget) break;
            cur_case = k; shown_case = k;
            emit(strf("{\"t\":\"start\",\"case\":%llu}", (unsigned long long)k));
            tick();
            Rng rng(mix(mix(seed * 0x9E3779B97F4A7C15ull, k + 1), hash(mode)));
            run_case(k, rng);
            inj::reset();
            tick();
            ++done;
        }
        harness_fini();
    }
    catch (const std::exception &e) { viol("exception", "unexpected exception: %s", e.what()); }
    emit("{\"t\":\"done\",\"cases\":" + std::to_string(done) + ",\"injected\":" + std::to_string(inj::injected()) + "," + observed() + "}");
    syscall(SYS_exit_group, 0);
}
