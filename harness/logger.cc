// C16: every line completed by any thread arrives once, whole, in order, on the right stream.
#include "vh.h"
#include <climits>
#include <cfloat>
#include <cmath>
#include <condition_variable>
#include <signal.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include "cppev/async_logger.h"
using vh::Rng;
using cppev::async_logger;
namespace clog2 = cppev::log;
extern "C" void __sanitizer_set_report_fd(void *);

namespace
{
int saved[3] = {-1, -1, -1};
struct Piece { int kind; std::string s; long l = 0; double d = 0; };
struct Line { int fd; std::vector<Piece> pieces; std::string text; std::shared_ptr<Line> inner; size_t inner_at = 0; int pause = 0; };
struct Writer { std::vector<Line> lines; std::vector<std::string> want[3]; size_t next[3] = {0, 0, 0}; };

Line make_line(Rng &r, int fd, bool nest, size_t big, bool flood = false)
{
    Line l; l.fd = fd; int n = r.chance(5) ? 0 : 1 + r.below(r.chance(10) ? 20 : 5); bool c_str_only = r.chance(30);
    for (int i = 0; i < n; ++i)
    {
        Piece p; p.kind = r.below(7); char b[512];
        switch (p.kind)
        {
        case 0: p.s = r.text(r.below(40), "ab -[]%\n\t\\"); l.text += p.s; break;
        case 1: case 2:
            p.kind = 1; p.s = c_str_only ? r.text(r.below(60), "xyz {}%s%n") : r.chance(10) ? std::string() : r.chance(3) ? std::string("- [ERROR] [2026] [LWP 1] ") : r.bytes(r.chance(flood ? 60 : big ? 5 : 0) ? r.below(big) : r.below(80));
            l.text += p.s; break;
        case 3: p.l = r.chance(30) ? (r.chance(50) ? LONG_MIN : LONG_MAX) : r.chance(30) ? r.range(-10, 10) : static_cast<long>(r.next()); snprintf(b, sizeof b, "%ld", p.l); l.text += b; break;
        case 4: p.l = r.chance(30) ? (r.chance(50) ? INT_MIN : INT_MAX) : static_cast<int>(r.next()) >> r.below(32); snprintf(b, sizeof b, "%d", static_cast<int>(p.l)); l.text += b; break;
        case 5: p.d = r.chance(10) ? DBL_MAX : r.chance(10) ? -DBL_MIN : r.chance(5) ? -0.0 : r.chance(5) ? INFINITY : r.chance(5) ? NAN : (static_cast<double>(static_cast<int64_t>(r.next())) / (1ull << r.below(63))); snprintf(b, sizeof b, "%f", p.d); l.text += b; break;
        case 6: p.d = static_cast<float>(r.chance(10) ? FLT_MAX : r.chance(10) ? -FLT_MIN : static_cast<double>(static_cast<int64_t>(r.next())) / (1ull << r.below(63))); snprintf(b, sizeof b, "%f", p.d); l.text += b; break;
        }
        l.pieces.push_back(p);
    }
    l.text += "\n"; l.pause = r.chance(10) ? 1 + r.below(300) : 0;
    if (nest && fd == 1 && r.chance(15)) { l.inner = std::make_shared<Line>(make_line(r, 2, false, 0)); l.inner_at = r.below(l.pieces.size() + 1); }
    return l;
}
Writer make_writer(Rng &r, int n, int fds, size_t big, bool flood = false)
{
    Writer w;
    for (int i = 0; i < n; ++i)
    {
        w.lines.push_back(make_line(r, fds == 3 ? 1 + static_cast<int>(r.below(2)) : fds, fds == 3, big, flood)); Line &l = w.lines.back();
        w.want[l.fd].push_back(l.text); if (l.inner) w.want[2].push_back(l.inner->text);
    }
    return w;
}
void put(async_logger &g, const Piece &p)
{
    switch (p.kind)
    {
    case 0: g << p.s.c_str(); break;
    case 1: g << p.s; break;
    case 3: g << p.l; break;
    case 4: g << static_cast<int>(p.l); break;
    case 5: g << p.d; break;
    case 6: g << static_cast<float>(p.d); break;
    }
}
void log_line(const Line &l, async_logger *const *lg)
{
    async_logger &g = *lg[l.fd];
    for (size_t i = 0; i <= l.pieces.size(); ++i)
    {
        if (l.inner && l.inner_at == i) log_line(*l.inner, lg);
        if (i == l.pieces.size()) break;
        put(g, l.pieces[i]);
        if (l.pause && (i == 0 || (l.pause & 1))) { if (l.pause > 250) vh::msleep(l.pause / 500.0); else sched_yield(); }
    }
    g << clog2::endl;
}

// Expected output and what arrived
struct Book
{
    std::mutex mx; std::vector<Writer> writers; std::vector<std::pair<long, size_t>> order;
    std::atomic<uint64_t> matched{0}, bytes{0}; size_t last_writer[3] = {~0ul, ~0ul, ~0ul}; uint64_t switches = 0, partial = 0;
    void started(size_t w) { std::lock_guard<std::mutex> _(mx); order.push_back({syscall(SYS_gettid), w}); }
    uint64_t total() const { uint64_t n = 0; for (auto &w : writers) n += w.want[1].size() + w.want[2].size(); return n; }
};
struct Collector
{
    Book &b; int fd, rd; size_t chunk; int pause; Rng r; std::string buf; size_t off = 0; std::thread thr; std::atomic<bool> eof{false}, hold;
    Collector(Book &b, int fd, int rd, Rng &s, bool slow, bool held = false) : b(b), fd(fd), rd(rd), chunk(s.chance(50) ? 65536 : 512 + s.below(4096)), pause(slow ? 1 + s.below(2) : 0), r(s.next()), hold(held) { thr = std::thread([this] { run(); }); }
    void run()
    {
        std::vector<char> t(chunk); while (hold) vh::msleep(0.3);
        while (true)
        {
            ssize_t n = vh::sys_read(rd, t.data(), chunk);
            if (n < 0 && errno == EINTR) continue;
            if (n <= 0) break;
            buf.append(t.data(), n); b.bytes += n; parse(); if (off > 200000) { buf.erase(0, off); off = 0; }
            if (pause && r.chance(30)) vh::msleep(0.2 * pause);
        }
        CHECK(off == buf.size(), "truncated", "%s ended within a line: %s", name(), vh::show(buf.substr(off), 120).c_str());
        eof = true;
    }
    const char *name() const { return fd == 1 ? "standard output" : "standard error"; }
    // returns false if more bytes are needed
    bool one()
    {
        if (off == buf.size()) return false;
        const char *lead = fd == 1 ? "- [INFO] [" : "- [ERROR] ["; size_t ll = strlen(lead), have = std::min(ll, buf.size() - off);
        auto ctx = [&] { return vh::show(buf.substr(off, 160), 160); };
        CHECK(buf.compare(off, have, lead, have) == 0, "header", "%s: a header \"%s...\" was due, got %s", name(), lead, ctx().c_str());
        const char *mid = "] [LWP "; size_t p = buf.find(mid, off + ll), nl = buf.find('\n', off + ll);
        if (p == std::string::npos || nl < p) { CHECK(nl == std::string::npos && buf.size() - off < 200, "header", "%s: incomplete header: %s", name(), ctx().c_str()); return false; }
        size_t q = p + strlen(mid), e = q; while (e < buf.size() && isdigit(static_cast<unsigned char>(buf[e]))) ++e;
        if (e + 2 > buf.size()) return false;
        CHECK(e > q && buf[e] == ']' && buf[e + 1] == ' ', "header", "%s: malformed header: %s", name(), ctx().c_str());
        long tid = atol(buf.c_str() + q); size_t at = e + 2; std::lock_guard<std::mutex> _(b.mx); bool known = false;
        for (auto &o : b.order)
        {
            if (o.first != tid) continue;
            known = true; Writer &w = b.writers[o.second]; if (w.next[fd] == w.want[fd].size()) continue;
            const std::string &x = w.want[fd][w.next[fd]]; size_t m = std::min(x.size(), buf.size() - at); bool full = m == x.size();
            if (buf.compare(at, m, x, 0, m) != 0)
            {
                size_t i = 0; while (buf[at + i] == x[i]) ++i;
                vh::viol("line", "%s: line %zu of thread %ld (writer %zu) differs at byte %zu of %zu: got %s, logged %s", name(), w.next[fd], tid, o.second, i, x.size(), vh::show(buf.substr(at + (i > 20 ? i - 20 : 0), 60), 60).c_str(), vh::show(x.substr(i > 20 ? i - 20 : 0, 60), 60).c_str());
            }
            if (!full) { ++b.partial; return false; }
            ++w.next[fd]; b.matched.fetch_add(1); off = at + x.size(); if (b.last_writer[fd] != o.second) { b.last_writer[fd] = o.second; ++b.switches; }
            return true;
        }
        CHECK(known, "wrong-thread", "%s: a line by thread %ld, which logged nothing: %s", name(), tid, ctx().c_str());
        vh::viol("surplus", "%s: a line more than thread %ld has logged: %s", name(), tid, ctx().c_str());
    }
    void parse() { while (one()) ; }
};
void check_complete(Book &b)
{
    for (size_t i = 0; i < b.writers.size(); ++i) for (int fd = 1; fd <= 2; ++fd)
        CHECK(b.writers[i].next[fd] == b.writers[i].want[fd].size(), "missing", "%s: %zu of %zu lines of writer %zu arrived, next %s", fd == 1 ? "standard output" : "standard error", b.writers[i].next[fd], b.writers[i].want[fd].size(), i, vh::show(b.writers[i].want[fd][b.writers[i].next[fd]]).c_str());
}
void account(Book &b, uint64_t k, uint64_t salt)
{
    vh::ev("lines", b.matched.load()); vh::ev("output_bytes", b.bytes.load()); vh::ev("writer_switches", b.switches); vh::ev("lines_in_pieces", b.partial);
    if (b.switches > b.writers.size()) vh::ev("interleaved_cases");
    if (k % 64 < 1) vh::sample(vh::strf("%zu writers, %llu lines, %llu bytes, %llu switches", b.writers.size(), (unsigned long long)b.matched.load(), (unsigned long long)b.bytes.load(), (unsigned long long)b.switches));
    vh::distinct(vh::mix(vh::mix(salt, b.matched.load() * 131 + b.bytes.load()), b.switches));
}
// waits for progress of the output
void await(Book &b, uint64_t n, const char *what)
{
    uint64_t last = ~0ull; double waited = 0, step = 0.2;
    while (b.matched.load() < n)
    {
        uint64_t x = b.bytes.load(); if (x != last) { last = x; waited = 0; vh::tick(); }
        if (waited > 20000) { std::lock_guard<std::mutex> _(b.mx); if (b.matched.load() < n) vh::viol("missing", "%s: %llu of %llu completed lines arrived within 20 s", what, (unsigned long long)b.matched.load(), (unsigned long long)n); }
        vh::msleep(step); waited += step; if (step < 5) step *= 1.3; vh::tick();
    }
}
struct Pipes
{
    int rd[3], wr[3];
    Pipes(Rng &r)
    {
        for (int fd = 1; fd <= 2; ++fd)
        {
            int p[2]; if (vh::sys_pipe(p, O_CLOEXEC)) vh::broken("pipe"); if (r.chance(60)) fcntl(p[1], F_SETPIPE_SZ, 4096);
            if (r.chance(30)) { fcntl(p[1], F_SETFL, O_WRONLY | O_NONBLOCK); vh::ev("nonblocking_output"); }
            rd[fd] = p[0]; wr[fd] = p[1];
        }
    }
    void place() { for (int fd = 1; fd <= 2; ++fd) { syscall(SYS_dup3, wr[fd], fd, 0); vh::sys_close(wr[fd]); } }
    void drop() { for (int fd = 1; fd <= 2; ++fd) vh::sys_close(wr[fd]); }
    void restore() { for (int fd = 1; fd <= 2; ++fd) syscall(SYS_dup3, saved[fd], fd, 0); }
};
inj::Rates rates(Rng &r)
{
    inj::Rates x; x.std_fds = true;
    if (r.chance(60)) { x.shorten = r.below(800); x.eintr = r.below(300); x.eagain = r.below(200); }
    if (r.chance(40)) { x.delay = r.below(200); x.delay_us = r.below(500); x.mutex_delay = r.below(100); }
    if (r.chance(40)) x.spurious = r.chance(50) ? 50 : r.below(900);
    return x;
}
void case_in_process(uint64_t k, Rng &r)
{
    bool global = r.chance(40), pingpong = r.chance(15); int T = pingpong ? 1 + r.below(2) : r.chance(20) ? 1 : 2 + r.below(r.chance(20) ? 24 : 6); int fds = global ? 3 : r.chance(50) ? 3 : 1 + r.below(2);
    bool backlog = !pingpong && r.below(120) == 0, flood = !pingpong && r.chance(4); size_t big = flood ? 30000 : r.chance(25) ? 60000 : r.chance(50) ? 6000 : 0; int per = flood ? 30 : r.chance(5) ? 0 : 1 + r.below(pingpong ? 10 : big == 60000 ? 6 : r.chance(20) ? 120 : 20);
    Book b; for (int t = 0; t < T; ++t) b.writers.push_back(make_writer(r, pingpong || flood ? per : r.below(per + 1), fds, big, flood));
    // megabytes wait while nothing is read
    if (backlog)
    {
        std::string block = r.bytes(1 + r.below(500000)); for (auto &c : block) if (c == '\n') c = ' '; size_t each = (4 + r.below(30)) * 1000000 / T;
        for (int t = 0; t < T; ++t) for (size_t n = 0; n < each; n += block.size() + 10000) { Line l; l.fd = fds == 3 ? 1 + (t & 1) : fds; Piece q; q.kind = 1; q.s = block.substr(r.below(block.size())) + vh::strf("%zu of %d", n, t); l.text = q.s + "\n"; l.pieces.push_back(q); b.writers[t].lines.push_back(l); b.writers[t].want[l.fd].push_back(l.text); }
        vh::ev("backlogs");
    }
    bool slow = flood || (!backlog && r.chance(40)); if (flood) vh::ev("floods"); Pipes p(r); p.place(); Collector c1(b, 1, p.rd[1], r, slow, backlog), c2(b, 2, p.rd[2], r, slow, backlog); if (slow) vh::ev("slow_readers");
    inj::random(r.next(), rates(r));
    std::unique_ptr<async_logger> own[3]; async_logger *lg[3] = {nullptr, &clog2::info, &clog2::error};
    if (!global) for (int fd = 1; fd <= 2; ++fd) { if (fds & fd) own[fd] = std::make_unique<async_logger>(fd); lg[fd] = own[fd].get(); }
    uint64_t all = b.total(); bool stagger = r.chance(20); std::atomic<int> running{T};
    {
        std::vector<std::thread> th;
        for (int t = 0; t < T; ++t)
        {
            th.emplace_back([&, t] {
                b.started(t); size_t n = 0;
                for (auto &l : b.writers[t].lines)
                {
                    log_line(l, lg); vh::tick(); n += 1 + (l.inner != nullptr);
                    if (pingpong && T == 1) { await(b, n, "logging line by line"); vh::ev("line_by_line"); }
                }
                running.fetch_sub(1, std::memory_order_relaxed);
            });
            if (stagger) { th.back().join(); }
        }
        for (auto &t : th) if (t.joinable()) t.join();
    }
    c1.hold = c2.hold = false;
    if (global) { await(b, all, "the global loggers"); vh::ev("global_cases"); }
    else { for (int fd = 2; fd >= 1; --fd) own[r.chance(50) ? fd : 3 - fd].reset(); own[1].reset(); own[2].reset(); vh::ev("destroyed_after_last_line"); vh::tick(); }
    inj::random(0, inj::Rates()); p.restore();
    c1.thr.join(); c2.thr.join(); check_complete(b);
    for (int fd = 1; fd <= 2; ++fd) vh::sys_close(p.rd[fd]);
    account(b, k, T * 4 + fds);
}
// the destination cannot be written: everything still ends
void case_broken(uint64_t, Rng &r)
{
    int kind = r.below(3); int p[2] = {-1, -1}, to = -1;
    if (kind == 0) to = ::open("/dev/full", O_WRONLY | O_CLOEXEC); else if (kind == 1) { vh::sys_pipe(p, O_CLOEXEC); vh::sys_close(p[0]); to = p[1]; } else to = ::open("/dev/null", O_RDONLY | O_CLOEXEC);
    if (to < 0) vh::broken("open");
    int fd = 1 + r.below(2); syscall(SYS_dup3, to, fd, 0); vh::sys_close(to);
    {
        async_logger g(fd); async_logger *lg[3] = {nullptr, &g, &g}; int T = 1 + r.below(4); std::vector<std::thread> th;
        for (int t = 0; t < T; ++t) th.emplace_back([&, s = r.next()] { Rng q(s); Writer w = make_writer(q, 10, fd, 3000); for (auto &l : w.lines) { log_line(l, lg); vh::tick(); } });
        for (auto &t : th) t.join();
    }
    syscall(SYS_dup3, saved[fd], fd, 0); vh::ev("unwritable_output");
}
// process exit: the plan of the child is generated from its seed on both sides
struct Plan { std::vector<Writer> w; int threads; bool at_exit; int how; };
Plan plan(uint64_t s)
{
    Rng r(s); Plan p; p.threads = r.chance(30) ? 0 : 1 + r.below(6); p.at_exit = r.chance(40); p.how = r.below(3); size_t big = r.chance(30) ? 40000 : 2000;
    for (int i = 0; i < p.threads + 2; ++i) p.w.push_back(make_writer(r, i == p.threads + 1 && !p.at_exit ? 0 : r.below(r.chance(20) ? 100 : 15), 3, big));
    return p;
}
Plan child_plan; async_logger *globals[3];
void report(int w) { char b[64]; int n = snprintf(b, sizeof b, "%ld %d\n", (long)syscall(SYS_gettid), w); if (vh::sys_write(3, b, n) != n) _exit(90); }
[[noreturn]] void child_main(uint64_t s)
{
    child_plan = plan(s); globals[1] = &clog2::info; globals[2] = &clog2::error; Plan &p = child_plan; Rng r(s + 1); inj::random(s + 2, rates(r));
    if (p.at_exit) atexit([] { Plan &p = child_plan; int w = p.threads + 1; report(w); for (auto &l : p.w[w].lines) log_line(l, globals); });
    {
        std::vector<std::thread> th;
        for (int i = 0; i < p.threads; ++i) th.emplace_back([&p, i] { report(i); for (auto &l : p.w[i].lines) log_line(l, globals); });
        for (auto &t : th) t.join();
    }
    report(p.threads); for (auto &l : p.w[p.threads].lines) log_line(l, globals);
    if (p.how == 0) std::thread([] { exit(0); }).join();
    exit(0);
}
void case_exit(uint64_t k, Rng &r)
{
    uint64_t s = r.next(); Plan pl = plan(s); Book b; b.writers = pl.w; Pipes p(r); int m[2]; if (vh::sys_pipe(m, O_CLOEXEC)) vh::broken("pipe");
    std::string env = vh::strf("VH_LOGCHILD=%llu", (unsigned long long)s); std::string as, ts; std::vector<std::string> keep{env};
    for (const char *n : {"ASAN_OPTIONS", "UBSAN_OPTIONS", "TSAN_OPTIONS", "PATH"}) if (const char *v = getenv(n)) keep.push_back(std::string(n) + "=" + v);
    std::vector<char *> envp; for (auto &e : keep) envp.push_back(const_cast<char *>(e.c_str())); envp.push_back(nullptr);
    std::string sc = vh::scratch; char *argv[] = {const_cast<char *>("logchild"), const_cast<char *>("--out"), const_cast<char *>("/dev/null"), const_cast<char *>("--scratch"), const_cast<char *>(sc.c_str()), nullptr};
    int err = saved[2];
    pid_t pid = vh::spawn([&]() -> int {
        int mm = fcntl(m[1], F_DUPFD, 600), e2 = fcntl(err, F_DUPFD, 600), w1 = fcntl(p.wr[1], F_DUPFD, 600), w2 = fcntl(p.wr[2], F_DUPFD, 600);
        if (dup2(w1, 1) < 0 || dup2(w2, 2) < 0 || dup2(mm, 3) < 0 || dup2(e2, 4) < 0) return 91;
        for (int i = 5; i < 1000; ++i) syscall(SYS_close, i);
        execve("/proc/self/exe", argv, envp.data()); return 92;
    });
    p.drop(); vh::sys_close(m[1]);
    // the thread numbers first arrive here, so output is judged afterwards
    std::string out[3], ids; std::atomic<uint64_t> got{0}; bool slow = r.chance(40); std::vector<std::thread> th;
    auto rd = [&](int fd, std::string &to) { std::vector<char> t(4096); ssize_t n; while ((n = vh::sys_read(fd, t.data(), t.size())) > 0 || (n < 0 && errno == EINTR)) { if (n > 0) { to.append(t.data(), n); got += n; } if (slow) vh::msleep(0.3); } };
    th.emplace_back([&] { rd(p.rd[1], out[1]); }); th.emplace_back([&] { rd(p.rd[2], out[2]); }); th.emplace_back([&] { rd(m[0], ids); });
    int st = 0; double still = 0; uint64_t last = ~0ull;
    while (true)
    {
        pid_t x = syscall(SYS_wait4, pid, &st, WNOHANG, nullptr); if (x == pid) break;
        if (got != last) { last = got; still = 0; }
        if (still > 25000) { kill(pid, SIGKILL); vh::viol("exit-hang", "a process that has logged %llu lines does not end", (unsigned long long)b.total()); }
        vh::msleep(1); still += 1; vh::tick();
    }
    for (auto &t : th) t.join();
    CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "exit-status", "the logging process ended with wait status 0x%x instead of exiting with 0; %s", st, vh::show(out[2].size() > 200 ? out[2].substr(out[2].size() - 200) : out[2], 200).c_str());
    for (size_t i = 0; i < ids.size();) { long tid; int w; if (sscanf(ids.c_str() + i, "%ld %d", &tid, &w) == 2) b.order.push_back({tid, static_cast<size_t>(w)}); size_t n = ids.find('\n', i); if (n == std::string::npos) break; i = n + 1; }
    for (int fd = 1; fd <= 2; ++fd)
    {
        int q[2]; vh::sys_pipe(q, O_CLOEXEC); vh::sys_close(q[1]); Rng z(1); Collector c(b, fd, q[0], z, false); c.thr.join();     // (empty run, then the whole text)
        c.buf = out[fd]; c.parse(); CHECK(c.off == c.buf.size(), "truncated", "%s ended within a line at process exit: %s", c.name(), vh::show(c.buf.substr(c.off), 120).c_str()); vh::sys_close(q[0]);
        vh::sys_close(p.rd[fd]); b.bytes += out[fd].size();
    }
    vh::sys_close(m[0]); check_complete(b); vh::ev("process_exits"); if (pl.at_exit) vh::ev("logged_in_exit_handler"); account(b, k, 77);
}
}
void harness_init()
{
    if (const char *c = getenv("VH_LOGCHILD")) { __sanitizer_set_report_fd(reinterpret_cast<void *>(4)); child_main(strtoull(c, nullptr, 10)); }
    for (int fd = 1; fd <= 2; ++fd) saved[fd] = fcntl(fd, F_DUPFD_CLOEXEC, 700);
    __sanitizer_set_report_fd(reinterpret_cast<void *>(static_cast<long>(saved[2])));
}
void harness_fini() {}
void run_case(uint64_t k, Rng &r)
{
    int th0 = vh::thread_count(); int x = r.below(100);
    if (vh::mode == "exit") case_exit(k, r); else if (x < 4) case_broken(k, r); else case_in_process(k, r);
    vh::must("thread-leak", "the threads of destroyed loggers ending", [&] { return vh::thread_count() <= th0; });
}
