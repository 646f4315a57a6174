// C15: timed scheduler, on a virtual clock (long histories) and on the real clocks
#include "vh.h"
#include "cppev/scheduler.h"
#include <sys/syscall.h>
#include <cmath>
using namespace cppev;
using vh::Rng;
typedef std::chrono::nanoseconds ns;

extern "C" { extern int (*vh_nanosleep_hook)(const timespec *, timespec *); }
namespace
{
std::atomic<int64_t> skipped{0}; std::atomic<bool> virt{false}; std::atomic<uint64_t> sleeps{0}; Rng *vr; std::atomic<int> sched_tid{0}; int over_percent, eintr_percent; std::atomic<uint64_t> brake{0};
int64_t real_ns() { timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec * 1000000000ll + ts.tv_nsec; }
int64_t vbase = 1700000000123456789ll, rbase;
int64_t vnow() { return vbase + skipped.load(std::memory_order_relaxed) + real_ns() - rbase; }
template <bool Steady> struct VClock
{
    typedef ns duration; typedef ns::rep rep; typedef ns::period period; typedef std::chrono::time_point<VClock> time_point; static constexpr bool is_steady = Steady;
    static time_point now() noexcept { return time_point(ns(vnow())); }
};
int hook(const timespec *req, timespec *rem)
{
    if (!virt.load(std::memory_order_relaxed)) return -2;
    // only the scheduler's thread sleeps through the C library
    int64_t n = req->tv_sec * 1000000000ll + req->tv_nsec; sleeps.fetch_add(1, std::memory_order_relaxed);
    if (eintr_percent && n > 2 && vr->chance(eintr_percent))
    {
        int64_t part = vr->below(n); skipped.fetch_add(part, std::memory_order_relaxed); n -= part;
        if (rem) { rem->tv_sec = n / 1000000000; rem->tv_nsec = n % 1000000000; }
        errno = EINTR; return -1;
    }
    int64_t over = vr->chance(over_percent) ? vr->below(vr->chance(20) ? 3 * n + 1 : n / 4 + 50) : 0;
    skipped.fetch_add(n + over, std::memory_order_relaxed); if (uint64_t b = brake.load(std::memory_order_relaxed)) if (sleeps.load(std::memory_order_relaxed) > b) vh::msleep(5);
    if ((sleeps.load(std::memory_order_relaxed) & 1023) == 0) vh::tick();
    return 0;
}
struct Job { double f; priority p; int64_t T; int64_t expected = 0; uint64_t calls = 0; bool started = false; };
struct Mon
{
    std::vector<Job> jobs; int64_t last = -1, s = -1; int lastp = 0; int tid = 0; bool began = false, exited = false; int inits = 0, exits = 0; int64_t init_end = 0;
    std::function<int64_t()> now; std::function<void(Mon &, size_t)> slow; std::atomic<uint64_t> calls{0}; std::atomic<int64_t> due{0}; std::atomic<bool> gone{false};
    std::string set() { std::string r; for (auto &j : jobs) r += vh::strf(" (f %.9g T %lld p %d)", j.f, (long long)j.T, (int)j.p); return r; }
    void call(size_t i, int64_t st)
    {
        Job &j = jobs[i]; int me = syscall(SYS_gettid); int64_t t = now();
        CHECK(!gone.load(std::memory_order_relaxed), "after-end", "a timed task is called after the scheduler was destroyed");
        CHECK(exits == 0, "after-exit", "a timed task is called after an exit task"); CHECK(inits == want_inits, "before-init", "a timed task is called before the start tasks ran (%d of %d)", inits, want_inits);
        CHECK(!tid || tid == me, "thread", "timed tasks are called on two threads"); tid = me;
        CHECK(t >= st, "early", "task of frequency %.9g is called %lld ns before its time stamp", j.f, (long long)(st - t));
        if (s < 0) { s = st; }
        if (!j.started) { j.started = true; j.expected = s; }
        CHECK(st == j.expected, "stamp", "task of frequency %.9g: call %llu has the time stamp start%+lld ns, start%+lld was due; set%s", j.f, (unsigned long long)j.calls, (long long)(st - s), (long long)(j.expected - s), set().c_str());
        CHECK(st >= last, "order", "a call with an earlier time stamp follows"); 
        if (st == last) CHECK((int)j.p <= lastp, "priority", "at the same time stamp (start%+lld) a task of priority %d is called after one of %d; set%s", (long long)(st - s), (int)j.p, lastp, set().c_str());
        else if (last >= 0)
            for (auto &o : jobs) CHECK(o.started && o.expected >= st, "missing", "task of frequency %.9g was not called at start%+lld; set%s", o.f, (long long)(o.expected - s), set().c_str());
        last = st; lastp = j.p; j.expected += j.T; ++j.calls;
        int64_t d = INT64_MAX; for (auto &o : jobs) d = std::min(d, o.started ? o.expected : st); due.store(d, std::memory_order_relaxed);
        calls.fetch_add(1, std::memory_order_relaxed); if (slow) slow(*this, i);
    }
    int want_inits = 0, want_exits = 0;
};
const double FR[] = {1, 2, 3, 5, 7, 10, 24, 25, 29.97, 30, 50, 59.94, 60, 100, 144, 0.5, 1.5, 2.5, 1000, 999, 997, 0.3333, 333, 440, 8, 16, 64, 128, 1024};
double pick_f(Rng &r, double lo, double hi)
{
    double f; do { switch (r.below(4)) { case 0: f = FR[r.below(29)]; break; case 1: f = 1 + r.below(300); break; case 2: f = (1 + r.below(100000)) / 100.0; break; default: f = lo * std::exp(std::log(hi / lo) * (r.below(1000000) / 1e6)); } } while (f < lo || f > hi);
    return f;
}
template <typename C> struct Run
{
    Mon m; std::unique_ptr<timed_scheduler<C>> sch; bool align; int64_t t0 = 0; bool single;
    static int64_t cn() { return ns(C::now().time_since_epoch()).count(); }
    void start(Rng &r, double lo, double hi, size_t n)
    {
        m.now = cn; align = r.chance(60); single = n == 1 && r.chance(40); double base = pick_f(r, lo, hi);
        for (size_t i = 0; i < n; ++i)
        {
            Job j; j.f = r.chance(20) && i ? m.jobs[r.below(i)].f : r.chance(25) ? std::min(hi, base * (1 + r.below(5))) : pick_f(r, lo, hi); j.p = single ? p0 : (priority)(p6 + r.below(7)); j.T = 1000000000 / j.f; m.jobs.push_back(j);
        }
        std::vector<std::tuple<double, priority, timed_task_handler>> v; for (size_t i = 0; i < n; ++i) v.emplace_back(m.jobs[i].f, m.jobs[i].p, [this, i](const ns &st) { m.call(i, st.count()); });
        std::vector<init_task_handler> a; std::vector<exit_task_handler> b;
        if (!single)
        {
            m.want_inits = r.below(4); m.want_exits = r.below(4);
            for (int i = 0; i < m.want_inits; ++i) a.push_back([this] { CHECK(m.calls.load(std::memory_order_relaxed) == 0, "init-late", "a start task runs after timed calls"); ++m.inits; CHECK(m.inits <= m.want_inits, "init-twice", "start tasks run more than once"); m.init_end = cn(); });
            for (int i = 0; i < m.want_exits; ++i) b.push_back([this] { ++m.exits; CHECK(m.exits <= m.want_exits, "exit-twice", "exit tasks run more than once"); CHECK(!m.gone.load(std::memory_order_relaxed), "after-end", "an exit task runs after the scheduler was destroyed"); });
        }
        t0 = cn(); m.init_end = t0;
        if (single) { if (align && r.chance(50)) sch = std::make_unique<timed_scheduler<C>>(m.jobs[0].f, timed_task_handler([this](const ns &st) { m.call(0, st.count()); })); else sch = std::make_unique<timed_scheduler<C>>(m.jobs[0].f, timed_task_handler([this](const ns &st) { m.call(0, st.count()); }), align); }
        else sch = std::make_unique<timed_scheduler<C>>(v, a, b, align);
    }
    void end(const char *clock)
    {
        std::atomic<bool> back{false}; std::thread dog([&] { double t = 0; while (!back) { vh::msleep(0.5); t += 0.5; if (t < 22000) vh::tick(); else vh::viol("destroy-hang", "destroying the scheduler does not return; set%s", m.set().c_str()); } });
        sch.reset(); m.gone = true; back = true; dog.join();
        CHECK(m.inits == m.want_inits, "init", "%d of %d start tasks ran", m.inits, m.want_inits); CHECK(m.exits == m.want_exits, "exit", "%d of %d exit tasks ran", m.exits, m.want_exits);
        if (m.s >= 0)
        {
            if (align) CHECK(m.s % 1000000000 == 0, "alignment", "the start %lld is not a whole second", (long long)m.s);
            CHECK(m.s >= m.init_end, "start-early", "the common start lies %lld ns before the construction and start tasks ended", (long long)(m.init_end - m.s));
            if (clock) CHECK(m.s - m.init_end <= 1000000000ll * (align ? 6 : 5), "start-late", "the common start lies %.3f s after the construction", (m.s - m.init_end) / 1e9);
            // what was due before the last stamp has been called
            for (auto &j : m.jobs) CHECK(j.started ? j.expected >= m.last : m.last == m.s, "missing", "task of frequency %.9g was not called at start%+lld; set%s", j.f, (long long)(j.expected - m.s), m.set().c_str());
        }
        vh::ev("timed_calls", m.calls.load()); vh::ev("schedulers"); if (m.jobs.size() > 1) vh::ev("several_tasks"); if (align) vh::ev("aligned");
        for (size_t i = 0; i < m.jobs.size(); ++i) for (size_t j = 0; j < i; ++j) if (m.jobs[i].p != m.jobs[j].p && m.jobs[i].T && (m.jobs[j].T % m.jobs[i].T == 0 || m.jobs[i].T % m.jobs[j].T == 0)) vh::ev("coinciding_pairs");
        uint64_t h = 7; for (auto &j : m.jobs) h = vh::mix(h, j.T * 32 + j.p); vh::distinct(vh::mix(h, m.calls.load() + m.want_inits * 4 + m.want_exits));
    }
};
template <typename C> void case_virtual(uint64_t k, Rng &r)
{
    vbase = 1000000000ll * (1 + r.below(2000000000)) + (r.chance(30) ? 0 : r.below(1000000000)); rbase = real_ns(); skipped = 0;
    Rng own(r.next()); vr = &own; over_percent = r.chance(40) ? r.below(100) : 0; eintr_percent = r.chance(30) ? r.below(60) : 0;
    // from days between two calls to a call each nanosecond
    bool extreme = r.chance(15); brake = 0; sleeps = 0; if (extreme) { vbase = r.below(1000000000) * 1000000000ll + r.below(1000000000); over_percent = 0; }
    Run<C> x; size_t n = r.chance(30) ? 1 : 1 + r.below(r.chance(20) ? 20 : 6); uint64_t goal = r.chance(5) ? 0 : r.chance(20) ? 20000 : 1 + r.below(3000);
    int slow = r.chance(40) ? r.below(60) : 0; Rng hr(r.next());
    if (slow) x.m.slow = [&](Mon &m, size_t i) { if (hr.chance(slow)) skipped.fetch_add(hr.below(hr.chance(5) ? 20 * m.jobs[i].T + 1 : 2 * m.jobs[i].T + 1), std::memory_order_relaxed); };
    if (extreme) { goal = std::min<uint64_t>(goal, 300); brake = 4 * goal + 50; }
    bool wide = r.chance(50), slowest = r.chance(50); virt = true;
    if (extreme) x.start(r, slowest ? 1e-5 : 1e-3, slowest ? 1e-2 : 1e9, n); else x.start(r, wide ? 0.001 : 1, wide ? 1e6 : 2000, n);
    uint64_t last = 0; double still = 0, all = 0;
    while (x.m.calls.load() < goal)
    {
        vh::msleep(0.05); all += 0.05; uint64_t c = x.m.calls.load(); if (c != last) { last = c; still = 0; vh::tick(); } else still += 0.05;
        if (all > 3000 && c && still < 3000) break;       // does not sleep through nanosleep: real time passes
        if (still > 6000 && still < 12000) vh::tick();
        if (still > 12000) { if (vnow() >= (c ? x.m.due.load() : x.t0 + 2000000000) + 5000000000ll || all > 60000) vh::viol("stalled", "no timed call for 12 s, although tasks are due for %.3f s; set%s", (vnow() - x.m.due.load()) / 1e9, x.m.set().c_str()); vh::tick(); }
    }
    if (extreme) vh::ev("extreme_frequencies");
    // (a task whose period is long in real time must not delay the end: virtual sleep goes on)
    x.end(nullptr); virt = false;
    vh::ev("virtual_seconds", (x.m.last - x.m.s) / 1000000000); vh::ev("virtual_schedulers"); if (slow) vh::ev("slow_handlers");
    if (k % 64 < 2) vh::sample(vh::strf("virtual clock, %llu calls over %.3f s:", (unsigned long long)x.m.calls.load(), (x.m.last - x.m.s) / 1e9) + x.m.set().substr(0, 300));
}
void case_real(uint64_t, Rng &r)
{
    virt = false; int n = 6 + r.below(10); std::vector<std::unique_ptr<Run<std::chrono::system_clock>>> a; std::vector<std::unique_ptr<Run<std::chrono::steady_clock>>> b;
    for (int i = 0; i < n; ++i)
    {
        size_t t = r.chance(40) ? 1 : 1 + r.below(5); double hi = r.chance(20) ? 5000 : 300;
        if (r.chance(60)) { a.push_back(std::make_unique<Run<std::chrono::system_clock>>()); a.back()->start(r, 4, hi, t); } else { b.push_back(std::make_unique<Run<std::chrono::steady_clock>>()); b.back()->start(r, 4, hi, t); }
    }
    int ms = r.chance(15) ? 0 : 1050 + r.below(900); for (int i = 0; i < ms; i += 10) { vh::msleep(10); vh::tick(); }
    auto fin = [&](auto &v, const char *c) {
        for (auto &x : v)
        {
            double waited = 0;
            if (ms) while (x->m.calls.load() == 0) { vh::msleep(5); vh::tick(); waited += 0.005; if (waited > 15) vh::viol("stalled", "no timed call within 15 s; set%s", x->m.set().c_str()); }
            // nothing is missing that was due long ago
            if (ms) { while (x->m.now() - x->m.due.load() > 4000000000ll) { vh::msleep(5); vh::tick(); waited += 0.005; if (waited > 15) vh::viol("stalled", "tasks due for more than 4 s are not called; set%s", x->m.set().c_str()); } }
            x->end(c); vh::ev(c);
        } };
    fin(a, "system_clock_schedulers"); fin(b, "steady_clock_schedulers");
}
}
void harness_init() { vh_nanosleep_hook = hook; rbase = real_ns(); }
void harness_fini() {}
void run_case(uint64_t k, Rng &r)
{
    int th0 = vh::thread_count();
    if (vh::mode == "real") case_real(k, r); else if (r.chance(60)) case_virtual<VClock<false>>(k, r); else case_virtual<VClock<true>>(k, r);
    vh::must("thread-leak", "the thread of a destroyed scheduler ending", [&] { return vh::thread_count() <= th0; });
}
