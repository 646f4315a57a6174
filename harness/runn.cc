// C14: runnable and thread_pool
#include "vh.h"
#include "cppev/runnable.h"
#include "cppev/thread_pool.h"
#include <sys/syscall.h>
#include <sys/wait.h>
#include <signal.h>
#include <pthread.h>
using namespace cppev;
using vh::Rng;
static int tid() { return syscall(SYS_gettid); }

// ---------------------------------------------------------------- signals seen, by thread
static std::atomic<uint64_t> sig_total{0}; static std::atomic<int> sig_tid{0}, sig_no{0};
static thread_local std::atomic<uint64_t> my_sigs{0};
static void on_sig(int n) { sig_tid = tid(); sig_no = n; my_sigs.fetch_add(1); sig_total.fetch_add(1); }

// ---------------------------------------------------------------- bodies
struct Plan { int kind = 0; int work = 0; };
enum { QUICK, GATE, CANCEL_POINT, CANCEL_LATE, CANCEL_QUICK_END, SIGNALS };
struct Unwound { std::atomic<int> *n; ~Unwound() { n->fetch_add(1, std::memory_order_relaxed); } };
struct Base : runnable
{
    std::atomic<int> bodies{0}, ended{0}, at{0}, unwound{0}, steps{0}, beyond{0}, id{0}; std::atomic<bool> gate{false}, spin{true}; std::atomic<uint64_t> sigs{0};
    uint64_t in = 0, out = 0; Plan p; int cp = 0;
    void run_impl() override
    {
        CHECK(bodies.fetch_add(1, std::memory_order_relaxed) == 0, "body-twice", "the body of a runnable is executed again");
        id.store(tid(), std::memory_order_relaxed);
        switch (p.kind)
        {
        case QUICK: if (p.work) vh::msleep(p.work / 100.0); break;
        case GATE: at = 1; while (!gate.load(std::memory_order_acquire)) vh::msleep(0.05); break;
        case SIGNALS: at = 1; while (!gate.load(std::memory_order_acquire)) { sigs = my_sigs.load(); vh::msleep(0.02); } sigs = my_sigs.load(); break;
        case CANCEL_POINT:
        {
            Unwound u{&unwound}; at = 1;
            while (true)
            {
                steps.fetch_add(1, std::memory_order_relaxed);
                switch (cp)
                {
                case 0: { timespec ts{1, 0}; nanosleep(&ts, nullptr); break; }
                case 1: ::poll(nullptr, 0, 1000); break;
                case 2: ::pause(); break;
                case 3: pthread_testcancel(); sched_yield(); break;
                default: ::sleep(1);
                }
            }
            beyond = 1;
            break;
        }
        case CANCEL_LATE:
        {
            // no cancellation point until told so: the thread has to go on until there
            Unwound u{&unwound}; at = 1;
            while (spin.load(std::memory_order_acquire)) { steps.fetch_add(1, std::memory_order_relaxed); syscall(SYS_sched_yield); }
            at = 2; out = vh::mix(in, 5);
            while (true) pthread_testcancel();
            break;
        }
        default: break;
        }
        out = vh::mix(in, 9);
        ended.store(1, std::memory_order_relaxed);
    }
};
static void arm(Base &b, Rng &r, int kind) { b.p.kind = kind; b.p.work = r.chance(50) ? 0 : r.below(60); b.in = r.next(); b.cp = r.below(5); }
template <typename F> static void bounded(const char *what, F f)
{
    std::atomic<bool> back{false};
    std::thread dog([&] { double t = 0; while (!back) { vh::msleep(0.2); t += 0.2; if (t < 20000) vh::tick(); else vh::viol("hang", "%s does not return", what); } });
    f(); back = true; dog.join();
}
static void joined_ok(Base &b, int me, const char *how)
{
    CHECK(b.bodies.load(std::memory_order_relaxed) == 1, "body-count", "%s: the body ran %d times", how, b.bodies.load());
    CHECK(b.ended.load(std::memory_order_relaxed) == 1, "join-early", "%s returned before the body finished", how);
    CHECK(b.out == vh::mix(b.in, 9), "effects", "the effects of the body are not visible after %s", how);
    CHECK(b.id != me && b.id != 0, "thread", "the body did not run on a thread of its own");
}
static bool wait_any(runnable &b, int unit, int64_t us)
{
    switch (unit)
    {
    case 0: return b.wait_for(std::chrono::microseconds(us));
    case 1: return b.wait_for(std::chrono::nanoseconds(us * 1000));
    case 2: return b.wait_for(std::chrono::milliseconds(us / 1000));
    case 3: return b.wait_for(std::chrono::duration<double>(us / 1e6));
    case 4: return b.wait_for(std::chrono::duration<float, std::milli>(us / 1e3f));
    default: return b.wait_for(std::chrono::seconds(us / 1000000));
    }
}
static void case_basic(Rng &r)
{
    int n = 1 + r.below(4), me = tid(); std::vector<std::unique_ptr<Base>> v;
    for (int i = 0; i < n; ++i) { v.push_back(std::make_unique<Base>()); arm(*v[i], r, QUICK); }
    for (auto &b : v) CHECK(b->bodies == 0, "body-early", "the body ran before run");
    for (auto &b : v) { b->run(); if (r.chance(30)) vh::msleep(0.1); }
    // finished ones are reported by a long wait
    for (auto &b : v) if (r.chance(60))
    {
        bool w = false; bounded("a timed wait", [&] { w = wait_any(*b, r.below(6), 15000000); });
        CHECK(w, "wait-false", "a wait of 15 s reports that a short body has not finished"); CHECK(b->ended.load() == 1, "wait-true", "a timed wait reports a body that is running as finished");
        vh::ev("waits_true");
    }
    int i = 0; for (auto &b : v) { bounded("join", [&] { b->join(); }); joined_ok(*b, me, "join"); for (auto &o : v) if (o != b) CHECK(o->id != b->id || o->id == 0 || o->ended.load(), "thread", "two runnables on one thread"); CHECK(b->wait_for(std::chrono::seconds(0)), "wait-false", "a finished body is reported as not finished"); ++i; }
    vh::ev("runs", n);
}
static void case_wait(Rng &r)
{
    int th0 = vh::thread_count(); Base b; arm(b, r, GATE); int me = tid(); b.run(); int rounds = 1 + r.below(4); std::atomic<bool> opened{false};
    for (int i = 0; i < rounds; ++i)
    {
        int unit = r.below(6); int64_t us = r.chance(30) ? 0 : r.chance(10) ? -5000 : r.below(6000); double span = unit == 2 ? us / 1000 * 1e-3 : unit == 5 ? us / 1000000 * 1.0 : us * 1e-6;
        double t0 = vh::now(); bool w = false; bounded("a timed wait", [&] { w = wait_any(b, unit, us); }); double t = vh::now() - t0;
        CHECK(!w, "wait-true", "a timed wait reports a body that is running as finished");
        CHECK(t >= span - 0.0002, "wait-short", "a timed wait of %.6f s returned after %.6f s without the body having finished", span, t);
        vh::ev("waits_false");
    }
    // several waiters, opened meanwhile
    int k = 1 + r.below(3); std::vector<std::thread> th; std::atomic<int> back{0};
    for (int i = 0; i < k; ++i) { int u = r.below(6); th.emplace_back([&, u] { bool w = wait_any(b, u, 18000000); CHECK(w, "wait-false", "a timed wait of 18 s does not report the body that finished meanwhile"); CHECK(b.ended.load() == 1, "wait-true", "a timed wait reports a body that is running as finished"); ++back; }); }
    if (r.chance(60)) vh::msleep(r.below(2000) / 1000.0);
    CHECK(back == 0, "wait-true", "a timed wait ended before the body"); b.gate = true;
    vh::must("wait-slow", "timed waits noticing that the body has finished", [&] { return back == k; }, 15);
    for (auto &t : th) t.join();
    if (r.chance(50)) { bounded("join", [&] { b.join(); }); joined_ok(b, me, "join"); }
    else { b.detach(); vh::must("thread-leak", "the detached thread ending", [&] { return vh::thread_count() <= th0; }); joined_ok(b, me, "the timed wait"); vh::ev("detached"); }
    CHECK(b.wait_for(std::chrono::milliseconds(0)), "wait-false", "a finished body is reported as not finished"); vh::ev("waits_true", k + 1); vh::ev("runs");
}
static void case_detach(Rng &r)
{
    int th0 = vh::thread_count(); auto b = std::make_unique<Base>(); arm(*b, r, r.chance(50) ? GATE : QUICK); int me = tid(); b->run(); b->detach(); vh::msleep(r.below(300) / 1000.0); b->gate = true;
    bool w = false; bounded("a timed wait", [&] { w = b->wait_for(std::chrono::seconds(18)); }); CHECK(w, "wait-false", "a timed wait of 18 s does not report the detached body that has finished");
    joined_ok(*b, me, "the timed wait"); vh::must("thread-leak", "the detached thread ending", [&] { return vh::thread_count() <= th0; }); vh::ev("detached"); vh::ev("runs");
}
static void case_cancel(Rng &r)
{
    int kind = r.below(2); Base b; arm(b, r, kind == 0 ? CANCEL_POINT : CANCEL_LATE); b.run();
    bool started = r.chance(70);
    if (started) vh::must("not-started", "the body starting", [&] { return b.at.load() >= 1; });
    if (r.chance(40)) vh::msleep(r.below(500) / 1000.0);
    bool c = b.cancel(); CHECK(c, "cancel", "cancelling a running thread failed");
    if (kind == 1)
    {
        // goes on up to its cancellation point
        if (b.at.load() >= 1) { int s0 = b.steps; vh::must("cancel-async", "a cancelled thread going on up to a cancellation point", [&] { return b.steps.load() > s0; }, 10); }
        CHECK(b.unwound == 0, "cancel-async", "a thread was cancelled where there is no cancellation point");
        b.spin = false;
    }
    bounded("join of a cancelled thread", [&] { b.join(); });
    CHECK(b.ended == 0 && b.beyond == 0, "cancel", "a cancelled body ran on beyond its cancellation point");
    if (kind == 1 && b.at.load() >= 1) { CHECK(b.at == 2 && b.out == vh::mix(b.in, 5), "cancel-async", "a cancelled thread did not go on up to its cancellation point"); }
    if (b.at.load() >= 1 && kind < 2) CHECK(b.unwound == 1, "cancel-cleanup", "%d of 1 objects of a cancelled body were destroyed", b.unwound.load());
    vh::ev("cancelled"); if (kind == 1) vh::ev("cancelled_late");
}
static void case_signal(Rng &r)
{
    static const int sg[] = {SIGUSR1, SIGUSR2, SIGHUP, SIGTERM, SIGALRM, SIGRTMIN + 3}; int n = 1 + r.below(4), me = tid(); std::vector<std::unique_ptr<Base>> v; std::vector<uint64_t> want(n, 0);
    for (int i = 0; i < n; ++i) { v.push_back(std::make_unique<Base>()); arm(*v[i], r, SIGNALS); v[i]->run(); }
    for (auto &b : v) vh::must("not-started", "the body starting", [&] { return b->at.load() >= 1; });
    int k = 1 + r.below(12); uint64_t main0 = my_sigs.load();
    for (int j = 0; j < k; ++j)
    {
        int i = r.below(n), s = sg[r.below(6)]; ++want[i]; uint64_t t0 = sig_total.load(); v[i]->send_signal(s);
        vh::must("signal-lost", "a signal sent to a runnable being delivered", [&] { return sig_total.load() > t0; }, 15);
        CHECK(sig_tid == v[i]->id, "signal-thread", "a signal sent to the runnable on thread %d was delivered to thread %d", v[i]->id.load(), sig_tid.load());
        CHECK(sig_no == s, "signal-number", "signal %d was sent, %d arrived", s, sig_no.load());
    }
    CHECK(my_sigs.load() == main0, "signal-thread", "the sending thread got the signal");
    for (int i = 0; i < n; ++i) { v[i]->gate = true; bounded("join", [&] { v[i]->join(); }); joined_ok(*v[i], me, "join"); CHECK(v[i]->sigs == want[i], "signal-count", "%llu signals were sent to a runnable, it got %llu", (unsigned long long)want[i], (unsigned long long)v[i]->sigs.load()); }
    vh::ev("signals", k); vh::ev("runs", n);
}
// ---------------------------------------------------------------- pools
struct Arg { static std::atomic<int> live; std::string s; std::shared_ptr<int> sp; explicit Arg(std::string x) : s(std::move(x)), sp(std::make_shared<int>(7)) { ++live; } Arg(const Arg &o) : s(o.s), sp(o.sp) { ++live; } Arg(Arg &&o) noexcept : s(std::move(o.s)), sp(std::move(o.sp)) { ++live; } ~Arg() { --live; } };
std::atomic<int> Arg::live{0};
struct M0 : Base { static std::atomic<int> alive; M0() { ++alive; } ~M0() { --alive; } };
std::atomic<int> M0::alive{0};
struct M1 : M0 { std::string s; int n; Arg a; int *ref; const std::string *cref; M1(std::string x, int y, Arg z, int &q, const std::string &w) : s(std::move(x)), n(y), a(std::move(z)), ref(&q), cref(&w) {} };
struct M2 : M0 { std::unique_ptr<int> u; std::vector<std::string> v; M2(std::unique_ptr<int> x, std::vector<std::string> &&y) : u(std::move(x)), v(std::move(y)) {} };
struct M3 : M0 { std::string s; std::vector<int> v; M3(const std::string &x, const std::vector<int> &y) : s(x), v(y) {} };
template <typename P> static void drive(P &&p0, int n, Rng &r)
{
    using Pool = std::decay_t<P>; int me = tid(); int act = r.below(4);
    CHECK(p0.size() == n, "pool-size", "a pool of %d has %d members", n, p0.size()); CHECK(M0::alive >= n, "pool-size", "%d members exist in a pool of %d", M0::alive.load(), n);
    std::vector<const void *> addr; for (int i = 0; i < n; ++i) { addr.push_back(&p0[i]); for (int j = 0; j < i; ++j) CHECK(addr[j] != addr[i], "pool-members", "two members of a pool are the same object"); arm(p0[i], r, act == 0 ? CANCEL_POINT : act == 1 ? GATE : QUICK); }
    Pool p1(std::move(p0)); bool moved_running = act != 0 && r.chance(40);
    auto same = [&](Pool &p, const char *when) { CHECK(p.size() == n, "pool-move", "%s a pool of %d has %d members", when, n, p.size()); const Pool &c = p; for (int i = 0; i < n; ++i) CHECK(&p[i] == addr[i] && &c[i] == addr[i], "pool-move", "%s member %d of a pool is another one", when, i); };
    same(p1, "after a move"); CHECK(p0.size() == 0, "pool-move", "a pool that was moved away has %d members", p0.size());
    p1.run();
    Pool *p = &p1; std::unique_ptr<Pool> p2;
    if (moved_running) { p2 = std::make_unique<Pool>(std::move(p1)); p = p2.get(); same(*p, "after a move while running"); vh::ev("moved_running"); }
    if (act == 0)
    {
        if (r.chance(60)) for (int i = 0; i < n; ++i) vh::must("not-started", "members of a pool starting", [&] { return (*p)[i].at.load() >= 1; });
        bounded("cancel of a pool", [&] { p->cancel(); }); bounded("join of a cancelled pool", [&] { p->join(); });
        for (int i = 0; i < n; ++i) { CHECK((*p)[i].ended == 0, "cancel", "a cancelled member finished"); CHECK((*p)[i].unwound == (*p)[i].at.load(), "cancel-cleanup", "objects of a cancelled body were not destroyed"); }
        vh::ev("pools_cancelled");
    }
    else
    {
        if (act == 1)
        {
            std::atomic<bool> back{false}; std::thread t([&] { p->join(); back = true; });
            for (int i = 0; i < n; ++i) { CHECK(!back, "join-early", "join of a pool returned while member %d runs", i); if (r.chance(40)) vh::msleep(0.2); (*p)[i].gate = true; }
            if (n) vh::must("hang", "join of a pool returning", [&] { return back.load(); }); t.join();
        }
        else bounded("join of a pool", [&] { p->join(); });
        for (int i = 0; i < n; ++i) { joined_ok((*p)[i], me, "join of a pool"); for (int j = 0; j < i; ++j) CHECK((*p)[i].id != 0, "thread", "member without a thread"); }
        vh::ev("pools_joined");
    }
    vh::ev("members", n); vh::ev("runs", n);
}
struct Counting : thread_pool<M0> { int n = 0; using thread_pool<M0>::thread_pool; void cancel() override { ++n; thread_pool<M0>::cancel(); } };
static void case_pool(Rng &r)
{
    int alive0 = M0::alive, args0 = Arg::live, n = r.chance(10) ? 0 : 1 + r.below(7);
    switch (r.below(5))
    {
    case 0: { thread_pool<M0> p(n); drive(p, n, r); break; }
    case 1:
    {
        std::string s = r.bytes(r.below(60)), cr = "cref"; int num = (int)r.next(), q = 5; Arg a("arg" + s);
        auto test = [&](auto &p) {
            for (int i = 0; i < n; ++i)
            {
                CHECK(p[i].s == s && p[i].n == num, "pool-arguments", "member %d of %d was not constructed from the arguments given (string of %zu bytes instead of %zu)", i, n, p[i].s.size(), s.size());
                CHECK(p[i].a.s == "arg" + s && p[i].a.sp && *p[i].a.sp == 7, "pool-arguments", "member %d of %d got an argument that was moved away", i, n);
                CHECK(p[i].ref == &q && p[i].cref == &cr, "pool-arguments", "member %d did not get the objects passed by reference", i);
            }
            drive(p, n, r);
        };
        if (r.chance(50)) { thread_pool<M1, std::string, int, Arg, int &, const std::string &> p(n, std::string(s), std::move(num), Arg(a), q, cr); test(p); }
        else { std::string s2 = s; Arg a2 = a; thread_pool<M1, std::string &, int &, Arg &, int &, const std::string &> p(n, s2, num, a2, q, cr); CHECK(s2 == s && a2.s == "arg" + s, "pool-arguments", "an argument passed by reference was changed"); test(p); }
        vh::ev("pools_with_arguments"); break;
    }
    case 2:
    {
        std::vector<std::string> v{"a", r.bytes(40)}; auto v0 = v; int x = (int)r.next();
        thread_pool<M2, std::unique_ptr<int>, std::vector<std::string>> p(1, std::make_unique<int>(x), std::move(v));
        CHECK(p[0].u && *p[0].u == x && p[0].v == v0, "pool-arguments", "a member did not get its movable arguments"); n = 1; drive(p, 1, r); break;
    }
    case 3:
    {
        std::string s = r.bytes(30); std::vector<int> v{1, 2, (int)r.next()};
        thread_pool<M3, std::string, std::vector<int>> p(n, std::string(s), std::vector<int>(v)); for (int i = 0; i < n; ++i) CHECK(p[i].s == s && p[i].v == v, "pool-arguments", "member %d of %d was not constructed from the arguments given", i, n);
        // assigning replaces members
        thread_pool<M3, std::string, std::vector<int>> o(2, std::string("o"), std::vector<int>{9}); const void *first = n ? &p[0] : nullptr;
        o = std::move(p); CHECK(o.size() == n && (!n || &o[0] == first), "pool-move", "assigning a pool does not transfer its members"); CHECK(M0::alive - alive0 == n, "pool-move", "%d members exist, %d were expected after a pool was overwritten", M0::alive.load() - alive0, n);
        for (int i = 0; i < n; ++i) CHECK(o[i].s == s && o[i].v == v, "pool-move", "a member changed when its pool was moved"); drive(o, n, r); vh::ev("pools_assigned"); break;
    }
    default: { Counting p(n); for (int i = 0; i < n; ++i) arm(p[i], r, CANCEL_POINT); p.run(); thread_pool<M0> &b = p; b.cancel(); CHECK(p.n == 1, "pool-cancel", "an overridden cancel is not called"); bounded("join of a cancelled pool", [&] { p.join(); }); }
    }
    CHECK(M0::alive == alive0, "pool-leak", "%d members of a destroyed pool exist", M0::alive.load() - alive0); CHECK(Arg::live == args0, "pool-leak", "%d arguments of a destroyed pool exist", Arg::live.load() - args0); vh::ev("pools");
}
void harness_init()
{
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_sig; sa.sa_flags = SA_RESTART;
    for (int s : {SIGUSR1, SIGUSR2, SIGHUP, SIGTERM, SIGALRM, SIGRTMIN + 3}) sigaction(s, &sa, nullptr);
}
void harness_fini() {}
void run_case(uint64_t k, Rng &r)
{
    int th0 = vh::thread_count(); inj::Rates ra; if (r.chance(40)) { ra.mutex_delay = 20; ra.delay_us = 200; } if (r.chance(30)) ra.spurious = 300; inj::random(r.next(), ra); std::string what;
    for (int i = 0, n = 3 + r.below(6); i < n; ++i)
    {
        int c = r.below(6); what += "bwdcsp"[c];
        switch (c) { case 0: case_basic(r); break; case 1: case_wait(r); break; case 2: case_detach(r); break; case 3: case_cancel(r); break; case 4: case_signal(r); break; default: case_pool(r); }
        vh::must("thread-leak", "threads ending", [&] { return vh::thread_count() <= th0; }); vh::tick();
    }
    inj::reset(); vh::distinct(vh::mix(vh::hash(what), r.next()));
    if (k < 4) vh::sample("scenarios (b basic, w waits, d detach, c cancel, s signals, p pool): " + what);
}
