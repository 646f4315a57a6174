// C18: conditions, one-time fences and barriers over threads and processes.
#include "vh.h"
#include <new>
#include <sys/mman.h>
#include "cppev/lock.h"
using vh::Rng;
using namespace cppev;

namespace
{
struct Cond
{
    pshared_lock m; pshared_cond c; std::atomic<int> owner{0};
    int64_t tokens = 0, taken = 0; int waiting = 0; uint64_t gen = 0, seen = 0;     // under m
};
struct Shared
{
    Cond cond; alignas(64) char fence[sizeof(pshared_one_time_fence)]; alignas(64) char barrier[sizeof(pshared_barrier)];
    uint64_t plain[64] = {0};
    std::atomic<uint64_t> progress{0}, passed{0}, rejected{0}, arrived{0}, evaluations{0}, slept{0}; std::atomic<int> go{0}, notifying{0}, step{0}, ready{0};
};
Shared *sh; void *mem;
const size_t SZ = 1 << 14;
bool procs;
const auto RLX = std::memory_order_relaxed;

// the lock of the condition is held by actor me
struct Hold
{
    int me; Hold(int m, const char *where) : me(m) { int o = sh->cond.owner.exchange(me, RLX); CHECK(o == 0, "exclusion", "actor %d %s while actor %d holds the lock", me, where, o); }
    ~Hold() { int o = sh->cond.owner.exchange(0, RLX); if (o != me) vh::viol("exclusion", "actor %d took a lock that actor %d holds", o, me); }
};
void dally(Rng &r) { int x = r.below(100); if (x < 50) return; if (x < 75) sched_yield(); else if (x < 90) { for (volatile int i = 0; i < 500; i = i + 1) ; } else vh::msleep(r.below(20) / 100.0); }
void bump() { sh->progress.fetch_add(1, RLX); if (!procs) vh::tick(); }
// Starts the actors together in threads or processes (with a second thread now and then) and waits for all of them
void together(Rng &r, int n, const char *what, const std::function<void(int, Rng &)> &f)
{
    std::vector<uint64_t> s; for (int i = 0; i < n; ++i) s.push_back(r.next());
    if (procs)
    {
        std::vector<pid_t> p; int per = r.chance(30) ? 2 : 1;
        for (int i = 0; i < n; i += per)
            p.push_back(vh::spawn([&, i] {
                auto one = [&](int j) { sh->go++; while (sh->go.load() < n) sched_yield(); Rng q(s[j]); f(j, q); };
                if (per == 2 && i + 1 < n) { std::thread t(one, i + 1); one(i); t.join(); } else one(i);
                return 0; }));
        vh::expect_ok(p, "stuck", what, [&] { return sh->progress.load(); });
    }
    else
    {
        std::vector<std::thread> t;
        for (int i = 0; i < n; ++i) t.emplace_back([&, i] { sh->go.fetch_add(1, RLX); while (sh->go.load(RLX) < n) sched_yield(); Rng q(s[i]); f(i, q); });
        for (auto &x : t) x.join();
    }
}
void wait_for(int me, Rng &r, std::unique_lock<pshared_lock> &l, const std::function<bool()> &pred, const char *what)
{
    Cond &c = sh->cond;
    if (r.chance(60)) c.c.wait(l, [&] { Hold h(me, "evaluates its predicate"); sh->evaluations.fetch_add(1, RLX); CHECK(l.owns_lock(), "exclusion", "the predicate is evaluated without the lock"); bool b = pred(); if (!b) sh->slept.fetch_add(1, RLX); return b; });
    else while (!pred()) { sh->slept.fetch_add(1, RLX); c.c.wait(l); Hold h(me, "returns from a wait"); }
    CHECK(l.owns_lock(), "exclusion", "%s returned without the lock", what); Hold h(me, "returns from a wait");
    CHECK(pred(), "early", "%s returned although its predicate is false", what);
}
// every token is announced once: all are consumed
void case_tokens(Rng &r)
{
    Cond &c = sh->cond; int cons = 1 + r.below(r.chance(20) ? 10 : 4), prod = 1 + r.below(3), quota = 1 + r.below(60); int64_t total = int64_t(cons) * quota, per = total / prod; bool idle_first = r.chance(40); int style = r.below(3); bool all = r.chance(15);
    together(r, cons + prod, "consumers of announced tokens", [&](int i, Rng &q) {
        if (i < cons)
        {
            for (int k = 0; k < quota; ++k)
            {
                { std::unique_lock<pshared_lock> l(c.m); wait_for(i + 1, q, l, [&] { return c.tokens > 0; }, "a wait for a token"); --c.tokens; ++c.taken; }
                bump(); dally(q);
            }
            return;
        }
        int64_t left = i == cons ? total - per * (prod - 1) : per;
        while (left)
        {
            int64_t n = 1 + q.below(std::min<int64_t>(left, q.chance(70) ? 1 : 6)); if (idle_first) while (true) { vh::msleep(0.01); std::unique_lock<pshared_lock> l(c.m); if (c.tokens == 0) break; }
            {
                std::unique_lock<pshared_lock> l(c.m); { Hold h(i + 1, "produces"); c.tokens += n; }
                if (style == 0) { for (int64_t k = 0; k < n; ++k) c.c.notify_one(); }
            }
            if (style == 1) for (int64_t k = 0; k < n; ++k) { c.c.notify_one(); if (q.chance(20)) dally(q); }
            if (style == 2) { if (all) c.c.notify_all(); else for (int64_t k = 0; k < n; ++k) c.c.notify_one(); }
            left -= n; bump(); dally(q);
        } });
    CHECK(c.tokens == 0 && c.taken == total, "tokens", "%lld tokens consumed of %lld", (long long)c.taken, (long long)total); vh::ev("tokens", total);
    vh::distinct(vh::mix(vh::mix(cons * 64 + prod, total), sh->slept.load()));
}
// all waiters are asleep, one notify_all wakes every one of them; then one notify_one wakes one
void case_generations(Rng &r)
{
    Cond &c = sh->cond; int n = 1 + r.below(r.chance(20) ? 12 : 5), rounds = 1 + r.below(30);
    together(r, n + 1, "waiters of notify_all", [&](int i, Rng &q) {
        if (i == n)
        {
            for (int g = 1; g <= rounds; ++g)
            {
                while (true) { { std::unique_lock<pshared_lock> l(c.m); if (c.waiting == n) break; } vh::msleep(0.01); }
                bool inside = q.chance(50);
                std::unique_lock<pshared_lock> l(c.m); { Hold h(i + 1, "notifies"); c.gen = g; c.waiting = 0; if (q.chance(50)) sh->plain[0] = g * 3; else sh->plain[0] = g * 3; } if (!inside) l.unlock();
                c.c.notify_all(); bump();
            }
            return;
        }
        for (int g = 1; g <= rounds; ++g)
        {
            std::unique_lock<pshared_lock> l(c.m); ++c.waiting; wait_for(i + 1, q, l, [&] { return c.gen >= uint64_t(g); }, "a wait for notify_all"); CHECK(sh->plain[0] == uint64_t(g) * 3, "visible", "data written before notify_all is not visible"); ++c.seen; l.unlock();
            bump(); dally(q);
        } });
    CHECK(c.seen == uint64_t(n) * rounds, "wake-up", "%llu wake-ups by notify_all of %d waiters in %d rounds", (unsigned long long)c.seen, n, rounds); vh::ev("notify_all_wakeups", c.seen);
    vh::distinct(vh::mix(n * 64 + rounds, sh->slept.load() + (procs << 20)));
}
struct Quit : std::exception {};
void case_alone(Rng &r)
{
    Cond &c = sh->cond; std::unique_lock<pshared_lock> l(c.m); int calls = 0; c.c.wait(l, [&] { ++calls; return true; });
    CHECK(l.owns_lock() && calls >= 1, "early", "a wait with a true predicate evaluated it %d times", calls);
    try { c.c.wait(l, []() -> bool { throw Quit(); }); CHECK(false, "exception", "an exception of the predicate is lost"); } catch (const Quit &) {}
    CHECK(l.owns_lock(), "exclusion", "the lock is gone after an exception of the predicate"); l.unlock();
    for (int i = r.below(4); i > 0; --i) { c.c.notify_one(); c.c.notify_all(); }
    CHECK(c.m.try_lock(), "exclusion", "notifying without waiters left the lock taken"); c.m.unlock();
}
void case_fence(Rng &r)
{
    auto *f = new (sh->fence) pshared_one_time_fence; int waiters = 1 + r.below(r.chance(20) ? 12 : 5), notifiers = r.chance(60) ? 1 : 2 + r.below(3); int late = r.below(waiters + 1), hold = r.below(4); bool queries = r.chance(50);
    CHECK(!f->ok(), "early", "a new fence is already open");
    together(r, waiters + notifiers, "waiters of a fence", [&](int i, Rng &q) {
        if (i < waiters)
        {
            if (i < late && hold) for (int k = q.below(200); k > 0 && !sh->step.load(RLX); --k) sched_yield();
            if (i < late && hold == 3) while (!sh->step.load(RLX)) sched_yield();
            for (int k = 1 + q.below(3); k > 0; --k)
            {
                if (queries && q.chance(30) && f->ok()) CHECK(sh->notifying.load(RLX), "early", "the fence tells it is open before anyone notified it");
                sh->ready.fetch_add(1, RLX); f->wait();
                CHECK(sh->notifying.load(RLX), "early", "a fence waiter passed before anyone notified it"); CHECK(f->ok(), "early", "a fence waiter passed while the fence tells it is closed");
                for (int j = 0; j < 4; ++j) CHECK(sh->plain[j] == 77u + j, "visible", "a fence waiter does not see what was written before the notification");
            }
            sh->passed.fetch_add(1, RLX); bump(); return;
        }
        int no = i - waiters;
        if (no == 0)
        {
            if (hold == 1) while (sh->ready.load(RLX) < waiters - late) sched_yield();
            if (hold == 2) { while (sh->ready.load(RLX) < waiters - late) sched_yield(); vh::msleep(q.below(20) / 10.0); }
            CHECK(!f->ok(), "early", "the fence tells it is open before anyone notified it"); CHECK(sh->passed.load(RLX) == 0, "early", "a fence waiter passed before anyone notified it");
            for (int j = 0; j < 4; ++j) sh->plain[j] = 77 + j; sh->notifying.store(1, std::memory_order_release);
        }
        else while (!sh->notifying.load(std::memory_order_acquire)) sched_yield();
        for (int k = 1 + q.below(3); k > 0; --k) { f->notify(); CHECK(f->ok(), "early", "the fence tells it is closed after its notification"); dally(q); }
        sh->step.store(1, RLX); bump(); });
    f->wait(); CHECK(f->ok() && sh->passed.load() == uint64_t(waiters), "wake-up", "%llu of %d fence waiters passed", (unsigned long long)sh->passed.load(), waiters);
    vh::ev("fence_waiters", waiters); vh::ev("late_fence_waiters", late); if (notifiers > 1) vh::ev("several_notifiers"); f->~pshared_one_time_fence();
    vh::distinct(vh::mix(waiters * 128 + notifiers * 16 + hold, late * 2 + procs));
}
void case_barrier(Rng &r)
{
    int n = 1 + r.below(r.chance(20) ? 14 : 6), extra = r.chance(40) ? 0 : r.below(6), rounds = 1 + r.below(4); if (r.chance(3)) n = 0;
    for (int round = 0; round < rounds; ++round)
    {
        auto *b = new (sh->barrier) pshared_barrier(n); sh->arrived = 0; sh->passed = 0; sh->rejected = 0; sh->go = 0; for (auto &x : sh->plain) x = 0; uint64_t tag = r.next() | 1; int hold = r.below(3);
        if (n + extra == 0) extra = 1;
        together(r, n + extra, "arrivals at a barrier", [&](int i, Rng &q) {
            if (hold == 1 && q.chance(40)) dally(q); if (hold == 2 && i == 0) vh::msleep(q.below(30) / 10.0);
            sh->plain[i] = tag + i; sh->arrived.fetch_add(1, RLX);
            try
            {
                b->wait();
                uint64_t a = sh->arrived.load(RLX); CHECK(a >= uint64_t(n), "early", "a barrier for %d let someone pass after %llu arrivals", n, (unsigned long long)a);
                if (!extra) for (int j = 0; j < n; ++j) CHECK(sh->plain[j] == tag + j, "visible", "after a barrier, what participant %d wrote before arriving is not visible", j);
                sh->passed.fetch_add(1, RLX);
            }
            catch (const std::exception &e)
            {
                uint64_t a = sh->arrived.load(RLX); CHECK(a > uint64_t(n), "rejected", "a barrier for %d rejects an arrival after %llu arrivals: %s", n, (unsigned long long)a, e.what()); sh->rejected.fetch_add(1, RLX);
            }
            bump(); });
        CHECK(sh->passed.load() == uint64_t(n) && sh->rejected.load() == uint64_t(extra), "rejected", "of %d arrivals at a barrier for %d, %llu passed and %llu were rejected", n + extra, n, (unsigned long long)sh->passed.load(), (unsigned long long)sh->rejected.load());
        for (int k = r.below(3); k > 0; --k) { bool thrown = false; try { b->wait(); } catch (const std::exception &) { thrown = true; } CHECK(thrown, "rejected", "a barrier for %d lets a later arrival pass", n); vh::ev("later_arrivals"); }
        vh::ev("barrier_rounds"); vh::ev("barrier_passes", n); vh::ev("barrier_rejections", extra); b->~pshared_barrier(); vh::tick();
    }
    vh::distinct(vh::mix(n * 64 + extra, rounds * 2 + procs));
}
}
void harness_init() { procs = vh::mode == "proc"; mem = ::mmap(nullptr, SZ, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (mem == MAP_FAILED || sizeof(Shared) > SZ) vh::broken("mmap"); }
void harness_fini() {}
void run_case(uint64_t, Rng &r)
{
    memset(mem, 0, sizeof(Shared)); sh = new (mem) Shared; inj::Rates x; if (r.chance(50)) { x.mutex_delay = r.below(300); x.delay_us = r.below(100); } if (r.chance(40)) x.spurious = r.chance(50) ? 50 : r.below(900); inj::random(r.next(), x);
    int k = r.below(100);
    if (k < 30) case_tokens(r); else if (k < 50) case_generations(r); else if (k < 75) case_fence(r); else if (k < 97) case_barrier(r); else case_alone(r);
    vh::ev("predicate_evaluations", sh->evaluations); vh::ev("slept", sh->slept); inj::random(0, inj::Rates());
    sh->~Shared();
}
extern "C" const char *__tsan_default_options() { return "detect_deadlocks=0:report_mutex_bugs=0"; }
