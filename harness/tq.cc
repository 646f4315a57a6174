// C13: task queue pool - exactly once, submission order, concurrency, drain on stop
#include "vh.h"
#include "cppev/thread_pool.h"
#include <sys/syscall.h>
#include <deque>
using namespace cppev;
using vh::Rng;

// counters must not order the library's threads: a missing synchronization has to stay visible to the race detector
template <typename T> struct Relaxed
{
    std::atomic<T> v; Relaxed(T x = 0) : v(x) {}
    T operator++() { return v.fetch_add(1, std::memory_order_relaxed) + 1; } T operator++(int) { return v.fetch_add(1, std::memory_order_relaxed); }
    T operator--() { return v.fetch_sub(1, std::memory_order_relaxed) - 1; } T load() const { return v.load(std::memory_order_relaxed); }
    T fetch_add(T x) { return v.fetch_add(x, std::memory_order_relaxed); } bool compare_exchange_weak(T &a, T b) { return v.compare_exchange_weak(a, b, std::memory_order_relaxed); }
    bool compare_exchange_strong(T &a, T b) { return v.compare_exchange_strong(a, b, std::memory_order_relaxed); }
    operator T() const { return load(); } Relaxed &operator=(T x) { v.store(x, std::memory_order_relaxed); return *this; }
};

static int tid() { static thread_local int t = syscall(SYS_gettid); return t; }
struct Token { static Relaxed<int64_t> live; Token() { ++live; } Token(const Token &) { ++live; } Token(Token &&) noexcept { ++live; } Token &operator=(const Token &) = default; ~Token() { --live; } };
Relaxed<int64_t> Token::live{0};

struct Rec { Relaxed<int> runs{0}; int by = 0; uint64_t in = 0, out = 0; bool before_stop = false; };
struct Stream { Relaxed<uint64_t> submitted{0}, begun{0}; };      // tasks of one submitting thread, in order
struct World
{
    int m; std::vector<std::unique_ptr<Rec>> recs; std::vector<std::unique_ptr<Stream>> streams;
    Relaxed<uint64_t> next{0}, done{0}, running{0}, peak{0}, nested_late{0}; Relaxed<bool> stopping{false}, stopped{false};
    Relaxed<int> workers[8];  thread_pool_task_queue *pool = nullptr; uint64_t salt = 0; int nest = 0;
    std::vector<uint64_t> order;       // with one worker: sequence of executions
};
static void body(World &w, uint64_t id, Stream *s, uint64_t idx, int work);
static std::vector<int> *outsiders;

static thread_pool_task_handler make(World &w, Stream *s, int work, uint64_t *idout = nullptr)
{
    uint64_t id = w.next++; if (id >= w.recs.size()) vh::broken("too many tasks");
    Rec &r = *w.recs[id]; r.in = vh::mix(w.salt, id);      // plain write, the task reads it
    r.before_stop = true;
    uint64_t idx = s ? s->submitted++ : 0; Token t; World *p = &w;
    if (idout) *idout = id;
    return [p, id, s, idx, work, t] { body(*p, id, s, idx, work); };
}
static void body(World &w, uint64_t id, Stream *s, uint64_t idx, int work)
{
    vh::tick();
    CHECK(!w.stopped.load(), "after-stop", "a task runs after stop returned");
    uint64_t n = ++w.running, p = w.peak.load(); while (n > p && !w.peak.compare_exchange_weak(p, n)) ;
    CHECK((int)n <= w.m, "too-many-threads", "%llu tasks run at the same time in a pool of %d", (unsigned long long)n, w.m);
    for (int i = 0, me = tid(); ; ++i)
    {
        CHECK(i < w.m, "too-many-threads", "tasks ran on more than %d threads in a pool of that size", w.m);
        int z = 0; if (w.workers[i].load() == me || w.workers[i].compare_exchange_strong(z, me) || z == me) break;
    }
    for (int o : *outsiders) CHECK(o != tid(), "not-pool-thread", "a task runs on a thread that submits or stops");
    Rec &r = *w.recs[id];
    CHECK(r.in == vh::mix(w.salt, id), "effects", "a task does not see what its submitter wrote before");
    int k = r.runs.fetch_add(1);
    CHECK(k == 0, "twice", "task %llu is executed again", (unsigned long long)id);
    if (s)
    {
        // of the tasks submitted by this thread earlier, at most those picked up by other workers may not have begun
        uint64_t begun = s->begun.fetch_add(1);
        CHECK(begun + (w.m - 1) >= idx, "order", "task %llu of a submitter starts, but only %llu of its %llu earlier tasks have (pool of %d)", (unsigned long long)idx, (unsigned long long)begun, (unsigned long long)idx, w.m);
        if (w.m == 1) CHECK(begun == idx, "order", "one-thread pool: task %llu of a submitter is executed as number %llu", (unsigned long long)idx, (unsigned long long)begun);
    }
    switch (work & 7)
    {
    case 1: vh::msleep(((work >> 3) & 255) / 300.0); break;
    case 2: syscall(SYS_sched_yield); break;
    case 3: { volatile uint64_t x = 0; for (int i = 0; i < (work >> 3 & 255) * 20; ++i) x = x + i; break; }
    }
    if (w.nest && (work & 64))
    {
        // tasks submitted by a task are due, also while stop is draining the queue
        int c = 1 + (work >> 7 & 1);
        for (int i = 0; i < c; ++i)
        {
            uint64_t cid; auto t = make(w, nullptr, (work >> 9) & ~64, &cid);
            if (w.stopping.load()) ++w.nested_late;
            if (cid & 1) w.pool->add_task(std::move(t)); else if (cid & 2) { const auto &ct = t; w.pool->add_task(ct); } else w.pool->add_task(std::vector<thread_pool_task_handler>{t});
        }
    }
    r.by = tid(); r.out = vh::mix(r.in, 77);       // plain write, read after stop
    --w.running; ++w.done;
}
void harness_init() {}
void harness_fini() {}
void run_case(uint64_t k, Rng &r)
{
    int th0 = vh::thread_count(); int64_t tok0 = Token::live.load();
    World w; w.m = r.chance(35) ? 1 : 1 + r.below(6); w.salt = r.next(); w.nest = r.chance(40);
    int subs = 1 + r.below(4), per = 1 + r.below(r.chance(30) ? 120 : 30);
    bool rendezvous = subs == 1 && w.m > 1 && r.chance(70);
    for (int i = 0; i < subs * per * 24 * 3 + 2000; ++i) w.recs.push_back(std::make_unique<Rec>());
    for (int i = 0; i < subs + 1; ++i) w.streams.push_back(std::make_unique<Stream>());
    std::vector<int> out{tid()}; outsiders = &out; std::mutex om;
    inj::Rates ra; if (r.chance(50)) { ra.mutex_delay = 30; ra.delay_us = 300; } if (r.chance(40)) ra.spurious = r.chance(50) ? 50 : r.below(900); inj::random(r.next(), ra);
    std::unique_ptr<thread_pool_task_queue> pool = std::make_unique<thread_pool_task_queue>(w.m); w.pool = pool.get();
    std::deque<Relaxed<int>> meets; Relaxed<uint64_t> groups, batches, idles;
    bool early = r.chance(30);
    if (!early) pool->run();
    uint64_t sd = r.next(); bool stop_elsewhere = r.chance(30); int mode_stop = r.below(3);
    auto submit = [&](int i) {
        Rng q(sd + i); Stream *s = w.streams[i].get(); bool fast = q.chance(50);
        for (int j = 0; j < per; ++j)
        {
            int work = (int)q.below(1 << 20); if (fast || q.chance(70)) work &= ~7; else if (q.chance(60)) work = (work & ~7) | 2;
            switch (q.below(rendezvous ? 6 : 5))
            {
            case 0: { auto t = make(w, s, work); const auto &ct = t; pool->add_task(ct); break; }
            case 1: case 2: pool->add_task(make(w, s, work)); break;
            case 3:
            {
                std::vector<thread_pool_task_handler> v; int n = q.below(q.chance(20) ? 24 : 5); for (int x = 0; x < n; ++x) v.push_back(make(w, s, work + x * 8));
                pool->add_task(v); ++batches; break;
            }
            case 4: if (q.chance(50)) vh::msleep(q.below(500) / 1000.0); break;
            case 5:
            {
                // as many tasks as there are threads can wait for each other
                int g = 2 + q.below(w.m - 1); meets.emplace_back(0); Relaxed<int> *c = &meets.back(); World *p = &w; int style = q.below(3);
                std::vector<thread_pool_task_handler> v; Token t;
                for (int x = 0; x < g; ++x)
                {
                    uint64_t id; auto inner = make(w, s, 0, &id);
                    v.push_back([p, c, g, inner, t] {
                        inner(); ++*c; double waited = 0;
                        while (c->load() < g) { vh::msleep(0.05); waited += 0.05; if (waited > 12000) vh::viol("not-concurrent", "%d tasks that wait for each other do not run together in a pool of %d: only %d have started within 12 s", g, p->m, c->load()); if (waited < 11000) vh::tick(); }
                    });
                }
                if (style == 0) pool->add_task(v); else for (auto &x : v) { if (style == 1) pool->add_task(x); else pool->add_task(std::move(x)); }
                ++groups;
                if (q.chance(50)) { double waited = 0; while (c->load() < g) { vh::msleep(0.05); waited += 0.05; if (!early && waited > 15000) vh::viol("not-started", "queued tasks do not start in an idle pool of %d", p->m); if (early) break; vh::tick(); } }
                break;
            }
            }
            if (!early && subs == 1 && !w.nest && q.chance(6))
            {
                ++idles; double waited = 0;
                while (w.done.load() < w.next.load()) { vh::msleep(0.05); waited += 0.05; if (waited > 15000) vh::viol("lost", "%llu of %llu tasks were executed and the pool is idle", (unsigned long long)w.done.load(), (unsigned long long)w.next.load()); vh::tick(); }
                if (q.chance(50)) vh::msleep(0.3);
            }
        }
    };
    if (early && subs == 1) { submit(0); pool->run(); }
    else
    {
        std::vector<std::thread> th;
        for (int i = 0; i < subs; ++i) th.emplace_back([&, i] { { std::lock_guard<std::mutex> _(om); } submit(i); });
        if (early) pool->run();
        for (auto &t : th) t.join();
    }
    if (mode_stop == 0) vh::msleep(r.below(3000) / 1000.0);
    uint64_t due = w.next.load();
    auto stop = [&] {
        w.stopping = true; std::atomic<bool> back{false};
        std::thread dog([&] { double t = 0; while (!back) { vh::msleep(1); t += 1; if (t < 20000) vh::tick(); else vh::viol("stop-hang", "stop does not return: %llu of %llu tasks done", (unsigned long long)w.done.load(), (unsigned long long)w.next.load()); } });
        pool->stop(); w.stopped = true; back = true; dog.join();
    };
    if (stop_elsewhere) { std::thread t(stop); t.join(); } else stop();
    CHECK(w.running.load() == 0, "stop-early", "%llu tasks are running after stop returned", (unsigned long long)w.running.load());
    uint64_t ran = 0;
    for (uint64_t i = 0; i < w.next.load(); ++i)
    {
        Rec &x = *w.recs[i]; int n = x.runs.load();
        if (!x.before_stop) { CHECK(n <= 1, "twice", "a task was executed %d times", n); continue; }
        CHECK(n == 1, n ? "twice" : "lost", "task %llu, submitted before stop, was executed %d times (pool of %d, %d submitters, %llu tasks)", (unsigned long long)i, n, w.m, subs, (unsigned long long)w.next.load());
        CHECK(x.out == vh::mix(x.in, 77), "effects", "the effect of a task is not visible after stop"); ++ran;
    }
    uint64_t peak = w.peak.load();
    vh::must("thread-leak", "threads of the pool ending", [&] { return vh::thread_count() <= th0; });
    pool.reset(); inj::reset();
    CHECK(Token::live.load() == tok0, "task-leak", "%lld copies of task closures exist after the pool was destroyed", (long long)(Token::live.load() - tok0));
    vh::ev("tasks", ran); vh::ev("submitted_by_tasks_during_stop", w.nested_late.load()); vh::ev("nested", w.next.load() - due < w.next.load() && w.nest ? 1 : 0); vh::ev("batches", batches.load()); vh::ev("rendezvous_groups", groups.load()); vh::ev("idle_waits", idles.load()); vh::ev("pools"); if (w.m == 1) vh::ev("one_thread_pools"); if (early) vh::ev("submitted_before_run"); if (peak == (uint64_t)w.m && w.m > 1) vh::ev("fully_used_pools");
    vh::distinct(vh::mix(vh::mix(w.m * 8 + subs, w.next.load()), vh::mix(groups.load(), batches.load())));
    if (k < 4) vh::sample(vh::strf("pool of %d, %d submitters, %llu tasks (%llu batches, %llu groups waiting for each other), peak %llu", w.m, subs, (unsigned long long)w.next.load(), (unsigned long long)batches.load(), (unsigned long long)groups.load(), (unsigned long long)peak));
}
