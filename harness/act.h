// Actors that start together in threads or processes, with shared memory between them.
#ifndef ACT_H
#define ACT_H
#include "vh.h"
#include <new>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/resource.h>
namespace act
{
struct Common { std::atomic<uint64_t> progress{0}; std::atomic<int> go{0}, done{0}; };
const auto RLX = std::memory_order_relaxed;
template <typename T> T *shared()
{
    void *p = ::mmap(nullptr, sizeof(T), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) vh::broken("mmap");
    return new (p) T;
}
// every actor calls this when it got on
inline void bump(Common &c, bool procs) { c.progress.fetch_add(1, RLX); if (!procs) vh::tick(); }
inline void together(Common &c, bool procs, vh::Rng &r, int n, const char *what, const std::function<void(int, vh::Rng &)> &f, double seconds = 20)
{
    std::vector<uint64_t> s; for (int i = 0; i < n; ++i) s.push_back(r.next());
    c.go = 0; c.done = 0;
    auto start = [&] { c.go.fetch_add(1, RLX); while (c.go.load(RLX) < n) sched_yield(); };
    if (procs)
    {
        std::vector<pid_t> p; int per = r.chance(30) ? 2 : 1;
        for (int i = 0; i < n; i += per)
            p.push_back(vh::spawn([&, i] {
                auto one = [&](int j) { start(); vh::Rng q(s[j]); f(j, q); c.done.fetch_add(1, RLX); };
                if (per == 2 && i + 1 < n) { std::thread t(one, i + 1); one(i); t.join(); } else one(i);
                return 0; }));
        vh::expect_ok(p, "stuck", what, [&] { return c.progress.load(); }, seconds);
    }
    else
    {
        std::vector<std::thread> t;
        for (int i = 0; i < n; ++i) t.emplace_back([&, i] { start(); vh::Rng q(s[i]); f(i, q); c.done.fetch_add(1, RLX); });
        for (auto &x : t) x.join();
    }
}
inline void dally(vh::Rng &r) { int x = r.below(100); if (x < 50) return; if (x < 75) sched_yield(); else if (x < 90) { for (volatile int i = 0; i < 500; i = i + 1) ; } else vh::msleep(r.below(20) / 100.0); }
}
#endif
