// C17: mutual exclusion of locks over threads and processes, try results, guard ownership.
#include "vh.h"
#include <new>
#include <sys/mman.h>
#include <sys/syscall.h>
#include "cppev/lock.h"
using vh::Rng;
using namespace cppev;

namespace
{
struct Mutexes { pshared_lock m; std::atomic<int> owner{0}; uint64_t plain[4] = {0, 0, 0, 0}; };
struct RW { pshared_rwlock l; std::atomic<int> readers{0}, writer{0}, most{0}; uint64_t plain[4] = {0, 0, 0, 0}; };
struct Shared
{
    Mutexes mutex[3]; RW rw[3]; spinlock spin; std::atomic<int> spin_owner{0}; uint64_t spin_plain[2] = {0, 0};
    std::atomic<uint64_t> mutex_got[3], rw_got[3], rd_got{0}, spin_got{0}, tries{0}, try_ok{0}, progress{0}; std::atomic<int> go{0}, step{0};
};
Shared *sh; void *mem;
const size_t SZ = 1 << 16;
void pause_inside(Rng &r) { int x = r.below(100); if (x < 60) return; if (x < 85) sched_yield(); else if (x < 99) { for (volatile int i = 0; i < 300; i = i + 1) ; } else vh::msleep(0.05); }
void bump(std::atomic<uint64_t> &a) { a.fetch_add(1, std::memory_order_relaxed); }
void inside_mutex(Mutexes &x, int me, Rng &r, const char *how)
{
    int o = x.owner.exchange(me, std::memory_order_relaxed); CHECK(o == 0, "exclusion", "process-shared lock acquired (%s) by actor %d while actor %d holds it", how, me, o);
    uint64_t a = x.plain[0]; x.plain[0] = a + 1; pause_inside(r); CHECK(x.plain[3] == a, "exclusion", "data under a process-shared lock changed while it was held"); x.plain[3] = a + 1;
    o = x.owner.exchange(0, std::memory_order_relaxed); CHECK(o == me, "exclusion", "actor %d took a process-shared lock that actor %d holds", o, me);
}
void inside_spin(int me, Rng &r)
{
    int o = sh->spin_owner.exchange(me, std::memory_order_relaxed); CHECK(o == 0, "exclusion", "spin lock acquired by actor %d while actor %d holds it", me, o);
    uint64_t a = sh->spin_plain[0]; sh->spin_plain[0] = a + 1; if (r.chance(5)) sched_yield(); CHECK(sh->spin_plain[1] == a, "exclusion", "data under a spin lock changed while it was held"); sh->spin_plain[1] = a + 1;
    o = sh->spin_owner.exchange(0, std::memory_order_relaxed); CHECK(o == me, "exclusion", "actor %d took a spin lock that actor %d holds", o, me);
}
void inside_write(RW &x, int me, Rng &r, const char *how)
{
    int o = x.writer.exchange(me, std::memory_order_relaxed), n = x.readers.load(std::memory_order_relaxed); CHECK(o == 0 && n == 0, "exclusion", "write side acquired (%s) by actor %d while writer %d and %d readers hold it", how, me, o, n);
    uint64_t a = x.plain[0]; x.plain[0] = a + 1; pause_inside(r); CHECK(x.plain[3] == a, "exclusion", "data under a write lock changed while it was held"); x.plain[3] = a + 1;
    n = x.readers.load(std::memory_order_relaxed); CHECK(n == 0, "exclusion", "%d readers entered while actor %d holds the write side", n, me);
    o = x.writer.exchange(0, std::memory_order_relaxed); CHECK(o == me, "exclusion", "actor %d took the write side that actor %d holds", o, me);
}
void inside_read(RW &x, int me, Rng &r, const char *how)
{
    int n = x.readers.fetch_add(1, std::memory_order_relaxed) + 1, o = x.writer.load(std::memory_order_relaxed); CHECK(o == 0, "exclusion", "read side acquired (%s) by actor %d while actor %d writes", how, me, o);
    int m = x.most.load(std::memory_order_relaxed); while (n > m && !x.most.compare_exchange_weak(m, n, std::memory_order_relaxed)) ;
    uint64_t a = x.plain[0], b = x.plain[3]; CHECK(a == b, "exclusion", "a reader sees a write in progress (%llu, %llu)", (unsigned long long)a, (unsigned long long)b);
    pause_inside(r); CHECK(x.plain[0] == a, "exclusion", "data changed while a reader holds the lock");
    o = x.writer.load(std::memory_order_relaxed); CHECK(o == 0, "exclusion", "actor %d writes while actor %d reads", o, me); x.readers.fetch_sub(1, std::memory_order_relaxed);
}
struct Quit : std::exception {};
void actor(int me, uint64_t seed, int n, bool threads, int kinds)
{
    Rng r(seed);
    for (int i = 0; i < n; ++i)
    {
        int k; do k = r.below(threads ? 4 : 3); while (!(kinds & (1 << k)) && kinds);
        if (k == 0)
        {
            int w = r.below(3); Mutexes &x = sh->mutex[w];
            switch (r.below(5))
            {
            case 0: x.m.lock(); inside_mutex(x, me, r, "lock"); x.m.unlock(); break;
            case 1: { bump(sh->tries); if (!x.m.try_lock()) continue; bump(sh->try_ok); inside_mutex(x, me, r, "try_lock"); x.m.unlock(); break; }
            case 2: { std::lock_guard<pshared_lock> g(x.m); inside_mutex(x, me, r, "lock_guard"); break; }
            case 3: { std::unique_lock<pshared_lock> g(x.m, std::try_to_lock); bump(sh->tries); if (!g) continue; bump(sh->try_ok); inside_mutex(x, me, r, "try unique_lock"); break; }
            case 4: { std::unique_lock<pshared_lock> g(x.m); inside_mutex(x, me, r, "unique_lock"); bump(sh->mutex_got[w]); g.unlock(); if (r.chance(50)) sched_yield(); g.lock(); inside_mutex(x, me, r, "relocked unique_lock"); break; }
            }
            bump(sh->mutex_got[w]);
        }
        else if (k == 1)
        {
            int w = r.below(3); RW &x = sh->rw[w];
            switch (r.below(6))
            {
            case 0: x.l.wrlock(); inside_write(x, me, r, "wrlock"); x.l.unlock(); break;
            case 1: { bump(sh->tries); if (!x.l.try_wrlock()) continue; bump(sh->try_ok); inside_write(x, me, r, "try_wrlock"); x.l.unlock(); break; }
            case 2: { wrlockguard g(x.l); inside_write(x, me, r, "wrlockguard"); break; }
            case 3: { wrlockguard g(x.l); inside_write(x, me, r, "wrlockguard"); bump(sh->rw_got[w]); g.unlock(); if (r.chance(50)) sched_yield(); g.lock(); inside_write(x, me, r, "relocked wrlockguard"); wrlockguard h(std::move(g)); inside_write(x, me, r, "moved wrlockguard"); bump(sh->rw_got[w]); break; }
            case 4: { try { wrlockguard g(x.l); inside_write(x, me, r, "wrlockguard"); throw Quit(); } catch (const Quit &) {} break; }
            case 5: { wrlockguard g(x.l); inside_write(x, me, r, "wrlockguard"); bump(sh->rw_got[w]); int v = (w + 1) % 3; if (v > w) { wrlockguard h(sh->rw[v].l); g = std::move(h); inside_write(sh->rw[v], me, r, "moved wrlockguard"); bump(sh->rw_got[v]); } else { g.unlock(); } goto counted; }
            }
            bump(sh->rw_got[w]);
        }
        else if (k == 2)
        {
            RW &x = sh->rw[r.below(3)];
            switch (r.below(4))
            {
            case 0: x.l.rdlock(); inside_read(x, me, r, "rdlock"); x.l.unlock(); break;
            case 1: { bump(sh->tries); if (!x.l.try_rdlock()) { CHECK(kinds & 2, "try-free", "try_rdlock fails although nobody ever writes"); continue; } if (!(kinds & 2)) vh::ev("tries_beside_readers"); bump(sh->try_ok); inside_read(x, me, r, "try_rdlock"); x.l.unlock(); break; }
            case 2: { rdlockguard g(x.l); inside_read(x, me, r, "rdlockguard"); break; }
            case 3: { rdlockguard g(x.l); inside_read(x, me, r, "rdlockguard"); g.unlock(); g.lock(); rdlockguard h(std::move(g)); inside_read(x, me, r, "moved rdlockguard"); break; }
            }
            bump(sh->rd_got);
        }
        else
        {
            int t = r.below(3);
            if (t == 0) { sh->spin.lock(); inside_spin(me, r); sh->spin.unlock(); }
            else if (t == 1) { bump(sh->tries); if (!sh->spin.trylock()) { sched_yield(); continue; } bump(sh->try_ok); inside_spin(me, r); sh->spin.unlock(); }
            else { std::lock_guard<spinlock> g(sh->spin); inside_spin(me, r); }
            bump(sh->spin_got);
        }
    counted:
        bump(sh->progress); if (threads) vh::tick();
    }
}
void all_free(const char *when)
{
    for (auto &x : sh->mutex) { CHECK(x.m.try_lock(), "not-released", "a process-shared lock is not free %s", when); x.m.unlock(); }
    for (auto &x : sh->rw) { CHECK(x.l.try_wrlock(), "not-released", "a read-write lock is not free %s", when); x.l.unlock(); }
    CHECK(sh->spin.trylock(), "not-released", "a spin lock is not free %s", when); sh->spin.unlock();
}
void totals()
{
    for (int i = 0; i < 3; ++i)
    {
        CHECK(sh->mutex[i].plain[0] == sh->mutex_got[i].load() && sh->mutex[i].plain[3] == sh->mutex_got[i].load(), "lost-update", "%llu updates under a process-shared lock, %llu are left", (unsigned long long)sh->mutex_got[i].load(), (unsigned long long)sh->mutex[i].plain[0]);
        CHECK(sh->rw[i].plain[0] == sh->rw_got[i].load(), "lost-update", "%llu updates under a write lock, %llu are left", (unsigned long long)sh->rw_got[i].load(), (unsigned long long)sh->rw[i].plain[0]);
        vh::ev("lock_acquisitions", sh->mutex_got[i]); vh::ev("write_acquisitions", sh->rw_got[i]); if (sh->rw[i].most > 1) vh::ev("several_readers");
    }
    CHECK(sh->spin_plain[0] == sh->spin_got.load(), "lost-update", "%llu updates under a spin lock, %llu are left", (unsigned long long)sh->spin_got.load(), (unsigned long long)sh->spin_plain[0]);
    vh::ev("read_acquisitions", sh->rd_got); vh::ev("spin_acquisitions", sh->spin_got); vh::ev("tries", sh->tries); vh::ev("tries_failed", sh->tries - sh->try_ok);
    vh::distinct(vh::mix(vh::mix(sh->mutex_got[0] * 7 + sh->mutex_got[1], sh->rw_got[0] * 5 + sh->rd_got), vh::mix(sh->try_ok * 3 + sh->tries, sh->spin_got)));
}
void case_contention(Rng &r, bool procs)
{
    int n = 2 + r.below(r.chance(20) ? 10 : 4), ops = 20 + r.below(400), kinds = r.chance(40) ? 15 : 1 + r.below(15); if (procs && !(kinds & 7)) kinds = 7;
    inj::Rates x; if (r.chance(40)) { x.mutex_delay = r.below(100); x.delay_us = r.below(50); } inj::random(r.next(), x);
    std::vector<uint64_t> s; for (int i = 0; i < n; ++i) s.push_back(r.next());
    if (procs)
    {
        std::vector<pid_t> p; int th = r.chance(40) ? 2 : 1;
        for (int i = 0; i < n; ++i)
            p.push_back(vh::spawn([&, i] {
                sh->go++; while (sh->go.load() < n) sched_yield();
                if (th == 1) actor(i + 1, s[i], ops, false, kinds);
                else { std::thread t([&] { actor(100 + i, s[i] + 1, ops / 2, false, kinds); }); actor(i + 1, s[i], ops / 2, false, kinds); t.join(); }
                return 0; }));
        vh::expect_ok(p, "stuck", "processes contending for locks", [&] { return sh->progress.load(); }); vh::ev("contending_processes", n);
    }
    else
    {
        std::vector<std::thread> t; for (int i = 0; i < n; ++i) t.emplace_back([&, i] { sh->go.fetch_add(1, std::memory_order_relaxed); while (sh->go.load(std::memory_order_relaxed) < n) sched_yield(); actor(i + 1, s[i], ops, true, kinds); });
        for (auto &y : t) y.join(); vh::ev("contending_threads", n);
    }
    inj::random(0, inj::Rates()); totals(); all_free("after everyone has released it");
}
// Runs f in another thread or process and returns its answer
int other(bool proc, const std::function<int()> &f)
{
    if (proc) { int st = vh::reap(vh::spawn(f), 20); CHECK(st != -1, "try-blocks", "an operation that must not block does not return"); CHECK(WIFEXITED(st) && WEXITSTATUS(st) < 90, "child-died", "wait status 0x%x", st); return WEXITSTATUS(st); }
    int v = -1; std::thread t([&] { v = f(); }); t.join(); return v;
}
int raised(const std::function<void()> &f) { try { f(); } catch (const std::exception &) { return 1; } return 0; }
void case_results(Rng &r, bool procs)
{
    for (int i = 0; i < 12; ++i)
    {
        bool p = procs && r.chance(60); vh::tick(); Mutexes &x = sh->mutex[r.below(3)]; RW &y = sh->rw[r.below(3)]; const char *who = p ? "another process" : "another thread";
        switch (r.below(7))
        {
        case 0:
            x.m.lock(); CHECK(other(p, [&] { return x.m.try_lock() ? 1 : 0; }) == 0, "try-held", "try_lock by %s succeeds on a held lock", who); CHECK(other(p, [&] { return vh::waits([&] { x.m.try_lock(); }); }) == 0, "try-blocks", "try_lock by %s waits for a held lock", who);
            x.m.unlock(); CHECK(other(p, [&] { bool b = x.m.try_lock(); if (b) x.m.unlock(); return b ? 1 : 0; }) == 1, "try-free", "try_lock by %s fails on a free lock", who); break;
        case 1:
            if (r.chance(50)) x.m.lock(); else CHECK(x.m.try_lock(), "try-free", "try_lock fails on a free lock");
            CHECK(raised([&] { x.m.lock(); }) == 1, "relock", "relocking a process-shared lock by its owner raises no error");
            CHECK(!x.m.try_lock(), "try-held", "try_lock by the owner succeeds"); CHECK(other(p, [&] { return x.m.try_lock() ? 1 : 0; }) == 0, "relock", "after the refused relocking %s gets the lock", who);
            CHECK(other(p, [&] { return raised([&] { x.m.unlock(); }); }) == 1, "foreign-unlock", "unlocking by %s raises no error", who);
            CHECK(other(p, [&] { return x.m.try_lock() ? 1 : 0; }) == 0, "foreign-unlock", "after the refused unlocking %s gets the lock", who);
            x.m.unlock(); CHECK(raised([&] { x.m.unlock(); }) == 1, "foreign-unlock", "unlocking a free process-shared lock raises no error"); vh::ev("owner_errors"); break;
        case 2:
            y.l.wrlock(); CHECK(other(p, [&] { return (y.l.try_wrlock() ? 1 : 0) + (y.l.try_rdlock() ? 2 : 0); }) == 0, "try-held", "a try operation by %s succeeds while the write side is held", who);
            CHECK(other(p, [&] { return vh::waits([&] { y.l.try_wrlock(); }) + 2 * vh::waits([&] { y.l.try_rdlock(); }); }) == 0, "try-blocks", "a try operation by %s waits while the write side is held", who);
            y.l.unlock(); CHECK(other(p, [&] { bool a = y.l.try_rdlock(); if (a) y.l.unlock(); bool b = y.l.try_wrlock(); if (b) y.l.unlock(); return a + 2 * b; }) == 3, "try-free", "a try operation by %s fails on a free lock", who); break;
        case 3:
        {
            int n = 1 + r.below(4); for (int k = 0; k < n; ++k) if (r.chance(50)) y.l.rdlock(); else CHECK(y.l.try_rdlock(), "try-free", "try_rdlock fails beside readers");
            CHECK(other(p, [&] { bool a = y.l.try_wrlock(), b = y.l.try_rdlock(); if (b) y.l.unlock(); y.l.rdlock(); y.l.unlock(); return a + 2 * b; }) == 2, "readers", "beside %d readers %s must get the read side only", n, who);
            CHECK(other(p, [&] { return vh::waits([&] { y.l.try_wrlock(); }); }) == 0, "try-blocks", "try_wrlock by %s waits while readers hold the lock", who);
            while (n--) { CHECK(other(p, [&] { return y.l.try_wrlock() ? 1 : 0; }) == 0, "readers", "the write side is given away with %d readers left", n + 1); y.l.unlock(); }
            CHECK(other(p, [&] { bool b = y.l.try_wrlock(); if (b) y.l.unlock(); return b ? 1 : 0; }) == 1, "try-free", "try_wrlock by %s fails after the last reader left", who); vh::ev("shared_readers"); break;
        }
        case 4:     // waiting for release
        {
            sh->step = 0; int kind = r.below(4);
            if (kind == 0) x.m.lock(); else if (kind == 1) y.l.wrlock(); else if (kind == 2) y.l.wrlock(); else y.l.rdlock();
            auto waiter = [&] {
                sh->step = 1;
                if (kind == 0) { x.m.lock(); } else if (kind == 1) y.l.rdlock(); else y.l.wrlock();
                CHECK(sh->step.load() == 2, "exclusion", "%s got a lock that is held", who);
                if (kind == 0) x.m.unlock(); else y.l.unlock();
                return 0; };
            auto release = [&] { while (sh->step.load() != 1) vh::msleep(0.05); vh::msleep(r.below(20) / 10.0); sh->step = 2; if (kind == 0) x.m.unlock(); else y.l.unlock(); };
            if (p) { pid_t c = vh::spawn(waiter); release(); vh::expect_ok({c}, "stuck", "a process waiting for a lock that was released", [] { return 0; }); }
            else { std::thread t(waiter); release(); t.join(); }
            vh::ev("waited_for_release"); break;
        }
        case 5:
            if (procs) break;
            sh->spin.lock(); CHECK(other(false, [&] { return sh->spin.trylock() ? 1 : 0; }) == 0, "try-held", "trylock succeeds on a held spin lock"); CHECK(!sh->spin.trylock(), "try-held", "trylock succeeds on a held spin lock"); CHECK(!vh::waits([] { sh->spin.trylock(); }), "try-blocks", "trylock waits for a held spin lock");
            sh->spin.unlock(); CHECK(other(false, [&] { bool b = sh->spin.trylock(); if (b) sh->spin.unlock(); return b ? 1 : 0; }) == 1, "try-free", "trylock fails on a free spin lock"); vh::ev("spin_results"); break;
        case 6:     // holder in another process or thread
        {
            sh->step = 0; bool w = r.chance(50);
            auto holder = [&] { if (w) { wrlockguard g(y.l); sh->step = 1; while (sh->step.load() != 2) sched_yield(); } else { rdlockguard g(y.l); sh->step = 1; while (sh->step.load() != 2) sched_yield(); } return 0; };
            auto check = [&] { while (sh->step.load() != 1) { sched_yield(); vh::tick(); } bool a = y.l.try_rdlock(); if (a) y.l.unlock(); bool b = y.l.try_wrlock(); CHECK(!b && a == !w, "try-held", "beside a %s in %s, try_rdlock is %d and try_wrlock is %d", w ? "writer" : "reader", who, a, b); sh->step = 2; };
            if (p) { pid_t c = vh::spawn(holder); check(); vh::expect_ok({c}, "stuck", "a process releasing its guard", [] { return 0; }); } else { std::thread t(holder); check(); t.join(); }
            CHECK(y.l.try_wrlock(), "not-released", "a lock whose guard in %s is gone is not free", who); y.l.unlock(); break;
        }
        }
    }
    all_free("after single operations"); vh::ev("result_cases"); vh::distinct(r.next());
}
// Histories of guards on one thread against a model
struct Guard { bool write; std::unique_ptr<rdlockguard> r; std::unique_ptr<wrlockguard> w; int lock; bool owned; };
void case_guards(Rng &r)
{
    std::vector<Guard> g; int readers[3] = {0, 0, 0}; bool writer[3] = {false, false, false}; std::string hist; uint64_t h = 3;
    auto may = [&](bool write, int l) { return write ? !writer[l] && !readers[l] : !writer[l]; };
    auto take = [&](bool write, int l, int d) { if (write) writer[l] = d > 0; else readers[l] += d; };
    auto probe = [&] {
        for (int i = 0; i < 3; ++i)
        {
            bool w = sh->rw[i].l.try_wrlock(); if (w) sh->rw[i].l.unlock(); bool d = sh->rw[i].l.try_rdlock(); if (d) sh->rw[i].l.unlock();
            CHECK(w == (!writer[i] && !readers[i]), "guards", "lock %d has %d readers and %d writers by guards, try_wrlock %s;%s", i, readers[i], writer[i], w ? "succeeds" : "fails", hist.c_str());
            CHECK(d == !writer[i], "guards", "lock %d has %d readers and %d writers by guards, try_rdlock %s;%s", i, readers[i], writer[i], d ? "succeeds" : "fails", hist.c_str());
        } };
    int n = 5 + r.below(60);
    for (int i = 0; i < n; ++i)
    {
        if (hist.size() > 400) hist.erase(0, hist.size() - 400);
        int k = r.below(8); if (g.empty()) k = 0; size_t a = r.below(g.size()), b = r.below(g.size()); h = vh::mix(h, k);
        switch (k)
        {
        case 0: case 1:
        {
            bool w = r.chance(50); int l = r.below(3); if (!may(w, l) || g.size() > 8) continue; Guard x; x.write = w; x.lock = l; x.owned = true; if (w) x.w = std::make_unique<wrlockguard>(sh->rw[l].l); else x.r = std::make_unique<rdlockguard>(sh->rw[l].l);
            take(w, l, 1); hist += vh::strf(" %zu:%s(%d)", g.size(), w ? "wr" : "rd", l); g.push_back(std::move(x)); break;
        }
        case 2: hist += vh::strf(" ~%zu", a); if (g[a].owned) take(g[a].write, g[a].lock, -1); g.erase(g.begin() + a); vh::ev("guards_destroyed"); break;
        case 3:
        {
            hist += vh::strf(" unlock%zu", a); int e = raised([&] { if (g[a].write) g[a].w->unlock(); else g[a].r->unlock(); });
            CHECK(e == !g[a].owned, "guard-unlock", "unlock of a guard that %s its lock %s;%s", g[a].owned ? "holds" : "does not hold", e ? "raises an error" : "raises no error", hist.c_str());
            if (g[a].owned) { take(g[a].write, g[a].lock, -1); g[a].owned = false; vh::ev("guard_unlocks"); } break;
        }
        case 4:
        {
            if (!g[a].owned && g[a].lock >= 0 && !may(g[a].write, g[a].lock)) continue; bool ok = !g[a].owned && g[a].lock >= 0;
            hist += vh::strf(" lock%zu", a); int e = raised([&] { if (g[a].write) g[a].w->lock(); else g[a].r->lock(); });
            CHECK(e == !ok, "guard-lock", "lock of a guard that %s %s;%s", g[a].owned ? "holds its lock" : ok ? "does not hold its lock" : "has no lock", e ? "raises an error" : "raises no error", hist.c_str());
            if (ok) { take(g[a].write, g[a].lock, 1); g[a].owned = true; vh::ev("guard_relocks"); } break;
        }
        case 5:
        {
            hist += vh::strf(" move%zu", a); Guard x; x.write = g[a].write; x.lock = g[a].lock; x.owned = g[a].owned; if (x.write) x.w = std::make_unique<wrlockguard>(std::move(*g[a].w)); else x.r = std::make_unique<rdlockguard>(std::move(*g[a].r));
            g[a].owned = false; g[a].lock = -1; g.push_back(std::move(x)); vh::ev("guard_moves"); break;
        }
        default:
        {
            if (g[a].write != g[b].write) continue; hist += vh::strf(" %zu=%zu", a, b);
            if (g[a].write) { wrlockguard &s = *g[b].w; *g[a].w = std::move(s); } else { rdlockguard &s = *g[b].r; *g[a].r = std::move(s); }
            if (a == b) { vh::ev("guard_self_moves"); break; }
            if (g[a].owned) { take(g[a].write, g[a].lock, -1); vh::ev("guard_overwrites"); } g[a].lock = g[b].lock; g[a].owned = g[b].owned; g[b].lock = -1; g[b].owned = false; break;
        }
        }
        probe();
    }
    hist += " end"; g.clear(); for (int i = 0; i < 3; ++i) readers[i] = 0, writer[i] = false; probe(); vh::ev("guard_histories"); vh::distinct(h);
    if (r.chance(1)) vh::sample(hist.substr(0, 300));
}
}
void harness_init() { mem = ::mmap(nullptr, SZ, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (mem == MAP_FAILED || sizeof(Shared) > SZ) vh::broken("mmap"); }
void harness_fini() {}
void run_case(uint64_t, Rng &r)
{
    memset(mem, 0, sizeof(Shared)); sh = new (mem) Shared;
    bool procs = vh::mode == "proc"; int x = r.below(100);
    if (x < 30) case_guards(r); else if (x < 55) case_results(r, procs); else case_contention(r, procs);
    sh->~Shared();
}
// errors raised for foreign unlocking and lock orders of one thread are part of the cases
extern "C" const char *__tsan_default_options() { return "detect_deadlocks=0:report_mutex_bugs=0"; }
