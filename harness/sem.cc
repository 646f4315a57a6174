// C20: named semaphores: permit accounting, creation, try results, ownership of references.
#include "act.h"
#include <csignal>
#include <sys/resource.h>
#include "cppev/ipc.h"
using vh::Rng;
using namespace cppev;
using act::RLX;

namespace
{
struct Sh : act::Common
{
    std::atomic<int> creators{0}, unlinks{0}, opened{0}, finished{0}; std::atomic<int64_t> released{0}, acquired{0}; std::atomic<int> inside{0}, most{0};
    std::atomic<uint64_t> hits{0}; std::atomic<int> pid[32], tid[32];
};
Sh *sh; std::string base; int serial;
std::string fresh() { return vh::strf("%s_%d", base.c_str(), serial++); }
std::string path(const std::string &n) { return "/dev/shm/sem." + n.substr(1); }
bool exists(const std::string &n) { struct stat st; return syscall(SYS_newfstatat, AT_FDCWD, path(n).c_str(), &st, 0) == 0; }
void wipe(const std::string &n) { syscall(SYS_unlink, path(n).c_str()); }
// (the creator's mapping goes by the name of glibc's temporary file)
long mapped() { return vh::maps_count("/dev/shm/sem."); }
int raised(const std::function<void()> &f, std::string *what = nullptr) { try { f(); } catch (const std::exception &e) { if (what) *what = e.what(); return 1; } return 0; }
void delays(Rng &r, bool eintr) { inj::Rates x; if (r.chance(60)) { x.delay = 100 + r.below(600); x.delay_us = r.below(r.chance(10) ? 1500 : 100); } if (eintr && r.chance(60)) x.eintr = 50 + r.below(400); inj::random(r.next(), x); }
void on_signal(int) { sh->hits.fetch_add(1, RLX); }

// one storm actor interrupts the others with signals until they are done
void storm(int n, Rng &q)
{
    while (sh->finished.load(RLX) < n) { int i = q.below(n); int p = sh->pid[i].load(RLX), t = sh->tid[i].load(RLX); if (p) syscall(SYS_tgkill, p, t, SIGUSR2); if (q.chance(30)) vh::msleep(q.below(10) / 100.0); else sched_yield(); }
}
void register_self(int i) { sh->tid[i].store(syscall(SYS_gettid), RLX); sh->pid[i].store(getpid(), RLX); }
void done_self(int i) { sh->pid[i].store(0, RLX); sh->finished.fetch_add(1, RLX); }
void reset() { sh->creators = 0; sh->unlinks = 0; sh->opened = 0; sh->finished = 0; sh->released = 0; sh->acquired = 0; sh->inside = 0; sh->most = 0; for (auto &p : sh->pid) p = 0; }
void got(int n)
{
    int64_t a = sh->acquired.fetch_add(n, RLX) + n, r = sh->released.load(RLX); CHECK(a <= r, "invented-permit", "%lld permits acquired, releasing of only %lld had begun", (long long)a, (long long)r);
}
void take(semaphore &s, int n, Rng &q)
{
    if (n == 1 && q.chance(25)) { while (!s.try_acquire()) sched_yield(); } else if (n == 1 && q.chance(50)) s.acquire(); else s.acquire(n);
    got(n);
}
void give(semaphore &s, int n, Rng &q) { sh->released.fetch_add(n, RLX); if (n == 1 && q.chance(50)) s.release(); else s.release(n); }
int drain(semaphore &s) { int n = 0; while (n < 1000000 && s.try_acquire()) ++n; return n; }

// permits handed over by releasers to acquirers; what nobody takes is left
void case_transfer(Rng &r, bool procs)
{
    std::string name = fresh(); reset(); int acq = 1 + r.below(6), rel = 1 + r.below(4), ops = 5 + r.below(150), maxn = r.chance(50) ? 1 : 1 + r.below(8), extra = r.below(5); bool signals = r.chance(50), after = r.chance(30);
    std::vector<std::vector<int>> want(acq); int64_t total = extra; for (auto &w : want) for (int k = 0; k < ops; ++k) { w.push_back(1 + r.below(maxn)); total += w.back(); }
    auto keep = std::make_unique<semaphore>(name); CHECK(keep->creator(), "creator", "the first opener is not the creator"); CHECK(!keep->try_acquire(), "initial", "a fresh semaphore has a permit"); bool share = !procs && r.chance(50);
    delays(r, true); std::vector<int64_t> part(rel, total / rel); part[0] += total % rel; int n = acq + rel;
    act::together(*sh, procs, r, n + signals, "permits handed over", [&](int i, Rng &q) {
        if (i == n) { storm(n, q); return; }
        register_self(i); std::unique_ptr<semaphore> own; if (!share) { own = std::make_unique<semaphore>(name); CHECK(!own->creator(), "creator", "an opener of an existing name is told it is the creator"); } semaphore &s = share ? *keep : *own;
        if (i < acq) for (int w : want[i]) { take(s, w, q); act::bump(*sh, procs); if (q.chance(10)) act::dally(q); }
        else { if (after) vh::msleep(1); for (int64_t left = part[i - acq]; left > 0;) { int k = 1 + q.below(std::min<int64_t>(left, maxn + 1)); give(s, k, q); left -= k; act::bump(*sh, procs); if (q.chance(20)) act::dally(q); } }
        done_self(i); });
    inj::reset(); int left = drain(*keep); CHECK(left == extra, "lost-permit", "%lld permits released, %lld acquired, %d are left", (long long)sh->released.load(), (long long)sh->acquired.load(), left);
    vh::ev("permits", total); if (signals) vh::ev("signal_storms"); vh::ev("signals", sh->hits.exchange(0)); keep->unlink(); keep.reset(); CHECK(mapped() == 0, "leak", "a semaphore stays mapped"); vh::distinct(vh::mix(vh::mix(acq * 8 + rel, total), procs * 2 + signals)); vh::ev("transfers");
}
// a pool of permits that everyone takes and gives back
void case_pool(Rng &r, bool procs)
{
    std::string name = fresh(); reset(); int n = 2 + r.below(7), k = 1 + r.below(4), ops = 10 + r.below(150); bool signals = r.chance(40); semaphore main_(name); sh->released = k; main_.release(k); delays(r, true);
    act::together(*sh, procs, r, n + signals, "permits taken and given back", [&](int i, Rng &q) {
        if (i == n) { storm(n, q); return; }
        register_self(i); semaphore s(name); 
        for (int j = 0; j < ops; ++j)
        {
            if (q.chance(30)) { if (!s.try_acquire()) { vh::ev("pool_tries_failed"); act::bump(*sh, procs); continue; } got(1); } else { s.acquire(); got(1); }
            int in = sh->inside.fetch_add(1, RLX) + 1; CHECK(in <= k, "invented-permit", "%d holders of %d permits", in, k); int m = sh->most.load(RLX); while (in > m && !sh->most.compare_exchange_weak(m, in, RLX)) ;
            if (q.chance(20)) act::dally(q); sh->inside.fetch_sub(1, RLX); give(s, 1, q); act::bump(*sh, procs);
        }
        done_self(i); });
    inj::reset(); int left = drain(main_); CHECK(left == k, "lost-permit", "%d of %d permits are left after everyone gave them back", left, k); vh::ev("pool_holders", n); if (sh->most == k && k > 1) vh::ev("pools_exhausted"); main_.unlink(); vh::distinct(vh::mix(n * 8 + k, ops * 2 + procs));
}
void case_creators(Rng &r, bool procs)
{
    std::string name = fresh(); int n = 2 + r.below(r.chance(20) ? 12 : 5); bool unlinkers = r.chance(50); int ops = unlinkers ? 4 + r.below(30) : 1; reset(); delays(r, false);
    act::together(*sh, procs, r, n, "concurrent openers of a semaphore", [&](int i, Rng &q) {
        (void)i;
        for (int k = 0; k < ops; ++k)
        {
            act::dally(q); semaphore s(name); if (s.creator()) sh->creators.fetch_add(1, RLX); if (!unlinkers) CHECK(!s.try_acquire(), "initial", "a fresh semaphore has a permit");
            if (unlinkers && q.chance(40)) { if (!raised([&] { s.unlink(); })) sh->unlinks.fetch_add(1, RLX); }
            act::bump(*sh, procs);
        } });
    inj::reset(); int c = sh->creators, u = sh->unlinks, e = exists(name); CHECK(c == u + e && (unlinkers || c == 1), "creator", "%d openers are told they are the creator, %d unlinked, and the name %s", c, u, e ? "exists" : "does not exist");
    vh::ev("concurrent_openers", n); vh::ev("creations", c); if (e) { semaphore s(name); CHECK(!s.creator(), "creator", "reopening creates"); CHECK(!s.try_acquire(), "initial", "a fresh semaphore has a permit"); s.unlink(); } CHECK(!exists(name) && mapped() == 0, "leak", "a semaphore stays"); vh::distinct(vh::mix(c * 64 + u, n));
}
// Histories of handles and permits against a model
void case_history(Rng &r)
{
    struct Obj { int count = 0; }; struct H { std::unique_ptr<semaphore> s; int name = -1; bool creator = false; std::shared_ptr<Obj> o; };
    std::vector<std::string> names{fresh(), fresh(), fresh()}; std::shared_ptr<Obj> cur[3]; std::vector<H> hs; std::string hist; uint64_t sig = 5; int fds = vh::fd_count();
    auto probe = [&] {
        std::set<Obj *> objs; for (auto &h : hs) if (h.name >= 0) objs.insert(h.o.get()); long m = mapped(); CHECK(m == long(objs.size()), "mappings", "%zu semaphores are open and %ld are mapped;%s", objs.size(), m, hist.c_str());
        for (int i = 0; i < 3; ++i)
            CHECK(exists(names[i]) == !!cur[i], "unlink", "name %d %s;%s", i, cur[i] ? "is gone" : "exists", hist.c_str());
        for (auto &h : hs) CHECK(h.s->creator() == h.creator, "creator", "a handle whose creator flag was %d tells %d;%s", h.creator, h.s->creator(), hist.c_str());
        CHECK(vh::fd_count() == fds, "leak", "%d descriptors, %d at first;%s", vh::fd_count(), fds, hist.c_str()); };
    int n = 5 + r.below(60);
    for (int i = 0; i < n; ++i)
    {
        if (hist.size() > 500) hist.erase(0, hist.size() - 500);
        int k = r.below(10); if (hs.empty()) k = 0; size_t a = r.below(hs.size()), b = r.below(hs.size()); sig = vh::mix(sig, k);
        switch (k)
        {
        case 0:
        {
            if (hs.size() > 6) continue; H h; h.name = r.below(3); auto &o = cur[h.name]; h.creator = !o; if (!o) o = std::make_shared<Obj>(); h.o = o; hist += vh::strf(" %zu:open(%d)", hs.size(), h.name); mode_t mode = r.chance(50) ? 0600 : r.pick(std::vector<mode_t>{0644, 0660, 0640});
            h.s = std::make_unique<semaphore>(names[h.name], mode); if (h.creator) { struct stat st; mode_t um = umask(0); umask(um); CHECK(stat(path(names[h.name]).c_str(), &st) == 0 && (st.st_mode & 0777) == (mode & ~um), "mode", "created with mode %o instead of %o", st.st_mode & 0777, mode & ~um); vh::ev("fresh_objects"); } hs.push_back(std::move(h)); break;
        }
        case 1: hist += vh::strf(" ~%zu", a); hs.erase(hs.begin() + a); vh::ev("handles_destroyed"); break;
        case 2: { if (hs[a].name < 0) continue; int c = r.below(5); hist += vh::strf(" release%zu(%d)", a, c); hs[a].s->release(c); hs[a].o->count += c; break; }
        case 3: { if (hs[a].name < 0) continue; int c = r.below(hs[a].o->count + 1); hist += vh::strf(" acquire%zu(%d)", a, c); if (r.chance(30)) inj::fail(inj::F_SEM_WAIT, -1, EINTR, 1 + r.below(3), r.below(c + 1)); hs[a].s->acquire(c); inj::reset(); hs[a].o->count -= c; vh::ev("multi_acquisitions"); break; }
        case 4: case 5:
        {
            if (hs[a].name < 0) continue; bool ok = hs[a].s->try_acquire(); hist += vh::strf(" try%zu", a); CHECK(ok == (hs[a].o->count > 0), "try", "a try acquisition with %d permits %s;%s", hs[a].o->count, ok ? "succeeds" : "fails", hist.c_str()); hs[a].o->count -= ok; if (!ok) CHECK(!vh::waits([&] { if (hs[a].s->try_acquire()) hs[a].s->release(); }), "try-blocks", "a try acquisition without permits waits"); vh::ev(ok ? "tries_succeeded" : "tries_failed"); break;
        }
        case 6:
        {
            hist += vh::strf(" move%zu", a); H h; h.name = hs[a].name; h.creator = hs[a].creator; h.o = hs[a].o; h.s = std::make_unique<semaphore>(std::move(*hs[a].s)); hs[a].name = -1; hs[a].creator = false; hs[a].o.reset(); hs.push_back(std::move(h)); vh::ev("moves"); break;
        }
        case 7: case 8:
        {
            hist += vh::strf(" %zu=%zu", a, b); semaphore &s = *hs[b].s; *hs[a].s = std::move(s); if (a == b) break; if (hs[a].name >= 0) vh::ev("overwrites"); hs[a].name = hs[b].name; hs[a].creator = hs[b].creator; hs[a].o = hs[b].o; hs[b].name = -1; hs[b].creator = false; hs[b].o.reset(); break;
        }
        case 9:
        {
            hist += vh::strf(" unlink%zu", a); int nm = hs[a].name; int e = raised([&] { hs[a].s->unlink(); }); if (nm < 0) break; CHECK(e == !cur[nm], "unlink", "unlinking a name that %s %s;%s", cur[nm] ? "exists" : "does not exist", e ? "raises an error" : "raises no error", hist.c_str()); cur[nm].reset(); vh::ev("unlinks"); break;
        }
        }
        probe();
    }
    for (auto &h : hs) if (h.name >= 0) { int d = drain(*h.s); CHECK(d == h.o->count, "lost-permit", "a semaphore holds %d permits instead of %d;%s", d, h.o->count, hist.c_str()); h.o->count = 0; }
    hs.clear(); hist += " end"; probe(); for (auto &x : names) wipe(x); vh::ev("histories"); vh::distinct(sig); if (r.chance(2)) vh::sample(hist.substr(0, 300));
}
void case_failures(Rng &r)
{
    int fds = vh::fd_count(); std::string name = fresh(), what;
    switch (r.below(5))
    {
    case 0: { std::string bad = r.pick(std::vector<std::string>{"", "/", "/vh_no/such", "/" + std::string(260 + r.below(400), 's')}); CHECK(raised([&] { semaphore s(bad); }, &what), "failure", "opening semaphore %s raises no error", vh::show(bad, 30).c_str()); break; }
    case 1:
    {
        bool existing = r.chance(50); { std::unique_ptr<semaphore> s; if (existing) { s = std::make_unique<semaphore>(name); s->release(2); s.reset(); } }
        std::vector<int> f; rlimit rl, lo; getrlimit(RLIMIT_NOFILE, &rl); lo = rl; lo.rlim_cur = 64; setrlimit(RLIMIT_NOFILE, &lo); int d; while ((d = syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDONLY | O_CLOEXEC)) >= 0) f.push_back(d);
        int e = raised([&] { semaphore s(name); }, &what); for (int x : f) vh::sys_close(x); setrlimit(RLIMIT_NOFILE, &rl); CHECK(e, "failure", "opening a semaphore without free descriptors raises no error"); CHECK(exists(name) == existing, "failure", "a failed opening created or removed the semaphore");
        semaphore s(name); int n = drain(s); CHECK(s.creator() == !existing && n == (existing ? 2 : 0), "lost-permit", "after a failed opening the semaphore has %d permits", n); s.unlink(); vh::ev("out_of_descriptors"); break;
    }
    case 2: { semaphore s(name); s.release(3); int k = r.below(3); inj::fail(inj::F_SEM_WAIT, -1, EINVAL, 1, k); uint64_t h0 = inj::scripted_hits(); int e = raised([&] { s.acquire(3); }, &what); bool hit = inj::scripted_hits() != h0; inj::reset(); if (hit) { CHECK(e, "failure", "a failing acquisition raises no error"); vh::ev("injected_failures"); } s.unlink(); break; }
    case 3: { semaphore s(name); int k = r.below(3); inj::fail(inj::F_SEM_POST, -1, EOVERFLOW, 1, k); uint64_t h0 = inj::scripted_hits(); int e = raised([&] { s.release(3); }, &what); bool hit = inj::scripted_hits() != h0; inj::reset(); if (hit) { CHECK(e, "failure", "a failing release raises no error"); vh::ev("injected_failures"); } s.unlink(); break; }
    case 4: { semaphore s(name); s.unlink(); CHECK(raised([&] { s.unlink(); }, &what), "unlink", "unlinking a missing name raises no error"); s.release(2); CHECK(drain(s) == 2, "lost-permit", "an unlinked semaphore lost its permits"); semaphore t(name); CHECK(t.creator() && !t.try_acquire(), "initial", "a name does not start afresh after unlinking"); t.release(); CHECK(!s.try_acquire(), "invented-permit", "a permit of the new semaphore appears in the old one"); t.unlink(); break; }
    }
    vh::ev("failures"); CHECK(vh::fd_count() == fds && mapped() == 0, "leak", "a failed operation (%s) leaves a descriptor or mapping", what.c_str()); vh::distinct(vh::hash(what));
}
}
void harness_init()
{
    sh = act::shared<Sh>(); base = vh::strf("/vh%d", getpid()); struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_signal; sigaction(SIGUSR2, &sa, nullptr);
}
void harness_fini() {}
void run_case(uint64_t, Rng &r)
{
    bool procs = vh::mode == "proc" ? r.chance(70) : false; int k = r.below(100);
    if (k < 25) case_transfer(r, procs); else if (k < 45) case_pool(r, procs); else if (k < 65) case_creators(r, procs); else if (k < 90) case_history(r); else case_failures(r);
}
// glibc keeps its list of open semaphores under a lock that the sanitizer does not see
extern "C" const char *__tsan_default_suppressions() { return "race:__sem_remove_mapping\nrace:__sem_check_add_mapping\nrace:tsearch\nrace:tdelete\nrace:sem_open\nrace:sem_close\n"; }
