// C23: signal helpers against the kernel's own view of masks, pending signals and dispositions.
#include "act.h"
#include <csignal>
#include <system_error>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <condition_variable>
#include "cppev/utils.h"
using vh::Rng;
using namespace cppev;

namespace
{
typedef unsigned long long Mask;
Mask bit(int s) { return 1ull << (s - 1); }
std::vector<int> usable;            // catchable signals that are not the C library's own
const int MAXT = 5;
struct Log { std::atomic<uint64_t> n[MAXT + 1][65]; std::atomic<uint64_t> seq; std::atomic<uint64_t> order[65]; };
struct Area { act::Common c; Log log; std::atomic<int> x[16]; };
Area *A;
thread_local int my_index = MAXT;
void on_signal(int s) { A->log.n[my_index][s].fetch_add(1, act::RLX); A->log.order[s].store(A->log.seq.fetch_add(1, act::RLX) + 1, act::RLX); }
uint64_t handled(int s, int t = -1) { uint64_t n = 0; for (int i = 0; i <= MAXT; ++i) if (t < 0 || t == i) n += A->log.n[i][s].load(act::RLX); return n; }
void clear() { memset(static_cast<void *>(A), 0, sizeof *A); }
void prog() { A->c.progress.fetch_add(1, act::RLX); }

struct Kern { Mask blk, pnd, shd, ign, cgt; char state; };
Kern kern(pid_t tid, pid_t pid = 0)
{
    char path[64], b[4096]; snprintf(path, sizeof path, "/proc/%d/task/%d/status", pid ? pid : int(syscall(SYS_getpid)), tid);
    int f = syscall(SYS_openat, AT_FDCWD, path, O_RDONLY | O_CLOEXEC); if (f < 0) vh::broken("%s: errno %d", path, errno);
    ssize_t n = vh::sys_read(f, b, sizeof b - 1); vh::sys_close(f); if (n <= 0) vh::broken("%s", path); b[n] = 0;
    auto get = [&](const char *k) { char *p = strstr(b, k); if (!p) vh::broken("no %s in status", k); return strtoull(p + strlen(k), nullptr, 16); };
    char *s = strstr(b, "State:\t"); return {get("SigBlk:\t"), get("SigPnd:\t"), get("ShdPnd:\t"), get("SigIgn:\t"), get("SigCgt:\t"), s ? s[7] : '?'};
}
Mask all_usable;
std::string names(const std::vector<int> &v) { std::string s; for (int x : v) s += vh::strf("%s%d", s.empty() ? "" : ",", x); return "{" + s + "}"; }
std::vector<int> subset(Rng &r, int most) { std::vector<int> v; int n = 1 + r.below(most); for (int i = 0; i < n; ++i) v.push_back(r.pick(usable)); return v; }
template <typename F> int raised(F f, bool *logic = nullptr)
{
    try { f(); } catch (const std::system_error &e) { return e.code().value() ? e.code().value() : -1; } catch (const std::logic_error &) { if (logic) *logic = true; return -2; } catch (const std::exception &) { return -3; }
    return 0;
}
bool dfl_ignored(int s) { return s == SIGCHLD || s == SIGURG || s == SIGWINCH || s == SIGCONT; }

// ---- random histories over several threads, one operation at a time ----
struct Worker { std::thread t; std::mutex m; std::condition_variable c; std::function<void()> job; bool quit = false; std::atomic<bool> idle{true}; std::atomic<pid_t> tid{0}; };
struct T { Mask blk = 0; int pnd[65] = {0}; };
void history(Rng &r)
{
    clear(); sigset_t all; sigfillset(&all); syscall(SYS_rt_sigprocmask, SIG_SETMASK, &all, nullptr, 8);
    int n = 1 + r.below(4), ops = 10 + r.below(60); std::vector<std::unique_ptr<Worker>> w; std::vector<T> t(n); int shd[65] = {0}; int disp[65]; uint64_t want[65] = {0}; std::string hist; uint64_t sig = n;
    // what the process starts with
    pid_t me = syscall(SYS_getpid); Kern k0 = kern(me); for (int s = 1; s <= 64; ++s) disp[s] = (k0.ign & bit(s)) ? 1 : (k0.cgt & bit(s)) ? 3 : 0;     // 3: handler of a sanitizer
    std::vector<int> focus = subset(r, 6); auto some = [&] { return r.chance(80) ? r.pick(focus) : r.pick(usable); };
    auto some_set = [&](int most) { std::vector<int> v; int c = 1 + r.below(most); for (int i = 0; i < c; ++i) v.push_back(some()); return v; };
    for (int i = 0; i < n; ++i)
    {
        w.push_back(std::make_unique<Worker>()); Worker *x = w.back().get();
        x->t = std::thread([x, i] { my_index = i; x->tid = syscall(SYS_gettid); std::unique_lock<std::mutex> l(x->m); while (true) { x->c.wait(l, [&] { return x->job || x->quit; }); if (x->quit) return; x->job(); x->job = nullptr; x->idle.store(true, std::memory_order_release); } });
        while (!x->tid) sched_yield(); t[i].blk = all_usable;
    }
    auto run = [&](int i, std::function<void()> f) {
        { std::lock_guard<std::mutex> l(w[i]->m); w[i]->idle = false; w[i]->job = f; } w[i]->c.notify_one(); int spins = 0;
        while (!w[i]->idle.load(std::memory_order_acquire)) { if (++spins < 200) sched_yield(); else vh::msleep(0.05); } prog(); };
    auto ignored = [&](int s) { return disp[s] == 1 || (disp[s] == 0 && dfl_ignored(s)); };
    auto flush = [&](int s) { if (!ignored(s)) return; shd[s] = 0; for (auto &x : t) x.pnd[s] = 0; };
    auto dispose = [&](int s, int d) { if (d == 2) { handle_signal(s, on_signal); } else if (d == 1) ignore_signal(s); else reset_signal(s); disp[s] = d; flush(s); };
    auto verify = [&] {
        for (int s : usable) if (disp[s] == 2 || want[s]) { if (handled(s) < want[s]) { double t0 = vh::now(); while (handled(s) < want[s]) { if (vh::now() - t0 > 15) vh::viol("lost", "signal %d: its handler ran %llu times instead of %llu;%s", s, (unsigned long long)handled(s), (unsigned long long)want[s], hist.c_str()); vh::msleep(0.1); prog(); } } CHECK(handled(s) == want[s], "delivered", "signal %d: its handler ran %llu times instead of %llu;%s", s, (unsigned long long)handled(s), (unsigned long long)want[s], hist.c_str()); }
        Mask S = 0; for (int s : usable) if (shd[s]) S |= bit(s);
        Mask ign = 0, cgt = 0; for (int s : usable) { if (disp[s] == 1) ign |= bit(s); if (disp[s] >= 2) cgt |= bit(s); }
        for (int i = 0; i < n; ++i)
        {
            Kern k = kern(w[i]->tid); Mask P = 0; for (int s : usable) if (t[i].pnd[s]) P |= bit(s); double t0 = vh::now();
            CHECK((k.blk & all_usable) == t[i].blk, "mask", "thread %d blocks %llx instead of %llx;%s", i, k.blk & all_usable, t[i].blk, hist.c_str());
            CHECK((k.pnd & all_usable) == P, "pending", "thread %d has %llx pending instead of %llx;%s", i, k.pnd & all_usable, P, hist.c_str());
            while ((k.shd & all_usable) != S && vh::now() - t0 < 15) { vh::msleep(0.1); prog(); k = kern(w[i]->tid); }
            CHECK((k.shd & all_usable) == S, "pending", "the process has %llx pending instead of %llx;%s", k.shd & all_usable, S, hist.c_str());
            CHECK((k.ign & all_usable) == ign && (k.cgt & all_usable) == cgt, "disposition", "signals %llx are ignored and %llx handled instead of %llx and %llx;%s", k.ign & all_usable, k.cgt & all_usable, ign, cgt, hist.c_str());
        }
    };
    // whatever is delivered to thread i when its mask becomes m has to be harmless
    auto prepare = [&](int i, Mask m) { for (int s : usable) if (!(m & bit(s)) && (shd[s] || t[i].pnd[s]) && !ignored(s) && disp[s] != 2) { dispose(s, 2); hist += vh::strf(" handle%d", s); } };
    auto deliver = [&](int i, Mask m) { for (int s : usable) if (!(m & bit(s))) { if (disp[s] == 2) want[s] += shd[s] + t[i].pnd[s]; shd[s] = t[i].pnd[s] = 0; } };
    verify();
    for (int o = 0; o < ops; ++o)
    {
        int i = r.below(n), k = r.below(13); T &x = t[i]; sig = vh::mix(sig, k * 8 + i); vh::ev("operations");
        if (hist.size() > 900) hist.erase(0, hist.size() - 900);
        switch (k)
        {
        case 0: { int s = some(); hist += vh::strf(" t%d.block(%d)", i, s); run(i, [=] { thread_block_signal(s); }); x.blk |= bit(s); break; }
        case 1: { auto v = some_set(5); if (r.chance(5)) v.clear(); hist += vh::strf(" t%d.block%s", i, names(v).c_str()); run(i, [=] { thread_block_signal(v); }); for (int s : v) x.blk |= bit(s); break; }
        case 2: { int s = some(); Mask m = x.blk & ~bit(s); prepare(i, m); hist += vh::strf(" t%d.unblock(%d)", i, s); uint64_t b = handled(s); int due = disp[s] == 2 ? shd[s] + x.pnd[s] : 0; std::atomic<uint64_t> after{0}; run(i, [&] { thread_unblock_signal(s); after = handled(s); }); CHECK(after - b == uint64_t(due), "delivered", "unblocking signal %d with %d pending: %llu deliveries on return;%s", s, due, (unsigned long long)(after - b), hist.c_str()); x.blk = m; deliver(i, m); vh::ev("pending_delivered", due); break; }
        case 3: { auto v = some_set(5); if (r.chance(5)) v.clear(); Mask m = x.blk; for (int s : v) m &= ~bit(s); prepare(i, m); hist += vh::strf(" t%d.unblock%s", i, names(v).c_str()); run(i, [=] { thread_unblock_signal(v); }); x.blk = m; deliver(i, m); break; }
        case 4: case 5: case 6:
        {
            int s = some(); if (!(x.blk & bit(s)) && !ignored(s) && disp[s] != 2) { dispose(s, 2); hist += vh::strf(" handle%d", s); }
            hist += vh::strf(" t%d.raise(%d)", i, s); uint64_t b = handled(s, i); std::atomic<uint64_t> after{0}; run(i, [&] { thread_raise_signal(s); after = handled(s, i); });
            if (x.blk & bit(s)) { if (s >= 34) x.pnd[s]++; else x.pnd[s] = 1; CHECK(after == b, "delivered", "signal %d was delivered although it is blocked;%s", s, hist.c_str()); vh::ev("raised_blocked"); }
            else { if (disp[s] == 2) { want[s]++; CHECK(after == b + 1, "delivered", "raising signal %d: %llu deliveries in the raising thread on return;%s", s, (unsigned long long)(after - b), hist.c_str()); } vh::ev("raised_open"); }
            break;
        }
        case 7:
        {
            int s = some(); bool open = false; for (auto &y : t) open |= !(y.blk & bit(s)); if (open && !ignored(s) && disp[s] != 2) { dispose(s, 2); hist += vh::strf(" handle%d", s); }
            hist += vh::strf(" t%d.send_to_process(%d)", i, s); run(i, [=] { send_signal(syscall(SYS_getpid), s); });
            if (!open) { if (s >= 34) shd[s]++; else shd[s] = 1; } else if (disp[s] == 2) want[s]++; vh::ev("sent_to_process"); break;
        }
        case 8:
        {
            int s = some(), d = r.below(3); hist += vh::strf(" %s%d", d == 0 ? "reset" : d == 1 ? "ignore" : "handle", s);
            if (r.chance(50)) dispose(s, d); else { run(i, [=] { if (d == 2) handle_signal(s, on_signal); else if (d == 1) ignore_signal(s); else reset_signal(s); }); disp[s] = d; flush(s); } vh::ev("dispositions"); break;
        }
        case 9: case 10:
        {
            std::vector<int> blocked, pend; for (int s : usable) if (x.blk & bit(s)) { blocked.push_back(s); if (shd[s] || x.pnd[s]) pend.push_back(s); } if (pend.empty()) continue;
            int s = r.pick(pend); std::vector<int> v{s}; bool set = r.chance(60); if (set) { int more = r.below(5); for (int q = 0; q < more; ++q) v.insert(v.begin() + r.below(v.size() + 1), r.pick(blocked)); } int got = s; hist += vh::strf(" t%d.wait%s", i, names(v).c_str());
            run(i, [&] { if (set) got = thread_wait_for_signal(v); else thread_wait_for_signal(s); });
            bool in = false; for (int q : v) in |= q == got; CHECK(in, "wait", "waiting for %s returned %d;%s", names(v).c_str(), got, hist.c_str()); CHECK(x.pnd[got] || shd[got], "wait", "waiting returned %d, which is not pending;%s", got, hist.c_str());
            if (x.pnd[got]) x.pnd[got]--; else shd[got]--; vh::ev(set ? "set_waits" : "waits"); break;
        }
        case 11:
        {
            std::vector<int> pend; for (int s : usable) if (x.blk & bit(s)) if (shd[s] || x.pnd[s]) pend.push_back(s); if (pend.empty()) continue;
            int s = r.pick(pend); std::vector<int> v{s}; bool set = r.chance(60); if (set) { auto more = some_set(4); v.insert(v.begin() + r.below(2), more.begin(), more.end()); }
            Mask m = ~0ull; for (int q : v) m &= ~bit(q); for (int q : v) if (disp[q] != 2 && (shd[q] || x.pnd[q])) { if (ignored(q)) { hist += vh::strf(" handle%d", q); dispose(q, 2); } } prepare(i, m);
            hist += vh::strf(" t%d.suspend%s", i, names(v).c_str()); std::map<int, uint64_t> b; for (int q : usable) b[q] = handled(q); run(i, [&] { if (set) thread_suspend_for_signal(v); else thread_suspend_for_signal(s); });
            uint64_t total = 0; std::set<int> named(v.begin(), v.end());
            for (int q : usable) { uint64_t d = handled(q) - b[q]; if (!d) continue; CHECK(named.count(q), "suspend", "while suspended for %s signal %d was delivered;%s", names(v).c_str(), q, hist.c_str()); CHECK(int(d) <= x.pnd[q] + shd[q], "suspend", "while suspended signal %d was delivered %llu times with %d pending;%s", q, (unsigned long long)d, x.pnd[q] + shd[q], hist.c_str()); total += d; want[q] += d; while (d--) { if (x.pnd[q]) x.pnd[q]--; else shd[q]--; } }
            CHECK(total >= 1, "suspend", "suspending for %s returned without any of them;%s", names(v).c_str(), hist.c_str()); vh::ev("suspensions"); break;
        }
        case 12:
        {
            int s = some(); bool m = false, p = false; hist += vh::strf(" t%d.check(%d)", i, s); run(i, [&] { m = thread_check_signal_mask(s); p = thread_check_signal_pending(s); });
            CHECK(m == !!(x.blk & bit(s)), "query", "the mask query of signal %d says %d;%s", s, m, hist.c_str()); CHECK(p == (x.pnd[s] || shd[s]), "query", "the pending query of signal %d says %d;%s", s, p, hist.c_str()); vh::ev("queries"); break;
        }
        }
        verify();
    }
    if (r.chance(30)) { int i = r.below(n); Mask mm = 0, pp = 0; run(i, [&] { for (int s : usable) { if (thread_check_signal_mask(s)) mm |= bit(s); if (thread_check_signal_pending(s)) pp |= bit(s); } }); Mask P = 0; for (int s : usable) if (shd[s] || t[i].pnd[s]) P |= bit(s); CHECK(mm == t[i].blk && pp == P, "query", "queries of all signals give mask %llx pending %llx instead of %llx, %llx;%s", mm, pp, t[i].blk, P, hist.c_str()); }
    for (auto &x : w) { { std::lock_guard<std::mutex> l(x->m); x->quit = true; } x->c.notify_one(); x->t.join(); } vh::ev("histories"); vh::distinct(sig); if (r.chance(2)) vh::sample(hist.substr(0, 300));
}

// ---- threads that wait or suspend until others send ----
int tgkill(pid_t tid, int s) { return syscall(SYS_tgkill, syscall(SYS_getpid), tid, s); }
std::vector<int> distinct_signals(Rng &r, int n) { std::vector<int> v = usable; for (int i = 0; i < n; ++i) std::swap(v[i], v[i + r.below(v.size() - i)]); v.resize(n); return v; }
void waiting(Rng &r)
{
    clear(); sigset_t all; sigfillset(&all); syscall(SYS_rt_sigprocmask, SIG_SETMASK, &all, nullptr, 8);
    int rounds = 1 + r.below(4);
    for (int q = 0; q < rounds; ++q)
    {
        auto v = distinct_signals(r, 8); int cut = 1 + r.below(4); std::vector<int> in(v.begin(), v.begin() + cut); int chosen = in[r.below(cut)], out = v[6], open = v[7]; bool set = cut > 1 || r.chance(30), to_thread = r.chance(50), suspend = r.chance(50);
        for (int s : v) handle_signal(s, on_signal); uint64_t b_ch = handled(chosen), b_out = handled(out), b_open = handled(open); std::atomic<pid_t> tid{0}; std::atomic<int> got{0}; std::atomic<bool> back{false}; std::atomic<uint64_t> at_return{0}; Mask kept = 0;
        std::string what = vh::strf("%s for %s%s", suspend ? "suspending" : "waiting", names(in).c_str(), set ? "" : " (single)");
        std::thread t([&] {
            my_index = 0; sigset_t m; sigfillset(&m); sigdelset(&m, open); tid = syscall(SYS_gettid); pthread_sigmask(SIG_SETMASK, &m, nullptr);
            if (suspend) { if (set) thread_suspend_for_signal(in); else thread_suspend_for_signal(chosen); got = chosen; } else if (set) got = thread_wait_for_signal(in); else { thread_wait_for_signal(chosen); got = chosen; }
            at_return = handled(chosen); back = true; Kern k = kern(tid); kept = k.blk; sigset_t f; sigfillset(&f); pthread_sigmask(SIG_SETMASK, &f, nullptr); });
        while (!tid) sched_yield();
        auto is_waiting = [&] { Kern k = kern(tid); if (k.state != 'S') return false; Mask m = 0; for (int s : in) m |= bit(s); if (!set) m = bit(chosen); return suspend ? (k.blk & all_usable) == (all_usable & ~m) : !(k.blk & m) || k.state == 'S'; };
        auto linger = [&](double ms) { double t0 = vh::now(); while (!is_waiting() && (vh::now() - t0) * 1000 < ms) vh::msleep(0.02); };
        if (r.chance(85)) linger(3);
        int noise = r.below(3); if (noise) { if (tgkill(tid, out)) vh::broken("tgkill"); if (r.chance(50)) linger(1); if (r.chance(50)) vh::msleep(r.below(10) / 10.0); }
        if (noise == 2) { if (tgkill(tid, open)) vh::broken("tgkill"); if (r.chance(50)) linger(1); if (r.chance(50)) vh::msleep(r.below(10) / 10.0); }
        CHECK(!back, "wait", "%s ended before any of the signals was sent", what.c_str());
        if (to_thread) { if (tgkill(tid, chosen)) vh::broken("tgkill"); } else send_signal(syscall(SYS_getpid), chosen);
        double t0 = vh::now(); while (!back) { if (vh::now() - t0 > 20) vh::viol("wait", "%s does not end although %d was sent", what.c_str(), chosen); vh::msleep(0.05); } prog(); t.join();
        CHECK(got == chosen, "wait", "%s returned %d, sent was %d", what.c_str(), got.load(), chosen); CHECK(handled(out) == b_out, "delivered", "%s: the blocked signal %d was delivered", what.c_str(), out);
        CHECK(handled(open) == b_open + (noise == 2), "lost", "%s: the unblocked signal %d was delivered %llu times instead of %d", what.c_str(), open, (unsigned long long)(handled(open) - b_open), noise == 2);
        CHECK((kept & all_usable) == (all_usable & ~bit(open)), "mask", "%s left the mask %llx", what.c_str(), kept & all_usable);
        if (suspend) CHECK(at_return == b_ch + 1, "suspend", "%s ended with %llu deliveries of %d", what.c_str(), (unsigned long long)(at_return - b_ch), chosen); else CHECK(handled(chosen) == b_ch, "wait", "%s: %d was also delivered", what.c_str(), chosen);
        vh::ev(suspend ? "suspended_threads" : "waiting_threads"); vh::distinct(vh::hash(what + vh::strf("%d%d%d", chosen, noise, to_thread)));
    }
}
// several threads waiting for different signals of the process
void many_waiting(Rng &r)
{
    clear(); sigset_t all; sigfillset(&all); syscall(SYS_rt_sigprocmask, SIG_SETMASK, &all, nullptr, 8); int n = 2 + r.below(4); auto v = distinct_signals(r, n * 2); std::vector<std::thread> t; std::atomic<int> got[MAXT + 1]; for (auto &g : got) g = 0; int per = 1 + r.below(6); std::vector<uint64_t> seeds; for (int i = 0; i < n; ++i) seeds.push_back(r.next());
    for (int i = 0; i < n; ++i) t.emplace_back([&, i] { my_index = i; Rng q(seeds[i]); for (int k = 0; k < per; ++k) { int s = v[i * 2 + (k & 1)], g = s; if (q.chance(50)) g = thread_wait_for_signal(std::vector<int>{s}); else if (q.chance(50)) g = thread_wait_for_signal(std::vector<int>{v[i * 2], v[i * 2 + 1]}); else thread_wait_for_signal(s); CHECK(g == s, "wait", "a thread waiting for signal %d got %d, which was not sent to it", s, g); got[i].fetch_add(1); } });
    for (int k = 0; k < per; ++k) { std::vector<int> o; for (int i = 0; i < n; ++i) o.push_back(i); for (int i = n; i > 1; --i) std::swap(o[i - 1], o[r.below(i)]); for (int i : o) { send_signal(syscall(SYS_getpid), v[i * 2 + (k & 1)]); if (r.chance(30)) vh::msleep(0.1); } for (int i = 0; i < n; ++i) { double t0 = vh::now(); while (got[i] < k + 1) { if (vh::now() - t0 > 20) vh::viol("lost", "thread %d of %d does not get signal %d that it waits for", i, n, v[i * 2 + (k & 1)]); vh::msleep(0.02); } } prog(); }
    for (auto &x : t) x.join(); vh::ev("waits_side_by_side", n * per); vh::distinct(r.next());
}

// ---- sending between processes ----
// a process that counts signals in its column of the shared area until told to end
pid_t counter(int i, const std::vector<int> &sigs) { A->x[i] = 0; pid_t p = vh::spawn([&, i] { my_index = i; sigset_t none; sigemptyset(&none); for (int s : sigs) handle_signal(s, on_signal); syscall(SYS_rt_sigprocmask, SIG_SETMASK, &none, nullptr, 8); A->x[i] = 1; while (A->x[i] != 2) vh::msleep(0.2); return 0; }); return p; }
void await(const std::function<bool()> &f, const char *key, const std::string &what) { double t0 = vh::now(); while (!f()) { if (vh::now() - t0 > 20) vh::viol(key, "%s", what.c_str()); vh::msleep(0.05); vh::tick(); } }
void sending(Rng &r)
{
    clear(); int n = 2 + r.below(3); auto sigs = distinct_signals(r, 3); std::vector<pid_t> p; for (int i = 0; i < n; ++i) p.push_back(counter(i, sigs)); for (int i = 0; i < n; ++i) await([&] { return A->x[i] == 1; }, "start", "a process does not start"); std::string h; int m = 1 + r.below(10);
    uint64_t want[MAXT][65]; memset(want, 0, sizeof want);
    for (int k = 0; k < m; ++k)
    {
        int i = r.below(n), s = r.pick(sigs); h += vh::strf(" %d->%d", s, i); send_signal(p[i], s); want[i][s]++; await([&] { return handled(s, i) >= want[i][s]; }, "lost", "a process did not get signal " + std::to_string(s));
        for (int j = 0; j < n; ++j) for (int q : sigs) CHECK(handled(q, j) == want[j][q], "delivered", "process %d got signal %d %llu times instead of %llu;%s", j, q, (unsigned long long)handled(q, j), (unsigned long long)want[j][q], h.c_str()); vh::ev("sent");
    }
    bool logic = false; raised([&] { send_signal(p[0], 0); }, &logic); CHECK(logic, "errors", "sending signal 0 is not refused"); int e = raised([&] { send_signal(p[0], r.pick(std::vector<int>{65, 66, 1000, -1})); }); CHECK(e == EINVAL, "errors", "sending an invalid signal raises %d", e);
    for (int j = 0; j < n; ++j) CHECK(check_process(p[j]), "exists", "a running process is said not to exist");
    for (int j = 0; j < n; ++j) A->x[j] = 2; vh::expect_ok(p, "stuck", "counting processes", [] { return A->c.progress.load(); });
    int g = r.below(n); e = raised([&] { send_signal(p[g], SIGTERM); }); CHECK(e == ESRCH, "errors", "signalling a process that is gone raises %d", e); CHECK(!check_process(p[g]), "exists", "a process that is gone is said to exist"); vh::ev("gone"); vh::distinct(vh::hash(h));
}
// does a process with that id exist, as seen in /proc
bool proc_exists(pid_t p) { char b[64]; snprintf(b, sizeof b, "/proc/%d/stat", p); struct stat st; return ::stat(b, &st) == 0; }
void other_user() { if (syscall(SYS_setresgid, 65534, 65534, 65534) || syscall(SYS_setresuid, 65534, 65534, 65534)) vh::broken("setresuid: errno %d", errno); prctl(PR_SET_PDEATHSIG, SIGKILL); }
void existence(Rng &r)
{
    clear(); bool unpriv = r.chance(50); int k = r.below(4);
    // judged from this process, or from one of another user
    auto judge = [&](const std::function<void()> &f) { if (!unpriv) { f(); return; } pid_t q = vh::spawn([&] { other_user(); f(); return 0; }); vh::expect_ok({q}, "stuck", "asking about processes", [] { return A->c.progress.load(); }); vh::ev("asked_by_other_user"); };
    const char *who = unpriv ? " (asked by another user)" : "";
    if (k == 0)
    {   // alive, dead but not reaped, gone
        pid_t p = counter(0, {}); await([&] { return A->x[0] == 1; }, "start", "a process does not start"); judge([&] { CHECK(check_process(p), "exists", "a running process is said not to exist%s", who); prog(); if (unpriv) { int e = raised([&] { send_signal(p, SIGWINCH); }); CHECK(e == EPERM, "errors", "signalling another user's process raises %d", e); } });
        syscall(SYS_kill, p, SIGKILL); siginfo_t si; syscall(SYS_waitid, P_PID, p, &si, WEXITED | WNOWAIT, nullptr); if (proc_exists(p)) judge([&] { CHECK(check_process(p), "exists", "a dead process that has not been waited for is said not to exist%s", who); });
        syscall(SYS_wait4, p, nullptr, 0, nullptr); if (!proc_exists(p)) judge([&] { bool c = check_process(p); CHECK(!c || proc_exists(p), "exists", "a process that is gone is said to exist%s", who); });
        pid_t none = 0x3ffff0 + r.below(1000); if (!proc_exists(none)) judge([&] { CHECK(!check_process(none), "exists", "process %d is said to exist%s", none, who); }); judge([&] { CHECK(check_process(syscall(SYS_getpid)), "exists", "the asking process is said not to exist"); CHECK(check_process(syscall(SYS_getppid)), "exists", "the parent is said not to exist%s", who); }); vh::ev("existence");
    }
    else
    {   // a group whose leader and members end one after the other
        int n = 1 + r.below(4); std::vector<pid_t> p; for (int i = 0; i < n; ++i) { pid_t q = counter(i, {}); if (syscall(SYS_setpgid, q, p.empty() ? 0 : p[0])) vh::broken("setpgid: errno %d", errno); p.push_back(q); await([&] { return A->x[i] == 1; }, "start", "a process does not start"); }
        pid_t g = p[0]; std::vector<pid_t> left = p; judge([&] { CHECK(check_process_group(g), "exists", "a group of %d is said not to exist%s", n, who); prog(); });
        while (!left.empty())
        {
            size_t i = r.chance(50) ? 0 : r.below(left.size()); syscall(SYS_kill, left[i], SIGKILL); syscall(SYS_wait4, left[i], nullptr, 0, nullptr); left.erase(left.begin() + i);
            bool some = !left.empty(); judge([&] { bool c = check_process_group(g); CHECK(c == some, "exists", "a group with %zu of %d processes left is said %s exist%s", left.size(), n, c ? "to" : "not to", who); prog(); }); vh::ev("groups");
        }
        judge([&] { CHECK(check_process_group(syscall(SYS_getpgid, 0)), "exists", "the own group is said not to exist%s", who); });
    }
    vh::distinct(r.next());
}
// what a disposition means, shown by how a process ends
void dispositions(Rng &r)
{
    clear(); int s = r.pick(usable), k = r.below(5), other = 0; do other = r.pick(usable); while (other == s); bool thread = r.chance(40); if (k == 0 && (s == SIGTSTP || s == SIGTTIN || s == SIGTTOU)) s = SIGTERM;
    pid_t p = vh::spawn([&] {
        my_index = 0; struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl); sigset_t none; sigemptyset(&none); syscall(SYS_rt_sigprocmask, SIG_SETMASK, &none, nullptr, 8); handle_signal(other, on_signal); auto go = [&](const std::function<void()> &f) { if (thread) { std::thread t(f); t.join(); } else f(); };
        switch (k)
        {
        case 0: handle_signal(s, on_signal); reset_signal(s); break;
        case 1: ignore_signal(s); break;
        case 2: handle_signal(s); break;
        case 3: ignore_signal(s); handle_signal(s, on_signal); break;
        case 4: handle_signal(s, on_signal); ignore_signal(s); break;
        }
        A->x[1] = 1; go([&] { thread_raise_signal(other); }); CHECK(handled(other) == 1, "delivered", "signal %d was delivered %llu times", other, (unsigned long long)handled(other)); A->x[1] = 2; int times = k == 3 ? 3 : 1;
        for (int i = 0; i < times; ++i) go([&] { thread_raise_signal(s); }); A->x[1] = 3; CHECK(handled(s) == uint64_t(k == 3 ? times : 0), "disposition", "signal %d raised %d times was handled %llu times", s, times, (unsigned long long)handled(s)); if (k == 3) { Kern q = kern(syscall(SYS_gettid)); CHECK(!(q.blk & bit(s)) && (q.cgt & bit(s)), "disposition", "after its handler ran, signal %d is %s", s, q.blk & bit(s) ? "blocked" : "not handled any more"); } return 7; });
    int st = vh::reap(p); if (st == -1) vh::viol("disposition", "a process does not end after signal %d (case %d)", s, k); if (WIFEXITED(st) && (WEXITSTATUS(st) == 98 || WEXITSTATUS(st) == 99 || WEXITSTATUS(st) == 96)) syscall(SYS_exit_group, WEXITSTATUS(st));
    if (k == 0 && !dfl_ignored(s)) CHECK(WIFSIGNALED(st) && WTERMSIG(st) == s, "disposition", "signal %d was reset; raising it ended with 0x%x (stage %d)", s, st, A->x[1].load()); else CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 7, "disposition", "signal %d (%s): the process ended with 0x%x (stage %d)", s, k == 0 ? "reset" : k == 1 || k == 4 ? "ignored" : "handled", st, A->x[1].load());
    int bad = r.pick(std::vector<int>{SIGKILL, SIGSTOP, 0, 65, 100, -1}), e, w = r.below(3); e = raised([&] { if (w == 0) ignore_signal(bad); else if (w == 1) handle_signal(bad); else handle_signal(bad, on_signal); }); CHECK(e == EINVAL, "errors", "a handler for signal %d raises %d", bad, e); vh::ev("disposition_cases"); vh::distinct(vh::mix(s * 8 + k, other));
}
}
void harness_init() { A = act::shared<Area>(); for (int s = 1; s <= 64; ++s) if (s != SIGKILL && s != SIGSTOP && s != SIGCONT && s != SIGSYS /* unblocked at times by AddressSanitizer */ && s != 32 && s != 33) { usable.push_back(s); all_usable |= bit(s); } }
void harness_fini() {}
void run_case(uint64_t, Rng &r)
{
    int k = r.below(100); auto in_child = [&](void (*f)(Rng &), const char *what) { Rng q(r.next()); clear(); pid_t p = vh::spawn([&] { f(q); vh::report_child(); return 0; }); vh::expect_ok({p}, "stuck", what, [] { return A->c.progress.load(); }, 30); };
    if (k < 40) in_child(history, "signal histories"); else if (k < 60) in_child(waiting, "waiting for signals"); else if (k < 70) in_child(many_waiting, "waiting for signals"); else if (k < 80) sending(r); else if (k < 90) existence(r); else dispositions(r);
}
