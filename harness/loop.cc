// C06 (mode ""): single-threaded histories of the event loop against poll(2)
// C07 (mode "mt"): registrations, removals and stop requests from other threads
#include "net.h"
#include <atomic>
#include <algorithm>
#include <sys/resource.h>
#include "cppev/event_loop.h"
using namespace cppev;
using vh::Rng;

struct H { int id; int slot; fd_event type; priority prio; };
struct P
{
    std::shared_ptr<nio> iop; int raw = -1; std::string kind;
    int mask = 0;                 // activated events, 0: not activated
    std::map<int, H> hs;          // handlers held by the loop
};
static const priority PR[] = {p0, p1, p2, p3, p4, p5, p6};
static fd_event EV[] = {fd_event::fd_readable, fd_event::fd_writable, fd_event::fd_readable | fd_event::fd_writable};

static std::unique_ptr<event_loop> loop;
static std::vector<P> ps;
static int next_id;
static uint64_t serial;
static std::string hist;

struct Action { int what = 0; int slot = 0; bool clean = false, deact = false; };   // 1 remove, 2 revive, 3 add, 4 throw
struct Thrown : std::runtime_error { Thrown() : std::runtime_error("handler") {} };

// state of the pass being observed
static bool in_pass;
static std::map<int, H> due, maybe;     // have to / may be invoked
static std::map<int, int> ran;
static int last_prio; static bool ambiguous_prio;
static std::map<int, Action> acts;      // by handler id
static std::thread::id loop_thread;

static void on_event(int id, const std::shared_ptr<nio> &iop);
static fd_event_handler mk(int id) { return [id](const std::shared_ptr<nio> &iop) { on_event(id, iop); }; }

static void add_handler(int slot, fd_event type, priority prio, bool activate)
{
    P &p = ps[slot]; H h{++next_id, slot, type, prio};
    loop->fd_register(p.iop, type, mk(h.id), activate, prio);
    p.hs[h.id] = h; if (activate) p.mask = (int)type;
}
static void remove(int slot, bool clean, bool deact)
{
    P &p = ps[slot];
    loop->fd_remove(p.iop, clean, deact);
    if (deact) p.mask = 0;
    if (clean) p.hs.clear();
}
// during a pass: what is still due for this slot
static void drop_due(int slot, bool to_maybe)
{
    for (auto it = due.begin(); it != due.end();) if (it->second.slot == slot && !ran[it->first]) { if (to_maybe) maybe.insert(*it); it = due.erase(it); } else ++it;
    if (!to_maybe) for (auto it = maybe.begin(); it != maybe.end();) if (it->second.slot == slot && !ran[it->first]) it = maybe.erase(it); else ++it;
}
static void on_event(int id, const std::shared_ptr<nio> &iop)
{
    CHECK(in_pass, "outside-pass", "handler %d invoked outside any pass", id);
    bool d = due.count(id), m = maybe.count(id);
    CHECK(d || m, "not-ready", "handler %d invoked although it is not ready, not registered or removed; %s", id, hist.c_str());
    const H h = d ? due[id] : maybe[id];
    CHECK(!ran[id], "twice", "handler %d invoked twice in one pass; %s", id, hist.c_str());
    CHECK(iop == ps[h.slot].iop, "wrong-handle", "handler %d got another handle; %s", id, hist.c_str());
    CHECK(&iop->evlp() == loop.get(), "wrong-loop", "handle names another loop");
    CHECK((int)h.prio <= last_prio || ambiguous_prio || m, "priority", "handler with priority %d ran after one with priority %d; %s", (int)h.prio, last_prio, hist.c_str());
    if (d) last_prio = h.prio;
    ran[id] = 1; vh::ev("invocations");
    auto it = acts.find(id);
    if (it == acts.end()) return;
    Action a = it->second; P &p = ps[a.slot];
    switch (a.what)
    {
    case 1:
        if (a.deact && !p.mask) a.deact = false;
        hist += vh::strf(" [h%d removes %d %d%d]", id, a.slot, a.clean, a.deact);
        remove(a.slot, a.clean, a.deact);
        if (a.clean || a.deact) { drop_due(a.slot, false); vh::ev("removed_in_pass"); }
        break;
    case 2:
        if (p.mask && id % 2) return;
        if (p.mask) { remove(a.slot, false, true); drop_due(a.slot, false); vh::ev("switched_in_pass"); }
        hist += vh::strf(" [h%d revives %d, %d%d]", id, a.slot, a.clean, a.deact);
        p.mask = a.clean ? 3 : a.deact ? 2 : 1;
        loop->fd_register(p.iop, EV[p.mask - 1], fd_event_handler(), true); vh::ev("revived_in_pass");
        for (auto &x : p.hs) if (!due.count(x.first) && !ran[x.first] && ((int)x.second.type & p.mask)) maybe.insert(x);     // from this pass or the next
        break;
    case 3:
        hist += vh::strf(" [h%d adds to %d]", id, a.slot);
        add_handler(a.slot, EV[a.clean ? 0 : 1], PR[a.deact ? 6 : 0], false);
        maybe.insert(*p.hs.rbegin());
        break;
    case 4:
        hist += vh::strf(" [h%d throws]", id);
        throw Thrown();
    }
}

static short ready_of(const P &p)
{
    short rev = vh::sys_poll(p.iop->fd(), POLLIN | POLLOUT, 0);
    short r = 0;
    if (rev & (POLLHUP | POLLERR)) r = 3;
    if (rev & POLLIN) r |= 1;
    if (rev & POLLOUT) r |= 2;
    return r;
}

static P make(Rng &r)
{
    P p; int f[2];
    switch (r.below(4))
    {
    case 0: if (vh::sys_pipe(f)) vh::broken("pipe"); net::nonblock(f[1]); p.kind = "pipe-r"; p.iop = std::make_shared<nstream>(f[0]); p.raw = f[1]; break;
    case 1: if (vh::sys_pipe(f)) vh::broken("pipe"); net::nonblock(f[0]); p.kind = "pipe-w"; p.iop = std::make_shared<nstream>(f[1]); p.raw = f[0]; break;
    case 2: if (syscall(SYS_socketpair, AF_UNIX, SOCK_STREAM, 0, f)) vh::broken("pair"); net::nonblock(f[1]); p.kind = "unix"; p.iop = std::make_shared<nstream>(f[0]); p.raw = f[1]; break;
    default:
    {
        static int lis = -1; if (lis < 0) lis = net::listener(net::addr_ip(AF_INET, "127.0.0.1", 0));
        p.raw = net::connect_to(net::local(lis)); if (p.raw < 0) vh::broken("connect");
        int s = net::accept_one(lis); net::nonblock(p.raw); p.kind = "tcp"; p.iop = std::make_shared<nstream>(s);
    }
    }
    return p;
}
static void change_readiness(P &p, Rng &r)
{
    int fd = p.iop->fd(); char b[65536];
    switch (r.below(7))
    {
    case 0: case 1: if (p.raw >= 0) { memset(b, 1, 10); if (syscall(SYS_sendto, p.raw, b, 10, MSG_NOSIGNAL | MSG_DONTWAIT, nullptr, 0) < 0 && errno == ENOTSOCK && p.kind == "pipe-r") vh::sys_write(p.raw, b, 10); } break;
    case 2: case 3: if (p.kind != "pipe-w") while (vh::sys_read(fd, b, sizeof b) > 0) ; break;
    case 4: if (p.kind != "pipe-r" && p.kind != "tcp")   // tcp makes room asynchronously
        { memset(b, 2, sizeof b); for (int i = 0; i < 300; ++i) { ssize_t n = p.kind == "pipe-w" ? vh::sys_write(fd, b, sizeof b) : syscall(SYS_sendto, fd, b, sizeof b, MSG_NOSIGNAL | MSG_DONTWAIT, nullptr, 0); if (n <= 0) break; } } break;
    case 5: if (p.raw >= 0 && p.kind != "pipe-r") while (vh::sys_read(p.raw, b, sizeof b) > 0) ; break;
    default: if (p.raw >= 0 && r.chance(25)) { if (p.kind == "tcp" && r.chance(60)) net::rst_close(p.raw); else vh::sys_close(p.raw); p.raw = -1; vh::ev("hang_ups"); } break;
    }
}

static void check_loads()
{
    size_t n = 0; for (auto &p : ps) n += p.hs.size();
    CHECK(loop->ev_loads() == (int)n, "loads", "load is %d, the loop holds %zu handlers; %s", loop->ev_loads(), n, hist.c_str());
}

static void one_pass(Rng &r, bool allow_actions)
{
    due.clear(); maybe.clear(); ran.clear(); acts.clear(); last_prio = 1 << 20; ambiguous_prio = false;
    // tcp segments on loopback are delivered synchronously, pipes and unix sockets too; a settled state is seen twice
    std::vector<short> rd; int nready = 0;
    for (int tries = 0; tries < 200; ++tries)
    {
        std::vector<short> x; for (auto &p : ps) x.push_back(ready_of(p));
        if (tries && x == rd) break;
        rd = x;
    }
    for (size_t i = 0; i < ps.size(); ++i)
        for (auto &h : ps[i].hs)
            if (ps[i].mask & rd[i] & (int)h.second.type) { due.insert(h); ++nready; }
    bool any = nready; for (size_t i = 0; i < ps.size(); ++i) if (ps[i].mask & rd[i]) any = true;
    // an activated descriptor also wakes up for hang-ups without matching handlers
    for (size_t i = 0; i < ps.size(); ++i) if (ps[i].mask && rd[i] == 3) any = true;
    if (allow_actions)
        for (auto &d : due)
            if (r.chance(25))
            {
                Action a; a.what = r.chance(65) ? 1 : r.chance(55) ? 2 : r.chance(60) ? 3 : 4;
                a.slot = r.chance(30) ? d.second.slot : r.below(ps.size()); a.clean = r.chance(50); a.deact = r.chance(60);
                acts[d.first] = a;
            }
    int timeout = any ? (r.chance(30) ? -1 : r.chance(30) ? 0 : 500) : r.chance(80) ? 0 : 1 + r.below(25);
    bool eintr = r.chance(3);
    if (eintr) { inj::fail(inj::F_EPOLL_WAIT, -1, EINTR, 1); timeout = 0; }
    double t0 = vh::now(); bool threw = false;
    in_pass = true;
    try { loop->loop_once(timeout); } catch (const Thrown &) { threw = true; vh::ev("handlers_throwing"); }
    in_pass = false; inj::clear_fail();
    double dt = (vh::now() - t0) * 1000;
    vh::ev("passes");
    if (!any && !eintr) { CHECK(dt >= timeout - 1.5, "timeout-early", "an idle pass with timeout %d ms returned after %.3f ms", timeout, dt); if (timeout) vh::ev("idle_timeouts"); }
    if (!any) CHECK(ran.empty(), "not-ready", "handlers ran in an idle pass");
    if (!threw && !eintr)
        for (auto &d : due)
            CHECK(ran[d.first], "missed", "handler %d of %s #%d (events %d, activated %d, ready %d) was not invoked; %s", d.first, ps[d.second.slot].kind.c_str(), d.second.slot,
                (int)d.second.type, ps[d.second.slot].mask, rd[d.second.slot], hist.c_str());
    check_loads();
}

static void model_case(uint64_t k, Rng &r)
{
    int base = vh::fd_count();
    int data = 0, back = 0;
    loop = std::make_unique<event_loop>(&data, &back);
    CHECK(loop->data() == &data && loop->back() == &back && loop->ev_fd() >= 0, "construction", "user data lost");
    ps.clear(); hist.clear(); next_id = 0;
    int n = 1 + r.below(r.chance(10) ? 40 : 7);
    for (int i = 0; i < n; ++i) ps.push_back(make(r));
    int steps = 20 + r.below(120); uint64_t sig = n;
    for (int st = 0; st < steps; ++st)
    {
        vh::tick();
        if (hist.size() > 1500) hist.erase(0, 900);
        int i = r.below(ps.size()); P &p = ps[i];
        int op = r.below(16); fd_event type = EV[r.below(3)]; priority prio = PR[r.below(7)];
        switch (op)
        {
        case 0: case 1: case 2:     // handler, perhaps activating
        {
            bool act = r.chance(60);
            if (p.hs.size() > 5) break;
            if (act && p.mask)
            {
                // already active: has to fail and leave nothing
                bool threw = false; int id = ++next_id;
                try { loop->fd_register(p.iop, type, mk(id), true, prio); } catch (const std::exception &) { threw = true; }
                CHECK(threw, "register-twice", "activating an active descriptor raised no error; %s", hist.c_str());
                hist += vh::strf(" reg!(%d)", i); vh::ev("failed_registrations");
                break;
            }
            if (act && r.chance(15))
            {
                static const int errs[] = {ENOMEM, ENOSPC}; bool threw = false; int id = ++next_id;
                inj::fail(inj::F_EPOLL_CTL, p.iop->fd(), errs[r.below(2)], 1);
                try { loop->fd_register(p.iop, type, mk(id), true, prio); } catch (const std::exception &) { threw = true; }
                bool hit = true; inj::clear_fail();
                if (threw) { hist += vh::strf(" reg!!(%d)", i); vh::ev("failed_registrations"); }
                else { p.hs[id] = H{id, i, type, prio}; p.mask = (int)type; (void)hit; }
                break;
            }
            if (prio == p0 && act && r.chance(50)) { H h{++next_id, i, type, p0}; loop->fd_register(p.iop, type, mk(h.id)); p.hs[h.id] = h; p.mask = (int)type; }
            else add_handler(i, type, prio, act);
            hist += vh::strf(" reg(%d,%s,t%d,p%d,%s)", i, p.kind.c_str(), (int)type, (int)prio, act ? "act" : "-");
            break;
        }
        case 3:                     // activation without handler, revives kept ones
            if (p.mask) break;
            loop->fd_register(p.iop, type, fd_event_handler(), true); p.mask = (int)type;
            if (p.hs.size()) vh::ev("revivals");
            hist += vh::strf(" act(%d,t%d)", i, (int)type);
            break;
        case 4: case 5:
        {
            bool clean = r.chance(50), deact = p.mask && r.chance(75);
            if (clean && r.chance(50) && p.mask) { loop->fd_remove(p.iop); p.mask = 0; p.hs.clear(); deact = true; }
            else remove(i, clean, deact);
            hist += vh::strf(" rm(%d,%d%d)", i, clean, deact);
            if (r.chance(30)) hist += "", one_pass(r, false);
            break;
        }
        case 6:                     // replaced by another descriptor, often with the same number
        {
            if (p.mask && r.chance(50)) { remove(i, true, true); } else { loop->fd_remove(p.iop, true, false); p.hs.clear(); }
            p.mask = 0; if (p.raw >= 0) vh::sys_close(p.raw);
            static_cast<nio *>(p.iop.get())->close(); p = P(); p = make(r);
            hist += vh::strf(" new(%d)", i); vh::ev("descriptors_replaced");
            break;
        }
        case 7:                     // descriptors the system refuses
        {
            bool threw = false; int id = ++next_id;
            auto pp = nio_factory::get_pipes(); std::shared_ptr<nio> x = pp[0]; x->close();
            std::string f = vh::scratch + "/file"; 
            if (r.chance(50)) { int fd = ::open(f.c_str(), O_CREAT | O_RDWR, 0600); x = std::make_shared<nio>(fd); }
            try { loop->fd_register(x, type, mk(id), true, prio); } catch (const std::exception &) { threw = true; }
            CHECK(threw, "register-bad", "registering a descriptor that cannot be polled raised no error");
            vh::ev("failed_registrations");
            break;
        }
        case 8: case 9: case 10: change_readiness(p, r); continue;
        default: one_pass(r, true); hist += " pass"; break;
        }
        check_loads();
        sig = vh::mix(sig, op * 8 + p.mask);
    }
    one_pass(r, false); one_pass(r, false);
    for (auto &p : ps) { if (p.mask) loop->fd_remove(p.iop); else loop->fd_remove(p.iop, true, false); p.hs.clear(); if (p.raw >= 0) vh::sys_close(p.raw); }
    check_loads();
    ps.clear(); loop.reset();
    static bool first = true;   // the tcp listener stays
    if (first) { first = false; base = vh::fd_count(); }
    CHECK(vh::fd_count() <= base + 1, "descriptor-leak", "%d descriptors, %d before", vh::fd_count(), base);
    vh::distinct(sig);
    if (k < 3) vh::sample(hist.substr(0, 300));
}

// everything ready at once: nobody is left for a later pass
static void crowd_case(uint64_t k, Rng &r)
{
    rlimit old; getrlimit(RLIMIT_NOFILE, &old); rlimit rl = old; rl.rlim_cur = std::min<rlim_t>(rl.rlim_max, 2600); setrlimit(RLIMIT_NOFILE, &rl);
    int room = static_cast<int>(rl.rlim_cur) - vh::fd_count() - 40;
    int n = std::min(room, r.chance(40) ? 1500 + (int)r.below(540) : 70 + (int)r.below(1200));
    {
        event_loop lp; int f[2]; if (vh::sys_pipe(f)) vh::broken("pipe"); net::nonblock(f[0]);
        std::vector<std::shared_ptr<nio>> io; std::vector<int> pr, ran; std::vector<int> order; std::vector<char> gone(n, 0);
        for (int i = 0; i < n; ++i) { int d = syscall(SYS_dup, f[0]); if (d < 0) vh::broken("dup"); io.push_back(std::make_shared<nstream>(d)); pr.push_back(PR[r.below(7)]); }
        // several handlers for each descriptor, the first activates it
        int mult = r.chance(50) ? 1 : 2 + (int)r.below(2), all = n * mult; for (int i = n; i < all; ++i) pr.push_back(PR[r.below(7)]);
        ran.assign(all, 0); int most = 0;
        for (int i = 0; i < all; ++i) lp.fd_register(io[i % n], fd_event::fd_readable, [&, i](const std::shared_ptr<nio> &iop) { CHECK(iop == io[i % n], "wrong-handle", "crowd: handler %d got another handle", i); ++ran[i]; order.push_back(pr[i]); }, i < n, (priority)pr[i]);
        for (int round = 0; round < 4; ++round)
        {
            vh::tick();
            bool ready = round != 1; char b;
            if (round == 0 || round == 2) { vh::sys_write(f[1], "x", 1); } else if (round == 1) { if (vh::sys_read(f[0], &b, 1) != 1) vh::broken("read"); }
            if (round == 2) for (int i = 0; i < n; ++i) if (r.chance(40)) { lp.fd_remove(io[i]); gone[i] = 1; }
            std::fill(ran.begin(), ran.end(), 0); order.clear();
            lp.loop_once(ready ? 2000 : 0);
            int bad = 0, first = -1; for (int i = 0; i < all; ++i) if (ran[i] != (ready && !gone[i % n])) { if (!bad++) first = i; }
            most = std::max<int>(most, order.size());
            CHECK(!bad, ready ? "missed" : "not-ready", "crowd of %d with %d handlers each: %d handlers ran another number of times than they should in pass %d, the first is %d (%d times, %s)", n, mult, bad, round, first, ran[first < 0 ? 0 : first], first >= 0 && gone[first % n] ? "removed" : "registered");
            CHECK(std::is_sorted(order.rbegin(), order.rend()), "priority", "crowd of %d: handlers did not run in descending priority", n);
            vh::ev("crowd_invocations", order.size());
        }
        if (most > 4096) vh::ev("passes_of_thousands"); int left = 0; for (char g : gone) left += !g ? mult : 0;
        CHECK(lp.ev_loads() == left, "loads", "load is %d, the loop holds %d handlers", lp.ev_loads(), left);
        // handlers of the highest priority remove others that are already due in the same pass
        std::vector<int> rest; for (int i = 0; i < n; ++i) if (!gone[i]) { lp.fd_remove(io[i]); rest.push_back(i); }
        std::vector<std::vector<int>> kills(rest.size()); std::vector<int> victim(n, 0); size_t ki = std::max<size_t>(1, rest.size() / (2 + r.below(20)));
        for (size_t a = 0; a < ki; ++a) for (int j = r.below(4); j >= 0 && rest.size() > ki; --j) { int v = rest[ki + r.below(rest.size() - ki)]; if (!victim[v]) { victim[v] = 1; kills[a].push_back(v); } }
        std::fill(ran.begin(), ran.end(), 0); int nv = 0; for (int v : rest) nv += victim[v];
        for (size_t a = 0; a < rest.size(); ++a)
        {
            int i = rest[a]; bool killer = a < ki, keep = r.chance(40);
            lp.fd_register(io[i], fd_event::fd_readable, [&, i, a, keep](const std::shared_ptr<nio> &) { ++ran[i]; for (int v : kills[a]) lp.fd_remove(io[v], !keep, true); }, true, killer ? p0 : PR[1 + r.below(6)]);
        }
        lp.loop_once(2000);
        for (int i : rest) CHECK(ran[i] == !victim[i], victim[i] ? "not-ready" : "missed", "crowd of %zu: handler %d, %s, ran %d times", rest.size(), i, victim[i] ? "removed earlier in the pass" : "ready", ran[i]);
        vh::ev("crowd_removed_in_pass", nv);
        vh::sys_close(f[0]); vh::sys_close(f[1]);
    }
    setrlimit(RLIMIT_NOFILE, &old); vh::distinct(n); (void)k;
}

// more descriptors ready than one pass asks the system for: each gets its turn
static void few_case(Rng &r)
{
    int old = sysconfig::event_number, ask = sysconfig::event_number = 1 + r.below(r.chance(50) ? 3 : 30), n = 2 + r.below(120);
    {
        event_loop lp; int f[2]; if (vh::sys_pipe(f)) vh::broken("pipe"); vh::sys_write(f[1], "x", 1);
        std::vector<std::shared_ptr<nio>> io; std::vector<int> pr, ran(n, 0), order; std::vector<char> gone(n, 0);
        for (int i = 0; i < n; ++i) { int d = syscall(SYS_dup, f[0]); if (d < 0) vh::broken("dup"); io.push_back(std::make_shared<nstream>(d)); pr.push_back(PR[r.below(7)]); }
        for (int i = 0; i < n; ++i) lp.fd_register(io[i], fd_event::fd_readable, [&, i](const std::shared_ptr<nio> &) { ++ran[i]; order.push_back(pr[i]); CHECK(!gone[i], "not-ready", "handler %d of %d ran after its removal, %d events asked for per pass", i, n, ask); }, true, (priority)pr[i]);
        for (int round = 0; round < 3; ++round)
        {
            std::fill(ran.begin(), ran.end(), 0); int passes = 0, waiting = 1;
            for (; waiting && passes < 4 * n + 20; ++passes)
            {
                order.clear(); std::vector<int> was = ran; lp.loop_once(2000); vh::tick();
                CHECK(std::is_sorted(order.rbegin(), order.rend()), "priority", "%d ready, %d asked for: handlers did not run in descending priority", n, ask);
                waiting = 0; for (int i = 0; i < n; ++i) { CHECK(ran[i] - was[i] <= 1, "twice", "handler %d ran %d times in one pass", i, ran[i] - was[i]); waiting += !gone[i] && !ran[i]; }
                if (order.empty()) break;
            }
            CHECK(!waiting, "missed", "%d of %d ready handlers did not run in %d passes, %d events asked for per pass", waiting, n, passes, ask);
            for (int i = 1; i < n; ++i) if (!gone[i] && r.chance(25)) { lp.fd_remove(io[i]); gone[i] = 1; }
        }
        vh::sys_close(f[0]); vh::sys_close(f[1]); vh::ev("turns");
    }
    sysconfig::event_number = old; vh::distinct(vh::mix(n, ask));
}

// ------------------------------------------------------------------ C07
struct Src
{
    std::shared_ptr<nstream> iop; int raw; std::atomic<uint64_t> seen{0}, sent{0}; std::atomic<bool> registered{false}, gone{false};
    std::atomic<int> removed_by_loop{0};
};
static void mt_case(uint64_t k, Rng &r)
{
    sysconfig::event_number = r.chance(80) ? 2048 : 1 + r.below(4);
    int base = vh::fd_count();
    auto lp = std::make_shared<event_loop>();
    std::atomic<int> inside{0}; std::atomic<uint64_t> total{0}; std::atomic<bool> ended{false}, started{false};
    std::thread::id tid; std::atomic<uint64_t> wake{0};
    int nthr = 1 + r.below(4), per = 1 + r.below(5), rounds = 1 + r.below(12);
    int stop_mode = r.below(4);         // 0 before start, 1 idle, 2 busy, 3 from a handler
    inj::Rates rt; if (r.chance(60)) { rt.delay = 100; rt.delay_us = r.chance(50) ? 0 : 300; rt.mutex_delay = r.chance(50) ? 80 : 0; } inj::random(r.next(), rt);
    std::vector<std::unique_ptr<Src>> srcs; for (int i = 0; i < nthr * per; ++i) srcs.push_back(std::make_unique<Src>());
    auto handler = [&](Src *s) -> fd_event_handler
    {
        return [&, s](const std::shared_ptr<nio> &iop)
        {
            CHECK(std::this_thread::get_id() == tid, "thread", "handler ran on a thread that does not run the loop");
            CHECK(inside.fetch_add(1) == 0, "overlap", "two handlers at the same time");
            CHECK(!s->removed_by_loop.load(), "after-removal", "handler ran after its removal on the loop's thread");
            if (&iop->evlp() != lp.get()) vh::viol("wrong-loop", "handle names another loop");
            char b[256]; ssize_t n = vh::sys_read(iop->fd(), b, sizeof b);
            if (n > 0) { s->seen.fetch_add(n); total.fetch_add(n); }
            inside.fetch_sub(1);
        };
    };
    if (stop_mode == 0) lp->stop_loop_forever();
    std::atomic<uint64_t> passes_after_stop{0}; std::atomic<bool> stop_asked{false};
    bool own_pass = r.chance(50);
    int tmo = r.chance(70) ? -1 : 1 + r.below(30);
    std::thread th([&]
    {
        tid = std::this_thread::get_id(); started = true;
        lp->loop_forever(tmo);
        ended = true;
    });
    (void)own_pass;
    uint64_t sig = vh::mix(stop_mode * 64 + nthr * 8 + per, rounds);
    if (stop_mode == 0)
    {
        vh::must("stop-before-start", "loop returning that was stopped before it started", [&] { return ended.load(); });
        th.join(); vh::ev("stopped_before_start");
    }
    else
    {
        if (r.chance(70)) vh::must("start", "loop thread starting", [&] { return started.load(); });
        std::vector<std::thread> ts; std::vector<uint64_t> seeds; for (int i = 0; i < nthr; ++i) seeds.push_back(r.next());
        for (int t = 0; t < nthr; ++t)
            ts.emplace_back([&, t]
            {
                Rng q(seeds[t]);
                for (int i = 0; i < per; ++i)
                {
                    Src *s = srcs[t * per + i].get();
                    auto pp = nio_factory::get_pipes(); s->iop = pp[0]; s->raw = ::dup(pp[1]->fd()); pp[1]->close();
                    // data already there, or coming later
                    if (q.chance(50)) { vh::sys_write(s->raw, "a", 1); s->sent.fetch_add(1); }
                    lp->fd_register(s->iop, fd_event::fd_readable, handler(s), true, PR[q.below(6)]);
                    vh::ev("registrations");
                    for (int j = 0; j < rounds; ++j)
                    {
                        int w = 1 + q.below(5); vh::sys_write(s->raw, "abcdef", w); s->sent.fetch_add(w);
                        int what = q.below(6);
                        if (what == 0) vh::must("event-missed", "a registered handler seeing its data", [&] { return s->seen.load() == s->sent.load(); });
                        else if (what == 1)
                        {
                            // kept, and activated again
                            lp->fd_remove(s->iop, false, true);
                            if (q.chance(50)) vh::msleep(0.05);
                            lp->fd_register(s->iop, fd_event::fd_readable, fd_event_handler(), true);
                            vh::ev("revivals");
                        }
                        else if (what == 2) { lp->fd_remove(s->iop); lp->fd_register(s->iop, fd_event::fd_readable, handler(s), true, PR[q.below(6)]); vh::ev("registrations"); }
                        else if (what == 3) { int l = lp->ev_loads(); CHECK(l >= 0 && l <= nthr * per, "loads", "load is %d with at most %d handlers", l, nthr * per); }
                        vh::tick();
                    }
                    vh::must("event-missed", "a registered handler seeing all its data", [&] { return s->seen.load() == s->sent.load(); });
                }
            });
        for (auto &t : ts) t.join();
        CHECK(lp->ev_loads() == nthr * per, "loads", "load is %d, expected %d", lp->ev_loads(), nthr * per);
        // removal on the loop's own thread: nothing of it runs afterwards
        std::vector<int> victims; for (size_t i = 0; i < srcs.size(); ++i) if (r.chance(40)) victims.push_back(i);
        auto pp = nio_factory::get_pipes(); std::atomic<bool> rem{false};
        for (int v : victims) { vh::sys_write(srcs[v]->raw, "z", 1); }
        lp->fd_register(pp[0], fd_event::fd_readable, [&](const std::shared_ptr<nio> &iop)
        {
            CHECK(std::this_thread::get_id() == tid, "thread", "handler ran on a foreign thread");
            CHECK(inside.fetch_add(1) == 0, "overlap", "two handlers at the same time");
            for (int v : victims) { lp->fd_remove(srcs[v]->iop, v % 2, true); srcs[v]->removed_by_loop = 1; }
            lp->fd_remove(iop); rem = true;
            inside.fetch_sub(1);
        }, true, p6);
        vh::sys_write(pp[1]->fd(), "r", 1);
        for (int v : victims) vh::sys_write(srcs[v]->raw, "zz", 2);
        vh::must("event-missed", "the removing handler running", [&] { return rem.load(); });
        vh::ev("removed_on_loop_thread", victims.size());
        for (int v : victims) vh::sys_write(srcs[v]->raw, "zz", 2);
        std::vector<Src *> left; for (size_t i = 0; i < srcs.size(); ++i) if (!srcs[i]->removed_by_loop) left.push_back(srcs[i].get());
        for (auto s : left) { vh::sys_write(s->raw, "q", 1); s->sent.fetch_add(1); }
        for (auto s : left) vh::must("event-missed", "remaining handlers being served", [&] { return s->seen.load() >= s->sent.load(); });
        // stop: at most one further pass
        if (stop_mode == 2)
        {
            // always ready, counts the passes since the stop was requested
            auto bp = nio_factory::get_pipes(); vh::sys_write(bp[1]->fd(), "b", 1);
            std::atomic<uint64_t> after{0}, before{0};
            lp->fd_register(bp[0], fd_event::fd_readable, [&](const std::shared_ptr<nio> &) { if (stop_asked) after.fetch_add(1); else before.fetch_add(1); }, true, p0);
            vh::must("event-missed", "busy loop", [&] { return before.load() > 2; });
            lp->stop_loop_forever(); stop_asked = true;
            vh::must("stop-busy", "busy loop returning after a stop request", [&] { return ended.load(); });
            th.join();
            CHECK(after.load() <= 2, "stop-late", "%llu passes began after the stop request returned", (unsigned long long)after.load());
            vh::ev("stopped_busy");
            lp->fd_remove(bp[0]);
        }
        else if (stop_mode == 3)
        {
            auto bp = nio_factory::get_pipes(); std::atomic<uint64_t> after{0};
            lp->fd_register(bp[0], fd_event::fd_readable, [&](const std::shared_ptr<nio> &) { if (!stop_asked) { stop_asked = true; lp->stop_loop_forever(); } else after.fetch_add(1); }, true, p0);
            vh::sys_write(bp[1]->fd(), "b", 1);
            vh::must("stop-handler", "loop returning after its handler asked it to", [&] { return ended.load(); });
            th.join(); CHECK(after.load() <= 1, "stop-late", "%llu further passes", (unsigned long long)after.load());
            vh::ev("stopped_from_handler");
        }
        else
        {
            std::vector<std::thread> st; int ns = 1 + r.below(3);
            for (int i = 0; i < ns; ++i) st.emplace_back([&] { lp->stop_loop_forever(); });
            for (auto &t : st) t.join();
            vh::must("stop-idle", "idle loop returning after a stop request", [&] { return ended.load(); });
            th.join(); vh::ev("stopped_idle");
        }
    }
    vh::ev("handler_bytes", total.load());
    inj::reset();
    for (auto &s : srcs) if (s->iop) vh::sys_close(s->raw);
    srcs.clear(); lp.reset();
    CHECK(vh::fd_count() == base, "descriptor-leak", "%d descriptors, %d before", vh::fd_count(), base);
    vh::distinct(sig);
    if (k < 3) vh::sample(vh::strf("%d threads x %d handlers x %d rounds, stop mode %d, timeout %d", nthr, per, rounds, stop_mode, tmo));
}

void harness_init() {}
void harness_fini() {}
void run_case(uint64_t k, Rng &r) { if (vh::mode == "mt") mt_case(k, r); else if (k % 60 == 7) crowd_case(k, r); else if (k % 30 == 9) few_case(r); else model_case(k, r); }
