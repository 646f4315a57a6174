// Patience: everything that waits keeps waiting for long (seconds; over a minute in the thorough tier), is not given
// anything before its time, and gets everything afterwards. The mode names the property.
#include "net.h"
#include <atomic>
#include <chrono>
#include <csignal>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <netinet/tcp.h>
#include "cppev/event_loop.h"
#include "cppev/tcp.h"
#include "cppev/async_logger.h"
#include "cppev/ipc.h"
#include "cppev/lock.h"
#include "cppev/nio.h"
#include "cppev/runnable.h"
#include "cppev/subprocess.h"
#include "cppev/thread_pool.h"
#include "cppev/utils.h"
using namespace cppev;
using vh::Rng;
using reactor::tcp_server; using reactor::tcp_client;

namespace
{
using Fn = std::function<void()>;
// A scenario starts waiting and gives what has to be done afterwards
using Scenario = std::function<Fn(Rng &)>;

double patience_s;      // how long everything waits
char *page; size_t page_used;       // shared with children
template <typename T> T *shared() { page_used = (page_used + 63) & ~63ull; T *p = new (page + page_used) T(); page_used += sizeof(T); return p; }
struct Flag { std::atomic<int> v{0}; void set(int n = 1) { v.store(n, std::memory_order_relaxed); } void add() { v.fetch_add(1, std::memory_order_relaxed); } int get() const { return v.load(std::memory_order_relaxed); } };

// n threads or children run f, which has to wait for now
struct Party
{
    std::vector<std::thread> t; std::vector<pid_t> p; Flag *in, *out;
    Party() : in(shared<Flag>()), out(shared<Flag>()) {}
    void thread(const Fn &f) { t.emplace_back([this, f] { in->add(); f(); out->add(); }); }
    void process(const Fn &f) { Flag *i = in, *o = out; p.push_back(vh::spawn([f, i, o] { i->add(); f(); o->add(); return 0; })); }
    int size() const { return t.size() + p.size(); }
    void still(const char *what, int done = 0) const
    {
        if (!vh::wait_until([this] { return in->get() == size(); }, 60)) vh::broken("%s: %d of %d began", what, in->get(), size());
        CHECK(out->get() == done, "returned-early", "%s: %d of %d returned before their time (%d should have)", what, out->get(), size(), done);
        if (!done) for (pid_t q : p) { int st; if (syscall(SYS_wait4, q, &st, WNOHANG, nullptr) == q) vh::viol("returned-early", "%s: a process ended with wait status 0x%x", what, st); }
    }
    void done(const char *what, int n = -1) const { if (n < 0) n = size(); vh::must("not-released", std::string(what) + " does not return", [&] { return out->get() >= n; }); }
    void end(const char *what)
    {
        done(what); for (auto &x : t) x.join();
        for (pid_t q : p) { int st = vh::reap(q); CHECK(st == 0, "process", "%s: wait status 0x%x", what, st); }
        vh::ev("waited", size());
    }
};
using PartyP = std::shared_ptr<Party>;
PartyP party() { return std::make_shared<Party>(); }

// C20
Fn permits(Rng &r)
{
    std::string name = vh::strf("/vh%d_slow%d", (int)getppid(), (int)getpid()); auto a = party(), b = party(); int k = r.range(2, 5);
    auto s = std::make_shared<semaphore>(name); auto s2 = std::make_shared<semaphore>(name + "b");
    a->process([name] { semaphore q(name); q.acquire(); });
    b->process([name, k] { semaphore q(name + "b"); q.acquire(k); });
    a->thread([s] { s->acquire(); });
    return [=] {
        a->still("acquiring"); b->still("acquiring several");
        s->release(); a->done("acquiring a permit", 1); vh::msleep(20); a->still("acquiring", 1); s->release(); a->end("acquiring a permit");
        for (int i = 0; i < k; ++i) { b->still("acquiring several"); s2->release(); } b->end("acquiring several permits");
        CHECK(!s->try_acquire() && !s2->try_acquire(), "permits", "a permit is left over"); s->unlink(); s2->unlink();
    };
}

// C17
Fn locks(Rng &)
{
    auto l = shared<pshared_lock>(); auto w = shared<pshared_rwlock>(), rd = shared<pshared_rwlock>(), g = shared<pshared_rwlock>(), h = shared<pshared_rwlock>(); auto sp = shared<spinlock>();
    l->lock(); w->wrlock(); rd->rdlock(); g->wrlock(); h->rdlock(); sp->lock();
    auto a = party(), b = party(), c = party(), d = party(), e = party(), f = party();
    a->process([=] { l->lock(); l->unlock(); }); b->process([=] { w->rdlock(); w->unlock(); }); b->process([=] { w->wrlock(); w->unlock(); });
    c->process([=] { rd->wrlock(); rd->unlock(); });
    a->thread([=] { std::unique_lock<pshared_lock> u(*l); }); b->thread([=] { w->rdlock(); w->unlock(); }); c->thread([=] { rd->wrlock(); rd->unlock(); });
    d->thread([=] { rdlockguard u(*g); }); d->thread([=] { wrlockguard u(*g); }); e->thread([=] { wrlockguard u(*h); }); f->thread([=] { sp->lock(); sp->unlock(); });
    return [=] {
        a->still("locking"); b->still("locking what a writer holds"); c->still("write-locking what a reader holds"); d->still("guards of what a writer holds"); e->still("a guard of what a reader holds"); f->still("spinning");
        l->unlock(); w->unlock(); rd->unlock(); g->unlock(); h->unlock(); sp->unlock();
        a->end("locking"); b->end("read- and write-locking"); c->end("write-locking"); d->end("guarding"); e->end("write-guarding"); f->end("spinning");
    };
}

// C18
Fn conditions(Rng &r)
{
    struct S { pshared_lock l; pshared_cond c; int ok = 0; }; auto s = shared<S>(); auto fence = shared<pshared_one_time_fence>(); int n = r.range(2, 4);
    auto bar = new (page + ((page_used += 127) & ~63ull)) pshared_barrier(n + 1); page_used += sizeof(pshared_barrier) + 64;
    auto a = party(), b = party(), c = party();
    auto wait = [s] { std::unique_lock<pshared_lock> u(s->l); s->c.wait(u, [s] { return s->ok == 1; }); };
    a->process(wait); b->process([=] { fence->wait(); }); for (int i = 0; i < n; ++i) if (i & 1) c->process([=] { bar->wait(); });
    a->thread(wait); b->thread([=] { fence->wait(); }); for (int i = 0; i < n; ++i) if (!(i & 1)) c->thread([=] { bar->wait(); });
    return [=] {
        a->still("waiting for a condition"); b->still("waiting at a fence"); c->still("waiting at a barrier"); CHECK(!fence->ok(), "fence", "ok before notify");
        { std::unique_lock<pshared_lock> u(s->l); s->ok = 1; s->c.notify_all(); }
        fence->notify(); bar->wait(); a->end("waiting for a condition"); b->end("waiting at a fence"); c->end("waiting at a barrier"); CHECK(fence->ok(), "fence", "not ok after notify");
    };
}

// C13
Fn tasks(Rng &r)
{
    struct S { std::atomic<int> n{0}, began{0}; std::atomic<bool> go{false}, stopped{false}; std::thread t; };
    auto idle = std::make_shared<thread_pool_task_queue>(r.range(1, 4)); idle->run(); auto busy = std::make_shared<thread_pool_task_queue>(2); busy->run(); auto s = std::make_shared<S>();
    for (int i = 0; i < 2; ++i) busy->add_task([s] { ++s->began; while (!s->go) vh::msleep(1); ++s->n; });
    for (int i = 0; i < 10; ++i) busy->add_task([s] { ++s->n; });
    vh::must("task", "two tasks begin on two threads", [&] { return s->began.load() == 2; });
    s->t = std::thread([busy, s] { busy->stop(); s->stopped = true; });
    return [=] {
        CHECK(!s->stopped && s->n == 0, "stop-early", "stop returned, or a task overtook, while tasks were running");
        s->go = true; vh::must("stop", "stop returns after the running tasks end", [&] { return s->stopped.load(); }); s->t.join(); CHECK(s->n == 12, "tasks", "%d tasks ran instead of 12", s->n.load());
        auto m = std::make_shared<std::atomic<int>>(0); for (int i = 0; i < 20; ++i) idle->add_task([m] { ++*m; });
        vh::must("task", "tasks run after an idle time", [&] { return m->load() == 20; }); idle->stop(); vh::ev("waited", 2);
    };
}

// C14
Fn threads(Rng &)
{
    struct T : runnable { std::atomic<bool> go{false}, ended{false}; void run_impl() override { while (!go) vh::msleep(1); ended = true; } };
    struct S { T a, b; std::atomic<bool> early{false}; std::thread j; std::atomic<int> w{0}; std::thread wf; };
    auto s = std::make_shared<S>(); s->a.run(); s->b.run();
    s->j = std::thread([s] { s->a.join(); if (!s->a.ended) s->early = true; s->w |= 1; });
    s->wf = std::thread([s] { bool f = s->b.wait_for(std::chrono::hours(2)); if (!f || !s->b.ended) s->early = true; s->w |= 2; });
    return [=] {
        CHECK(s->w == 0, "returned-early", "join or wait_for returned while the thread was running (%d)", s->w.load());
        CHECK(!s->b.wait_for(std::chrono::milliseconds(1)), "wait_for", "a running thread is reported finished");
        s->a.go = true; s->b.go = true; vh::must("not-released", "join and wait_for return after the end of the thread", [&] { return s->w == 3; });
        s->j.join(); s->wf.join(); CHECK(!s->early, "returned-early", "join or wait_for returned too early or untruthfully"); s->b.join(); vh::ev("waited", 2);
    };
}

// C16
std::string read_for(int fd, const std::function<bool(const std::string &)> &enough)
{
    std::string s; double t = vh::now() + 20;
    while (!enough(s) && vh::now() < t) if (vh::sys_poll(fd, POLLIN, 50) & (POLLIN | POLLHUP)) { char b[65536]; ssize_t n = vh::sys_read(fd, b, sizeof b); if (n <= 0) break; s.append(b, n); vh::tick(); }
    return s;
}
Fn logging(Rng &r)
{
    int lines = r.range(1500, 3000); int out[2], ctl[2], full[2]; vh::sys_pipe(out, O_CLOEXEC); vh::sys_pipe(ctl, O_CLOEXEC); vh::sys_pipe(full, O_CLOEXEC);
    pid_t idle = vh::spawn([=] { syscall(SYS_dup3, out[1], 1, 0); { async_logger g(1); char c; for (int i = 0; i < 3; ++i) { g << "line " << i << log::endl; if (vh::sys_read(ctl[0], &c, 1) != 1) return 1; } } return 0; });
    pid_t stuck = vh::spawn([=] { syscall(SYS_dup3, full[1], 1, 0); { async_logger g(1); std::string pad(200, 'p'); for (int i = 0; i < lines; ++i) g << "line " << i << pad << log::endl; } return 0; });
    vh::sys_close(out[1]); vh::sys_close(ctl[0]); vh::sys_close(full[1]);
    auto has = [](const char *t) { return [t](const std::string &s) { return s.find(t) != s.npos; }; };
    CHECK(has("line 0\n")(read_for(out[0], has("line 0\n"))), "line", "the first line does not arrive");
    return [=] {
        CHECK(vh::sys_write(ctl[1], "x", 1) == 1, "harness", "control pipe"); CHECK(has("line 1\n")(read_for(out[0], has("line 1\n"))), "line", "a line written after an idle time does not arrive");
        CHECK(vh::sys_write(ctl[1], "xx", 2) == 2, "harness", "control pipe"); std::string e = read_for(out[0], [](const std::string &) { return false; }); CHECK(has("line 2\n")(e), "line", "the last line is missing");
        CHECK(vh::reap(idle) == 0, "process", "the idle logger's process failed");
        std::string all = read_for(full[0], [](const std::string &) { return false; }); int st = vh::reap(stuck); CHECK(st == 0, "process", "the process logging to a full pipe ended with 0x%x", st);
        size_t at = 0; for (int i = 0; i < lines; ++i) { size_t nl = all.find('\n', at); std::string want = vh::strf("line %d", i) + std::string(200, 'p'), got = nl == all.npos ? all.substr(at) : all.substr(at, nl - at); CHECK(nl != all.npos && got.size() > want.size() && got.compare(got.size() - want.size(), want.npos, want) == 0, "line", "line %d of %d is %s after a stalled output", i, lines, vh::show(got, 300).c_str()); at = nl + 1; }
        CHECK(at == all.size(), "line", "%zu bytes too many", all.size() - at); vh::sys_close(out[0]); vh::sys_close(ctl[1]); vh::sys_close(full[0]); vh::ev("waited", 2);
    };
}

// C06, C07
Fn loop_pass(Rng &r)
{
    struct S { event_loop l; std::vector<std::shared_ptr<nstream>> p = nio_factory::get_pipes(); std::atomic<int> n{0}; std::atomic<bool> ret{false}; std::thread t; };
    auto s = std::make_shared<S>(); s->l.fd_register(s->p[0], fd_event::fd_readable, [q = s.get()](const std::shared_ptr<nio> &) { ++q->n; q->p[0]->read_all(); });
    int timeout = r.chance(50) ? -1 : 3600000; s->t = std::thread([q = s.get(), timeout] { q->l.loop_once(timeout); q->ret = true; });
    return [=] {
        CHECK(!s->ret && s->n == 0, "returned-early", "a pass returned without an event (%d handlers ran)", s->n.load());
        CHECK(vh::sys_write(s->p[1]->fd(), "x", 1) == 1, "harness", "pipe"); vh::must("not-released", "the pass returns after the event", [&] { return s->ret.load(); }); s->t.join(); CHECK(s->n == 1, "handler", "the handler ran %d times", s->n.load()); vh::ev("waited");
    };
}
// a pass with a timeout ends in time though signals keep interrupting it
void on_signal_nothing(int) {}
Fn interrupted_pass(Rng &r)
{
    struct S { event_loop l; std::vector<std::shared_ptr<nstream>> p = nio_factory::get_pipes(); std::atomic<int> n{0}, passes{0}; std::atomic<bool> ret{false}, quit{false}; std::thread t, k; };
    auto s = std::make_shared<S>(); s->l.fd_register(s->p[0], fd_event::fd_readable, [q = s.get()](const std::shared_ptr<nio> &) { ++q->n; q->p[0]->read_all(); });
    int timeout = 100 + r.below(300), every = 2 + r.below(20), sig = SIGRTMIN + 14; struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_signal_nothing; sigaction(sig, &sa, nullptr);
    s->t = std::thread([q = s.get(), timeout] { while (!q->quit) { q->l.loop_once(timeout); ++q->passes; } q->ret = true; });
    s->k = std::thread([q = s.get(), every, sig] { while (!q->ret) { pthread_kill(q->t.native_handle(), sig); vh::msleep(every); } });
    return [=] {
        vh::must("timeout", vh::strf("passes of %d ms interrupted by a signal every %d ms return", timeout, every).c_str(), [&] { return s->passes.load() >= 2; });
        CHECK(s->n == 0, "handler", "a handler ran without an event"); CHECK(vh::sys_write(s->p[1]->fd(), "x", 1) == 1, "harness", "pipe"); vh::must("lost-event", "an event beside signals is handled", [&] { return s->n == 1; });
        s->quit = true; vh::must("timeout", "the last pass returns", [&] { return s->ret.load(); }); s->k.join(); s->t.join(); vh::ev("waited"); vh::ev("interrupted_passes", s->passes.load());
    };
}
Fn loop_running(Rng &r)
{
    struct S { event_loop l; std::vector<std::shared_ptr<nstream>> p = nio_factory::get_pipes(), p2 = nio_factory::get_pipes(); std::atomic<int> n{0}; std::atomic<bool> ret{false}; std::thread t; };
    auto s = std::make_shared<S>(); auto h = [q = s.get()](const std::shared_ptr<nio> &i) { ++q->n; dynamic_cast<nstream *>(i.get())->read_all(); };
    s->l.fd_register(s->p[0], fd_event::fd_readable, h); int timeout = r.chance(50) ? -1 : 500; s->t = std::thread([q = s.get(), timeout] { q->l.loop_forever(timeout); q->ret = true; });
    return [=] {
        CHECK(!s->ret && s->n == 0, "returned-early", "the loop ended without being asked");
        CHECK(vh::sys_write(s->p[1]->fd(), "x", 1) == 1, "harness", "pipe"); vh::must("lost-event", "an event after an idle time is handled", [&] { return s->n == 1; });
        s->l.fd_register(s->p2[0], fd_event::fd_readable, h); CHECK(vh::sys_write(s->p2[1]->fd(), "x", 1) == 1, "harness", "pipe"); vh::must("lost-event", "a registration after an idle time takes effect", [&] { return s->n == 2; });
        s->l.stop_loop_forever(); vh::must("stop", "the loop ends when asked after an idle time", [&] { return s->ret.load(); }); s->t.join(); vh::ev("waited");
    };
}
Fn loop_stopped_idle(Rng &)
{
    struct S { event_loop l; std::atomic<bool> ret{false}; std::thread t; }; auto s = std::make_shared<S>(); s->t = std::thread([q = s.get()] { q->l.loop_forever(); q->ret = true; });
    return [=] { CHECK(!s->ret, "returned-early", "the loop ended without being asked"); s->l.stop_loop_forever(); vh::must("stop", "an idle loop ends when asked", [&] { return s->ret.load(); }); s->t.join(); vh::ev("waited"); };
}

// C08 to C12
struct Server
{
    tcp_server s; net::Addr a; std::atomic<int> accepted{0}, closed{0}, written{0}; size_t big; std::atomic<bool> ended{false};
    Server(Rng &r, size_t big_) : s(r.range(1, 3)), big(big_)
    {
        s.set_on_accept([this](const std::shared_ptr<nsocktcp> &) { ++accepted; });
        s.set_on_closed([this](const std::shared_ptr<nsocktcp> &) { ++closed; });
        s.set_on_write_complete([this](const std::shared_ptr<nsocktcp> &) { ++written; });
        s.set_on_read_complete([this](const std::shared_ptr<nsocktcp> &c) {
            std::string d = c->rbuffer().get_string(); if (d == "big") { d.assign(big, 0); for (size_t i = 0; i < big; ++i) d[i] = (char)(i % 253); }
            c->wbuffer().put_string(d); reactor::async_write(c); });
        int fam = r.pick(std::vector<int>{AF_INET, AF_INET6, AF_UNIX});
        if (fam == AF_UNIX) { std::string p = vh::strf("%s/s%p", vh::scratch.c_str(), (void *)this); s.listen_unix(p, true); a = net::addr_unix(p); }
        else { int port = net::my_port(); s.listen(port, fam == AF_INET ? family::ipv4 : family::ipv6, net::loop_ip(fam)); a = net::addr_ip(fam, net::loop_ip(fam), port); }
        s.run();
    }
    int dial() { int f = net::sock(a.fam(), SOCK_STREAM); if (syscall(SYS_connect, f, &a.ss, a.len)) vh::viol("connect", "cannot connect to the server: errno %d", errno); return f; }
    void stop(const char *what) { std::thread t([this] { s.shutdown(); ended = true; }); vh::must("shutdown", std::string("shutdown returns ") + what, [&] { return ended.load(); }); t.join(); }
};
void echo(int f, const std::string &d, const char *what)
{
    CHECK(vh::sys_write(f, d.data(), d.size()) == (ssize_t)d.size(), "write", "%s: errno %d", what, errno); std::string g = read_for(f, [&](const std::string &s) { return s.size() >= d.size(); });
    CHECK(g == d, "data", "%s: %s came back for %s", what, vh::show(g).c_str(), vh::show(d).c_str());
}
Fn idle_connection(Rng &r)
{
    auto s = std::make_shared<Server>(r, 0); int used = s->dial(), fresh = s->dial(); std::string d = r.bytes(500), e = r.bytes(700); echo(used, d, "echo");
    return [=] {
        CHECK(s->closed == 0 && s->accepted == 2, "callbacks", "%d connections accepted and %d closed of two that idle", s->accepted.load(), s->closed.load());
        CHECK(!(vh::sys_poll(used, POLLIN, 0) | vh::sys_poll(fresh, POLLIN, 0)), "closed", "an idle connection was closed or got data");
        echo(used, e, "echo after an idle time"); echo(fresh, d, "first echo after an idle time"); int late = s->dial(); echo(late, e, "echo of a late connection");
        CHECK(s->accepted == 3, "callbacks", "%d accepted instead of 3", s->accepted.load());
        for (int f : {used, fresh, late}) vh::sys_close(f); vh::must("callbacks", "closing is reported after an idle time", [&] { return s->closed == 3; }); s->stop("with no connection left"); vh::ev("waited", 2);
    };
}
Fn stalled_reader(Rng &r)
{
    size_t n = 12000000 + r.below(3000000); auto s = std::make_shared<Server>(r, n); int f = s->dial(); CHECK(vh::sys_write(f, "big", 3) == 3, "write", "errno %d", errno);
    return [=] {
        CHECK(s->closed == 0, "callbacks", "the connection of a stalled reader was closed"); CHECK(s->written == 0, "callbacks", "write-complete was reported though the peer read nothing");
        std::string g = read_for(f, [&](const std::string &x) { return x.size() >= n; }); CHECK(g.size() == n, "data", "%zu of %zu bytes after a stall", g.size(), n); for (size_t i = 0; i < n; ++i) if (g[i] != (char)(i % 253)) vh::viol("data", "byte %zu of %zu differs after a stall", i, n);
        vh::must("callbacks", "write-complete is reported", [&] { return s->written == 1; }); echo(f, "small", "echo after a stall"); vh::sys_close(f); vh::must("callbacks", "closing is reported", [&] { return s->closed == 1; }); s->stop("after a stall"); vh::ev("waited");
    };
}
Fn slow_sender(Rng &r)     // half a message, and half-closed
{
    auto s = std::make_shared<Server>(r, 0); int f = s->dial(), h = s->dial(); echo(f, "first", "echo");
    return [=] {
        echo(f, "second", "echo after an idle time"); CHECK(vh::sys_write(h, "tail", 4) == 4, "write", "errno %d", errno); syscall(SYS_shutdown, h, SHUT_WR); std::string g = read_for(h, [](const std::string &) { return false; });
        CHECK(g == "tail", "data", "%s came back for data sent and ended after an idle time", vh::show(g).c_str()); vh::sys_close(h); vh::sys_close(f); vh::must("callbacks", "closing is reported", [&] { return s->closed == 2; }); s->stop("afterwards"); vh::ev("waited", 2);
    };
}
Fn stopped_after_idle(Rng &r)
{
    auto s = std::make_shared<Server>(r, 9000000); int a = s->dial(), b = s->dial(), c = s->dial(); echo(a, "x", "echo"); CHECK(vh::sys_write(b, "big", 3) == 3, "write", "errno %d", errno);
    auto cl = std::make_shared<tcp_client>(2, 1); cl->run(); vh::must("callbacks", "connections are accepted", [&] { return s->accepted == 3; });
    return [=] {
        CHECK(s->closed == 0, "callbacks", "an idle connection was closed"); s->stop("with idle and stalled connections");
        auto ended = std::make_shared<std::atomic<bool>>(false); std::thread t([=] { cl->shutdown(); *ended = true; }); vh::must("shutdown", "shutdown of an idle client returns", [&] { return ended->load(); }); t.join();
        for (int f : {a, b, c}) vh::sys_close(f); vh::ev("waited", 2);
    };
}
Fn client_after_idle(Rng &r)
{
    struct S { tcp_client c; std::atomic<int> n{0}, closed{0}; S(int w, int k) : c(w, k) {} }; auto s = std::make_shared<S>(r.range(1, 3), r.range(1, 2));
    s->c.set_on_connect([q = s.get()](const std::shared_ptr<nsocktcp> &) { ++q->n; }); s->c.set_on_closed([q = s.get()](const std::shared_ptr<nsocktcp> &) { ++q->closed; }); s->c.run();
    int fam = r.chance(50) ? AF_INET : AF_UNIX, port = 0; std::string path = vh::strf("%s/c%p", vh::scratch.c_str(), (void *)s.get()); net::Addr a; if (fam == AF_UNIX) a = net::addr_unix(path); else a = net::addr_ip(fam, "127.0.0.1", port = net::my_port());
    int l = net::sock(fam, SOCK_STREAM), one = 1; syscall(SYS_setsockopt, l, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one); if (syscall(SYS_bind, l, &a.ss, a.len) || syscall(SYS_listen, l, 100)) vh::broken("raw listen errno %d", errno);
    auto add = [=](int n) { if (fam == AF_UNIX) s->c.add_unix(path, n); else s->c.add("127.0.0.1", port, family::ipv4, n); };
    add(2); vh::must("connections-missing", "connections are announced", [&] { return s->n == 2; });
    return [=] {
        CHECK(s->n == 2 && s->closed == 0, "callbacks", "%d connections announced and %d closed while idle", s->n.load(), s->closed.load()); add(7); vh::must("connections-missing", "connections requested after an idle time are announced", [&] { return s->n == 9; });
        std::vector<int> fs; for (int i = 0; i < 9; ++i) { int f = -1; vh::must("connections-missing", "a connection is established", [&] { return vh::sys_poll(l, POLLIN, 0) != 0; }); f = syscall(SYS_accept4, l, nullptr, nullptr, SOCK_CLOEXEC); if (f >= 0) fs.push_back(f); }
        CHECK(fs.size() == 9 && !vh::sys_poll(l, POLLIN, 20), "connections-extra", "%zu connections instead of 9, or more", fs.size());
        for (int f : fs) vh::sys_close(f); vh::must("callbacks", "closing is reported", [&] { return s->closed == 9; }); auto ended = std::make_shared<std::atomic<bool>>(false); std::thread t([=] { s->c.shutdown(); *ended = true; }); vh::must("shutdown", "shutdown returns", [&] { return ended->load(); }); t.join(); vh::sys_close(l); vh::ev("waited");
    };
}
Fn unanswered_connection(Rng &r)      // C11: a peer that never accepts does not hold up the others
{
    struct S { tcp_client c; std::atomic<int> n{0}; S() : c(1, 1) {} }; auto srv = std::make_shared<Server>(r, 0); auto s = std::make_shared<S>(); s->c.set_on_connect([q = s.get()](const std::shared_ptr<nsocktcp> &) { ++q->n; }); s->c.run();
    int port = net::my_port(), l = net::sock(AF_INET, SOCK_STREAM), one = 1; auto a = net::addr_ip(AF_INET, "127.0.0.1", port); syscall(SYS_setsockopt, l, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one); if (syscall(SYS_bind, l, &a.ss, a.len) || syscall(SYS_listen, l, 0)) vh::broken("raw listen errno %d", errno);
    s->c.add("127.0.0.1", port, family::ipv4, 6);      // the queue of one is full, further ones hang
    return [=] {
        int before = s->n; int f = srv->dial(); echo(f, "x", "echo beside unanswered connections"); if (srv->a.fam() == AF_UNIX) s->c.add_unix(srv->a.path(), 1); else s->c.add(srv->a.ip(), srv->a.port(), srv->a.fam() == AF_INET ? family::ipv4 : family::ipv6, 1);
        vh::must("connections-missing", "a connection is established beside unanswered ones", [&] { return s->n > before; });
        auto ended = std::make_shared<std::atomic<bool>>(false); std::thread t([=] { s->c.shutdown(); *ended = true; }); vh::must("shutdown", "shutdown returns though connections are unanswered", [&] { return ended->load(); }); t.join(); vh::sys_close(f); vh::sys_close(l); srv->stop("afterwards"); vh::ev("waited");
    };
}

// C10, C11: connections refused after having been begun. The listen queue is full, so their first packets are dropped; the listener is closed before they are repeated
int closed_tcp_sockets() { int n = 0; for (int f = 0; f < 1024; ++f) { tcp_info i; socklen_t l = sizeof i; i.tcpi_state = 0; if (!syscall(SYS_getsockopt, f, IPPROTO_TCP, TCP_INFO, &i, &l) && i.tcpi_state == TCP_CLOSE) ++n; } return n; }
Fn refused_late(Rng &r)
{
    struct S { tcp_client c; std::atomic<int> n{0}, bad{0}, closed{0}; int port = 0; S(int a, int b) : c(a, b) {} }; auto s = std::make_shared<S>(r.range(1, 2), r.range(1, 2)); int fam = r.chance(50) ? AF_INET : AF_INET6, m = r.range(1, 6);
    const char *ip = net::loop_ip(fam); int port = s->port = net::my_port(), l = net::sock(fam, SOCK_STREAM), one = 1; auto a = net::addr_ip(fam, ip, port); syscall(SYS_setsockopt, l, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
    if (syscall(SYS_bind, l, &a.ss, a.len) || syscall(SYS_listen, l, 0)) vh::broken("raw listen errno %d", errno);
    std::vector<int> fill; for (int i = 0; i < 8; ++i) { int f = net::sock(fam, SOCK_STREAM); net::nonblock(f); syscall(SYS_connect, f, &a.ss, a.len); fill.push_back(f); if (!(vh::sys_poll(f, POLLOUT, 200) & POLLOUT)) break; }
    bool full = fill.size() < 8;
    s->c.set_on_connect([q = s.get()](const std::shared_ptr<nsocktcp> &c) { if (std::get<1>(c->connpeer()) == q->port) ++q->bad; else ++q->n; }); s->c.set_on_closed([q = s.get()](const std::shared_ptr<nsocktcp> &) { ++q->closed; }); s->c.run();
    s->c.add(ip, port, fam == AF_INET ? family::ipv4 : family::ipv6, m); vh::msleep(30); vh::sys_close(l); for (int f : fill) vh::sys_close(f);
    return [=] {
        if (full) CHECK(s->bad == 0, "refused-connected", "%d connections to a refusing target were announced as connected", s->bad.load());
        if (full) { vh::must("descriptor-left", "descriptors of refused connections are released", [&] { return closed_tcp_sockets() == 0; }); CHECK(s->bad == 0, "refused-connected", "%d connections to a refusing target were announced as connected", s->bad.load()); }
        int p2 = net::my_port(), l2 = net::listener(net::addr_ip(fam, ip, p2), 10); s->c.add(ip, p2, fam == AF_INET ? family::ipv4 : family::ipv6, 3); vh::must("connections-missing", "connections are established after others were refused late", [&] { return s->n == 3; });
        auto ended = std::make_shared<std::atomic<bool>>(false); std::thread t([=] { s->c.shutdown(); *ended = true; }); vh::must("shutdown", "shutdown returns", [&] { return ended->load(); }); t.join(); vh::sys_close(l2); vh::ev("waited"); if (full) vh::ev("refused_late", m);
    };
}

// C21, C22
Fn silent_child(Rng &r)
{
    struct S { std::tuple<int, std::string, std::string> got; std::atomic<bool> ret{false}; std::thread t; }; auto s = std::make_shared<S>(); int code = r.below(100); std::string p = vh::strf("%s/p%p", vh::scratch.c_str(), (void *)s.get()), go = p + ".go";
    int f = open(p.c_str(), O_WRONLY | O_CREAT | O_CLOEXEC, 0700); std::string t = vh::strf("read x < %s\necho out; echo err >&2\nexit %d\n", go.c_str(), code); if (write(f, t.data(), t.size()) != (ssize_t)t.size()) vh::broken("script"); close(f); if (mkfifo(go.c_str(), 0600)) vh::broken("mkfifo");
    s->t = std::thread([s, p] { s->got = subprocess::exec_cmd("/bin/sh " + p); s->ret = true; });
    return [=] {
        CHECK(!s->ret, "returned-early", "running a command returned before it ended: %d %s", std::get<0>(s->got), vh::show(std::get<2>(s->got)).c_str()); int w = -1; vh::must("child", "the silent child waits for its input", [&] { return (w = open(go.c_str(), O_WRONLY | O_NONBLOCK | O_CLOEXEC)) >= 0; });
        CHECK(write(w, "x\n", 2) == 2, "harness", "fifo"); close(w); vh::must("not-released", "running a command returns after its end", [&] { return s->ret.load(); }); s->t.join();
        CHECK(s->got == std::make_tuple(code << 8, std::string("out\n"), std::string("err\n")), "output", "code %d out %s err %s instead of %d", std::get<0>(s->got), vh::show(std::get<1>(s->got)).c_str(), vh::show(std::get<2>(s->got)).c_str(), code); vh::ev("waited");
    };
}
Fn long_child(Rng &r)
{
    struct S { std::unique_ptr<subp_open> p; std::atomic<bool> ret{false}; std::thread t; }; auto s = std::make_shared<S>(); s->p = std::make_unique<subp_open>("/bin/cat", std::vector<std::string>()); int sig = r.chance(50) ? SIGTERM : SIGKILL; auto q = std::make_shared<subp_open>("/bin/cat", std::vector<std::string>());
    bool dflt = r.chance(50); s->t = std::thread([s, dflt] { if (dflt) s->p->wait(); else s->p->wait(std::chrono::milliseconds(2)); s->ret = true; });
    return [=] {
        CHECK(!s->ret, "returned-early", "waiting returned while the child lives"); CHECK(!q->poll(), "poll", "a living child is reported ended"); siginfo_t si; si.si_pid = 0; waitid(P_PID, s->p->pid(), &si, WEXITED | WNOHANG | WNOWAIT); CHECK(si.si_pid == 0, "ended", "a child that nobody signalled ended"); q->communicate("hello"); std::string got; vh::must("output", "a child echoes after a silent time", [&] { q->communicate(); return std::string(q->stdout()) == "hello"; });
        ::kill(s->p->pid(), sig); vh::must("not-released", "waiting returns after the end of the child", [&] { return s->ret.load(); }); s->t.join(); q->terminate(); vh::must("poll", "the end of a signalled child is noticed", [&] { return q->poll(); }); vh::ev("waited", 2);
    };
}

// C02
Fn blocking_io(Rng &)
{
    struct S { std::vector<std::shared_ptr<nstream>> a = nio_factory::get_pipes(), b = nio_factory::get_pipes(); int got = -1, put = -1; }; auto s = std::make_shared<S>(); auto r = party(), w = party(); size_t n = 400000; s->a[0]->set_io_block(); s->b[1]->set_io_block(); s->b[1]->wbuffer().put_string(std::string(n, 'w'));
    r->thread([s] { s->got = s->a[0]->read_chunk(10); }); w->thread([s, n] { s->put = s->b[1]->write_chunk(n); });
    return [=] {
        r->still("a blocking read"); w->still("a blocking write"); CHECK(vh::sys_write(s->a[1]->fd(), "0123456789", 10) == 10, "harness", "pipe"); r->end("a blocking read"); CHECK(s->got == 10 && s->a[0]->rbuffer().get_string() == "0123456789", "read", "%d bytes read after a long wait", s->got);
        size_t seen = 0; double t = vh::now() + 20; while (seen < n && vh::now() < t) { int k = s->b[0]->read_all(65536); seen += k; if (!k) vh::msleep(1); } w->end("a blocking write"); CHECK(seen == n && s->put == (int)n && s->b[0]->rbuffer().get_string() == std::string(n, 'w'), "write", "%zu of %zu bytes arrived, %d reported", seen, n, s->put);
    };
}

// C23
Fn signals(Rng &r)
{
    struct S { pthread_t t[3]; std::atomic<int> up{0}; int sig[3]; int got = -1; }; auto s = std::make_shared<S>(); auto p = party(); int base = SIGRTMIN + 2 + r.below(10); for (int i = 0; i < 3; ++i) { s->sig[i] = base + i; handle_signal(base + i); }
    p->thread([s] { s->t[0] = pthread_self(); thread_block_signal(s->sig[0]); ++s->up; thread_wait_for_signal(s->sig[0]); });
    p->thread([s] { s->t[1] = pthread_self(); thread_block_signal(std::vector<int>{s->sig[1], s->sig[0]}); ++s->up; s->got = thread_wait_for_signal(std::vector<int>{s->sig[1], s->sig[0]}); });
    p->thread([s] { s->t[2] = pthread_self(); thread_block_signal(s->sig[2]); ++s->up; thread_suspend_for_signal(s->sig[2]); });
    vh::must("signals", "signals are blocked", [&] { return s->up == 3; });
    return [=] { p->still("waiting for a signal"); for (int i = 0; i < 3; ++i) pthread_kill(s->t[i], s->sig[i]); p->end("waiting for a signal"); CHECK(s->got == s->sig[1], "wait", "%d was reported instead of %d", s->got, s->sig[1]); };
}

const std::map<std::string, std::vector<Scenario>> scenarios = {
    {"C20", {permits}}, {"C17", {locks}}, {"C18", {conditions}}, {"C16", {logging}}, {"C13", {tasks}}, {"C14", {threads}}, {"C06", {loop_pass, loop_pass, interrupted_pass}}, {"C07", {loop_running, loop_running, loop_stopped_idle}},
    {"C08", {idle_connection, stalled_reader, slow_sender}}, {"C09", {idle_connection, stalled_reader, slow_sender}}, {"C10", {refused_late, client_after_idle, client_after_idle}}, {"C11", {refused_late, unanswered_connection, stalled_reader}}, {"C12", {stopped_after_idle, stopped_after_idle}},
    {"C21", {silent_child, silent_child}}, {"C22", {long_child, long_child}}, {"C02", {blocking_io}}, {"C23", {signals}},
};
}

void harness_init()
{
    signal(SIGPIPE, SIG_IGN);
    page = (char *)::mmap(nullptr, 1 << 16, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (page == MAP_FAILED) vh::broken("mmap");
}
void harness_fini() {}
void run_case(uint64_t k, Rng &r)
{
    auto it = scenarios.find(vh::mode); if (it == scenarios.end()) vh::broken("no scenarios for %s", vh::mode.c_str());
    patience_s = k == 0 ? 3.6 + r.below(1200) / 1000.0 : k == 1 ? 10.5 + r.below(2000) / 1000.0 : 61 + r.below(30000) / 1000.0;
    vh::set_patience(25 + patience_s); page_used = 0; memset(page, 0, 1 << 16);
    std::vector<Fn> then; for (auto &s : it->second) then.push_back(s(r));
    double t = vh::now() + patience_s; while (vh::now() < t) vh::msleep(20);
    vh::tick(); for (auto &f : then) { f(); vh::tick(); }
    vh::ev("patient_cases"); vh::distinct(vh::mix(k, patience_s * 1000));
}
