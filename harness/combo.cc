// C26: all components together in one process; memory, descriptors and threads in steady state.
#include "act.h"
#include "net.h"
#include <system_error>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#include "cppev/cppev.h"
#include "cppev/dynamic_loader.h"
#include "cppev/scheduler.h"
#include "cppev/runnable.h"
#include "cppev/subprocess.h"
using vh::Rng;
using namespace cppev;

namespace
{
std::atomic<uint64_t> serial{0};
std::string unique(const char *what) { return vh::strf("%s%d_%llu", what, int(getpid()), (unsigned long long)serial.fetch_add(1)); }
std::string path(const char *what) { return vh::scratch + "/" + unique(what); }
int port() { static std::mutex m; std::lock_guard<std::mutex> l(m); return net::my_port(); }
template <typename F> void refused(const char *what, F f) { try { f(); } catch (const std::exception &) { vh::ev("errors_raised"); return; } vh::viol("no-error", "%s raises no error", what); }
std::string open_files() { std::string d; for (int i = 0; i < 1000; ++i) { char b[200] = {}; if (readlink(vh::strf("/proc/self/fd/%d", i).c_str(), b, 199) > 0) { int t = -1, a = -1; socklen_t l = sizeof t; getsockopt(i, SOL_SOCKET, SO_TYPE, &t, &l); l = sizeof a; getsockopt(i, SOL_SOCKET, SO_ACCEPTCONN, &a, &l); sockaddr_storage x{}; l = sizeof x; int pr = getpeername(i, (sockaddr *)&x, &l); d += vh::strf(" %d=%s(type %d, listening %d, family %d, peer %d)", i, b, t, a, x.ss_family, pr); } } return d; }
family fam(Rng &r) { return r.pick(std::vector<family>{family::ipv4, family::ipv6, family::local}); }
const char *ip_of(family f) { return f == family::ipv4 ? "127.0.0.1" : "::1"; }

// moves text from one stream to the other by turns
void shuttle(nstream &a, nstream &b, const std::string &text, Rng &r, const char *what)
{
    a.wbuffer().put_string(text); std::string got; double t0 = vh::now();
    while (got.size() < text.size()) { if (a.wbuffer().size()) { if (r.chance(50)) a.write_all(1 + r.below(5000)); else a.write_chunk(1 + r.below(70000)); } if (r.chance(50)) b.read_all(1 + r.below(5000)); else b.read_chunk(1 + r.below(70000)); got += b.rbuffer().get_string(); vh::tick(); if (vh::now() - t0 > 60) vh::viol("lost", "%s: %zu of %zu bytes arrive", what, got.size(), text.size()); }
    CHECK(got == text, "bytes", "%s: other bytes arrive than were sent", what);
}
void buffers(Rng &r)
{
    std::vector<buffer> v(1 + r.below(4)); std::vector<std::string> m(v.size()); int n = r.below(40);
    while (n--) { size_t a = r.below(v.size()), b = r.below(v.size()); switch (r.below(7)) { case 0: { auto s = r.bytes(r.below(300)); v[a].put_string(s); m[a] += s; break; } case 1: { int k = r.below(m[a].size() + 1); v[a].consume(k); m[a].erase(0, k); break; } case 2: v[b] = v[a]; m[b] = m[a]; break; case 3: if (a != b) { v[b] = std::move(v[a]); m[b] = m[a]; m[a].clear(); } break; case 4: v[a].tiny(); break; case 5: v[a].resize(r.below(2000)); break; case 6: { buffer c(v[a]); CHECK(c.get_string() == m[a], "bytes", "a copied buffer differs"); break; } } CHECK(v[a].get_string(-1, false) == m[a], "bytes", "a buffer differs"); }
}
void streams(Rng &r)
{
    if (r.chance(60)) { auto p = nio_factory::get_pipes(); shuttle(*p[1], *p[0], r.bytes(r.below(150000)), r, "pipe"); nstream q(std::move(*p[1])); shuttle(q, *p[0], r.bytes(r.below(1000)), r, "moved pipe"); q.close(); vh::must("eof", "the end of a pipe is seen", [&] { p[0]->read_all(); return p[0]->eof(); }); return; }
    if (r.chance(50)) { auto name = path("fifo"); auto p = nio_factory::get_fifos(name); shuttle(*p[1], *p[0], r.bytes(r.below(50000)), r, "fifo"); ::unlink(name.c_str()); return; }
    auto name = path("file"); std::string s = r.bytes(r.below(50000)); { nstream w(::open(name.c_str(), O_CREAT | O_WRONLY | O_CLOEXEC, 0600)); w.wbuffer().put_string(s); while (w.wbuffer().size()) w.write_all(); } nstream f(::open(name.c_str(), O_RDONLY | O_CLOEXEC)); f.read_all(1 + r.below(4000)); CHECK(f.rbuffer().get_string() == s, "bytes", "a file reads back differently"); ::unlink(name.c_str());
}
void tcps(Rng &r)
{
    family f = fam(r); auto l = nio_factory::get_nsocktcp(f), c = nio_factory::get_nsocktcp(f); auto p = path("s"); int n = port(); l->set_so_reuseaddr();
    if (f == family::local) l->bind_unix(p, true); else l->bind(ip_of(f), n); l->listen(); if (f == family::local) c->connect_unix(p); else c->connect(ip_of(f), n); vh::must("accept", "a connection arrives", [&] { return vh::sys_poll(l->fd(), POLLIN, 0) & POLLIN; }); auto a = l->accept(); CHECK(a.size() == 1, "accept", "%zu connections are accepted", a.size());
    vh::must("connect", "a connection is established", [&] { return vh::sys_poll(c->fd(), POLLOUT, 0) & POLLOUT; }); CHECK(c->check_connect(), "connect", "a connection failed"); if (f != family::local) CHECK(std::get<1>(a[0]->peername()) == std::get<1>(c->sockname()), "identity", "the two sides of a connection disagree");
    shuttle(*c, *a[0], r.bytes(r.below(100000)), r, "connection"); nsocktcp q(std::move(*a[0])); shuttle(q, *c, r.bytes(r.below(20000)), r, "moved connection"); c->close(); vh::must("eof", "the end of a connection is seen", [&] { q.read_all(); return q.eof(); }); if (f == family::local) ::unlink(p.c_str());
}
void udps(Rng &r)
{
    family f = fam(r); auto a = nio_factory::get_nsockudp(f), b = nio_factory::get_nsockudp(f); auto p = path("u"); int n = port(); if (f == family::local) a->bind_unix(p, true); else a->bind(ip_of(f), n); int k = 1 + r.below(5);
    while (k--) { std::string s = r.bytes(1 + r.below(900)); b->wbuffer().put_string(s); if (f == family::local) b->send_unix(p); else b->send(ip_of(f), n); vh::must("datagram", "a datagram arrives", [&] { return vh::sys_poll(a->fd(), POLLIN, 0) & POLLIN; }); a->recv(); CHECK(a->rbuffer().get_string() == s, "bytes", "a datagram differs"); } refused("receiving nothing", [&] { a->recv(); }); if (f == family::local) ::unlink(p.c_str());
}
void loops(Rng &r)
{
    int n = 1 + r.below(5); event_loop l; std::vector<std::vector<std::shared_ptr<nstream>>> p; std::vector<uint64_t> want(n), got(n); std::atomic<int> left{n}; for (int i = 0; i < n; ++i) { p.push_back(nio_factory::get_pipes()); want[i] = 1 + r.below(30000); }
    for (int i = 0; i < n; ++i) l.fd_register(p[i][0], fd_event::fd_readable, [&, i](const std::shared_ptr<nio> &x) { auto s = std::dynamic_pointer_cast<nstream>(x); s->read_all(); got[i] += s->rbuffer().size(); s->rbuffer().clear(); vh::tick(); if (s->eof()) { x->evlp().fd_remove(x); if (--left == 0) l.stop_loop_forever(); } }, true, r.chance(50) ? p0 : p3);
    std::thread t([&] { l.loop_forever(); }); std::vector<std::thread> w; for (int i = 0; i < n; ++i) w.emplace_back([&, i] { p[i][1]->wbuffer().put_string(std::string(want[i], 'x')); while (p[i][1]->wbuffer().size()) p[i][1]->write_all(); p[i][1]->close(); }); for (auto &x : w) x.join(); t.join(); CHECK(got == want, "bytes", "an event loop delivers other amounts");
}
void pools_once(Rng &r)
{
    thread_pool_task_queue q(1 + r.below(4)); std::atomic<int> sum{0}; int n = r.below(60), early = r.below(n + 1); auto add = [&] { if (r.chance(50)) q.add_task([&] { sum.fetch_add(1); }); else { thread_pool_task_handler h = [&] { sum.fetch_add(1); }; q.add_task(std::vector<thread_pool_task_handler>{h}); } }; for (int i = 0; i < early; ++i) add(); q.run(); for (int i = early; i < n; ++i) add(); q.stop(); CHECK(sum == n, "tasks", "%d of %d tasks ran", sum.load(), n);
}
void schedules(Rng &r)
{
    std::atomic<int> n{0}, init{0}, exit{0}; { timed_scheduler<> s({{500.0, p0, [&](const std::chrono::nanoseconds &) { n.fetch_add(1); }}, {250.0, p1, [&](const std::chrono::nanoseconds &) { n.fetch_add(1); }}}, {[&] { init.fetch_add(1); }}, {[&] { exit.fetch_add(1); }}, false); int want = 1 + r.below(4); vh::must("schedule", "a scheduled task runs", [&] { return n >= want; }); } CHECK(init == 1 && exit == 1, "schedule", "first and last task ran %d and %d times", init.load(), exit.load());
}
struct Job : runnable { std::atomic<int> *n; explicit Job(std::atomic<int> *p) : n(p) {} void run_impl() override { n->fetch_add(1); } };
void threads(Rng &r) { std::atomic<int> n{0}; int k = 1 + r.below(4); { thread_pool<Job, std::atomic<int> *> p(k, &n); p.run(); if (r.chance(50)) vh::must("thread", "a thread ends", [&] { return p[0].wait_for(std::chrono::milliseconds(10)); }); p.join(); } CHECK(n == k, "thread", "%d of %d threads ran", n.load(), k); }
struct Sh { pshared_lock m; pshared_cond c; pshared_rwlock rw; pshared_one_time_fence f; pshared_barrier b{3}; spinlock s; uint64_t x = 0, y = 0, z = 0; int turn = 0; };
void shared(Rng &r)
{
    auto name = "/vh" + unique(""); shared_memory a(name, sizeof(Sh)), b(name, sizeof(Sh)); CHECK(a.creator() && !b.creator(), "shm", "creators"); Sh *p = a.construct<Sh>(), *q = static_cast<Sh *>(b.ptr()); semaphore s(name), s2(name); int n = 1 + r.below(100); std::vector<std::thread> t;
    for (int i = 0; i < 3; ++i) t.emplace_back([&, i] { Sh *h = i & 1 ? q : p; h->f.wait(); for (int k = 0; k < n; ++k) { { std::unique_lock<pshared_lock> l(h->m); h->x++; if (h->x % 7 == 0) h->c.notify_all(); } { wrlockguard g(h->rw); h->y++; } { rdlockguard g(h->rw); if (h->y > 1000000) abort(); } h->s.lock(); h->z++; h->s.unlock(); } (i & 1 ? s : s2).release(); h->b.wait(); { std::unique_lock<pshared_lock> l(h->m); h->c.wait(l, [&] { return h->turn == i; }); h->turn++; h->c.notify_all(); } });
    p->f.notify(); s.acquire(3); for (auto &x : t) x.join(); CHECK(q->x == uint64_t(3 * n) && q->y == uint64_t(3 * n) && q->z == uint64_t(3 * n) && q->turn == 3, "shared", "counters under locks are wrong"); CHECK(!s.try_acquire(), "sem", "a semaphore has permits left"); p->~Sh(); a.unlink(); s.unlink();
}
void logs(Rng &r) { int n = 1 + r.below(3), k = r.below(20); std::vector<std::thread> t; for (int i = 0; i < n; ++i) t.emplace_back([&, i] { for (int j = 0; j < k; ++j) { if (j & 1) log::info << "thread " << i << " line " << j << log::endl; else log::error << "thread " << i << " error " << j * 1.5 << log::endl; } }); for (auto &x : t) x.join(); log::info << "done" << log::endl; }
void commands(Rng &r) { std::string s = std::to_string(r.below(1000000)); auto t = subprocess::exec_cmd("/bin/echo -n " + s); CHECK(std::get<0>(t) == 0 && std::get<1>(t) == s && std::get<2>(t).empty(), "command", "echo %s gives %d %s %s", s.c_str(), std::get<0>(t), std::get<1>(t).c_str(), std::get<2>(t).c_str()); if (r.chance(50)) { subp_open p("/bin/cat", {}); p.communicate(s); vh::must("command", "cat answers", [&] { p.communicate(); return p.stdout() == s; }); p.terminate(); p.wait(); CHECK(p.returncode() == SIGTERM, "command", "a terminated command has the status %d", p.returncode()); } }
void loader(Rng &r) { dynamic_loader m("libm.so.6"); double x = r.below(1000) / 10.0; CHECK(m.load<double(double)>("floor")(x) == double(int(x)), "loader", "floor differs"); refused("loading a missing symbol", [&] { m.load<int()>("vh_missing"); }); refused("loading a missing file", [&] { dynamic_loader n("/nowhere/x.so"); }); }
void texts(Rng &r) { std::string s = r.text(r.below(200), "a,b"); CHECK(join(split(s, ","), ",") == s, "text", "splitting and joining differs"); CHECK(strip(",," + s + "x,", ",").back() == 'x', "text", "stripping differs"); CHECK(!timestamp().empty() && cppev::gettid() == syscall(SYS_gettid), "text", "time or id"); refused("splitting at nothing", [&] { split(s, ""); }); int sg = r.pick(std::vector<int>{SIGUSR1, SIGUSR2, SIGRTMIN + 3}); thread_block_signal(sg); thread_raise_signal(sg); CHECK(thread_check_signal_pending(sg), "signal", "not pending"); CHECK(thread_wait_for_signal(std::vector<int>{sg}) == sg, "signal", "another signal"); thread_unblock_signal(sg); }
void failures(Rng &r)
{
    refused("connecting nowhere", [&] { auto c = nio_factory::get_nsocktcp(family::ipv4); c->connect("not an address", 1); }); refused("binding to a foreign address", [&] { auto c = nio_factory::get_nsocktcp(family::ipv4); c->bind("192.0.2.77", port()); }); refused("a bad descriptor", [] { nstream s(-1); }); auto c = nio_factory::get_nsocktcp(family::local); CHECK(!c->connect_unix(vh::scratch + "/missing"), "connect", "connecting to a missing path succeeds"); refused("sending to a missing path", [&] { auto u = nio_factory::get_nsockudp(family::local); u->wbuffer().put_string("x"); u->send_unix(vh::scratch + "/missing"); });
    event_loop l; auto f = path("plain"); nstream *file = new nstream(::open(f.c_str(), O_CREAT | O_RDWR | O_CLOEXEC, 0600)); std::shared_ptr<nio> sp(file); refused("watching a file", [&] { l.fd_register(sp, fd_event::fd_readable, [](const std::shared_ptr<nio> &) {}); }); ::unlink(f.c_str()); (void)r;
}
void reactors(Rng &r)
{
    family f = fam(r); int n = 1 + r.below(5), p = port(), rounds = 1 + r.below(5); auto pa = path("r"); size_t size = 1 + r.below(r.chance(20) ? 60000 : 300); std::string text = r.bytes(size); std::atomic<int> done{0}, closed{0}, wrong{0}; std::mutex m; std::map<nsocktcp *, std::pair<int, std::string>> seen;
    reactor::tcp_server s(1 + r.below(3)); reactor::tcp_client c(1 + r.below(3), 1 + r.below(2));
    s.set_on_read_complete([](const std::shared_ptr<nsocktcp> &x) { x->wbuffer().put_string(x->rbuffer().get_string()); reactor::async_write(x); vh::tick(); }); s.set_on_closed([&](const std::shared_ptr<nsocktcp> &) { closed.fetch_add(1); });
    c.set_on_connect([&](const std::shared_ptr<nsocktcp> &x) { x->wbuffer().put_string(text); reactor::async_write(x); });
    c.set_on_read_complete([&](const std::shared_ptr<nsocktcp> &x) {
        vh::tick(); bool whole = false; int k = 0;
        { std::lock_guard<std::mutex> l(m); auto &v = seen[x.get()]; v.second += x->rbuffer().get_string(); if (v.second.size() >= size) { whole = true; if (v.second != text) wrong.fetch_add(1); v.second.clear(); k = ++v.first; if (k == rounds) seen.erase(x.get()); } }
        if (!whole) return;
        if (k == rounds) { done.fetch_add(1); reactor::safely_close(x); } else { x->wbuffer().put_string(text); reactor::async_write(x); } });
    if (f == family::local) s.listen_unix(pa, true); else s.listen(p, f, ip_of(f)); s.run(); bool first = r.chance(50); if (first) c.run(); if (f == family::local) c.add_unix(pa, n); else c.add(ip_of(f), p, f, n);
    if (!first) c.run(); vh::must("echo", "all connections of a client echo", [&] { return done >= n; }, 60); vh::must("closed", "the server sees all connections closed", [&] { return closed >= n; }, 60); c.shutdown(); s.shutdown(); CHECK(!wrong, "bytes", "%d answers differ", wrong.load()); if (f == family::local) ::unlink(pa.c_str());
}
struct A { const char *name; void (*f)(Rng &); int cost; };
const A acts[] = {{"buffers", buffers, 1}, {"streams", streams, 1}, {"tcp", tcps, 2}, {"udp", udps, 1}, {"loops", loops, 3}, {"pools", pools_once, 2}, {"schedules", schedules, 8}, {"threads", threads, 2}, {"shared", shared, 5}, {"logs", logs, 2}, {"commands", commands, 20}, {"loader", loader, 1}, {"texts", texts, 1}, {"failures", failures, 1}, {"reactors", reactors, 10}};
const int N = sizeof acts / sizeof *acts;
void act(int i, Rng &r) { acts[i].f(r); vh::ev(acts[i].name); vh::tick(); }

std::string combination(const std::vector<std::vector<int>> &plan) { std::string d; for (auto &v : plan) { d += "["; for (int a : v) d += vh::strf(" %s", acts[a].name); d += " ]"; } return d; }
void together(Rng &r)
{
    int n = 2 + r.below(5); std::vector<uint64_t> s; for (int i = 0; i < n; ++i) s.push_back(r.next()); std::vector<std::thread> t; int per = 2 + r.below(4); uint64_t sig = 0; int fds = vh::fd_count(); std::vector<std::vector<int>> plan(n);
    for (auto &v : plan) for (int k = 0; k < per; ++k) { v.push_back(r.below(N)); sig = vh::mix(sig, v.back()); }
    for (int i = 0; i < n; ++i) t.emplace_back([&, i] { Rng q(s[i]); for (int a : plan[i]) act(a, q); }); for (auto &x : t) x.join(); CHECK(vh::fd_count() == fds, "leak", "%d descriptors are left, %d at first: %s", vh::fd_count(), fds, (open_files() + combination(plan)).c_str()); vh::ev("combinations"); vh::distinct(sig); if (r.chance(5)) vh::sample(combination(plan));
}
// the same again and again: nothing may grow
void steady(uint64_t k, Rng &r)
{
    int i = k % N; uint64_t seed = r.next(); int rounds = 8; auto go = [&] { for (int j = 0; j < rounds; ++j) { Rng q(seed); act(i, q); } };
    auto settle = [&](int fds, int thr) { vh::must("leak", vh::strf("%s: %d descriptors and %d threads are left (%d, %d at first)", acts[i].name, vh::fd_count(), vh::thread_count(), fds, thr), [&] { return vh::fd_count() == fds && vh::thread_count() == thr; }, 10); };
    go(); int fds = vh::fd_count(), thr = vh::thread_count(); int growing = 0; std::string sizes; size_t last = 0; int windows = 5;
    // a buffer that grows to what it needs at most (the logger's, on a busy machine) is no leak: growth has to go on and on
    for (int w = 0; w < windows; ++w) { go(); settle(fds, thr); size_t now = __sanitizer_get_current_allocated_bytes(); if (w && now >= last + rounds) growing++; last = now; if (w == 4 && growing == 4) windows = 30; if (w - growing > 5) break; sizes += vh::strf(" %zu", now); }
    CHECK(windows == 5 || growing < windows - 6, "growth", "%s repeated %d times with the same input: allocated memory grows all the time:%s", acts[i].name, rounds * windows, sizes.c_str()); vh::ev("steady_states"); vh::distinct(vh::mix(seed, i)); if (r.chance(5)) vh::sample(vh::strf("%s:%s bytes", acts[i].name, sizes.c_str()));
}
}
void harness_init() { signal(SIGPIPE, SIG_IGN); port(); log::info << "start" << log::endl; }
void harness_fini() {}
void run_case(uint64_t k, Rng &r) { if (vh::mode == "steady") steady(k, r); else together(r); }
extern "C" const char *__tsan_default_suppressions() { return "race:__sem_remove_mapping\nrace:__sem_check_add_mapping\nrace:tsearch\nrace:tdelete\nrace:sem_open\nrace:sem_close\n"; }
