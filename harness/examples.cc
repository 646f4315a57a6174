// C27: the shipped example programs, run as programs, against each other and against raw peers.
#include "net.h"
#include <algorithm>
#include <csignal>
#include <dirent.h>
#include <fstream>
#include <list>
#include <spawn.h>
#include <sstream>
#include <sys/syscall.h>
#include <sys/wait.h>
using vh::Rng;
extern char **environ;

namespace
{
const std::string MSG = "Cppev is a C++ event driven library";
const std::string NICE("Cppev\0Nice", 10);
std::string bin, variant, cwd;
std::string slurp(const std::string &p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }

struct Prog
{
    std::string name, out; pid_t pid = -1; std::map<std::string, std::string> cfg;
    Prog(const std::string &n, std::map<std::string, std::string> c) : name(n), cfg(c) {}
    void start()
    {
        static int serial = 0; out = cwd + "/" + name + "." + std::to_string(serial++) + ".out";
        std::string exe = bin + "/" + variant + "-ex-" + name; std::vector<std::string> env; for (char **e = environ; *e; ++e) if (strncmp(*e, "VH_", 3)) env.push_back(*e); for (auto &i : cfg) env.push_back("VH_" + i.first + "=" + i.second);
        std::vector<char *> ep; for (auto &e : env) ep.push_back(&e[0]); ep.push_back(nullptr); char *argv[] = {&exe[0], nullptr};
        posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa); posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0); posix_spawn_file_actions_addopen(&fa, 1, out.c_str(), O_CREAT | O_WRONLY | O_APPEND, 0600); posix_spawn_file_actions_adddup2(&fa, 1, 2);
        posix_spawnattr_t at; posix_spawnattr_init(&at); sigset_t none, dfl; sigemptyset(&none); sigemptyset(&dfl); sigaddset(&dfl, SIGPIPE); sigaddset(&dfl, SIGINT); posix_spawnattr_setsigmask(&at, &none); posix_spawnattr_setsigdefault(&at, &dfl); posix_spawnattr_setflags(&at, POSIX_SPAWN_SETSIGMASK | POSIX_SPAWN_SETSIGDEF);
        int e = posix_spawn(&pid, exe.c_str(), &fa, &at, argv, &ep[0]); if (e) vh::broken("cannot run %s: errno %d", exe.c_str(), e); posix_spawn_file_actions_destroy(&fa); posix_spawnattr_destroy(&at); vh::ev("programs");
    }
    std::string tail() { auto s = slurp(out); for (auto k : {"[MONITOR]", "ERROR: Addr", "WARNING: ThreadS", "runtime error", "terminate called"}) { auto p = s.find(k); if (p != s.npos) return s.substr(p, 2500); } return s.size() > 800 ? s.substr(s.size() - 800) : s; }
    bool running() { if (pid < 0) return false; int st; pid_t r = waitpid(pid, &st, WNOHANG); if (r == pid) { pid = -1; vh::viol("died", "%s ends with status 0x%x: %s", name.c_str(), st, tail().c_str()); } return true; }
    // ends by itself with 0
    void finish(double sec = 60) { int st = 0; vh::must("no-end", name + " ends", [&] { return waitpid(pid, &st, WNOHANG) == pid; }, sec); pid = -1; CHECK(st == 0, "died", "%s ends with status 0x%x: %s", name.c_str(), st, tail().c_str()); vh::ev("ended"); }
    void interrupt() { if (running()) { ::kill(pid, SIGINT); finish(); vh::ev("interrupted"); } }
    void kill9() { if (running()) { ::kill(pid, SIGKILL); int st; waitpid(pid, &st, 0); pid = -1; } }
    int fds() { int n = 0; if (DIR *d = opendir(vh::strf("/proc/%d/fd", pid).c_str())) { while (readdir(d)) n++; closedir(d); } return n; }
    bool logged(const std::string &s) { return slurp(out).find(s) != std::string::npos; }
    ~Prog() { if (pid > 0) { ::kill(pid, SIGKILL); waitpid(pid, nullptr, 0); } }
};
// every line of a log starts as a log line does
void log_lines(Prog &p) { std::string s = slurp(p.out); size_t a = 0; while (a < s.size()) { size_t e = s.find('\n', a); if (e == s.npos) break; std::string l = s.substr(a, e - a); CHECK(l.compare(0, 3, "- [") == 0 && l.find("] [LWP ") != l.npos, "log", "%s logs the line %s", p.name.c_str(), vh::show(l, 300).c_str()); vh::ev("log_lines"); a = e + 1; } }
void serving(Prog &p, const net::Addr &a) { vh::must("listen", p.name + " accepts connections", [&] { p.running(); int s = net::connect_to(a); if (s < 0) return false; vh::sys_close(s); return true; }, 60); }
bool repeats(const std::string &s, size_t from) { for (size_t i = 0; i < s.size(); ++i) if (s[i] != MSG[(from + i) % MSG.size()]) return false; return true; }

struct Ends { net::Addr a[3]; };
Ends ends(std::map<std::string, std::string> &c, const std::string &pre, int p4, int p6, const std::string &path) { c[pre + "IPV4_PORT"] = std::to_string(p4); c[pre + "IPV6_PORT"] = std::to_string(p6); c[pre + "UNIX_PATH"] = path; Ends e; e.a[0] = net::addr_ip(AF_INET, "127.0.0.1", p4); e.a[1] = net::addr_ip(AF_INET6, "::1", p6); e.a[2] = net::addr_unix(path); return e; }

// server and client with an observer between them
struct Conn { int c, s, fam; std::string buf[2]; uint64_t in[2] = {0, 0}, out[2] = {0, 0}; double until[2] = {0, 0}; bool dead = false; };
void case_stress(Rng &r)
{
    std::map<std::string, std::string> sc, cc; Ends se = ends(sc, "", net::my_port(), net::my_port(), cwd + "/s"), ce = ends(cc, "", net::my_port(), net::my_port(), cwd + "/c"); int n[3]; for (int i = 0; i < 3; ++i) { n[i] = r.below(12); cc[std::vector<std::string>{"IPV4", "IPV6", "UNIX"}[i] + "_CONCURRENCY"] = std::to_string(n[i]); }
    sc["SERVER_WORKER_NUM"] = std::to_string(1 + r.below(4)); cc["CLIENT_WORKER_NUM"] = std::to_string(1 + r.below(4)); cc["CONTOR_NUM"] = std::to_string(1 + r.below(3)); Prog srv("simple_server", sc), cli("simple_client", cc); srv.start();
    int l[3]; for (int i = 0; i < 3; ++i) { l[i] = net::listener(ce.a[i]); net::nonblock(l[i]); } for (int i = 0; i < 3; ++i) serving(srv, se.a[i]);
    cli.start(); std::list<Conn> v; int total = n[0] + n[1] + n[2], seen[3] = {0, 0, 0}; uint64_t rounds = 3 + r.below(6); double t0 = vh::now(); int kills = r.chance(50) ? r.below(total + 1) : 0; uint64_t moved = 0; bool slow = r.chance(50), tiny = r.chance(40);
    auto pump = [&](Conn &x) {
        for (int d = 0; d < 2; ++d)
        {
            int from = d ? x.c : x.s, to = d ? x.s : x.c; std::string g; bool ok = vh::sys_poll(from, POLLIN, 0) ? net::read_some(from, g) : true; if (!g.empty()) { moved++; vh::tick(); CHECK(repeats(g, x.in[d] % MSG.size()), "message", "%s sends %s after %llu bytes", d ? "client" : "server", vh::show(g).c_str(), (unsigned long long)x.in[d]); x.in[d] += g.size(); x.buf[d] += g; }
            CHECK(ok || x.dead, "closed", "%s closes a connection", d ? "the client" : "the server");
            if (!x.buf[d].empty() && vh::now() >= x.until[d]) { size_t k = tiny ? 1 + r.below(x.buf[d].size()) : x.buf[d].size(); ssize_t w = syscall(SYS_sendto, to, x.buf[d].data(), k, MSG_NOSIGNAL | MSG_DONTWAIT, nullptr, 0); if (w > 0) { x.buf[d].erase(0, w); x.out[d] += w; } if (slow) x.until[d] = vh::now() + r.below(20) / 1000.0; }
        }
        CHECK(x.in[1] <= x.out[0] && x.in[0] <= MSG.size() + x.out[1], "message", "more is echoed than was sent"); };
    auto all = [&] { for (int i = 0; i < 3; ++i) if (seen[i] < n[i]) return false; for (auto &x : v) if (x.in[0] < rounds * MSG.size() || x.in[1] < rounds * MSG.size()) return false; return true; };
    while (!all())
    {
        srv.running(); cli.running(); if (vh::now() - t0 > 90) { std::string d; for (auto &x : v) d += vh::strf(" %d:%llu/%llu", x.fam, (unsigned long long)x.in[0], (unsigned long long)x.in[1]); vh::viol("exchange", "connections do not exchange %llu messages: %d %d %d of %d %d %d connections,%s", (unsigned long long)rounds, seen[0], seen[1], seen[2], n[0], n[1], n[2], d.c_str()); }
        for (int i = 0; i < 3; ++i) if (seen[i] < n[i]) { int s = syscall(SYS_accept4, l[i], nullptr, nullptr, SOCK_CLOEXEC); if (s >= 0) { Conn x; x.c = s; x.fam = i; x.s = net::connect_to(se.a[i]); CHECK(x.s >= 0, "listen", "the server refuses a connection, errno %d", errno); net::nonblock(x.c); net::nonblock(x.s); v.push_back(x); seen[i]++; } else break; }
        for (auto &x : v) pump(x);
        if (kills && !v.empty() && r.chance(2)) { auto k = v.begin(); std::advance(k, r.below(v.size())); switch (r.below(3)) { case 0: net::rst_close(k->c); net::rst_close(k->s); break; case 1: vh::sys_close(k->c); vh::sys_close(k->s); break; case 2: ::shutdown(k->c, SHUT_WR); ::shutdown(k->s, SHUT_WR); vh::sys_close(k->c); vh::sys_close(k->s); break; } v.erase(k); kills--; vh::ev("connections_cut"); }
        vh::msleep(0.3);
    }
    for (int i = 0; i < 3; ++i) CHECK(syscall(SYS_accept4, l[i], nullptr, nullptr, SOCK_CLOEXEC) < 0, "connections", "more connections than asked for");
    uint64_t bytes = 0; for (auto &x : v) bytes += x.in[0] + x.in[1]; vh::ev("stress_connections", total); vh::ev("stress_messages", bytes / MSG.size());
    if (r.chance(50)) { srv.interrupt(); cli.interrupt(); } else { cli.interrupt(); srv.interrupt(); } for (auto &x : v) { vh::sys_close(x.c); vh::sys_close(x.s); } for (int i = 0; i < 3; ++i) vh::sys_close(l[i]); log_lines(srv); vh::distinct(vh::mix(rounds, moved)); if (r.chance(10)) vh::sample(vh::strf("stress: %d+%d+%d connections, %llu bytes in %llu pieces", n[0], n[1], n[2], (unsigned long long)bytes, (unsigned long long)moved));
}
// raw peers that behave as they like against the echo server
void case_echo(Rng &r)
{
    std::map<std::string, std::string> sc; Ends se = ends(sc, "", net::my_port(), net::my_port(), cwd + "/s"); sc["SERVER_WORKER_NUM"] = std::to_string(1 + r.below(4)); Prog srv("simple_server", sc); srv.start(); for (int i = 0; i < 3; ++i) serving(srv, se.a[i]); int base = 0; vh::must("descriptors", "the server settles", [&] { int f = srv.fds(); bool same = f == base; base = f; vh::msleep(20); return same; });
    int n = 1 + r.below(20);
    for (int i = 0; i < n; ++i)
    {
        int f = r.below(3), s = net::connect_to(se.a[f]); CHECK(s >= 0, "listen", "the server refuses a connection, errno %d", errno); net::nonblock(s); size_t len = r.below(r.chance(20) ? 2000000 : 3000), sent = 0; std::string text = r.bytes(len), want = MSG + text, got; bool rude = r.chance(20); size_t stop = rude ? r.below(len + 1) : len; double t0 = vh::now();
        while (got.size() < want.size()) { srv.running(); if (sent < stop) { size_t k = std::min<size_t>(stop - sent, 1 + r.below(60000)); ssize_t w = syscall(SYS_sendto, s, &text[sent], k, MSG_NOSIGNAL | MSG_DONTWAIT, nullptr, 0); if (w > 0) { sent += w; vh::tick(); } } else if (rude) break; size_t b = got.size(); CHECK(net::read_some(s, got), "closed", "the server closes a connection"); if (got.size() != b) { vh::tick(); t0 = vh::now(); CHECK(!want.compare(0, got.size(), got), "message", "the server sends %s", vh::show(got).c_str()); } else vh::sys_poll(s, POLLIN, 1); if (vh::now() - t0 > 60) vh::viol("exchange", "%zu of %zu bytes come back", got.size(), want.size()); }
        if (rude) { net::rst_close(s); vh::ev("rude_peers"); } else { if (r.chance(50)) { ::shutdown(s, SHUT_WR); } vh::sys_close(s); vh::ev("echoed_bytes", len); }
    }
    vh::must("descriptors", vh::strf("the server closes its side of %d connections", n), [&] { srv.running(); return srv.fds() <= base; }); srv.interrupt(); log_lines(srv); vh::distinct(r.next());
}
// file transfer
std::string make_file(Rng &r, std::string &text)
{
    std::string name = cwd + "/file." + std::to_string(r.below(1000)); size_t len = r.chance(10) ? 0 : r.below(r.chance(15) ? 23000000 : r.chance(50) ? 300000 : 2000); text = r.bytes(len); std::ofstream f(name, std::ios::binary); f << text; return name;
}
// the file server closes what it loaded twice, at its end
void closed_twice(Prog &srv) { if (srv.logged("[MONITOR]")) vh::known("cached-file-descriptor-closed-twice", "%s", srv.tail().c_str()); }
void case_file(Rng &r, bool many)
{
    std::string text, name = make_file(r, text); size_t len = text.size();
    int port = net::my_port(), n = many ? 150 : 1 + r.below(10); std::map<std::string, std::string> c{{"PORT", std::to_string(port)}, {"FILENAME", name}, {"CONCURRENCY", std::to_string(n)}}; auto a = net::addr_ip(AF_INET, "127.0.0.1", port); Prog srv("file_transfer_server", c), cli("file_transfer_client", c); srv.start(); serving(srv, a);
    if (many && len > 3000) { text.resize(len = 1 + r.below(3000)); std::ofstream f(name, std::ios::binary | std::ios::trunc); f << text; }
    int raws = r.below(5); bool late = r.chance(50);
    auto raw = [&] {
        int s = net::connect_to(a); CHECK(s >= 0, "listen", "the server refuses a connection, errno %d", errno); net::nonblock(s); std::string q = name + "\n", got; int what = r.below(10); if (what == 0) { vh::sys_close(s); return; } if (what == 1) { net::write_full(s, q.data(), 1 + r.below(q.size() - 1)); net::rst_close(s); return; }
        net::write_full(s, q.data(), q.size()); double t0 = vh::now(); bool slow = r.chance(30);
        for (;;) { srv.running(); size_t b = got.size(); bool ok = net::read_some(s, got, slow ? 1 + r.below(200000) : 1000000); if (!ok) break; if (got.size() != b) { t0 = vh::now(); vh::tick(); } else vh::sys_poll(s, POLLIN, 2); if (vh::now() - t0 > 60) vh::viol("file", "the server sends %zu of %zu bytes and no end", got.size(), len); }
        CHECK(got == text, "file", "the server sends %zu bytes of a file of %zu%s", got.size(), len, got.size() == len ? ", others" : ""); vh::sys_close(s); vh::ev("raw_downloads"); };
    if (!late) for (int i = 0; i < raws; ++i) raw();
    cli.start(); std::map<std::string, size_t> copies; int got = 0;
    // of two connections with the same descriptor and thread the client writes both copies into one file (a known finding)
    vh::must("file", vh::strf("%d copies of %zu bytes are complete", n, len), [&] {
        srv.running(); cli.running(); copies.clear(); got = 0; std::string o = slurp(cli.out), w = "receiving file complete"; int ended = 0; for (size_t p = o.find(w); p != o.npos; p = o.find(w, p + 1)) ++ended; CHECK(ended <= n, "connections", "%d connections end instead of %d", ended, n);
        DIR *d = opendir(cwd.c_str()); if (!d) return false; std::string base = name.substr(name.rfind('/') + 1) + "."; while (auto e = readdir(d)) { std::string f = e->d_name; struct stat st; if (!f.compare(0, base.size(), base) && f.size() > 5 && f.substr(f.size() - 5) == ".copy" && !stat((cwd + "/" + f).c_str(), &st)) { copies[cwd + "/" + f] = st.st_size; if (len) got += st.st_size / len; } } closedir(d); vh::tick(); vh::msleep(5);
        return ended == n && (!len || got >= n); }, 90);
    if (len) CHECK(got == n, "file", "%d copies instead of %d", got, n); else CHECK(!copies.empty() && int(copies.size()) <= n, "file", "%zu copies instead of %d", copies.size(), n);
    for (auto &f : copies) { std::string t = slurp(f.first); CHECK(len ? t.size() && t.size() % len == 0 : t.empty(), "file", "a copy of a file of %zu bytes has %zu", len, t.size()); for (size_t i = 0; i < t.size(); i += len) CHECK(!t.compare(i, len, text), "file", "a copy differs from the file"); ::unlink(f.first.c_str()); vh::tick(); }
    if (int(copies.size()) < n) vh::known("two-copies-in-one-file", "%d connections of the file transfer client leave %zu copies, some in one file", n, copies.size());
    if (late) for (int i = 0; i < raws; ++i) raw();
    if (r.chance(50)) { srv.interrupt(); cli.interrupt(); } else { cli.interrupt(); srv.interrupt(); } closed_twice(srv); CHECK(!cli.logged("[MONITOR]"), "double-close", "%s", cli.tail().c_str()); log_lines(srv); log_lines(cli); ::unlink(name.c_str()); vh::ev("file_copies", n); vh::ev("file_bytes", n * len); vh::distinct(vh::mix(len, n)); if (r.chance(10)) vh::sample(vh::strf("file of %zu bytes to %d copies and %d raw peers", len, n, raws));
}
// requests the file server does not survive (known findings), each with a server of its own
void case_file_odd(Rng &r, bool missing)
{
    std::string text, name = make_file(r, text); if (text.empty()) { text = "a"; std::ofstream f(name); f << text; } std::string q = (missing ? cwd + "/no-such-file" : name) + "\n", got; int port = net::my_port(); std::map<std::string, std::string> c{{"PORT", std::to_string(port)}}; auto a = net::addr_ip(AF_INET, "127.0.0.1", port); Prog srv("file_transfer_server", c); srv.start(); serving(srv, a);
    int s = net::connect_to(a); CHECK(s >= 0, "listen", "the server refuses a connection, errno %d", errno); size_t cut = missing ? q.size() : 1 + r.below(q.size() - 1); net::write_full(s, q.data(), cut); if (cut < q.size()) { vh::msleep(100); net::write_full(s, &q[cut], q.size() - cut); } net::nonblock(s);
    int st = 0; bool died = false, ended = false; double t0 = vh::now();
    while (!died && !ended) { died = waitpid(srv.pid, &st, WNOHANG) == srv.pid; size_t b = got.size(); ended = !net::read_some(s, got); if (got.size() != b) { t0 = vh::now(); vh::tick(); } else vh::sys_poll(s, POLLIN, 5); if (vh::now() - t0 > 60) vh::viol("file", "no end of an odd request"); }
    if (!died && (missing || got != text)) died = vh::wait_until([&] { return waitpid(srv.pid, &st, WNOHANG) == srv.pid; }, 10);   // the connection ends before the process
    vh::sys_close(s); vh::ev(missing ? "missing_files" : "requests_in_pieces"); vh::distinct(r.next());
    if (!died)
    {
        CHECK(got == (missing ? "" : text), "file", "%s: the server sends %zu bytes", missing ? "missing file" : "request in two pieces", got.size()); serving(srv, a); srv.interrupt(); closed_twice(srv); return;
    }
    srv.pid = -1; std::string o = slurp(srv.out); CHECK(got.empty() && o.find("terminate called") != o.npos && o.find("data race") == o.npos && o.find("runtime error") == o.npos && (o.find("ERROR: Addr") == o.npos || o.find("ERROR: AddressSanitizer: ABRT") != o.npos), "died", "%s: %s", missing ? "missing file" : "request in two pieces", srv.tail().c_str());
    vh::known(missing ? "missing-file-kills-server" : "request-in-pieces-kills-server", "%s", srv.tail().c_str());
}
// event loop examples
void case_loop(Rng &r)
{
    std::map<std::string, std::string> c; int ep = net::my_port(); Ends t = ends(c, "TCP_", net::my_port(), net::my_port(), cwd + "/t"), u = ends(c, "UDP_", net::my_port(), ep, cwd + "/u");
    if (r.chance(50))
    {
        int l[3], d[3]; for (int i = 0; i < 3; ++i) { ::unlink((cwd + "/t").c_str()); ::unlink((cwd + "/u").c_str()); l[i] = net::listener(t.a[i]); d[i] = net::sock(u.a[i].fam(), SOCK_DGRAM); if (syscall(SYS_bind, d[i], &u.a[i].ss, u.a[i].len) < 0) vh::broken("raw bind errno %d", errno); }
        Prog tc("tcp_client", c), uc("udp_client", c); tc.start(); uc.start();
        for (int i = 0; i < 3; ++i) { int s = net::accept_one(l[i], 60000); CHECK(s >= 0, "connections", "the event loop client does not connect"); std::string g; double t0 = vh::now(); net::nonblock(s); while (net::read_some(s, g)) { if (vh::now() - t0 > 60) vh::viol("message", "no end of a client's connection after %s", vh::show(g).c_str()); vh::sys_poll(s, POLLIN, 5); vh::tick(); } CHECK(g == NICE, "message", "the event loop client sends %s", vh::show(g).c_str()); vh::sys_close(s); }
        tc.finish(); uc.finish(); for (int i = 0; i < 3; ++i) { std::string g(100, 0); CHECK(vh::sys_poll(d[i], POLLIN, 0) & POLLIN, "datagram", "the datagram of the client is not there"); ssize_t k = syscall(SYS_recvfrom, d[i], &g[0], 100, 0, nullptr, nullptr); CHECK(k == 10 && g.substr(0, 10) == NICE, "datagram", "the client sends %zd bytes %s", k, vh::show(g.substr(0, std::max<ssize_t>(k, 0))).c_str()); CHECK(!(vh::sys_poll(d[i], POLLIN, 0) & POLLIN), "datagram", "the client sends two datagrams"); vh::sys_close(l[i]); vh::sys_close(d[i]); }
        ::unlink((cwd + "/t").c_str()); ::unlink((cwd + "/u").c_str()); vh::ev("loop_clients"); vh::distinct(r.next()); return;
    }
    Prog ts("tcp_server", c), us("udp_server", c); ts.start(); us.start(); for (int i = 0; i < 3; ++i) serving(ts, t.a[i]); vh::must("listen", "the datagram server binds", [&] { us.running(); int s = net::sock(AF_UNIX, SOCK_DGRAM); bool ok = !syscall(SYS_connect, s, &u.a[2].ss, u.a[2].len); vh::sys_close(s); return ok; }, 60); auto text = [&] { std::string x = r.text(1 + r.below(800), "abcdefghij 0123"); return "<" + x + ">"; };
    int n = 1 + r.below(12); std::vector<std::string> wt, wu;
    for (int i = 0; i < n; ++i)
    {
        int f = r.below(3); std::string x = text(), line = std::to_string(x.size()) + " " + x + " --> ";
        if (r.chance(50)) { int s = net::connect_to(t.a[f]); CHECK(s >= 0, "listen", "the server refuses a connection, errno %d", errno); net::write_full(s, x.data(), x.size()); if (f < 2) { auto me = net::local(s); line += vh::strf("sock: %s %d | peer: %s %d", net::loop_ip(me.fam()), t.a[f].port(), net::loop_ip(me.fam()), me.port()); } wt.push_back(line); vh::must("message", "the server logs what it received: " + line, [&] { ts.running(); return ts.logged(line); }, 30); vh::sys_close(s); }
        else { int s = net::sock(u.a[f].fam(), SOCK_DGRAM); std::string mine; if (f == 2) { mine = cwd + "/u" + std::to_string(i); ::unlink(mine.c_str()); auto m = net::addr_unix(mine); syscall(SYS_bind, s, &m.ss, m.len); } vh::must("datagram", "a datagram can be sent", [&] { return syscall(SYS_sendto, s, x.data(), x.size(), MSG_DONTWAIT | MSG_NOSIGNAL, &u.a[f].ss, u.a[f].len) == ssize_t(x.size()); }); if (f < 2) { auto me = net::local(s); line += vh::strf("peer: %s %d", net::loop_ip(me.fam()), me.port()); } else line += "peer: " + cwd + "/u -1"; wu.push_back(line); if (r.chance(30) && !vh::wait_until([&] { us.running(); return us.logged(line); }, 30)) vh::viol("datagram", "the server does not log %s: %s", line.c_str(), us.tail().c_str()); vh::sys_close(s); if (f == 2) ::unlink(mine.c_str()); }
    }
    if (r.chance(50)) { Prog tc("tcp_client", c), uc("udp_client", c); tc.start(); uc.start(); tc.finish(); uc.finish(); std::string nice = "10 " + NICE + " --> "; vh::must("message", "the servers log what the clients sent", [&] { ts.running(); us.running(); auto k = [&](const std::string &s) { int n = 0; for (size_t p = s.find(nice); p != s.npos; p = s.find(nice, p + 1)) n++; return n; }; return k(slurp(ts.out)) == 3 && k(slurp(us.out)) == 3; }, 30); vh::ev("loop_pairs"); }
    for (auto &l : wu) if (!vh::wait_until([&] { us.running(); return us.logged(l); }, 30)) vh::viol("datagram", "the server does not log %s: %s", l.c_str(), us.tail().c_str());
    std::string so = slurp(ts.out), uo = slurp(us.out); auto count = [](const std::string &s, const std::string &w) { int n = 0; for (size_t p = s.find(w); p != s.npos; p = s.find(w, p + 1)) n++; return n; }; for (auto &l : wt) CHECK(count(so, l) == std::count(wt.begin(), wt.end(), l), "message", "logged more than once: %s", l.c_str()); for (auto &l : wu) CHECK(count(uo, l) == std::count(wu.begin(), wu.end(), l), "datagram", "logged more than once: %s", l.c_str());
    ts.kill9(); us.kill9(); vh::ev("loop_servers"); vh::ev("loop_messages", n); vh::distinct(r.next());
}
}
void harness_init() { signal(SIGPIPE, SIG_IGN); bin = getenv("VH_AUX") ? getenv("VH_AUX") : ""; variant = vh::mode; vh::set_patience(100); }
void harness_fini() {}
void run_case(uint64_t k, Rng &r)
{
    cwd = vh::scratch + "/" + std::to_string(k); ::mkdir(cwd.c_str(), 0700);
    int x = r.below(100), odd = k % 24;
    if (odd == 5 || odd == 12) case_file_odd(r, odd == 5); else if (odd == 18) case_file(r, true);
    else if (x < 30) case_stress(r); else if (x < 50) case_echo(r); else if (x < 75) case_file(r, false); else case_loop(r);
    if (DIR *d = opendir(cwd.c_str())) { while (auto e = readdir(d)) if (e->d_name[0] != '.') ::unlink((cwd + "/" + e->d_name).c_str()); closedir(d); } ::rmdir(cwd.c_str());
}
