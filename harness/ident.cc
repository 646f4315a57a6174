// C05: identity, accept batches, shutdown directions, options, refusal of what cannot be represented
#include "net.h"
#include <sys/stat.h>
#include "cppev/nio.h"
using namespace cppev;
using vh::Rng;
typedef std::tuple<std::string, int, family> Id;

static uint64_t serial;
static family F[] = {family::ipv4, family::ipv6, family::local};
static int A[] = {AF_INET, AF_INET6, AF_UNIX};
static const char *N[] = {"ipv4", "ipv6", "unix"};
static std::string s(const Id &i) { return std::get<0>(i) + ":" + std::to_string(std::get<1>(i)) + "/" + std::to_string((int)std::get<2>(i)); }
static Id ident(const net::Addr &a) { return Id(a.ip(), a.port(), a.fam() == AF_INET ? family::ipv4 : family::ipv6); }
static std::string sock_path(Rng &r)
{
    std::string p = vh::scratch + "/p" + std::to_string(++serial);
    if (r.chance(15)) p += std::string(107 - p.size(), 'l');
    return p;
}
void harness_init() { net::my_port(); }
void harness_fini() {}

struct Conn { int raw = -1; std::shared_ptr<nsocktcp> lib; uint32_t tag; net::Addr local; bool seen = false; bool mapped = false; };

// a listener (library), pending connections of raw and library sockets, accepted in batches
static void case_accept(uint64_t k, Rng &r)
{
    int f = r.below(3); bool inject = r.chance(40);
    auto lis = nio_factory::get_nsocktcp(F[f]);
    std::string path, ip = f == 0 ? (r.chance(50) ? "127.0.0.1" : vh::strf("127.0.%d.%d", (int)r.below(3), 1 + (int)r.below(250))) : "::1";
    int port = -1; bool any = f != 2 && r.chance(30);
    if (f == 2)
    {
        path = sock_path(r);
        if (r.chance(40)) { int x = net::sock(AF_UNIX, SOCK_STREAM); net::Addr a = net::addr_unix(path); syscall(SYS_bind, x, &a.ss, a.len); vh::sys_close(x); lis->bind_unix(path, true); }
        else lis->bind_unix(path);
    }
    else if (any) lis->bind(net::my_port()); else lis->bind(ip, net::my_port());
    if (f != 2)
    {
        net::Addr la = net::local(lis->fd()); port = la.port();
        CHECK(lis->sockname() == ident(la), "sockname", "listener reports %s, is %s", s(lis->sockname()).c_str(), s(ident(la)).c_str());
        if (!any) CHECK(la.ip() == ip, "bind-address", "bound to %s instead of %s", la.ip().c_str(), ip.c_str());
        else CHECK(la.ip() == (f == 0 ? "0.0.0.0" : "::"), "bind-address", "bound to %s instead of any", la.ip().c_str());
    }
    else { net::Addr la = net::local(lis->fd()); CHECK(la.path() == path, "bind-path", "bound to %s instead of %s", la.path().c_str(), path.c_str()); CHECK(std::get<0>(lis->sockname()) == path, "sockname", "unix listener reports %s", s(lis->sockname()).c_str()); }
    if (r.chance(50)) lis->listen(); else lis->listen(300);
    CHECK(lis->accept().empty() && lis->accept(0).empty() && lis->accept(3).empty(), "accept-phantom", "%s: accepted a connection nobody made", N[f]);
    CHECK(!vh::waits([&] { lis->accept(); }), "accept-blocks", "%s: accepting waits for connections", N[f]);
    int deaf_fd = -1;
    auto deaf = [&]     // a port that is taken, but nobody listens
    {
        if (deaf_fd < 0) { deaf_fd = net::sock(A[f], SOCK_STREAM); net::Addr a = net::addr_ip(A[f], net::loop_ip(A[f]), 0); if (syscall(SYS_bind, deaf_fd, &a.ss, a.len)) vh::broken("bind"); }
        return net::local(deaf_fd).port();
    };
    std::map<uint32_t, Conn> conns; std::vector<std::pair<uint32_t, std::shared_ptr<nsocktcp>>> accepted;
    size_t pending = 0, total = 0; uint32_t tag = 0; uint64_t sig = f * 2 + any; size_t nacc = 0;
    int rounds = 2 + r.below(8), crowded = r.chance(6) ? r.below(rounds) : -1;
    for (int rd = 0; rd < rounds || pending; ++rd)
    {
        vh::tick();
        if (rd < rounds)
        {
            bool crowd = rd == crowded;
            int m = crowd ? 110 + r.below(100) : r.chance(20) ? 0 : r.chance(20) ? r.below(40) : r.below(6);
            if (crowd) vh::ev("crowds");
            for (int i = 0; i < m && (crowd || total < 120) && pending < 290; ++i)
            {
                Conn c; c.tag = ++tag;
                std::string to = any && f == 0 ? vh::strf("127.0.0.%d", 1 + (int)r.below(200)) : ip;
                c.mapped = any && f == 1 && r.chance(30);
                if (!c.mapped && r.chance(crowd ? 10 : 60))
                {
                    c.lib = nio_factory::get_nsocktcp(F[f]);
                    bool second = r.chance(20);     // an attempt that fails comes first
                    if (second)
                    {
                        bool ok = f == 2 ? c.lib->connect_unix(vh::scratch + "/nobody") : c.lib->connect(net::loop_ip(A[f]), deaf());
                        if (ok) vh::must("connect-failed", "a refused connection attempt ending", [&] { return vh::sys_poll(c.lib->fd(), POLLOUT, 10) != 0; });
                        CHECK(!ok || !c.lib->check_connect(), "connect-failed", "%s: attempt to connect to an address nobody listens on reported as established", N[f]);
                        vh::ev("second_attempts");
                    }
                    std::string txt = f == 1 && r.chance(40) ? "0:0:0:0:0:0:0:1" : to;
                    auto go = [&] { return f == 2 ? (r.chance(50) ? c.lib->connect_unix(path) : c.lib->connect_unix(path.c_str())) : r.chance(50) ? c.lib->connect(txt, port) : c.lib->connect(txt.c_str(), port); };
                    bool ok = go();
                    for (int t = 0; second && !ok && t < 3; ++t) ok = go();     // the system reports the failed attempt once more
                    CHECK(ok, "connect", "%s: connecting to a listener reported failure (errno %d)", N[f], errno);
                    vh::must("connect", "connection to a listener becoming writable", [&] { return vh::sys_poll(c.lib->fd(), POLLOUT, 10) & POLLOUT; });
                    CHECK(c.lib->check_connect() && c.lib->get_so_error() == 0, "check-connect", "%s: established connection reported as failed", N[f]);
                    Id want = f == 2 ? Id(path, -1, family::local) : Id(txt, port, F[f]);
                    CHECK(c.lib->connpeer() == want, "connpeer", "%s: connecting side remembers %s, target was %s", N[f], s(c.lib->connpeer()).c_str(), s(want).c_str());
                    if (f != 2)
                    {
                        CHECK(c.lib->sockname() == ident(net::local(c.lib->fd())), "sockname", "reported %s", s(c.lib->sockname()).c_str());
                        CHECK(c.lib->peername() == Id(to, port, F[f]), "peername", "peer reported as %s, is %s:%d", s(c.lib->peername()).c_str(), to.c_str(), port);
                    }
                    else CHECK(c.lib->peername() == want, "peername", "unix peer reported as %s, is %s", s(c.lib->peername()).c_str(), path.c_str());
                    c.local = net::local(c.lib->fd());
                    vh::sys_write(c.lib->fd(), &c.tag, sizeof c.tag);
                }
                else
                {
                    c.raw = net::connect_to(f == 2 ? net::addr_unix(path) : c.mapped ? net::addr_ip(AF_INET, "127.0.0.1", port) : net::addr_ip(A[f], to, port));
                    if (c.raw < 0) vh::broken("raw connect %d", errno);
                    c.local = net::local(c.raw);
                    if (!net::write_full(c.raw, (char *)&c.tag, sizeof c.tag)) vh::broken("raw write");
                }
                conns[c.tag] = c; ++pending; ++total;
            }
        }
        // a TCP connection reaches the accept queue with the last packet of its handshake, which is processed before connect() returns on loopback
        int batch = r.chance(30) ? INT_MAX : pending > 100 && r.chance(60) ? (r.chance(30) ? (int)pending : 90 + (int)r.below(pending)) : r.chance(10) ? 0 : 1 + r.below(10);
        bool hard = false;
        if (inject)
        {
            static const int soft[] = {EINTR, ECONNABORTED, EPROTO, ENETDOWN, EHOSTUNREACH, ENETUNREACH, ENETRESET, EHOSTDOWN, ENOPROTOOPT, ENONET};
            inj::clear_fail();
            if (r.chance(60)) inj::fail(inj::F_ACCEPT, lis->fd(), soft[r.below(10)], 1 + r.below(2), r.below(4));
            if (r.chance(30)) { static const int e[] = {EMFILE, ENFILE, ENOBUFS, ENOMEM}; inj::fail(inj::F_ACCEPT, lis->fd(), e[r.below(4)], 1, r.below(4)); hard = true; }
        }
        std::vector<std::shared_ptr<nsocktcp>> got; bool threw = false;
        try { got = batch == INT_MAX && r.chance(50) ? lis->accept() : lis->accept(batch); } catch (const std::exception &) { threw = true; }
        inj::clear_fail();
        CHECK(!threw || hard, "accept-error", "%s: accepting raised an error although the fault concerned one pending connection only", N[f]);
        CHECK(got.size() <= (size_t)batch, "accept-batch", "%s: %zu accepted, batch was %d", N[f], got.size(), batch);
        if (!hard) CHECK(got.size() == std::min<size_t>(batch, pending), "accept-count", "%s: accepted %zu of %zu pending connections, batch %d", N[f], got.size(), pending, batch);
        CHECK(got.size() <= pending, "accept-phantom", "%s: accepted %zu, only %zu connected", N[f], got.size(), pending);
        pending -= got.size(); nacc += got.size();
        for (auto &a : got)
        {
            CHECK(a && !a->is_closed() && a->sockfamily() == F[f], "accepted", "accepted handle is closed or of another family");
            CHECK(fcntl(a->fd(), F_GETFL) & O_NONBLOCK, "nonblock", "accepted descriptor blocks");
            uint32_t t = 0;
            vh::must("tag", "first bytes of an accepted connection", [&] { return vh::sys_poll(a->fd(), POLLIN, 10) & POLLIN; });
            int n = a->read_all();
            CHECK(n == sizeof t, "tag", "%d bytes read", n); memcpy(&t, a->rbuffer().rawbuf(), sizeof t);
            auto it = conns.find(t);
            CHECK(it != conns.end() && !it->second.seen, "accept-twice", "%s: connection %u accepted twice or unknown", N[f], t);
            Conn &c = it->second; c.seen = true;
            if (f != 2)
            {
                CHECK(a->sockname() == ident(net::local(a->fd())), "sockname", "accepted side reports %s", s(a->sockname()).c_str());
                CHECK(a->peername() == ident(net::peer(a->fd())), "peername", "accepted side reports peer %s", s(a->peername()).c_str());
                Id cl = ident(c.local); if (c.mapped) cl = Id("::ffff:" + std::get<0>(cl), std::get<1>(cl), family::ipv6);
                CHECK(a->peername() == cl, "sides-disagree", "accepting side sees peer %s, the peer is %s", s(a->peername()).c_str(), s(cl).c_str());
                if (c.lib) CHECK(a->sockname() == c.lib->peername() && a->peername() == c.lib->sockname(), "sides-disagree", "%s %s / %s %s",
                    s(a->sockname()).c_str(), s(a->peername()).c_str(), s(c.lib->sockname()).c_str(), s(c.lib->peername()).c_str());
            }
            else
            {
                CHECK(a->sockname() == Id(path, -1, family::local), "sockname", "accepted unix side reports %s, listener is %s", s(a->sockname()).c_str(), path.c_str());
                if (c.lib) CHECK(a->sockname() == c.lib->peername() && a->peername() == c.lib->sockname(), "sides-disagree", "unix sides disagree: %s %s", s(a->peername()).c_str(), s(c.lib->sockname()).c_str());
            }
            accepted.push_back({t, a});
            vh::ev("accepted");
        }
        if (rd > 400) vh::viol("accept-lost", "%zu connections never accepted", pending);
        sig = vh::mix(sig, got.size() * 64 + std::min(batch, 63));
    }
    CHECK(lis->accept().empty(), "accept-phantom", "one more connection than made");
    if (deaf_fd >= 0) vh::sys_close(deaf_fd);
    // connections work both ways
    for (auto &pr : accepted)
    {
        Conn &c = conns[pr.first]; std::string d = r.bytes(1 + r.below(30));
        pr.second->wbuffer().put_string(d);
        CHECK(pr.second->write_all() == (int)d.size(), "echo", "short write");
        std::string got; int fd = c.lib ? c.lib->fd() : c.raw;
        vh::must("echo", "bytes arriving over an accepted connection", [&] { if (!(vh::sys_poll(fd, POLLIN, 10) & POLLIN)) return false; net::read_some(fd, got, 100); return got.size() >= d.size(); });
        CHECK(got == d, "echo", "accepted connection leads to another peer");
    }
    for (auto &c : conns) if (c.second.raw >= 0) vh::sys_close(c.second.raw);
    if (f == 2) ::unlink(path.c_str());
    vh::distinct(sig); vh::ev("pending_connections", total);
    if (k < 3) vh::sample(vh::strf("accept %s%s, %zu connections%s", N[f], any ? " any" : "", total, inject ? ", faults injected" : ""));
}

struct Pair { std::shared_ptr<nsocktcp> lib; int raw; };
static Pair pair(Rng &r, int f)
{
    Pair p; std::string path = sock_path(r);
    if (r.chance(50))
    {
        int l = net::listener(f == 2 ? net::addr_unix(path) : net::addr_ip(A[f], net::loop_ip(A[f]), 0));
        p.lib = nio_factory::get_nsocktcp(F[f]);
        bool ok = f == 2 ? p.lib->connect_unix(path) : p.lib->connect(net::loop_ip(A[f]), net::local(l).port());
        CHECK(ok, "connect", "connect failed");
        p.raw = net::accept_one(l); vh::sys_close(l);
        vh::sys_poll(p.lib->fd(), POLLOUT, 5000);
    }
    else
    {
        auto l = nio_factory::get_nsocktcp(F[f]);
        if (f == 2) l->bind_unix(path); else l->bind(net::loop_ip(A[f]), net::my_port());
        l->listen();
        p.raw = net::connect_to(f == 2 ? net::addr_unix(path) : net::addr_ip(A[f], net::loop_ip(A[f]), net::local(l->fd()).port()));
        auto v = l->accept(); CHECK(v.size() == 1, "accept-count", "%zu accepted", v.size()); p.lib = v[0];
    }
    if (f == 2) ::unlink(path.c_str());
    return p;
}

static void case_shutdown(uint64_t k, Rng &r)
{
    int f = r.below(3); Pair p = pair(r, f); int m = r.below(3);
    std::string out = r.bytes(r.below(3000)), in = r.bytes(r.below(3000));
    // bytes already under way are not affected by closing the writing direction
    p.lib->wbuffer().put_string(out);
    CHECK(p.lib->write_all() == (int)out.size(), "write", "short write");
    auto drain = [&](size_t n) { std::string g; vh::must("arrival", "bytes arriving", [&] { if (vh::sys_poll(p.raw, POLLIN, 10) & POLLIN) net::read_some(p.raw, g, 1 << 16); return g.size() >= n; }); return g; };
    if (out.size()) CHECK(drain(out.size()) == out, "shutdown-data", "bytes differ");
    CHECK(net::peek(p.raw) == -1, "shutdown-early", "peer saw something before any shutdown");
    // what is queued or was read before makes no difference
    bool queued = r.chance(30), unread = r.chance(30); if (queued) p.lib->wbuffer().put_string("queued"); if (unread) p.lib->rbuffer().put_string("unread");
    p.lib->shutdown(m == 0 ? shut_mode::shut_rd : m == 1 ? shut_mode::shut_wr : shut_mode::shut_rdwr);
    CHECK(p.lib->wbuffer().get_string() == (queued ? "queued" : "") && p.lib->rbuffer().get_string() == (unread ? "unread" : ""), "shutdown-data", "a shutdown changes the buffers"); bool rd = m != 1, wr = m != 0;
    if (wr)
    {
        vh::must("shutdown-write", "peer seeing the end after the writing direction was shut down", [&] { vh::sys_poll(p.raw, POLLIN, 10); return net::peek(p.raw) == 1; });
        p.lib->wbuffer().put_string("x"); p.lib->write_all();
        CHECK(p.lib->eop() || p.lib->is_reset(), "shutdown-write", "%s: still able to write after shutdown", N[f]);
    }
    else
    {
        std::string d = r.bytes(1 + r.below(2000)); p.lib->wbuffer().put_string(d);
        CHECK(p.lib->write_all() == (int)d.size(), "shutdown-other", "%s: shutting down reading also stopped writing", N[f]);
        CHECK(drain(d.size()) == d, "shutdown-other", "bytes differ after shutting down reading");
        CHECK(net::peek(p.raw) == -1, "shutdown-other", "%s: the peer saw the end although only reading was shut down", N[f]);
    }
    if (rd)
    {
        int n = p.lib->read_all();
        CHECK(n == 0 && p.lib->eof(), "shutdown-read", "%s: reading after shutdown does not report the end", N[f]);
    }
    else
    {
        if (in.empty()) in = "y";
        if (!net::write_full(p.raw, in.data(), in.size())) vh::viol("shutdown-other", "%s: peer cannot send although only writing was shut down", N[f]);
        vh::must("shutdown-other", "bytes from the peer after shutting down writing", [&] { vh::sys_poll(p.lib->fd(), POLLIN, 10); p.lib->read_all(); return p.lib->rbuffer().size() >= (int)in.size() || p.lib->eof(); });
        CHECK(p.lib->rbuffer().get_string() == in && !p.lib->eof(), "shutdown-other", "%s: shutting down writing affected reading", N[f]);
    }
    vh::sys_close(p.raw);
    vh::distinct(vh::mix(f * 3 + m, out.size() * 4000 + in.size())); vh::ev(m == 0 ? "shutdown_rd" : m == 1 ? "shutdown_wr" : "shutdown_rdwr");
}

// every option against a twin socket driven with plain system calls
struct Opt { const char *n; int level, name; };
static const Opt OPTS[] = {{"reuseaddr", SOL_SOCKET, SO_REUSEADDR}, {"reuseport", SOL_SOCKET, SO_REUSEPORT}, {"rcvbuf", SOL_SOCKET, SO_RCVBUF}, {"sndbuf", SOL_SOCKET, SO_SNDBUF},
    {"rcvlowat", SOL_SOCKET, SO_RCVLOWAT}, {"sndlowat", SOL_SOCKET, SO_SNDLOWAT}, {"keepalive", SOL_SOCKET, SO_KEEPALIVE}, {"linger", SOL_SOCKET, SO_LINGER}, {"nodelay", IPPROTO_TCP, TCP_NODELAY}, {"broadcast", SOL_SOCKET, SO_BROADCAST}};
static bool raw_get(int fd, const Opt &o, int v[2]) { v[0] = v[1] = 0; socklen_t l = o.name == SO_LINGER && o.level == SOL_SOCKET ? 8 : 4; return syscall(SYS_getsockopt, fd, o.level, o.name, v, &l) == 0; }
static bool raw_set(int fd, const Opt &o, int a, int b) { int v[2] = {a, b}; return syscall(SYS_setsockopt, fd, o.level, o.name, v, o.name == SO_LINGER && o.level == SOL_SOCKET ? 8 : 4) == 0; }

static void case_options(uint64_t k, Rng &r)
{
    int f = r.below(3); bool udp = r.chance(35);
    std::shared_ptr<nsock> so; std::shared_ptr<nsocktcp> t; std::shared_ptr<nsockudp> u;
    int twin = net::sock(A[f], udp ? SOCK_DGRAM : SOCK_STREAM);
    if (udp) so = u = nio_factory::get_nsockudp(F[f]); else so = t = nio_factory::get_nsocktcp(F[f]);
    uint64_t sig = f + udp * 3; int steps = 5 + r.below(40);
    for (int i = 0; i < steps; ++i)
    {
        int j = r.below(10); const Opt &o = OPTS[j];
        if ((udp && j >= 6 && j <= 8) || (!udp && j == 9)) continue;
        int a, b = 0; bool threw = false, dflt = false;
        if (j == 2 || j == 3) a = r.chance(20) ? r.below(10) : r.chance(90) ? r.below(300000) : (int)r.below(2000000000);
        else if (j == 4 || j == 5) a = 1 + r.below(5000);
        else a = r.below(2);
        if (j == 7) b = r.chance(50) ? r.below(100) : r.below(30000);
        try
        {
            switch (j)
            {
            case 0: if (a && r.chance(50)) so->set_so_reuseaddr(); else so->set_so_reuseaddr(a); break;
            case 1: if (a && r.chance(50)) so->set_so_reuseport(); else so->set_so_reuseport(a); break;
            case 2: so->set_so_rcvbuf(a); break;
            case 3: so->set_so_sndbuf(a); break;
            case 4: so->set_so_rcvlowat(a); break;
            case 5: so->set_so_sndlowat(a); break;
            case 6: t->set_so_keepalive(a); break;
            case 7: if (r.chance(20)) { dflt = true; t->set_so_linger(a); } else t->set_so_linger(a, b); break;
            case 8: t->set_tcp_nodelay(a); break;
            case 9: u->set_so_broadcast(a); break;
            }
        }
        catch (const std::exception &) { threw = true; }
        if (dflt) b = 0;
        bool ok = raw_set(twin, o, a, b);
        CHECK(ok != threw, "option-result", "%s %s set to %d: library %s, system %s", N[f], o.n, a, threw ? "raised" : "succeeded", ok ? "accepts" : "refuses");
        vh::ev(ok ? "options_set" : "options_refused");
        for (int q = 0; q < 10; ++q)
        {
            int v[2], w[2]; bool gv = raw_get(so->fd(), OPTS[q], v), gw = raw_get(twin, OPTS[q], w);
            CHECK(gv == gw && (!gv || (v[0] == w[0] && v[1] == w[1])), q == j ? "option-value" : "option-other", "%s %s: after setting %s to %d,%d the value is %d,%d, expected %d,%d", N[f], OPTS[q].n, o.n, a, b, v[0], v[1], w[0], w[1]);
            if ((udp && q >= 6 && q <= 8) || (!udp && q == 9)) continue;
            int x[2] = {0, 0}; threw = false;
            try
            {
                switch (q)
                {
                case 0: x[0] = so->get_so_reuseaddr(); break;
                case 1: x[0] = so->get_so_reuseport(); break;
                case 2: x[0] = so->get_so_rcvbuf(); break;
                case 3: x[0] = so->get_so_sndbuf(); break;
                case 4: x[0] = so->get_so_rcvlowat(); break;
                case 5: x[0] = so->get_so_sndlowat(); break;
                case 6: x[0] = t->get_so_keepalive(); break;
                case 7: { auto l = t->get_so_linger(); x[0] = l.first; x[1] = l.second; break; }
                case 8: x[0] = t->get_tcp_nodelay(); break;
                case 9: x[0] = u->get_so_broadcast(); break;
                }
            }
            catch (const std::exception &) { threw = true; }
            CHECK(threw != gw, "option-read", "reading %s %s: library %s", N[f], OPTS[q].n, threw ? "raised" : "succeeded");
            if (gw) CHECK(x[0] == w[0] && x[1] == w[1], "option-read", "%s %s reads %d,%d, is %d,%d", N[f], OPTS[q].n, x[0], x[1], w[0], w[1]);
        }
        sig = vh::mix(sig, j * 2 + (a & 1));
    }
    vh::sys_close(twin);
    vh::distinct(sig);
}

static bool raises(const std::function<void()> &f) { try { f(); } catch (const std::exception &) { return true; } return false; }

static void case_refuse(uint64_t k, Rng &r)
{
    int f = r.below(3);
    vh::distinct(vh::mix(k, f));
    if (f == 2)
    {
        std::string dir = vh::scratch + "/x" + std::to_string(++serial); mkdir(dir.c_str(), 0700);
        for (int len = 100; len <= 130; len += 1 + r.below(3))
        {
            if (r.chance(30)) len = 106 + r.below(4);
            std::string p = dir + "/"; p += std::string(len - p.size(), 'a' + r.below(26)); bool fits = p.size() <= 107;
            bool udp = r.chance(40); std::shared_ptr<nsock> s; if (udp) s = nio_factory::get_nsockudp(family::local); else s = nio_factory::get_nsocktcp(family::local);
            bool threw = raises([&] { s->bind_unix(p, r.chance(50)); });
            CHECK(threw == !fits, "path-refused", "path of %zu bytes %s", p.size(), threw ? "refused" : "accepted");
            struct stat st; bool file = lstat(p.c_str(), &st) == 0;
            CHECK(file == fits, "path-altered", "path of %zu bytes: socket file %s", p.size(), file ? "exists" : "missing");
            if (fits) CHECK(net::local(s->fd()).path() == p, "path-altered", "bound to another path");
            // the nearest representable path must not be touched
            std::string cut = p.substr(0, 107);
            if (!fits) CHECK(lstat(cut.c_str(), &st) != 0, "path-altered", "bound to the truncated path");
            if (!fits && !udp)
            {
                int l = net::listener(net::addr_unix(cut)); auto c = nio_factory::get_nsocktcp(family::local); bool res = false;
                bool t2 = raises([&] { res = c->connect_unix(p); });
                CHECK(t2 || !res, "path-altered", "connected although the path is not representable");
                CHECK(!(vh::sys_poll(l, POLLIN, 0) & POLLIN), "path-altered", "connected to the truncated path");
                vh::sys_close(l); ::unlink(cut.c_str());
            }
            if (fits && !udp)
            {
                std::static_pointer_cast<nsocktcp>(std::dynamic_pointer_cast<nsocktcp>(s))->listen();
                auto c = nio_factory::get_nsocktcp(family::local);
                CHECK(c->connect_unix(p), "connect", "cannot connect to a path of %zu bytes", p.size());
                CHECK(std::dynamic_pointer_cast<nsocktcp>(s)->accept().size() == 1, "accept-count", "connection lost");
                // a bound path is not taken over unless asked for
                auto o = nio_factory::get_nsocktcp(family::local);
                CHECK(raises([&] { o->bind_unix(p); }), "bind-in-use", "bound a path in use");
                auto o2 = nio_factory::get_nsocktcp(family::local); o2->bind_unix(p, true); o2->listen();
                auto c2 = nio_factory::get_nsocktcp(family::local); CHECK(c2->connect_unix(p) && o2->accept().size() == 1, "bind-remove", "path was not taken over");
            }
            ::unlink(p.c_str()); ::unlink(cut.c_str()); vh::ev("paths");
        }
        // failures reported
        auto c = nio_factory::get_nsocktcp(family::local); std::string none = dir + "/none";
        CHECK(!c->connect_unix(none) || !c->check_connect(), "connect-failed", "connected to a missing path");
        int x = net::sock(AF_UNIX, SOCK_STREAM); net::Addr a = net::addr_unix(none); syscall(SYS_bind, x, &a.ss, a.len);
        auto c2 = nio_factory::get_nsocktcp(family::local); CHECK(!c2->connect_unix(none) || !c2->check_connect(), "connect-failed", "connected to a socket nobody listens on");
        vh::sys_close(x); ::unlink(none.c_str()); vh::ev("failed_connects", 2);
        // more connections than the listener takes: each is either there or reported as failed
        x = net::sock(AF_UNIX, SOCK_STREAM); if (syscall(SYS_bind, x, &a.ss, a.len) || syscall(SYS_listen, x, (int)r.below(4))) vh::broken("listen");
        std::vector<std::shared_ptr<nsocktcp>> many; int there = 0, extra = 3 + r.below(8);
        for (int i = 0; i < extra; ++i)
        {
            auto c3 = nio_factory::get_nsocktcp(family::local); many.push_back(c3);
            bool said = c3->connect_unix(none) && c3->check_connect(), is = net::peer(c3->fd()).len > 0; there += is;
            CHECK(said == is, "connect-failed", "unix connection %d of %d to a short queue: reported as %s, the system says %s", i, extra, said ? "established" : "failed", is ? "established" : "not connected");
            vh::ev(is ? "queued_connects" : "failed_connects");
        }
        for (int i = 0; i < there; ++i) { int g = syscall(SYS_accept4, x, nullptr, nullptr, 0); if (g < 0) vh::broken("accept"); vh::sys_close(g); }
        vh::sys_close(x); ::unlink(none.c_str()); rmdir(dir.c_str());
        return;
    }
    static const std::vector<std::string> bad4 = {"", "1", "256.1.1.1", "127.0.0", "127.0.0.1.1", "127.0.0.1 ", " 127.0.0.1", "::1", "localhost", "127.0.0.x", "0x7f.0.0.1", "127.0.0.01x", "-1.0.0.0"};
    static const std::vector<std::string> bad6 = {"", "1", "127.0.0.1", ":::1", "::1::", "12345::1", "g::1", "localhost", "::1 ", "[::1]", "1:2:3:4:5:6:7:8:9", "::1/64"};
    for (auto &ip : f == 0 ? bad4 : bad6)
    {
        auto c = nio_factory::get_nsocktcp(F[f]); bool res = false, threw = raises([&] { res = c->connect(ip, 9); });
        CHECK(threw || !res, "ip-refused", "%s: connecting to %s was accepted", N[f], vh::show(ip).c_str());
        auto b = nio_factory::get_nsocktcp(F[f]);
        CHECK(raises([&] { b->bind(ip, 0); }), "ip-refused", "%s: binding to %s was accepted", N[f], vh::show(ip).c_str());
        auto u = nio_factory::get_nsockudp(F[f]);
        CHECK(raises([&] { u->bind(ip, 0); }), "ip-refused", "%s: binding to %s was accepted", N[f], vh::show(ip).c_str());
        vh::ev("malformed");
    }
    int l = net::listener(net::addr_ip(A[f], net::loop_ip(A[f]), 0)); int port = net::local(l).port();
    for (int i = 0; i < 6; ++i)
    {
        int wrong = r.chance(50) ? port + 65536 * (1 + (int)r.below(20)) : port - 65536 * (1 + (int)r.below(20));
        if (r.chance(20)) wrong = 65536 + r.below(10); 
        if (r.chance(20)) wrong = -1 - (int)r.below(10);
        auto c = nio_factory::get_nsocktcp(F[f]); bool res = false, threw = raises([&] { res = c->connect(net::loop_ip(A[f]), wrong); });
        CHECK(threw || !res, "port-refused", "connecting to port %d was accepted", wrong);
        CHECK(!(vh::sys_poll(l, POLLIN, 0) & POLLIN), "port-altered", "port %d ended at port %d", wrong, port);
        auto b = nio_factory::get_nsocktcp(F[f]);
        CHECK(raises([&] { b->bind(wrong); }), "port-refused", "binding port %d was accepted", wrong);
        vh::ev("malformed");
    }
    // an address in use
    auto b = nio_factory::get_nsocktcp(F[f]);
    CHECK(raises([&] { b->bind(net::loop_ip(A[f]), port); b->listen(); }), "bind-in-use", "bound and listened on a port in use");
    vh::sys_close(l);
    // refused connections: a port that is taken, but nobody listens
    l = net::sock(A[f], SOCK_STREAM); { net::Addr a = net::addr_ip(A[f], net::loop_ip(A[f]), 0); if (syscall(SYS_bind, l, &a.ss, a.len)) vh::broken("bind"); } port = net::local(l).port();
    auto c = nio_factory::get_nsocktcp(F[f]);
    bool res = c->connect(net::loop_ip(A[f]), port);
    if (res)
    {
        vh::must("connect-failed", "a refused connection attempt ending", [&] { return vh::sys_poll(c->fd(), POLLOUT, 10) != 0; });
        CHECK(!c->check_connect(), "connect-failed", "%s: refused connection reported as established", N[f]);
    }
    vh::ev("failed_connects"); vh::sys_close(l);
    // errors of connect() itself
    static const int errs[] = {ECONNREFUSED, ENETUNREACH, EADDRNOTAVAIL, EACCES, ETIMEDOUT, EHOSTUNREACH};
    auto d = nio_factory::get_nsocktcp(F[f]); inj::fail(inj::F_CONNECT, d->fd(), errs[r.below(6)], 1);
    bool threw = raises([&] { res = d->connect(net::loop_ip(A[f]), port); }); bool hit = inj::injected() > 0; inj::clear_fail();
    if (hit) CHECK(threw || !res, "connect-failed", "a failing connect() was reported as success");
    vh::ev("failed_connects");
}

void run_case(uint64_t k, Rng &r)
{
    int base = vh::fd_count();
    switch (k % 8)
    {
    case 0: case 1: case 2: case_accept(k, r); break;
    case 3: case 4: case_shutdown(k, r); break;
    case 5: case 6: case_options(k, r); break;
    default: case_refuse(k, r); break;
    }
    CHECK(vh::fd_count() == base, "descriptor-leak", "%d descriptors leaked", vh::fd_count() - base);
}
