// C04: whole datagrams, sender identity, failures that change nothing
#include "net.h"
#include "cppev/nio.h"
#include <thread>
#include "cppev/sysconfig.h"
using namespace cppev;
using vh::Rng;

struct Gram { std::string data; net::Addr from; bool anon; };
struct End
{
    bool lib; int fd; std::shared_ptr<nsockudp> s;
    std::string rb, wb;         // model of the library buffers
    net::Addr addr; bool bound; std::string path;
    std::vector<Gram> due;      // sent to this end and not yet received
    size_t due_bytes = 0;
};
static uint64_t serial;
static int FAM; static const char *FN;

static void bufs(End &e, const char *after)
{
    CHECK(e.s->rbuffer().size() == (int)e.rb.size() && (e.rb.empty() || !memcmp(e.s->rbuffer().rawbuf(), e.rb.data(), e.rb.size())), "rbuffer",
        "%s: read buffer has %d bytes, expected %zu (or content differs) after %s", FN, e.s->rbuffer().size(), e.rb.size(), after);
    CHECK(e.s->wbuffer().size() == (int)e.wb.size() && (e.wb.empty() || !memcmp(e.s->wbuffer().rawbuf(), e.wb.data(), e.wb.size())), "wbuffer",
        "%s: write buffer has %d bytes, expected %zu (or content differs) after %s", FN, e.s->wbuffer().size(), e.wb.size(), after);
}
void harness_init() { net::my_port(); }
void harness_fini() {}

static bool same(const net::Addr &a, const std::string &ip, int port) { return a.ip() == ip && a.port() == port; }

// several threads exchange datagrams over sockets of their own
static void case_threads(Rng &r)
{
    int n = 2 + r.below(5), base = vh::fd_count(); std::vector<uint64_t> seeds; for (int i = 0; i < n; ++i) seeds.push_back(r.next()); std::vector<std::thread> t; std::atomic<int> go{0};
    for (int i = 0; i < n; ++i) t.emplace_back([&, i] {
        Rng q(seeds[i]); struct To { std::shared_ptr<nsockudp> s; int fd; net::Addr a; std::string path; }; int which = q.below(3), fa = which == 0 ? AF_INET : which == 1 ? AF_INET6 : AF_UNIX; family fam = which == 0 ? family::ipv4 : which == 1 ? family::ipv6 : family::local; std::vector<To> to; int m = 1 + q.below(3);
        for (int j = 0; j < m; ++j) { To x; x.path = vh::scratch + vh::strf("/t%d.%d", i, j); x.a = fa == AF_UNIX ? net::addr_unix(x.path) : net::addr_ip(fa, net::loop_ip(fa), net::my_port()); if (q.chance(50)) { x.s = nio_factory::get_nsockudp(fam); x.fd = x.s->fd(); if (fa == AF_UNIX) x.s->bind_unix(x.path); else x.s->bind(net::loop_ip(fa), x.a.port()); } else { x.fd = net::sock(fa, SOCK_DGRAM); if (syscall(SYS_bind, x.fd, &x.a.ss, x.a.len)) vh::broken("raw bind %d", errno); } to.push_back(x); }
        auto out = nio_factory::get_nsockudp(fam); std::string mine = vh::scratch + vh::strf("/o%d", i); net::Addr me; if (fa == AF_UNIX) out->bind_unix(mine); else { me = net::addr_ip(fa, net::loop_ip(fa), net::my_port()); out->bind(net::loop_ip(fa), me.port()); }
        go.fetch_add(1, std::memory_order_relaxed); while (go.load(std::memory_order_relaxed) < n) vh::msleep(0.01);
        for (int k = 0; k < 150; ++k)
        {
            To &x = to[q.below(m)]; std::string d = vh::strf("<%d.%d>", i, k) + q.bytes(q.below(100)), got, ip; int port = -1; out->wbuffer().put_string(d); if (fa == AF_UNIX) out->send_unix(x.path); else if (q.chance(50)) out->send(x.a.ip(), x.a.port()); else out->send(net::loop_ip(fa), x.a.port());
            vh::must("datagram-lost", vh::strf("a datagram of one of %d threads arrives at its destination", n), [&] { return vh::sys_poll(x.fd, POLLIN, 10) & POLLIN; });
            if (x.s) { auto u = x.s->recv(); got = x.s->rbuffer().get_string(); ip = std::get<0>(u); port = std::get<1>(u); CHECK(std::get<2>(u) == fam, "sender-family", "wrong family"); if (fa == AF_UNIX) CHECK(ip == x.path, "own-path", "receiver's path reported as %s", ip.c_str()); }
            else { std::string b(3000, 0); net::Addr fr; memset(&fr, 0, sizeof fr); fr.len = sizeof fr.ss; ssize_t z = syscall(SYS_recvfrom, x.fd, &b[0], b.size(), MSG_DONTWAIT, &fr.ss, &fr.len); got = b.substr(0, std::max<ssize_t>(z, 0)); if (fa != AF_UNIX) { ip = fr.ip(); port = fr.port(); } }
            CHECK(got == d, "datagram-content", "beside %d other threads %s arrives instead of %s", n - 1, vh::show(got).c_str(), vh::show(d).c_str()); if (fa != AF_UNIX) CHECK(same(me, ip, port), "sender-address", "sender reported as %s:%d, was %s:%d", ip.c_str(), port, me.ip().c_str(), me.port());
            CHECK(out->wbuffer().size() == 0, "wbuffer", "bytes are left after sending"); vh::tick();
        }
        for (auto &x : to) { if (x.s) { bool threw = false; try { x.s->recv(); } catch (const std::exception &) { threw = true; } CHECK(threw, "datagram-extra", "a datagram for somebody else arrives"); } else { CHECK(!(vh::sys_poll(x.fd, POLLIN, 0) & POLLIN), "datagram-extra", "a datagram for somebody else arrives"); vh::sys_close(x.fd); } ::unlink(x.path.c_str()); }
        out.reset(); ::unlink(mine.c_str()); vh::ev("exchanged_by_threads", 150);
    });
    for (auto &x : t) x.join();
    CHECK(vh::fd_count() == base, "descriptor-leak", "descriptors leaked"); vh::distinct(r.next());
}

void run_case(uint64_t k, Rng &r)
{
    if (vh::mode == "mt") { case_threads(r); return; }
    int which = r.below(3);
    FAM = which == 0 ? AF_INET : which == 1 ? AF_INET6 : AF_UNIX; FN = which == 0 ? "ipv4" : which == 1 ? "ipv6" : "unix";
    family fam = which == 0 ? family::ipv4 : which == 1 ? family::ipv6 : family::local;
    int conf = r.chance(70) ? 2048 : r.chance(50) ? 60000 : 16;
    sysconfig::udp_buffer_size = conf;
    int base = vh::fd_count();
    std::vector<End> ends;
    auto v4 = [&] { return vh::strf("127.%d.%d.%d", (int)r.below(2), (int)r.below(3), 1 + (int)r.below(250)); };
    int n = 2 + r.below(4);
    for (int i = 0; i < n; ++i)
    {
        End e; e.lib = i == 0 || r.chance(65); e.bound = true;
        if (FAM == AF_UNIX)
        {
            // up to the longest path that is accepted
            e.path = vh::scratch + "/d" + std::to_string(++serial);
            if (r.chance(20)) e.path += std::string(107 - e.path.size(), 'p');
            e.bound = i < 2 || r.chance(80);
        }
        else e.bound = i < 2 || r.chance(70);
        std::string ip = FAM == AF_INET ? (r.chance(40) ? v4() : "127.0.0.1") : "::1";
        if (e.lib)
        {
            e.s = nio_factory::get_nsockudp(fam); e.fd = e.s->fd();
            CHECK(e.s->sockfamily() == fam, "family", "factory made another family");
            if (e.bound)
            {
                if (FAM == AF_UNIX) { if (r.chance(50)) e.s->bind_unix(e.path); else e.s->bind_unix(e.path.c_str(), true); }
                // (explicit ports: bind() allows address reuse, so a port chosen by the system may be shared with another process)
                else if (r.chance(30)) { ip = FAM == AF_INET ? "127.0.0.1" : "::1"; e.s->bind(net::my_port()); }
                else e.s->bind(ip, net::my_port());
            }
        }
        else
        {
            e.fd = net::sock(FAM, SOCK_DGRAM);
            if (e.bound)
            {
                net::Addr a = FAM == AF_UNIX ? net::addr_unix(e.path) : net::addr_ip(FAM, ip, net::my_port());
                if (syscall(SYS_bind, e.fd, &a.ss, a.len)) vh::broken("raw bind %d", errno);
            }
        }
        int big = 1 << 20; syscall(SYS_setsockopt, e.fd, SOL_SOCKET, SO_RCVBUF, &big, sizeof big);
        if (e.bound && FAM != AF_UNIX) e.addr = net::addr_ip(FAM, ip, net::local(e.fd).port());
        ends.push_back(e);
    }
    int steps = 20 + r.below(80); uint64_t sig = which;
    static std::vector<char> tmp(70000);
    auto receive = [&](size_t i)
    {
        End &e = ends[i];
        if (e.due.empty())
        {
            if (!e.lib) return;
            bool threw = false;
            try { e.s->recv(); } catch (const std::exception &) { threw = true; }
            CHECK(threw, "recv-nothing", "%s: receiving with nothing pending returned a datagram", FN);
            bufs(e, "an empty receive"); vh::ev("nothing_pending");
            return;
        }
        vh::must("datagram-lost", vh::strf("%s datagram arriving at its destination", FN), [&] { return vh::sys_poll(e.fd, POLLIN, 10) & POLLIN; });
        std::string got; std::string ip; int port = -1; net::Addr fr;
        if (e.lib)
        {
            int err = 0;
            if (r.chance(10)) { static const int errs[] = {ECONNREFUSED, EINTR, ENOMEM, EIO}; err = errs[r.below(4)]; inj::fail(inj::F_RECVFROM, e.fd, err); }
            std::tuple<std::string, int, family> t; bool threw = false;
            try { t = e.s->recv(); } catch (const std::exception &) { threw = true; }
            inj::clear_fail();
            if (threw) { CHECK(err, "recv-failed", "%s: receiving a pending datagram raised an error", FN); bufs(e, "a failed receive"); vh::ev("failed_receives"); return; }
            int add = e.s->rbuffer().size() - (int)e.rb.size();
            CHECK(add >= 0 && (e.rb.empty() || !memcmp(e.s->rbuffer().rawbuf(), e.rb.data(), e.rb.size())), "rbuffer", "%s: receiving changed bytes already buffered", FN);
            got.assign(e.s->rbuffer().rawbuf() + e.rb.size(), add);
            e.rb += got;
            CHECK(std::get<2>(t) == fam, "sender-family", "%s: sender family reported as %d", FN, (int)std::get<2>(t));
            ip = std::get<0>(t); port = std::get<1>(t);
            bufs(e, "a receive");
        }
        else
        {
            memset(&fr, 0, sizeof fr); fr.len = sizeof fr.ss;
            ssize_t x = syscall(SYS_recvfrom, e.fd, tmp.data(), tmp.size(), MSG_DONTWAIT, &fr.ss, &fr.len);
            if (x < 0) vh::broken("raw recvfrom %d", errno);
            got.assign(tmp.data(), x);
            if (FAM != AF_UNIX) { ip = fr.ip(); port = fr.port(); }
        }
        // which of the outstanding datagrams is it
        size_t hit = e.due.size(), content = e.due.size();
        for (size_t j = 0; j < e.due.size(); ++j)
            if (e.due[j].data == got)
            {
                content = j;
                if (FAM == AF_UNIX || same(e.due[j].from, ip, port)) { hit = j; break; }
            }
        CHECK(content < e.due.size(), "datagram-content", "%s: received a datagram of %zu bytes that nobody sent (first outstanding has %zu)", FN, got.size(), e.due[0].data.size());
        CHECK(hit < e.due.size(), "sender-address", "%s: sender reported as %s:%d, was %s:%d", FN, ip.c_str(), port, e.due[content].from.ip().c_str(), e.due[content].from.port());
        if (FAM == AF_UNIX && e.lib) CHECK(ip == e.path, "own-path", "receiver's path reported as %s, is %s", ip.c_str(), e.path.c_str());
        e.due_bytes -= e.due[hit].data.size() + 1500;
        if (got.empty()) vh::ev("empty_received");
        e.due.erase(e.due.begin() + hit);
        vh::ev("received");
    };
    for (int st = 0; st < steps; ++st)
    {
        vh::tick();
        size_t i = r.below(ends.size()); End &e = ends[i];
        int op = r.below(10);
        if (op < 2 && e.lib)        // consume what was received, prefill
        {
            if (r.chance(50)) { size_t m = r.below(e.rb.size() + 1); e.s->rbuffer().consume(m); e.rb.erase(0, m); }
            else if (e.rb.size() < 20000) { std::string d = r.bytes(r.chance(30) ? std::max(0, e.s->rbuffer().capacity() - (int)e.rb.size()) : r.below(3000)); e.s->rbuffer().put_string(d); e.rb += d; }
            if (e.rb.size() > 100000) { e.s->rbuffer().consume(); e.rb.clear(); }
            bufs(e, "buffer use");
        }
        else if (op < 5) receive(i);
        else if (op < 9)            // send
        {
            size_t j; do j = r.below(ends.size()); while (!ends[j].bound);
            End &t = ends[j];
            size_t total = 0; for (auto &x : ends) total += x.due_bytes;
            // what is outstanding is charged to the sending side of unix sockets
            if (FAM == AF_UNIX && total > 70000) { for (size_t x = 0; x < ends.size(); ++x) if (ends[x].due.size()) receive(x); continue; }
            if (t.due_bytes > 250000 || (FAM == AF_UNIX && t.due.size() > 7)) { receive(j); continue; }
            size_t len = r.chance(12) ? 0 : r.chance(15) ? conf : r.chance(15) ? conf - 1 : r.chance(60) ? r.below(std::min(conf, 200)) : r.below(conf + 1);
            std::string d = r.bytes(len);
            if (e.lib)
            {
                if (e.wb.size() + d.size() > (size_t)conf) d.resize(conf - e.wb.size());
                e.s->wbuffer().put_string(d); e.wb += d;
                // partly consumed write buffer
                if (r.chance(20)) { size_t m = r.below(e.wb.size() + 1); e.s->wbuffer().consume(m); e.wb.erase(0, m); }
                int err = 0;
                if (r.chance(8)) { static const int errs[] = {ENOBUFS, EINTR, EPERM, EAGAIN, ENETUNREACH, ECONNREFUSED}; err = errs[r.below(6)]; inj::fail(inj::F_SENDTO, e.fd, err); }
                bool threw = false;
                try { if (FAM == AF_UNIX) { if (r.chance(50)) e.s->send_unix(t.path); else e.s->send_unix(t.path.c_str()); } else if (r.chance(50)) e.s->send(t.addr.ip(), t.addr.port()); else e.s->send(t.addr.ip().c_str(), t.addr.port()); }
                catch (const std::exception &) { threw = true; }
                inj::clear_fail();
                if (threw) { CHECK(err, "send-failed", "%s: sending %zu bytes raised an error", FN, e.wb.size()); bufs(e, "a failed send"); vh::ev("failed_sends"); }
                else
                {
                    net::Addr from = net::local(e.fd);
                    if (FAM != AF_UNIX) from = net::addr_ip(FAM, e.bound ? e.addr.ip() : net::loop_ip(FAM), from.port());
                    // an address of the loopback net sends from itself unless bound to any
                    t.due.push_back({e.wb, from, !e.bound}); t.due_bytes += e.wb.size() + 1500;
                    if (e.wb.empty()) vh::ev("empty_sent");
                    e.wb.clear(); bufs(e, "a send"); vh::ev("sent");
                }
            }
            else
            {
                net::Addr a = FAM == AF_UNIX ? net::addr_unix(t.path) : t.addr;
                ssize_t x = syscall(SYS_sendto, e.fd, d.data(), d.size(), MSG_DONTWAIT, &a.ss, a.len);
                if (x != (ssize_t)d.size()) vh::broken("raw sendto %d", errno);
                net::Addr from = net::local(e.fd);
                if (FAM != AF_UNIX) from = net::addr_ip(FAM, e.bound ? e.addr.ip() : net::loop_ip(FAM), from.port());
                t.due.push_back({d, from, !e.bound}); t.due_bytes += d.size() + 1500;
            }
        }
        else if (e.lib)             // sends that have to fail
        {
            std::string d = r.bytes(1 + r.below(50)); e.s->wbuffer().put_string(d); e.wb += d;
            bool threw = false; std::string what;
            try
            {
                if (FAM == AF_UNIX)
                    switch (r.below(4))
                    {
                    case 0: what = "missing path"; e.s->send_unix(vh::scratch + "/nothing"); break;
                    case 1: what = "over-long path"; e.s->send_unix(vh::scratch + "/" + std::string(108, 'q')); break;
                    case 2: what = "no socket"; e.s->send_unix("/dev/null"); break;
                    default: what = "no ip socket"; e.s->send("127.0.0.1", 9); break;
                    }
                else
                    switch (r.below(5))
                    {
                    case 0: what = "malformed ip"; e.s->send("300.1.2.x", 9); break;
                    case 1: what = "ip of the other family"; e.s->send(FAM == AF_INET ? "::1" : "127.0.0.1", 9); break;
                    case 2: what = "port out of range"; e.s->send(net::loop_ip(FAM), r.chance(50) ? -1 - (int)r.below(100) : 65536 + (int)r.below(100000)); break;
                    case 3: what = "host name"; e.s->send("localhost", 9); break;
                    default:
                    {
                        what = "too big"; std::string big(65600, 'B'); e.s->wbuffer().put_string(big); e.wb += big;
                        e.s->send(net::loop_ip(FAM), 9); break;
                    }
                    }
            }
            catch (const std::exception &) { threw = true; }
            CHECK(threw, "send-not-failed", "%s: sending to %s raised no error", FN, what.c_str());
            bufs(e, what.c_str()); vh::ev("failed_sends");
            if (r.chance(50) || e.wb.size() > (size_t)conf) { e.s->wbuffer().consume(); e.wb.clear(); }
            if (e.wb.size() > (size_t)conf) { e.s->wbuffer().clear(); e.wb.clear(); }
        }
        sig = vh::mix(sig, op * 16 + i);
    }
    // everything outstanding arrives, then nothing more
    for (size_t i = 0; i < ends.size(); ++i) { while (ends[i].due.size()) receive(i); if (ends[i].lib) receive(i); else CHECK(!(vh::sys_poll(ends[i].fd, POLLIN, 0) & POLLIN), "datagram-extra", "%s: a datagram nobody sent", FN); }
    for (auto &e : ends) { if (e.lib) e.s.reset(); else vh::sys_close(e.fd); if (e.path.size()) ::unlink(e.path.c_str()); }
    sysconfig::udp_buffer_size = 2048;
    CHECK(vh::fd_count() == base, "descriptor-leak", "descriptors leaked");
    vh::distinct(sig); vh::ev(which == 0 ? "cases_ipv4" : which == 1 ? "cases_ipv6" : "cases_unix");
    if (k < 3) vh::sample(vh::strf("%s, %d ends, buffer size %d, %d steps", FN, n, conf, steps));
}
