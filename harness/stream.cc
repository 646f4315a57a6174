// C02: every byte moved exactly once, in order, and reported exactly
#include "net.h"
#include <signal.h>
#include <sys/ioctl.h>
#include <pthread.h>
#include "cppev/nio.h"
using namespace cppev;
using vh::Rng;

struct Link
{
    std::shared_ptr<nstream> lib;
    int raw = -1;
    bool can_read = false, can_write = false;   // of the library side
    bool is_sock = false;
    const char *kind;
};

static uint64_t serial = 0;

static Link make(Rng &r, int want_write)
{
    Link l;
    int t = r.below(6);
    switch (t)
    {
    case 0: case 1:
    {
        l.kind = t == 0 ? "pipe" : "fifo";
        if (t == 0)
        {
            auto p = nio_factory::get_pipes();
            CHECK(p.size() == 2, "factory", "get_pipes returned %zu ends", p.size());
            l.lib = p[want_write ? 1 : 0];
            l.raw = ::dup(p[want_write ? 0 : 1]->fd());
        }
        else
        {
            std::string path = vh::scratch + "/fifo" + std::to_string(++serial);
            auto p = nio_factory::get_fifos(path);
            l.lib = p[want_write ? 1 : 0];
            l.raw = ::dup(p[want_write ? 0 : 1]->fd());
            ::unlink(path.c_str());
        }
        if (want_write && r.chance(60)) ::fcntl(l.raw, F_SETPIPE_SZ, 4096 << r.below(3));
        l.can_write = want_write; l.can_read = !want_write;
        break;
    }
    case 2:
    {
        l.kind = "socketpair";
        int s[2]; if (::socketpair(AF_UNIX, SOCK_STREAM, 0, s)) vh::broken("socketpair");
        l.lib = std::make_shared<nstream>(s[0]); l.raw = s[1]; l.is_sock = true; l.can_read = l.can_write = true;
        break;
    }
    default:
    {
        int fam = t == 3 ? AF_INET : t == 4 ? AF_INET6 : AF_UNIX;
        l.kind = t == 3 ? "tcp4" : t == 4 ? "tcp6" : "unix";
        std::string path = vh::scratch + "/u" + std::to_string(++serial);
        net::Addr a = fam == AF_UNIX ? net::addr_unix(path) : net::addr_ip(fam, net::loop_ip(fam), 0);
        int lis = net::listener(a); net::Addr la = net::local(lis);
        auto s = nio_factory::get_nsocktcp(fam == AF_INET ? family::ipv4 : fam == AF_INET6 ? family::ipv6 : family::local);
        if (r.chance(50)) s->set_so_sndbuf(4096);
        bool ok = fam == AF_UNIX ? s->connect_unix(path) : s->connect(net::loop_ip(fam), la.port());
        if (!ok) vh::broken("connect to raw listener failed errno %d", errno);
        l.raw = net::accept_one(lis);
        if (l.raw < 0) vh::broken("no connection at raw listener");
        vh::sys_poll(s->fd(), POLLOUT, 5000);
        CHECK(s->check_connect(), "connect", "established connection reported as failed");
        vh::sys_close(lis); if (fam == AF_UNIX) ::unlink(path.c_str());
        l.lib = std::static_pointer_cast<nstream>(s); l.is_sock = true; l.can_read = l.can_write = true;
    }
    }
    if (l.raw < 0) vh::broken("raw side");
    net::nonblock(l.raw);
    return l;
}

static int some_step(Rng &r)
{
    switch (r.below(6)) { case 0: return 1; case 1: return 1 + r.below(4); case 2: return 1024; case 3: return 1 << r.below(14); default: return 1 + r.below(5000); }
}

static size_t left(int fd) { int n = 0; if (syscall(SYS_ioctl, fd, FIONREAD, &n)) vh::broken("FIONREAD"); return n; }

static void flags(const Link &l, bool eof, bool broken)
{
    if (!eof) CHECK(!l.lib->eof(), "eof-early", "%s: end of file reported although the other end is open or data is left", l.kind);
    if (!broken)
    {
        CHECK(!l.lib->eop(), "eop-early", "%s: vanished reader reported while it is there", l.kind);
        CHECK(!l.lib->is_reset(), "reset-early", "%s: reset reported on a healthy stream", l.kind);
    }
}

static inj::Rates rates(Rng &r, bool &eagain)
{
    inj::Rates x; eagain = false;
    switch (r.below(5))
    {
    case 0: break;
    case 1: x.shorten = 300; break;
    case 2: x.eintr = 300; break;
    case 3: x.shorten = 250; x.eintr = 150; break;
    default: x.shorten = 250; x.eintr = 100; x.eagain = 150; eagain = true; break;
    }
    return x;
}

// ---------------------------------------------------------------- writing
static void case_write(uint64_t k, Rng &r)
{
    Link l = make(r, 1);
    bool eagain; inj::random(r.next(), rates(r, eagain));
    std::string queued, arrived, all;   // queued: not yet taken by the kernel; all: everything ever queued
    bool big = r.chance(12);    // megabytes queued at once
    auto some_step = [&](Rng &q) { return big ? 1000 + static_cast<int>(q.below(300000)) : ::some_step(q); };
    int rounds = big ? 3 + r.below(8) : 5 + r.below(40); uint64_t sig = vh::hash(l.kind), partial = 0, blocked = 0;
    auto drain = [&](size_t max)
    {
        std::string got; net::read_some(l.raw, got, std::max<size_t>(1, max));
        size_t o = arrived.size(); arrived += got;
        CHECK(all.compare(o, got.size(), got) == 0, "write-content", "%s: bytes arriving differ from the bytes queued", l.kind);
    };
    for (int i = 0; i < rounds; ++i)
    {
        vh::tick();
        if (r.chance(60))
        {
            size_t n = big && r.chance(50) ? 1000000 + r.below(1500000) : r.chance(15) ? r.below(200000) : r.chance(20) ? 0 : r.chance(30) ? 1024 * r.below(5) : r.below(3000);
            std::string d = r.bytes(n);
            if (r.chance(50)) l.lib->wbuffer().put_string(d); else l.lib->wbuffer().produce(d.data(), d.size());
            queued += d; all += d;
        }
        bool ready = vh::sys_poll(l.lib->fd(), POLLOUT, 0) & POLLOUT;
        bool chunk = r.chance(40);
        int step = r.chance(15) && queued.size() ? static_cast<int>(queued.size()) : some_step(r);
        if (chunk && r.chance(10)) step = 0;
        size_t before = queued.size();
        int ret = chunk ? l.lib->write_chunk(step) : r.chance(40) ? l.lib->write_all() : l.lib->write_all(step);
        CHECK(ret >= 0 && static_cast<size_t>(ret) <= before, "write-count", "%s: write reported %d bytes, %zu were queued", l.kind, ret, before);
        if (chunk) CHECK(ret <= step, "write-more", "%s: write_chunk(%d) reported %d", l.kind, step, ret);
        CHECK(l.lib->wbuffer().size() == static_cast<int>(before) - ret, "write-left", "%s: %zu queued, %d reported written, %d left", l.kind, before, ret, l.lib->wbuffer().size());
        queued.erase(0, ret);
        if (queued.size()) CHECK(memcmp(l.lib->wbuffer().rawbuf(), queued.data(), queued.size()) == 0, "write-rest", "%s: unsent bytes changed", l.kind);
        if (!eagain)
        {
            size_t wanted = chunk ? std::min<size_t>(before, step) : before;
            if (static_cast<size_t>(ret) < wanted)
            {
                ++partial;
                // stopped although nothing blocked it?
                bool pipe_room = !l.is_sock && all.size() - queued.size() - arrived.size() < 1;
                CHECK(!pipe_room, "write-short", "%s: wrote %d of %zu bytes into an empty pipe", l.kind, ret, wanted);
                if (ready) CHECK(ret > 0, "write-stuck", "%s: nothing written to a writable stream", l.kind);
                int rev = vh::sys_poll(l.lib->fd(), POLLOUT, 0);
                if (l.is_sock && (rev & POLLOUT) && !inj::last_would_block(l.lib->fd())) 
                {
                    // the kernel may have made room in the meantime; only a second try without progress counts
                    int again = l.lib->write_chunk(1);
                    CHECK(again == 1, "write-stuck", "%s: stopped writing to a writable stream", l.kind);
                    queued.erase(0, 1);
                }
            }
        }
        if (queued.size()) ++blocked;
        flags(l, false, false);
        if (r.chance(60)) drain(r.chance(30) ? 1 + r.below(10) : r.below(100000));
        sig = vh::mix(sig, (chunk << 1) | (queued.size() > 0));
    }
    // finish: everything has to arrive
    for (int idle = 0; queued.size() || arrived.size() < all.size();)
    {
        int ret = l.lib->write_all(some_step(r));
        CHECK(ret >= 0 && static_cast<size_t>(ret) <= queued.size(), "write-count", "%s: write reported %d of %zu", l.kind, ret, queued.size());
        queued.erase(0, ret);
        CHECK(l.lib->wbuffer().size() == static_cast<int>(queued.size()), "write-left", "%s: wrong rest", l.kind);
        size_t a = arrived.size(); drain(1 << 20);
        if (ret == 0 && arrived.size() == a) { vh::msleep(1); CHECK(++idle < 5000, "write-lost", "%s: %zu bytes reported written, %zu arrived", l.kind, all.size() - queued.size(), arrived.size()); }
        else idle = 0;
    }
    CHECK(arrived == all, "write-content", "%s: arrived bytes differ", l.kind);
    if (big && all.size() > 1000000) vh::ev("megabytes_queued");
    // the reader vanishes
    if (r.chance(60))
    {
        inj::reset();
        if (l.is_sock && r.chance(50)) net::rst_close(l.raw); else vh::sys_close(l.raw);
        l.raw = -1;
        std::string d = r.bytes(1 + r.below(3000)); std::string q = d;
        l.lib->wbuffer().put_string(d);
        int tries = 0;
        while (!l.lib->eop() && !l.lib->is_reset())
        {
            int ret = l.lib->write_all(some_step(r));
            CHECK(ret >= 0 && ret <= static_cast<int>(q.size()), "write-count", "%s: %d bytes written", l.kind, ret);
            if (!l.is_sock) CHECK(ret == 0 && l.lib->eop(), "eop-missed", "%s: writing without reader not reported", l.kind);
            q.erase(0, ret);
            CHECK(l.lib->wbuffer().size() == static_cast<int>(q.size()) , "write-left", "%s: bytes that were not sent disappeared", l.kind);
            if (q.empty()) { std::string m = r.bytes(2000); l.lib->wbuffer().put_string(m); q = m; }
            vh::msleep(1);
            CHECK(++tries < 3000, "eop-missed", "%s: vanished peer never reported to the writer", l.kind);
        }
        CHECK(l.lib->wbuffer().size() == static_cast<int>(q.size()) && memcmp(l.lib->wbuffer().rawbuf(), q.data(), q.size()) == 0, "write-rest", "%s: unsent bytes changed when the peer vanished", l.kind);
        vh::ev("peer_vanished_write");
    }
    if (l.raw >= 0) vh::sys_close(l.raw);
    vh::ev("bytes_written", all.size()); vh::ev("partial_writes", partial); vh::ev("writes_left_queued", blocked);
    vh::distinct(sig);
    if (k < 6) vh::sample(vh::strf("%s: wrote %zu bytes in %d rounds, %lu partial", l.kind, all.size(), rounds, partial));
}

// ---------------------------------------------------------------- reading
static void case_read(uint64_t k, Rng &r)
{
    Link l = make(r, 0);
    bool eagain; inj::random(r.next(), rates(r, eagain));
    std::string sent, model;    // model: unconsumed content of the read buffer
    size_t taken = 0;           // bytes taken by the library so far
    int rounds = 5 + r.below(40); uint64_t sig = vh::hash(l.kind) + 1, partial = 0;
    auto do_read = [&](bool closed)
    {
        size_t avail = sent.size() - taken;
        bool chunk = r.chance(50);
        int step = r.chance(20) ? std::max<int>(1, avail) : some_step(r);
        if (chunk && r.chance(5)) step = 0;
        size_t before = l.lib->rbuffer().size();
        int ret = chunk ? l.lib->read_chunk(step) : r.chance(40) ? l.lib->read_all() : l.lib->read_all(step);
        CHECK(ret >= 0 && static_cast<size_t>(ret) <= avail, "read-count", "%s: read reported %d bytes, %zu were there", l.kind, ret, avail);
        if (chunk) CHECK(ret <= step, "read-more", "%s: read_chunk(%d) reported %d", l.kind, step, ret);
        CHECK(static_cast<size_t>(l.lib->rbuffer().size()) == before + ret, "read-count", "%s: read reported %d bytes, buffer grew by %d", l.kind, ret, l.lib->rbuffer().size() - (int)before);
        model += sent.substr(taken, ret); taken += ret;
        CHECK(model.empty() || memcmp(l.lib->rbuffer().rawbuf(), model.data(), model.size()) == 0, "read-content", "%s: bytes read differ from bytes sent", l.kind);
        if (!eagain)
        {
            size_t wanted = chunk ? std::min<size_t>(avail, step) : avail;
            if (static_cast<size_t>(ret) < wanted)
            {
                // tcp may deliver late; pipes and unix sockets deliver at once
                ++partial;
                CHECK(strncmp(l.kind, "tcp", 3) == 0, "read-short", "%s: read %d of %zu available bytes", l.kind, ret, wanted);
            }
        }
        // what was taken from the kernel has been delivered
        size_t rest = left(l.lib->fd()); CHECK(strncmp(l.kind, "tcp", 3) ? taken + rest == sent.size() : taken + rest <= sent.size(), "read-lost", "%s: %zu bytes delivered, %zu left in the kernel, of %zu", l.kind, taken, rest, sent.size());
        flags(l, closed && taken == sent.size(), false);
        // a call that got less than it asked for has seen the end
        if (closed && !eagain && strncmp(l.kind, "tcp", 3) && taken == sent.size() && (!chunk || ret < step))
            CHECK(l.lib->eof(), "eof-missed", "%s: %d of %d bytes read from a closed stream without rest, no end of file reported", l.kind, ret, step);
        sig = vh::mix(sig, chunk * 2 + (ret == 0));
    };
    for (int i = 0; i < rounds; ++i)
    {
        vh::tick();
        if (r.chance(60))
        {
            size_t n = r.chance(10) ? r.below(150000) : r.chance(30) ? 1024 * r.below(4) : r.below(2500);
            std::string d = r.bytes(n);
            ssize_t w = n ? vh::sys_write(l.raw, d.data(), n) : 0;
            if (w > 0) sent += d.substr(0, w);
        }
        do_read(false);
        if (r.chance(40) && model.size())
        {
            size_t n = r.chance(30) ? model.size() : r.below(model.size() + 1);
            if (r.chance(50)) { std::string g = l.lib->rbuffer().get_string(n); CHECK(g == model.substr(0, n), "read-content", "%s: wrong content", l.kind); }
            else l.lib->rbuffer().consume(n);
            model.erase(0, n);
        }
        if (r.chance(10)) l.lib->rbuffer().tiny();
    }
    // the other end closes, possibly with data left
    bool reset = l.is_sock && strncmp(l.kind, "tcp", 3) == 0 && r.chance(30);
    if (reset)
    {
        inj::reset(); vh::must("read-lost", "everything sent is delivered", [&] { do_read(false); return taken == sent.size(); }); l.lib->rbuffer().clear();
        { std::string d = r.bytes(r.below(9000)); ssize_t w = d.size() ? vh::sys_write(l.raw, d.data(), d.size()) : 0; if (w > 0) sent += d.substr(0, w); }
        if (!vh::wait_until([&] { return left(l.lib->fd()) == sent.size() - taken; }, 10)) vh::viol("read-lost", "%zu bytes delivered, %zu left in the kernel, of %zu", taken, left(l.lib->fd()), sent.size());
        net::rst_close(l.raw); l.raw = -1;
        vh::must("reset-missed", "reset of the connection reported by read", [&] {
            int before = l.lib->rbuffer().size(); int ret = l.lib->read_all(some_step(r));
            CHECK(l.lib->rbuffer().size() == before + ret, "read-count", "%s: %d reported", l.kind, ret);
            return l.lib->is_reset() || l.lib->eof(); });
        // bytes that had arrived before the reset are delivered
        { std::string g = l.lib->rbuffer().get_string(), w = sent.substr(taken); CHECK(g == w, "read-lost", "%zu of %zu bytes that had arrived before the reset are delivered", g.size(), w.size()); if (w.size()) vh::ev("resets_with_data"); }
        CHECK(l.lib->is_reset(), "reset-missed", "reset reported as end of file");
        CHECK(!l.lib->eof(), "eof-early", "end of file reported for a reset connection");
        vh::ev("resets");
    }
    else
    {
        if (l.is_sock && r.chance(40)) ::shutdown(l.raw, SHUT_WR); else { vh::sys_close(l.raw); l.raw = -1; }
        vh::must("eof-missed", "end of file reported after everything was read", [&] { do_read(true); return l.lib->eof(); });
        CHECK(taken == sent.size(), "eof-early", "%s: end of file with %zu bytes unread", l.kind, sent.size() - taken);
        CHECK(!l.lib->is_reset() && !l.lib->eop(), "reset-early", "%s: clean close reported as broken", l.kind);
        vh::ev("eofs");
    }
    if (l.raw >= 0) vh::sys_close(l.raw);
    vh::ev("bytes_read", sent.size()); vh::ev("late_reads", partial);
    vh::distinct(sig);
    if (k < 6) vh::sample(vh::strf("%s: read %zu bytes in %d rounds", l.kind, sent.size(), rounds));
}

// ---------------------------------------------------------------- injected connection errors
static void case_error(uint64_t, Rng &r)
{
    inj::reset();
    bool wr = r.chance(50);
    Link l = make(r, wr);
    static const std::vector<int> errs = {ECONNRESET, ETIMEDOUT, EHOSTUNREACH, ENETUNREACH, ENETDOWN, EHOSTDOWN, ENONET, ENOPROTOOPT, ENETRESET, ECONNABORTED, EPIPE};
    int e = r.pick(errs);
    std::string d = r.bytes(1 + r.below(6000)); int step = some_step(r);
    int skip = r.below(3);
    if (wr)
    {
        inj::random(r.next(), [] { inj::Rates x; x.shorten = 200; x.eintr = 100; return x; }());
        l.lib->wbuffer().put_string(d);
        inj::fail(inj::F_WRITE, l.lib->fd(), e, 1 << 30, skip);
        int ret = l.lib->write_all(step);
        inj::reset();
        std::string got; if (ret) vh::wait_until([&] { net::read_some(l.raw, got); return static_cast<int>(got.size()) >= ret; }, 10);
        CHECK(static_cast<int>(got.size()) == ret && d.compare(0, ret, got) == 0, "error-count", "%s: %d bytes reported written before errno %d, %zu arrived", l.kind, ret, e, got.size());
        CHECK(l.lib->wbuffer().size() == static_cast<int>(d.size()) - ret, "error-rest", "%s: unsent bytes lost on errno %d", l.kind, e);
        CHECK(l.lib->wbuffer().size() == 0 || memcmp(l.lib->wbuffer().rawbuf(), d.data() + ret, d.size() - ret) == 0, "error-rest", "%s: unsent bytes changed on errno %d", l.kind, e);
        if (ret < static_cast<int>(d.size())) CHECK(l.lib->eop() || l.lib->is_reset(), "error-missed", "%s: write errno %d not reported by the flags", l.kind, e);
        if (e == EPIPE && ret < static_cast<int>(d.size())) CHECK(l.lib->eop() && !l.lib->is_reset(), "error-flag", "%s: EPIPE reported as reset", l.kind);
    }
    else
    {
        if (e == EPIPE) e = ECONNRESET;
        ssize_t w = vh::sys_write(l.raw, d.data(), d.size()); if (w < 0) w = 0;
        vh::sys_poll(l.lib->fd(), POLLIN, 2000);
        inj::random(r.next(), [] { inj::Rates x; x.shorten = 200; x.eintr = 100; return x; }());
        inj::fail(inj::F_READ, l.lib->fd(), e, 1 << 30, skip);
        int ret = l.lib->read_all(step);
        inj::reset();
        CHECK(ret <= w && l.lib->rbuffer().size() == ret && memcmp(l.lib->rbuffer().rawbuf(), d.data(), ret) == 0, "error-count", "%s: read before errno %d reported %d", l.kind, e, ret);
        size_t rest = left(l.lib->fd()); CHECK(strncmp(l.kind, "tcp", 3) ? size_t(ret) + rest == size_t(w) : ret + rest <= size_t(w), "read-lost", "%s: errno %d, %d bytes delivered, %zu left in the kernel, of %zd", l.kind, e, ret, rest, w);
        if (inj::calls(inj::F_READ)) CHECK(!l.lib->eof(), "error-flag", "%s: errno %d reported as end of file", l.kind, e);
        if (ret < w && strncmp(l.kind, "tcp", 3)) CHECK(l.lib->is_reset(), "error-missed", "%s: read errno %d not reported by the flags", l.kind, e);
    }
    vh::sys_close(l.raw);
    vh::ev("connection_errors");
    vh::distinct(vh::mix(vh::mix(e, wr), vh::mix(skip, vh::hash(l.kind))));
}

// ---------------------------------------------------------------- files
static void case_file(uint64_t, Rng &r)
{
    bool eagain; inj::Rates x = rates(r, eagain); x.eagain = 0; inj::random(r.next(), x);
    std::string path = vh::scratch + "/f" + std::to_string(++serial);
    bool big = r.chance(25);
    size_t n = big ? 1000000 + r.below(3000000) : r.chance(20) ? 0 : r.chance(40) ? 1024 * r.below(20) : r.below(60000);
    std::string d = r.bytes(n), back;
    auto some_step = [&](Rng &q) { return big ? 1000 + static_cast<int>(q.below(200000)) : ::some_step(q); };
    {
        nstream f(::open(path.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600));
        size_t off = 0;
        while (off < d.size())
        {
            size_t p = std::min(d.size() - off, static_cast<size_t>(1 + r.below(big && r.chance(60) ? 3000000 : big ? 200000 : 9000)));
            f.wbuffer().put_string(d.substr(off, p)); off += p;
            int q = f.wbuffer().size();
            int ret = f.write_all(some_step(r));
            CHECK(ret == q && f.wbuffer().size() == 0, "file-write", "wrote %d of %d bytes to a file", ret, q);
        }
    }
    {
        int fd = ::open(path.c_str(), O_RDONLY);
        nstream f(fd); std::string b; int total = 0;
        while (!f.eof())
        {
            int ret = r.chance(50) ? f.read_chunk(some_step(r)) : f.read_all(some_step(r));
            CHECK(ret >= 0, "file-read", "%d", ret); total += ret;
            CHECK(f.eof() || ret > 0, "file-read", "no progress reading a file");
            if (r.chance(50)) b += f.rbuffer().get_string();
        }
        b += f.rbuffer().get_string();
        CHECK(b == d && total == static_cast<int>(d.size()), "file-content", "file of %zu bytes read back as %zu", d.size(), b.size());
    }
    struct stat st; ::stat(path.c_str(), &st);
    CHECK(st.st_size == static_cast<off_t>(n), "file-write", "file has %ld bytes instead of %zu", st.st_size, n);
    ::unlink(path.c_str());
    vh::ev("files"); if (big) vh::ev("megabyte_files"); vh::distinct(vh::mix(0xf11e, n));
}

// ---------------------------------------------------------------- blocking handles under real signals
static void on_usr(int) {}
static void case_blocking(uint64_t, Rng &r)
{
    inj::reset();
    bool wr = r.chance(50);
    Link l = make(r, wr);
    l.lib->set_io_block();
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_usr; sigaction(SIGUSR1, &sa, nullptr);
    size_t n = wr ? (r.chance(20) ? 1500000 : 150000) + r.below(100000) : 1 + r.below(30000);
    std::string d = r.bytes(n), got; std::atomic<bool> done{false};
    pthread_t self = pthread_self();
    uint64_t s2 = r.next();
    std::thread peer([&] {
        sigset_t all; sigfillset(&all); pthread_sigmask(SIG_BLOCK, &all, nullptr);
        Rng q(s2); size_t off = 0; size_t got_n = 0;
        while (!done || (wr && got_n < n))
        {
            pthread_kill(self, SIGUSR1);
            if (wr) { std::string g; net::read_some(l.raw, g, 1 + q.below(20000)); got += g; got_n += g.size(); }
            else if (off < n) { ssize_t w = vh::sys_write(l.raw, d.data() + off, std::min(n - off, static_cast<size_t>(1 + q.below(3000)))); if (w > 0) off += w; }
            vh::msleep(0.05); vh::tick();
        }
    });
    if (wr)
    {
        l.lib->wbuffer().put_string(d);
        int ret = l.lib->write_all(some_step(r));
        done = true; peer.join();
        CHECK(ret == static_cast<int>(n) && l.lib->wbuffer().size() == 0, "signal-write", "%s: interrupted blocking write moved %d of %zu", l.kind, ret, n);
        CHECK(got == d, "signal-write", "%s: content differs after interrupted blocking write", l.kind);
    }
    else
    {
        int ret = l.lib->read_chunk(n);
        done = true; peer.join();
        CHECK(ret == static_cast<int>(n) && l.lib->rbuffer().size() == ret, "signal-read", "%s: interrupted blocking read moved %d of %zu", l.kind, ret, n);
        CHECK(memcmp(l.lib->rbuffer().rawbuf(), d.data(), n) == 0, "signal-read", "%s: content differs after interrupted blocking read", l.kind);
    }
    vh::sys_close(l.raw);
    vh::ev("blocking_under_signals"); vh::distinct(vh::mix(wr, vh::hash(l.kind) + n));
}

void harness_init() {}
void harness_fini() {}
// A connection whose received bytes are never all consumed, after almost two gigabytes
static void huge(Rng &r)
{
    auto v = nio_factory::get_pipes(); auto &rd = v[0], &wr = v[1];
    int max = 0x7fffffff, room = 1000 + r.below(60000), left = 1 + r.below(1000);
    size_t half = (max - room) / 2; std::string s(half, 'a'); vh::tick();
    buffer &b = rd->rbuffer(); b.put_string(s); b.consume(half - left); vh::tick(); std::string t(max - room - half, 'b'); b.put_string(t); b.consume(b.size() - left); vh::tick();
    CHECK(b.size() == left, "content", "%d bytes left instead of %d", b.size(), left);
    std::string d = r.bytes(room + 1 + r.below(65000 - room)); CHECK((size_t)vh::sys_write(wr->fd(), d.data(), d.size()) == d.size(), "harness", "pipe too small");
    int got = r.chance(50) ? rd->read_all(r.range(100, 70000)) : rd->read_chunk(70000);
    CHECK(got == (int)d.size(), "read-count", "reading %zu bytes behind a rest of %d returned %d", d.size(), left, got);
    CHECK(b.size() == left + (int)d.size() && b.get_string(left) == std::string(left, 'b') && b.get_string() == d, "content", "content differs after reading behind a rest of %d bytes", left);
    vh::ev("two_gigabytes_passed"); vh::distinct(room * 1000 + left);
}

void run_case(uint64_t k, Rng &r)
{
    if (vh::mode == "huge") { vh::set_patience(200); huge(r); return; }
    int before = vh::fd_count();
    switch (k % 10)
    {
    case 0: case 1: case 2: case 3: case_write(k, r); break;
    case 4: case 5: case 6: case_read(k, r); break;
    case 7: case_error(k, r); break;
    case 8: case_file(k, r); break;
    case 9: case_blocking(k, r); break;
    }
    int after = vh::fd_count();
    CHECK(before == after, "fd-leak", "%d descriptors before, %d after", before, after);
}
