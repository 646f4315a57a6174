// C03: handles own their descriptor, buffers and state through every move and close
#include "net.h"
#include <sys/resource.h>
#include "cppev/nio.h"
#include "cppev/event_loop.h"
using namespace cppev;
using vh::Rng;

enum Kind { K_NIO, K_STREAM, K_NSOCK, K_TCP, K_UDP, K_NUM };
static const char *KN[] = {"nio", "nstream", "nsock", "nsocktcp", "nsockudp"};

struct Slot
{
    Kind k;
    std::unique_ptr<nio> own;       // or
    std::shared_ptr<nio> sh;        // as handed out by the factories
    nio *p() { return own ? own.get() : sh.get(); }
    bool open = false;
    int fd = -1;
    ino_t ino = 0;
    bool nonblock = true; int flags = 0;      // other file status flags
    std::string rb, wb;
    family fam = family::ipv4;
    std::tuple<std::string, int> peer{"", 0};
    bool has_peer = false;
    event_loop *evlp = nullptr; bool evlp_known = false;
    bool eof = false, eop = false, reset = false;
    bool moved = false;
    bool bound = false;
    int raw = -1;                   // far side, closed with the slot's life
};
struct Canary { int fd; ino_t ino; };

static std::vector<std::unique_ptr<Slot>> slots;
static std::vector<Canary> canaries;
static std::vector<int> raws;
static int base_fds;
static std::string hist;
static std::vector<std::string> paths;
static uint64_t serial;
static std::unique_ptr<event_loop> loops[2];
static int wrapped_flags = -1;

static ino_t inode(int fd) { struct stat s; if (syscall(SYS_fstat, fd, &s) != 0) return 0; return s.st_ino; }

static nsock *as_sock(Slot &s) { return s.k == K_NSOCK || s.k == K_TCP || s.k == K_UDP ? dynamic_cast<nsock *>(s.p()) : nullptr; }
static nstream *as_stream(Slot &s) { return s.k == K_STREAM || s.k == K_TCP ? dynamic_cast<nstream *>(s.p()) : nullptr; }

static void verify(const char *after)
{
    size_t expect = base_fds + canaries.size() + raws.size();
    for (auto &u : slots)
    {
        Slot &s = *u; nio *n = s.p(); const nio *cn = n;
        CHECK(n->is_closed() == !s.open, "closed-flag", "%s is_closed() %d, expected %d after %s; %s", KN[s.k], n->is_closed(), !s.open, after, hist.c_str());
        CHECK(n->rbuffer().size() == (int)s.rb.size() && (s.rb.empty() || !memcmp(n->rbuffer().rawbuf(), s.rb.data(), s.rb.size())), "rbuffer",
            "%s read buffer differs (size %d, expected %zu) after %s; %s", KN[s.k], n->rbuffer().size(), s.rb.size(), after, hist.c_str());
        CHECK(n->wbuffer().size() == (int)s.wb.size() && (s.wb.empty() || !memcmp(n->wbuffer().rawbuf(), s.wb.data(), s.wb.size())), "wbuffer",
            "%s write buffer differs (size %d, expected %zu) after %s; %s", KN[s.k], n->wbuffer().size(), s.wb.size(), after, hist.c_str());
        CHECK(&cn->rbuffer() == &n->rbuffer() && &cn->wbuffer() == &n->wbuffer(), "const-buffer", "const access names another buffer");
        if (s.open)
        {
            ++expect;
            CHECK(n->fd() == s.fd, "fd", "%s descriptor %d, expected %d after %s; %s", KN[s.k], n->fd(), s.fd, after, hist.c_str());
            ino_t i = inode(s.fd);
            CHECK(i != 0, "closed-too-early", "%s: descriptor %d was closed by %s; %s", KN[s.k], s.fd, after, hist.c_str());
            CHECK(i == s.ino, "descriptor-swapped", "%s: descriptor %d is another object after %s; %s", KN[s.k], s.fd, after, hist.c_str());
            int fl = syscall(SYS_fcntl, s.fd, F_GETFL); bool nb = fl & O_NONBLOCK;
            CHECK((fl & ~O_NONBLOCK) == s.flags, "other-flags", "%s: status flags 0x%x became 0x%x after %s; %s", KN[s.k], s.flags, fl & ~O_NONBLOCK, after, hist.c_str());
            CHECK(nb == s.nonblock, "nonblock", "%s: O_NONBLOCK is %d, expected %d after %s; %s", KN[s.k], nb, s.nonblock, after, hist.c_str());
        }
        if (!s.moved)
        {
            if (nstream *t = as_stream(s))
                CHECK(t->eof() == s.eof && t->eop() == s.eop && t->is_reset() == s.reset, "status-flags", "%s: eof/eop/reset %d%d%d, expected %d%d%d after %s; %s",
                    KN[s.k], t->eof(), t->eop(), t->is_reset(), s.eof, s.eop, s.reset, after, hist.c_str());
            if (nsock *t = as_sock(s))
                CHECK(t->sockfamily() == s.fam, "family", "%s: family %d, expected %d after %s; %s", KN[s.k], (int)t->sockfamily(), (int)s.fam, after, hist.c_str());
            if (s.k == K_TCP && s.has_peer)
            {
                auto c = static_cast<nsocktcp *>(dynamic_cast<nsocktcp *>(n))->connpeer();
                CHECK(std::get<0>(c) == std::get<0>(s.peer) && std::get<1>(c) == std::get<1>(s.peer) && std::get<2>(c) == s.fam, "connpeer",
                    "recorded peer %s:%d, expected %s:%d after %s; %s", std::get<0>(c).c_str(), std::get<1>(c), std::get<0>(s.peer).c_str(), std::get<1>(s.peer), after, hist.c_str());
                if (s.fam == family::local && s.open)
                    CHECK(std::get<0>(dynamic_cast<nsocktcp *>(n)->sockname()) == std::get<0>(s.peer) && std::get<0>(dynamic_cast<nsocktcp *>(n)->peername()) == std::get<0>(s.peer), "connpeer",
                        "path of a unix socket is %s, expected %s after %s; %s", std::get<0>(dynamic_cast<nsocktcp *>(n)->sockname()).c_str(), std::get<0>(s.peer).c_str(), after, hist.c_str());
            }
            if (s.evlp_known) CHECK(&n->evlp() == s.evlp && &cn->evlp() == s.evlp, "evlp", "%s: event loop differs after %s; %s", KN[s.k], after, hist.c_str());
        }
    }
    for (auto &c : canaries)
        CHECK(inode(c.fd) == c.ino, "unrelated-closed", "unrelated descriptor %d was closed or replaced by %s; %s", c.fd, after, hist.c_str());
    int n = vh::fd_count();
    CHECK(n == (int)expect, n > (int)expect ? "descriptor-leak" : "descriptor-missing", "%d descriptors open, expected %zu after %s; %s", n, expect, after, hist.c_str());
}

static void adopt(std::unique_ptr<Slot> s)
{
    s->open = true; s->fd = s->p()->fd(); s->ino = inode(s->fd); s->flags = wrapped_flags != -1 ? wrapped_flags : static_cast<int>(syscall(SYS_fcntl, s->fd, F_GETFL)) & ~O_NONBLOCK;
    slots.push_back(std::move(s));
}
static int raw_pair(int kind)   // returns library end, pushes the far end to raws
{
    int f[2];
    if (kind == 0) { if (vh::sys_pipe(f)) vh::broken("pipe"); if (serial++ & 1) std::swap(f[0], f[1]); }
    else if (syscall(SYS_socketpair, AF_UNIX, kind == 1 ? SOCK_STREAM : SOCK_DGRAM, 0, f)) vh::broken("socketpair");
    raws.push_back(f[1]);
    int fl = syscall(SYS_fcntl, f[0], F_GETFL);
    if (serial++ % 3 == 0) { syscall(SYS_fcntl, f[0], F_SETFL, fl | O_APPEND); fl = syscall(SYS_fcntl, f[0], F_GETFL); }
    wrapped_flags = fl & ~O_NONBLOCK;
    return f[0];
}
static void drop_raw(int fd) { for (auto &r : raws) if (r == fd) { vh::sys_close(fd); r = raws.back(); raws.pop_back(); return; } }

static void create(Rng &r)
{
    auto s = std::make_unique<Slot>(); wrapped_flags = -1;
    std::string what;
    switch (r.below(11))
    {
    case 0: { s->k = K_NIO; int f = raw_pair(0); s->raw = raws.back(); s->own = std::make_unique<nio>(f); what = "nio"; break; }
    case 1: { s->k = K_STREAM; int f = raw_pair(r.below(2)); s->raw = raws.back(); s->own = std::make_unique<nstream>(f); what = "nstream"; break; }
    case 2: { s->k = K_NSOCK; int f = raw_pair(1); s->raw = raws.back(); s->fam = (family)r.below(3);
        // the virtual base is initialised by the most derived class
        s->own = std::make_unique<nsock>(f, s->fam); what = "nsock"; break; }
    case 3: case 4: { s->k = K_TCP; s->fam = (family)r.below(3); s->sh = nio_factory::get_nsocktcp(s->fam); what = "get_nsocktcp"; break; }
    case 5: { s->k = K_UDP; s->fam = (family)r.below(3); s->sh = nio_factory::get_nsockudp(s->fam); what = "get_nsockudp"; break; }
    case 6: { s->k = K_TCP; int f = raw_pair(1); s->raw = raws.back(); s->fam = family::local; s->own = std::make_unique<nsocktcp>(f, s->fam); what = "nsocktcp"; break; }
    case 7: { s->k = K_UDP; int f = raw_pair(2); s->raw = raws.back(); s->fam = family::local; s->own = std::make_unique<nsockudp>(f, s->fam); what = "nsockudp"; break; }
    case 8: case 9:
    {
        bool fifo = r.chance(50); std::string path = vh::scratch + "/h" + std::to_string(++serial);
        auto v = fifo ? nio_factory::get_fifos(path) : nio_factory::get_pipes();
        if (fifo) ::unlink(path.c_str());
        CHECK(v.size() == 2, "factory", "%zu ends", v.size());
        for (int i = 0; i < 2; ++i)
        {
            auto t = std::make_unique<Slot>(); t->k = K_STREAM; t->sh = v[i];
            adopt(std::move(t));
        }
        hist += fifo ? " fifos" : " pipes"; verify(fifo ? "get_fifos" : "get_pipes");
        vh::ev("handles_created", 2);
        return;
    }
    default:
    {
        // accepted by a library listener
        std::string path = vh::scratch + "/a" + std::to_string(++serial);
        auto lis = nio_factory::get_nsocktcp(family::local);
        lis->bind_unix(path); lis->listen();
        int c = net::connect_to(net::addr_unix(path)); if (c < 0) vh::broken("connect");
        raws.push_back(c); s->raw = c;
        auto got = lis->accept(5);
        CHECK(got.size() == 1, "accept", "%zu accepted", got.size());
        s->peer = std::make_tuple(path, -1); s->has_peer = true; s->bound = true;
        s->k = K_TCP; s->fam = family::local; s->sh = got[0]; what = "accept";
        lis->close(); lis.reset(); ::unlink(path.c_str());
    }
    }
    vh::ev("handles_created");
    hist += " " + what;
    adopt(std::move(s));
    verify(what.c_str());
}

static void transfer(Slot &to, Slot &from)     // model of a move
{
    to.open = from.open; to.fd = from.fd; to.ino = from.ino; to.nonblock = from.nonblock; to.flags = from.flags;
    to.rb = std::move(from.rb); to.wb = std::move(from.wb); to.fam = from.fam; to.peer = from.peer; to.has_peer = from.has_peer;
    to.evlp = from.evlp; to.evlp_known = from.evlp_known; to.eof = from.eof; to.eop = from.eop; to.reset = from.reset; to.moved = from.moved;
    from.rb.clear(); from.wb.clear(); from.open = false; from.fd = -1; from.evlp_known = false; from.has_peer = false; from.moved = true;
    to.bound = from.bound; from.bound = false; from.peer = std::make_tuple(std::string(), 0);
    std::swap(to.raw, from.raw);
}
template <typename T> static std::unique_ptr<nio> mc(Slot &s) { return std::make_unique<T>(std::move(dynamic_cast<T &>(*s.p()))); }
template <typename T> static void ma(Slot &a, Slot &b) { T &x = dynamic_cast<T &>(*a.p()), &y = dynamic_cast<T &>(*b.p()); T &z = (x = std::move(y)); if (&z != &x) vh::viol("assign-result", "assignment does not return its target"); }

void harness_init() {}
void harness_fini() {}

static void limit(int extra)
{
    rlimit rl; getrlimit(RLIMIT_NOFILE, &rl);
    int top = -1;
    // the lowest `extra` free numbers stay usable
    int free_ = 0;
    for (int fd = 0; fd < 1024; ++fd)
    {
        if (!vh::fd_open(fd)) { if (free_ == extra) { top = fd; break; } ++free_; }
    }
    if (top < 0) vh::broken("no limit found");
    rl.rlim_cur = top; 
    // numbers above the limit stay open, numbers below are all taken except `extra`
    setrlimit(RLIMIT_NOFILE, &rl);
}
static void unlimit() { rlimit rl; getrlimit(RLIMIT_NOFILE, &rl); rl.rlim_cur = rl.rlim_max; setrlimit(RLIMIT_NOFILE, &rl); }

void run_case(uint64_t k, Rng &r)
{
    hist.clear();
    for (auto &l : loops) l = std::make_unique<event_loop>();
    // descriptor 0 may be one like any other
    int in = r.chance(30) ? static_cast<int>(syscall(SYS_fcntl, 0, F_DUPFD_CLOEXEC, 500)) : -1;
    if (in >= 0) { vh::sys_close(0); vh::ev("cases_with_descriptor_0"); }
    base_fds = vh::fd_count();
    uint64_t sig = 0, moves = 0; unsigned kinds = 0;
    int steps = 30 + r.below(120);
    for (int i = 0; i < steps; ++i)
    {
        if (hist.size() > 1200) hist.erase(0, 600);
        if (slots.empty() || (slots.size() < 14 && r.chance(20))) { create(r); continue; }
        size_t ix = r.below(slots.size());
        Slot &s = *slots[ix];
        int op = r.below(16);
        std::string what;
        std::string id = vh::strf("%s#%zu", KN[s.k], ix);
        // closing that reports an interruption or an error has closed
        uint64_t hits = inj::scripted_hits(); if (op >= 2 && op <= 8 && r.chance(15)) inj::fail(inj::F_CLOSE, -1, r.chance(70) ? EINTR : EIO);
        switch (op)
        {
        case 0:     // bytes
        {
            std::string d = r.bytes(r.below(60));
            if (r.chance(50)) { s.p()->rbuffer().put_string(d); s.rb += d; what = "fill-r " + id; }
            else { s.p()->wbuffer().put_string(d); s.wb += d; what = "fill-w " + id; }
            break;
        }
        case 1:
        {
            bool rd = r.chance(50); auto &m = rd ? s.rb : s.wb; auto &b = rd ? s.p()->rbuffer() : s.p()->wbuffer();
            size_t n = r.below(m.size() + 1); b.consume(n); m.erase(0, n); what = "consume " + id;
            break;
        }
        case 2: case 3:     // move construction, also of closed handles
        {
            auto n = std::make_unique<Slot>(); n->k = s.k;
            switch (s.k)
            {
            case K_NIO: n->own = mc<nio>(s); break;
            case K_STREAM: n->own = mc<nstream>(s); break;
            case K_NSOCK: n->own = mc<nsock>(s); break;
            case K_TCP: n->own = mc<nsocktcp>(s); break;
            default: n->own = mc<nsockudp>(s); break;
            }
            transfer(*n, s); what = "move-construct " + id; ++moves;
            slots.push_back(std::move(n));
            break;
        }
        case 4: case 5: case 6: // move assignment
        {
            std::vector<size_t> same;
            for (size_t j = 0; j < slots.size(); ++j) if (slots[j]->k == s.k && j != ix) same.push_back(j);
            bool self = r.chance(12) || same.empty();
            Slot &o = self ? s : *slots[r.pick(same)];
            switch (s.k)
            {
            case K_NIO: ma<nio>(s, o); break;
            case K_STREAM: ma<nstream>(s, o); break;
            case K_NSOCK: ma<nsock>(s, o); break;
            case K_TCP: ma<nsocktcp>(s, o); break;
            default: ma<nsockudp>(s, o); break;
            }
            what = vh::strf("move-assign %s<-%s%s", id.c_str(), self ? "self" : "other", o.open || self ? "" : "(empty)");
            if (!self) { if (s.open) vh::ev("overwritten_open"); transfer(s, o); }
            else vh::ev("self_assignments");
            ++moves;
            break;
        }
        case 7:     // close, again after its number was taken by something else
        {
            int num = s.fd; bool was = s.open;
            s.p()->close(); s.open = false; what = "close " + id;
            if (was)
            {
                CHECK(inode(num) == 0, "not-closed", "close() left descriptor %d open", num);
                if (r.chance(60))
                {
                    int f[2]; if (vh::sys_pipe(f)) vh::broken("pipe");
                    if (f[0] != num && f[1] != num) { int d = syscall(SYS_dup3, f[0], num, 0); if (d != num) vh::broken("dup"); vh::sys_close(f[0]); f[0] = num; }
                    canaries.push_back({f[0], inode(f[0])}); canaries.push_back({f[1], inode(f[1])});
                    s.p()->close(); what += "x2 reused"; vh::ev("closed_after_reuse");
                }
            }
            break;
        }
        case 8:     // destruction
            what = "destroy " + id;
            if (s.raw >= 0) drop_raw(s.raw);
            slots[ix] = std::move(slots.back()); slots.pop_back();
            break;
        case 9:
            s.evlp = loops[r.below(2)].get(); s.evlp_known = true; s.p()->set_evlp(*s.evlp); s.moved = s.moved && false; what = "set_evlp " + id;
            if (s.p()->is_closed()) { s.evlp_known = true; }
            break;
        case 10: case 11:
            if (!s.open) continue;
            if (r.chance(50)) { s.p()->set_io_block(); s.nonblock = false; what = "block " + id; }
            else { s.p()->set_io_nonblock(); s.nonblock = true; what = "nonblock " + id; }
            break;
        case 12:    // real end of file or vanished reader
        {
            nstream *t = as_stream(s);
            if (!t || !s.open || !s.nonblock || s.moved || (s.raw < 0 && !s.eof && !s.eop && !s.reset)) continue;
            struct stat st; fstat(s.fd, &st);
            bool sock = S_ISSOCK(st.st_mode);
            int acc = fcntl(s.fd, F_GETFL) & O_ACCMODE;
            if (s.raw < 0)
            {
                // a second flag on top of the first
                if (!sock || s.eop) continue;
                t->wbuffer().put_string("x"); s.wb += "x";
                int n = t->write_all();
                CHECK(n == 0 && t->eop(), "eop", "vanished reader not seen"); s.eop = true; what = "second flag " + id; vh::ev("several_flags");
                break;
            }
            bool lost = sock && r.chance(35);   // bytes the peer never read: a reset for the reader
            if (lost && syscall(SYS_write, s.fd, "y", 1) != 1) continue;
            drop_raw(s.raw); s.raw = -1;
            if (lost)
            {
                int n = t->read_all();
                CHECK(n == 0 && t->is_reset(), "reset", "connection reset not seen"); s.reset = true; s.eof = t->eof(); what = "reset " + id; vh::ev("resets");
            }
            else if (sock ? r.chance(50) : acc == O_RDONLY)
            {
                int n = t->read_all();
                CHECK(n == 0 && t->eof(), "eof", "end of file not seen"); s.eof = true; what = "eof " + id;
            }
            else
            {
                t->wbuffer().put_string("x"); s.wb += "x";
                int n = t->write_all();
                CHECK(n == 0 && t->eop(), "eop", "vanished reader not seen"); s.eop = true; what = "eop " + id;
            }
            vh::ev("real_status_flags");
            break;
        }
        case 14:    // a bound unix socket remembers its path
        {
            if (s.fam != family::local || !s.open || s.bound || s.moved || s.has_peer || s.eof || s.eop || s.reset || (s.k != K_UDP && (s.k != K_TCP || s.raw >= 0))) continue;
            std::string p = vh::scratch + "/b" + std::to_string(++serial);
            as_sock(s)->bind_unix(p); paths.push_back(p);
            s.peer = std::make_tuple(p, -1); s.has_peer = s.bound = true; what = "bind " + id; vh::ev("unix_bound");
            break;
        }
        case 15:    // and a datagram handle reports it, or nothing, with what it receives
        {
            if (s.k != K_UDP || s.fam != family::local || !s.open || s.moved || (s.raw < 0 && !s.bound)) continue;
            std::string d = r.bytes(1 + r.below(40));
            if (s.raw >= 0) { if (vh::sys_write(s.raw, d.data(), d.size()) != (ssize_t)d.size()) vh::broken("datagram"); }
            else
            {
                int u = syscall(SYS_socket, AF_UNIX, SOCK_DGRAM, 0); net::Addr a = net::addr_unix(std::get<0>(s.peer));
                if (syscall(SYS_sendto, u, d.data(), d.size(), 0, &a.ss, a.len) != (long)d.size()) vh::broken("datagram to a path");
                vh::sys_close(u);
            }
            auto t = dynamic_cast<nsockudp *>(s.p())->recv(); s.rb += d;
            CHECK(std::get<0>(t) == std::get<0>(s.peer) && std::get<2>(t) == family::local, "udp-path", "datagram handle reports path '%s', expected '%s'; %s", std::get<0>(t).c_str(), std::get<0>(s.peer).c_str(), hist.c_str());
            what = "recv " + id; vh::ev("unix_datagrams");
            break;
        }
        default:    // remembered peer
        {
            if (s.k != K_TCP || !s.open || s.has_peer || s.raw >= 0 || s.moved || !s.sh) continue;
            nsocktcp *t = dynamic_cast<nsocktcp *>(s.p());
            if (s.fam == family::local) { std::string p = vh::scratch + "/none" + std::to_string(r.below(9)); t->connect_unix(p); s.peer = std::make_tuple(p, -1); }
            else { int port = 1; const char *ip = s.fam == family::ipv4 ? "127.0.0.1" : "::1"; t->connect(ip, port); s.peer = std::make_tuple(std::string(ip), port); }
            s.has_peer = true; what = "connect " + id;
            break;
        }
        }
        inj::clear_fail(); if (inj::scripted_hits() != hits) { what += "(close fails)"; vh::ev("failing_closes"); }
        hist += " " + what; kinds |= 1u << op; sig = vh::mix(sig, op * 8 + (slots.empty() ? 0 : 1));
        verify(what.c_str());
        vh::ev("operations");
    }
    // a growing vector of handles moves them
    if (r.chance(40))
    {
        std::vector<nstream> v; std::vector<ino_t> inos; std::vector<std::string> data;
        int n = 2 + r.below(12);
        for (int i = 0; i < n; ++i)
        {
            int f = raw_pair(0); v.emplace_back(f); inos.push_back(inode(f)); data.push_back(r.bytes(r.below(20)));
            v.back().wbuffer().put_string(data.back());
        }
        for (int i = 0; i < n; ++i)
            CHECK(!v[i].is_closed() && inode(v[i].fd()) == inos[i] && v[i].wbuffer().get_string(-1, false) == data[i], "vector", "handle %d of a grown vector is damaged", i);
        v.erase(v.begin() + r.below(n));
        v.clear();
        verify("vector of handles"); vh::ev("vectors");
    }
    // handles going out of scope in some order
    while (slots.size()) { size_t j = r.below(slots.size()); slots[j] = std::move(slots.back()); slots.pop_back(); verify("scope end"); }
    for (int f : raws) vh::sys_close(f);
    raws.clear();
    // factories that fail leave nothing behind
    if (r.chance(60))
    {
        std::string path = vh::scratch + "/x" + std::to_string(++serial);
        for (int extra = 0; extra < 3; ++extra)
        {
            int what = r.below(4);
            int before = vh::fd_count();
            bool threw = false, got = false;
            int need = what < 2 ? 1 : 2;
            limit(extra);
            try
            {
                if (what == 0) got = bool(nio_factory::get_nsocktcp(family::ipv4));
                else if (what == 1) got = bool(nio_factory::get_nsockudp(family::ipv6));
                else if (what == 2) got = nio_factory::get_pipes().size() == 2;
                else got = nio_factory::get_fifos(path).size() == 2;
            }
            catch (const std::exception &) { threw = true; }
            unlimit();
            ::unlink(path.c_str());
            CHECK(threw != got && got == (extra >= need), "factory-result", "factory %d with %d descriptors left: %s", what, extra, threw ? "raised" : "returned");
            CHECK(vh::fd_count() == before, "descriptor-leak", "factory %d with %d descriptors left leaked %d descriptors", what, extra, vh::fd_count() - before);
            vh::ev(threw ? "factory_failures" : "factory_successes");
        }
    }
    for (auto &c : canaries) { CHECK(inode(c.fd) == c.ino, "unrelated-closed", "unrelated descriptor closed at the end"); vh::sys_close(c.fd); }
    canaries.clear();
    CHECK(vh::fd_count() == base_fds, "descriptor-leak", "%d descriptors at the end, %d at the start", vh::fd_count(), base_fds);
    for (auto &p : paths) ::unlink(p.c_str());
    paths.clear();
    if (in >= 0) { syscall(SYS_dup3, in, 0, 0); vh::sys_close(in); }
    for (auto &l : loops) l.reset();
    if (moves >= 2) vh::distinct(vh::mix(sig, kinds));
    vh::ev("moves", moves);
    if (k < 3) vh::sample(hist.substr(0, 300));
}
