// The reactor (tcp_server, tcp_client) under observation.
//   mode data   C08  byte streams in both directions, write-complete accounting
//   mode life   C09  callback life cycle
//   mode client C10  connection counts
//   mode fault  C11  hostile peers and connection-level errors
//   mode stop   C12  shutdown
#include "net.h"
#include <sys/resource.h>
#include <algorithm>
#include <deque>
#include <unordered_map>
#include "cppev/tcp.h"
#include "cppev/async_logger.h"
using namespace cppev;
using vh::Rng;
using Sp = std::shared_ptr<nsocktcp>;

static std::atomic<uint64_t> progress{0};
static void prog(uint64_t n = 1) { progress.fetch_add(n, std::memory_order_relaxed); }
// waits as long as something moves; 20 s without any progress is a stall
static void live(const char *key, const std::string &what, const std::function<bool()> &pred, const std::function<std::string()> &more = nullptr)
{
    uint64_t last = progress.load(); double still = 0, step = 0.2;
    while (!pred())
    {
        vh::msleep(step); vh::tick(); uint64_t p = progress.load();
        if (p != last) { last = p; still = 0; } else still += step;
        if (still > 20000) { if (pred()) break; vh::viol(key, "no progress for 20 s: %s%s", what.c_str(), more ? more().c_str() : ""); }
        if (step < 3) step *= 1.2;
    }
}
static int tid() { static thread_local int t = syscall(SYS_gettid); return t; }

// ---------------------------------------------------------------- content
static uint64_t word(uint64_t key, uint64_t w) { uint64_t z = key * 0x9E3779B97F4A7C15ull + w * 0xD1B54A32D192ED03ull + 1; z ^= z >> 29; z *= 0xBF58476D1CE4E5B9ull; return z ^ (z >> 32); }
static void gen(uint64_t key, uint64_t pos, size_t n, std::string &out)
{
    while (n)
    {
        uint64_t x = word(key, pos / 8); size_t o = pos % 8, m = std::min<size_t>(8 - o, n);
        out.append(reinterpret_cast<char *>(&x) + o, m); pos += m; n -= m;
    }
}
static const size_t SAME = ~size_t(0);
static size_t differs(uint64_t key, uint64_t pos, const char *p, size_t n)
{
    for (size_t i = 0; i < n;)
    {
        uint64_t x = word(key, (pos + i) / 8); size_t o = (pos + i) % 8, m = std::min<size_t>(8 - o, n - i);
        if (memcmp(reinterpret_cast<char *>(&x) + o, p + i, m)) { for (size_t j = 0;; ++j) if (reinterpret_cast<char *>(&x)[o + j] != p[i + j]) return i + j; }
        i += m;
    }
    return SAME;
}

// ---------------------------------------------------------------- connections
enum Kind { K_START, K_READ, K_WRITE, K_CLOSED };
static const char *KN[] = {"accept/connect", "read", "write-complete", "closed"};
struct Sess
{
    // the stream of headers and bodies of one connection, either role
    std::string hdr; bool open = false;
    uint64_t id = 0, up = 0, down = 0, got = 0; int echo = 0, style = 0, rcloses = 0; uint32_t piece = 0; int last = 0;
    // output under way
    uint64_t okey = 0, opos = 0, oend = 0; int ostyle = 0; uint32_t opiece = 0;
    uint64_t greet_left = 0; bool close_after = false;
};
struct CS
{
    nsocktcp *key = nullptr; std::weak_ptr<nsocktcp> who; int thread = 0; std::atomic<int> busy{0}; int depth = 0, in_aw = 0;
    std::atomic<bool> ended{false}; bool owed = false; uint64_t shown = 0, given = 0; int starts = 0;
    Sess s; Sp hold; std::string got; int reads = 0, writes = 0, tag = -1;
};
using CSp = std::shared_ptr<CS>;
struct Obj
{
    const bool server; std::atomic<bool> down{false};
    std::atomic<uint64_t> started{0}, closed{0}, dropped{0}, n_cb[4];
    struct Stripe { std::mutex mx; std::unordered_map<nsocktcp *, CSp> m; std::vector<CSp> all; } st[64];
    explicit Obj(bool s) : server(s) { for (auto &x : n_cb) x = 0; }
    virtual ~Obj() {}
    virtual void on(Kind, CSp, const Sp &) = 0;
    Stripe &stripe(nsocktcp *p) { return st[(reinterpret_cast<uintptr_t>(p) >> 5) % 64]; }
    const char *name() const { return server ? "server" : "client"; }
    void cb(Kind k, const Sp &c)
    {
        prog(); n_cb[k].fetch_add(1, std::memory_order_relaxed);
        CHECK(!down.load(), "callback-after-shutdown", "%s callback of a %s after its shutdown returned", KN[k], name());
        CHECK(c != nullptr, "null-connection", "callback without a connection");
        CHECK(reactor::external_data(c) == this, "user-data", "the user data pointer of a %s handler is not the one given", KN[k]);
        CSp s;
        {
            Stripe &t = stripe(c.get()); std::lock_guard<std::mutex> _(t.mx);
            auto it = t.m.find(c.get());
            bool same = it != t.m.end() && !it->second->who.owner_before(c) && !c.owner_before(it->second->who);
            if (same) s = it->second;
            if (k == K_START)
            {
                if (same) { CHECK(s->ended.load(), "second-start", "second accept/connect callback of a connection"); vh::viol("after-end", "accept/connect callback after the connection ended"); }
                s = std::make_shared<CS>(); s->key = c.get(); s->who = c; s->thread = tid(); t.m[c.get()] = s; t.all.push_back(s);
                started.fetch_add(1, std::memory_order_relaxed);
            }
            else CHECK(same, "before-start", "%s callback without accept/connect callback before (%s)", KN[k], name());
        }
        int me = tid(), b = s->busy.load();
        CHECK(b == 0 || b == me, "overlap", "%s callback while another callback of the connection runs on another thread", KN[k]);
        CHECK(b == 0 || (k == K_WRITE && s->in_aw > 0), "overlap", "%s callback inside another callback of the connection", KN[k]);
        CHECK(s->thread == me, "thread", "%s callback on another thread than the first callback", KN[k]);
        CHECK(!s->ended.load(), "after-end", "%s callback after the connection was closed (%s)", KN[k], name());
        s->busy = me; ++s->depth;
        if (k == K_WRITE)
        {
            CHECK(c->wbuffer().size() == 0, "write-complete-early", "write-complete callback while %d bytes are unsent", c->wbuffer().size());
            s->owed = false; ++s->writes;
        }
        if (k == K_READ) { s->shown += c->rbuffer().size(); ++s->reads; prog(c->rbuffer().size() > 0); }
        if (k == K_CLOSED) { s->ended = true; closed.fetch_add(1, std::memory_order_relaxed); inj::clear_fd(c->fd()); }
        on(k, s, c);
        if (--s->depth == 0) s->busy = 0;
    }
    void write(CS &s, const Sp &c)
    {
        s.owed = true; ++s.in_aw; reactor::async_write(c); --s.in_aw;
    }
    void put(CS &s, const Sp &c, const std::string &d) { s.given += d.size(); c->wbuffer().put_string(d); }
    // closes from a handler
    void drop(CS &s, const Sp &c, bool twice = false)
    {
        int fd = c->fd(); bool was = s.ended;
        inj::clear_fd(fd);
        reactor::safely_close(c);
        CHECK(c->is_closed(), "not-closed", "the connection is open after being closed by its handler");
        if (twice) reactor::safely_close(c);
        s.ended = true; s.hold.reset();
        if (!was) dropped.fetch_add(1, std::memory_order_relaxed);
    }
    virtual std::string show(CS &) { return ""; }
    std::string dump()
    {
        std::string r;
        for (auto &t : st) { std::lock_guard<std::mutex> _(t.mx); for (auto &x : t.all) { auto p = x->who.lock(); if (x->ended && !p) continue; if (x->ended) r += vh::strf(" ended but alive with %ld owners:", p.use_count() - 1); r += vh::strf(" [%s fd %d owed %d reads %d writes %d given %llu %s]", name(), p ? p->fd() : -1, x->owed, x->reads, x->writes, (unsigned long long)x->given, show(*x).c_str()); } }
        return r;
    }
    void release() { for (auto &t : st) { std::lock_guard<std::mutex> _(t.mx); for (auto &x : t.all) x->hold.reset(); } }     // after shutdown
    uint64_t ended_count() { return closed.load() + dropped.load(); }
    uint64_t count() { return started.load(); }
    void sum(const char *pre)
    {
        vh::ev((std::string(pre) + "connections").c_str(), started.load());
        vh::ev("cb_start", n_cb[K_START].load()); vh::ev("cb_read", n_cb[K_READ].load()); vh::ev("cb_write_complete", n_cb[K_WRITE].load()); vh::ev("cb_closed", n_cb[K_CLOSED].load());
    }
    template <typename T> void wire(T &t)
    {
        t.set_on_read_complete([this](const Sp &c) { cb(K_READ, c); });
        t.set_on_write_complete([this](const Sp &c) { cb(K_WRITE, c); });
        t.set_on_closed([this](const Sp &c) { cb(K_CLOSED, c); });
    }
};
static void start_cb(reactor::tcp_server &t, Obj &o) { t.set_on_accept([&o](const Sp &c) { o.cb(K_START, c); }); }
static void start_cb(reactor::tcp_client &t, Obj &o) { t.set_on_connect([&o](const Sp &c) { o.cb(K_START, c); }); }

// ---------------------------------------------------------------- targets
struct Target { int fam; int port = 0; std::string path; int raw = -1; net::Addr addr() const { return fam == AF_UNIX ? net::addr_unix(path) : net::addr_ip(fam, net::loop_ip(fam), port); } };
static uint64_t serial;
static family libfam(int f) { return f == AF_INET ? family::ipv4 : f == AF_INET6 ? family::ipv6 : family::local; }
static const char *famname(int f) { return f == AF_INET ? "v4" : f == AF_INET6 ? "v6" : "ux"; }
static Target new_target(int fam) { Target t; t.fam = fam; if (fam == AF_UNIX) t.path = vh::scratch + "/r" + std::to_string(++serial); else t.port = net::my_port(); return t; }
static void lib_listen(reactor::tcp_server &s, const Target &t, Rng &r, bool reuse = false)
{
    if (t.fam == AF_UNIX) s.listen_unix(t.path, reuse || r.chance(30));
    else if (r.chance(25)) s.listen(t.port, libfam(t.fam));
    else s.listen(t.port, libfam(t.fam), net::loop_ip(t.fam));
}
static void raw_listen(Target &t, int backlog = 512) { t.raw = net::listener(t.addr(), backlog); net::nonblock(t.raw); }
static void lib_add(reactor::tcp_client &c, const Target &t, int n) { if (t.fam == AF_UNIX) c.add_unix(t.path, n); else c.add(net::loop_ip(t.fam), t.port, libfam(t.fam), n); }
static void forget(std::vector<Target> &v) { for (auto &t : v) { if (t.raw >= 0) vh::sys_close(t.raw); if (t.path.size()) ::unlink(t.path.c_str()); } v.clear(); }
static const int FAMS[] = {AF_INET, AF_INET6, AF_UNIX};
static int base_threads;
static void threads_back(int base, const char *who) { vh::must("thread-leak", vh::strf("threads of the %s ending (%d now, %d before)", who, vh::thread_count(), base), [&] { return vh::thread_count() <= base; }); }
static void fds_back(int base, const char *what, const std::function<std::string()> &more = nullptr)
{
    auto scan = [&] { std::string l;
    for (int i = 0; i < 1024; ++i) if (vh::fd_open(i)) { char b[200]; ssize_t n = ::readlink(vh::strf("/proc/self/fd/%d", i).c_str(), b, sizeof b); l += vh::strf(" %d=%.*s", i, (int)std::max<ssize_t>(n, 0), b);
        int acc = 0; socklen_t al = sizeof acc; struct stat sb;
        if (syscall(SYS_fstat, i, &sb) == 0 && S_ISSOCK(sb.st_mode) && syscall(SYS_getsockopt, i, SOL_SOCKET, SO_ACCEPTCONN, &acc, &al) == 0)
        {
            net::Addr me = net::local(i), pe = net::peer(i); l += vh::strf("(%s%s", acc ? "listening " : "", famname(me.fam()));
            if (me.fam() != AF_UNIX) { l += vh::strf(" %d", me.port()); if (pe.len) l += vh::strf(" to %d", pe.port()); tcp_info ti; socklen_t tl = sizeof ti; if (syscall(SYS_getsockopt, i, IPPROTO_TCP, TCP_INFO, &ti, &tl) == 0) l += vh::strf(" state %d", ti.tcpi_state); }
            l += ")";
        }
        if (n > 0 && std::string(b, n) == "anon_inode:[eventpoll]")
        {
            FILE *f = fopen(vh::strf("/proc/self/fdinfo/%d", i).c_str(), "r"); char line[256];
            while (f && fgets(line, sizeof line, f)) { int t; unsigned e; if (sscanf(line, "tfd: %d events: %x", &t, &e) == 2) l += vh::strf("{%d:%x}", t, e); }
            if (f) fclose(f);
        }
    }
    if (more) l += more(); return l; };
    int n = 0; for (double w = 0; w < 15000; w += 5) { if ((n = vh::fd_count()) <= base) return; vh::msleep(w < 50 ? 0.5 : 5); vh::tick(); }
    std::string l = scan();
    vh::viol("descriptor-leak", "descriptors were not released: %s (%d open now, %d before):%s", what, n, base, l.c_str());
}

// ---------------------------------------------------------------- data: jobs
struct Header { uint32_t magic; uint32_t piece; uint64_t id, up, down; uint8_t echo, style, rcloses, last; uint32_t pad; };
static const uint32_t MAGIC = 0x5eed1234;
struct Job { uint64_t id; uint64_t up, down; int echo, style, rcloses, last; uint32_t piece; int istyle; uint32_t ipiece; };
static std::atomic<uint64_t> next_id{0};
static std::atomic<uint8_t> resp_owed[1 << 16];     // by job id: the responder's write completion is still due
static uint64_t pick_size(Rng &r, uint64_t cap)
{
    switch (r.below(8))
    {
    case 0: return r.below(3);
    case 1: case 2: return std::min<uint64_t>(cap, r.below(200));
    case 3: { static const int b[] = {1023, 1024, 1025, 2048, 2047, 4096, 8192, 65536, 65535, 131072}; return std::min<uint64_t>(cap, b[r.below(10)] + r.below(3)); }
    case 4: case 5: return std::min<uint64_t>(cap, r.below(20000));
    case 6: return std::min<uint64_t>(cap, r.below(300000));
    default: return r.below(cap + 1);
    }
}
static Job make_job(Rng &r, uint64_t cap, bool bulk_echo)
{
    Job j; j.id = next_id++; j.echo = r.chance(40);
    j.up = pick_size(r, j.echo && !bulk_echo ? 100 : cap); j.down = 1 + pick_size(r, cap);
    if (j.echo) { if (!j.up) j.up = 1; j.down = j.up; }
    j.style = r.below(5); j.piece = r.chance(50) ? 1 + r.below(3000) : 1 + r.below(60000);
    // deep chains of tiny writes
    if (j.style == 4) j.piece = std::max<uint64_t>(3 + r.below(40), j.down / 6000 + 1);
    if (!j.echo && r.chance(4)) { j.style = 4; j.piece = 5 + r.below(6); j.down = std::min<uint64_t>(cap, (vh::thorough ? 100000 : 20000) * (uint64_t)j.piece); }
    j.istyle = r.below(5); j.ipiece = j.istyle == 4 ? std::max<uint64_t>(3 + r.below(40), j.up / 6000 + 1) : std::max<uint64_t>(1 + r.below(30000), j.up / 2000);
    j.piece = std::max<uint64_t>(j.piece, j.down / 30000 + 1);
    j.rcloses = 0; j.last = 1;
    return j;
}
static std::string head_of(const Job &j)
{
    Header h; memset(&h, 0, sizeof h); h.magic = MAGIC; h.piece = j.piece; h.id = j.id; h.up = j.up; h.down = j.down; h.echo = j.echo; h.style = j.style; h.rcloses = j.rcloses; h.last = j.last;
    return std::string(reinterpret_cast<char *>(&h), sizeof h);
}
static uint64_t key_up(uint64_t id) { return id * 2; }
static uint64_t key_down(const Job &j) { return j.echo ? j.id * 2 : j.id * 2 + 1; }
static const uint64_t GREET = 0x6ee7ull << 40;

struct DataObj : Obj
{
    uint64_t greet = 0; bool close_when_done = false; int hold = 0; Rng rng; std::mutex jm;
    std::deque<std::vector<Job>> jobs;        // per connection of a client: its rounds
    std::map<nsocktcp *, std::pair<std::vector<Job>, size_t>> mine;
    std::atomic<uint64_t> done{0}, mism{0}, bytes{0}, hostile{0};
    std::function<void(CSp, const Sp &, Kind, const std::string &)> alien;     // hostile connections
    std::function<bool(const Sp &)> is_alien;
    explicit DataObj(bool s) : Obj(s) {}

    std::string show(CS &s) override { Sess &x = s.s; return vh::strf("job %llu open %d %s up %llu down %llu got %llu out %llu/%llu style %d greet left %llu", (unsigned long long)x.id, x.open, x.echo ? "echo" : "reply", (unsigned long long)x.up,
        (unsigned long long)x.down, (unsigned long long)x.got, (unsigned long long)x.opos, (unsigned long long)x.oend, x.ostyle, (unsigned long long)x.greet_left); }
    // hands the next part of the output to the library
    void pump(CS &s, const Sp &c)
    {
        Sess &x = s.s; unsigned writes = 0, burst = x.ostyle == 3 ? 1 + x.id % 5 : 1;   // several asynchronous writes from one callback
        while (x.opos < x.oend)
        {
            uint64_t left = x.oend - x.opos, n = x.ostyle == 0 || x.ostyle == 1 ? left : std::min<uint64_t>(left, x.opiece);
            std::string d;
            if (x.ostyle == 1) for (uint64_t o = 0; o < n;) { uint64_t m = std::min<uint64_t>(n - o, x.opiece); d.clear(); gen(x.okey, x.opos + o, m, d); put(s, c, d); o += m; }
            else { gen(x.okey, x.opos, n, d); put(s, c, d); }
            x.opos += n;
            write(s, c);
            if (x.ostyle >= 3 && ++writes >= burst) return;     // the rest follows from write-complete
        }
    }
    void output(CS &s, const Sp &c, uint64_t key, uint64_t n, int style, uint32_t piece)
    {
        Sess &x = s.s;
        if (x.opos != x.oend) vh::broken("output under way");
        x.okey = key; x.opos = 0; x.oend = n; x.ostyle = style; x.opiece = std::max(1u, piece);
        pump(s, c);
    }
    void first(CSp s, const Sp &c)
    {
        std::pair<std::vector<Job>, size_t> p; { std::lock_guard<std::mutex> _(jm); if (jobs.empty()) vh::broken("no job for a connection"); p.first = jobs.front(); p.second = 0; jobs.pop_front(); mine[c.get()] = p; }
        begin(s, c, p.first[0]);
    }
    void begin(CSp s, const Sp &c, const Job &j)
    {
        Sess &x = s->s; x.open = true; x.id = j.id; x.up = j.up; x.down = j.down; x.echo = j.echo; x.rcloses = j.rcloses; x.last = j.last; x.got = 0;
        put(*s, c, head_of(j));
        if (j.istyle == 2 || j.up == 0) write(*s, c);
        output(*s, c, key_up(j.id), j.up, j.istyle, j.ipiece);
    }
    void on(Kind k, CSp s, const Sp &c) override
    {
        Sess &x = s->s;
        if (k == K_START)
        {
            if (hold) s->hold = c;
            if (is_alien && is_alien(c)) { s->tag = 0; alien(s, c, k, ""); return; }
            if (server) { if (greet) output(*s, c, GREET, greet, greet % 5, 1 + greet / 50); }
            else { x.greet_left = greet; first(s, c); }
            return;
        }
        if (s->tag >= 0) { alien(s, c, k, ""); return; }
        if (k == K_WRITE)
        {
            if (x.opos < x.oend && x.ostyle >= 3) pump(*s, c);
            if (!s->owed && server && x.open && x.got == x.up && x.opos == x.oend) settle(s, c);
            return;
        }
        if (k == K_CLOSED) { s->hold.reset(); return; }
        std::string d;
        // the handler may take the bytes or only look at them
        if (s->reads % 3) d.assign(c->rbuffer().rawbuf(), c->rbuffer().size()); else d = c->rbuffer().get_string(-1);
        bytes.fetch_add(d.size(), std::memory_order_relaxed);
        if (d.empty()) return;
        if (server) respond(s, c, d); else receive(s, c, d);
    }
    // the responder is through with a job
    void settle(CSp s, const Sp &c)
    {
        Sess &x = s->s;
        x.open = false; x.hdr.clear();
        resp_owed[x.id % 65536].store(0);
        if (x.rcloses && x.last) drop(*s, c, x.id & 1);
    }
    void respond(CSp s, const Sp &c, const std::string &d)
    {
        Sess &x = s->s; size_t o = 0;
        if (!x.open)
        {
            o = std::min(d.size(), sizeof(Header) - x.hdr.size()); x.hdr.append(d, 0, o);
            if (x.hdr.size() < sizeof(Header)) { if (memcmp(x.hdr.data(), &MAGIC, std::min<size_t>(4, x.hdr.size()))) goto odd; return; }
            Header h; memcpy(&h, x.hdr.data(), sizeof h);
            if (h.magic != MAGIC) goto odd;
            x.open = true; x.id = h.id; x.up = h.up; x.down = h.down; x.echo = h.echo; x.style = h.style; x.rcloses = h.rcloses; x.piece = h.piece; x.got = 0; x.last = h.last;
            resp_owed[x.id % 65536].store(1);
        }
        {
            size_t n = d.size() - o;
            CHECK(n <= x.up - x.got, "extra-bytes", "%zu bytes more than the peer sent were shown (job %llu)", n - (size_t)(x.up - x.got), (unsigned long long)x.id);
            size_t bad = differs(key_up(x.id), x.got, d.data() + o, n);
            CHECK(bad == SAME, "wrong-bytes", "byte %llu of %llu shown to the server's read handler differs from what the peer sent", (unsigned long long)(x.got + bad), (unsigned long long)x.up);
            x.got += n;
            if (x.echo)
            {
                if (n)
                {
                    x.opos = 0; x.oend = 1; x.ostyle = 0;       // more to hand over
                    if (x.style == 2 && n > 1) { put(*s, c, d.substr(o, n / 2)); write(*s, c); o += n / 2; }
                    put(*s, c, d.substr(o)); x.opos = 1; write(*s, c);
                }
                else if (x.up == 0) settle(s, c);
            }
            else if (x.got == x.up) output(*s, c, x.id * 2 + 1, x.down, x.style, x.piece);
        }
        return;
    odd:
        hostile.fetch_add(1, std::memory_order_relaxed);
        CHECK((bool)alien, "wrong-bytes", "the first bytes of a request are not what the peer sent");
        s->tag = (unsigned char)x.hdr[0];
        alien(s, c, K_READ, x.hdr);
    }
    void receive(CSp s, const Sp &c, const std::string &d)
    {
        Sess &x = s->s; size_t o = 0;
        if (x.greet_left)
        {
            o = std::min<uint64_t>(d.size(), x.greet_left);
            size_t bad = differs(GREET, greet - x.greet_left, d.data(), o);
            CHECK(bad == SAME, "wrong-bytes", "byte %zu of the greeting differs", (size_t)(greet - x.greet_left) + bad);
            x.greet_left -= o;
        }
        size_t n = d.size() - o;
        if (n)
        {
            CHECK(n <= x.down - x.got, "extra-bytes", "the client was shown more than the peer sent");
            size_t bad = differs(x.echo ? x.id * 2 : x.id * 2 + 1, x.got, d.data() + o, n);
            CHECK(bad == SAME, "wrong-bytes", "byte %llu of %llu shown to the client's read handler differs from what the peer sent", (unsigned long long)(x.got + bad), (unsigned long long)x.down);
            x.got += n;
        }
        if (x.got == x.down && !x.greet_left && x.opos == x.oend)
        {
            CHECK(!s->owed, "write-complete-missing", "reply read while the write-complete callback of the request is outstanding");
            std::vector<Job> *v; size_t i; { std::lock_guard<std::mutex> _(jm); auto &p = mine[c.get()]; v = &p.first; i = ++p.second; }
            done.fetch_add(1);
            if (i < v->size()) { Job j = (*v)[i]; begin(s, c, j); }
            else if (!x.rcloses) drop(*s, c, x.id & 1);
        }
    }
};

// a raw far side, either role, non-blocking
struct RawConn
{
    int fd = -1; bool initiator; std::vector<Job> jobs; size_t round = 0; std::string hdr; bool open = false; Job j{};
    std::string out; size_t off = 0; uint64_t produced = 0, got = 0, greet_left = 0; uint32_t wchunk = 4096, rchunk = 65536; int lazy = 0; bool done = false, ending = false, failed = false; int endmode = 0;
    bool jobs_done = false;
    void begin() { j = jobs[round]; open = true; got = 0; produced = 0; out += head_of(j); }
    // one attempt at everything; true if something moved
    bool step(Rng &r, std::atomic<uint64_t> &finished)
    {
        bool moved = false;
        if (done) return false;
        if (initiator && !open && !ending) begin();
        // produce
        if (open)
        {
            uint64_t total = initiator ? j.up : (j.echo ? got : got == j.up ? j.down : 0);
            if (out.size() - off < wchunk && produced < total)
            {
                uint64_t n = std::min<uint64_t>(total - produced, wchunk);
                if (off) { out.erase(0, off); off = 0; }
                gen(initiator ? key_up(j.id) : key_down(j), produced, n, out); produced += n;
            }
        }
        if (off < out.size())
        {
            size_t n = std::min<size_t>(out.size() - off, 1 + r.below(wchunk));
            ssize_t w = syscall(SYS_sendto, fd, out.data() + off, n, MSG_NOSIGNAL | MSG_DONTWAIT, nullptr, 0);
            if (w > 0) { off += w; moved = true; prog(); }
            else if (w < 0 && errno != EAGAIN && errno != EINTR) vh::viol("connection-lost", "the connection broke while the peer was sending (errno %d, job %llu, %llu of %llu sent)", errno, (unsigned long long)j.id, (unsigned long long)produced, (unsigned long long)j.up);
            if (off == out.size()) { out.clear(); off = 0; }
        }
        if (lazy && static_cast<int>(r.below(100)) < lazy) return moved;
        static thread_local std::vector<char> b(1 << 18);
        ssize_t n = syscall(SYS_recvfrom, fd, b.data(), 1 + r.below(rchunk), MSG_DONTWAIT, nullptr, nullptr);
        if (n < 0 && (errno == EAGAIN || errno == EINTR)) { check_end(finished); return moved; }
        if (n < 0 || n == 0)
        {
            bool fine = initiator ? (jobs_done || (open && complete_in() && j.rcloses && j.last)) : (open ? responder_through() : hdr.empty());
            CHECK(fine, "connection-lost", "the peer saw the connection end (%s) with job %llu unfinished: %llu of %llu received, greeting left %llu", n ? "error" : "end of file",
                (unsigned long long)j.id, (unsigned long long)got, (unsigned long long)(initiator ? j.down : j.up), (unsigned long long)greet_left);
            finish(finished); return true;
        }
        moved = true; prog();
        size_t o = 0;
        if (initiator)
        {
            if (greet_left)
            {
                o = std::min<uint64_t>(n, greet_left); size_t bad = differs(GREET, greet_total - greet_left, b.data(), o);
                CHECK(bad == SAME, "wrong-bytes", "byte %llu of the bytes written in on_accept differs", (unsigned long long)(greet_total - greet_left + bad));
                greet_left -= o;
            }
            size_t m = n - o;
            if (m)
            {
                CHECK(open && m <= j.down - got, "extra-bytes", "the peer received more bytes than were written (job %llu)", (unsigned long long)j.id);
                size_t bad = differs(key_down(j), got, b.data() + o, m);
                CHECK(bad == SAME, "wrong-bytes", "byte %llu of %llu received by the peer differs from what was written", (unsigned long long)(got + bad), (unsigned long long)j.down);
                got += m;
            }
        }
        else
        {
            if (!open || responder_through())
            {
                if (open) { open = false; hdr.clear(); finished.fetch_add(1); }
                o = std::min<size_t>(n, sizeof(Header) - hdr.size()); hdr.append(b.data(), o);
                if (hdr.size() < sizeof(Header)) return true;
                Header h; memcpy(&h, hdr.data(), sizeof h);
                CHECK(h.magic == MAGIC, "wrong-bytes", "the peer received something else than the client's header");
                j.id = h.id; j.up = h.up; j.down = h.down; j.echo = h.echo; j.rcloses = h.rcloses; j.last = h.last; open = true; got = 0; produced = 0; hdr.clear();
            }
            size_t m = n - o;
            CHECK(m <= j.up - got, "extra-bytes", "the peer received more bytes than the client wrote (job %llu)", (unsigned long long)j.id);
            size_t bad = differs(key_up(j.id), got, b.data() + o, m);
            CHECK(bad == SAME, "wrong-bytes", "byte %llu of %llu received from the client differs", (unsigned long long)(got + bad), (unsigned long long)j.up);
            got += m;
        }
        check_end(finished);
        return true;
    }
    uint64_t greet_total = 0;
    bool complete_in() const { return got == j.down && !greet_left && produced == j.up && out.empty(); }
    bool responder_through() const { return got == j.up && produced == j.down && out.empty(); }
    void finish(std::atomic<uint64_t> &finished) { vh::sys_close(fd); fd = -1; done = true; finished.fetch_add(1); prog(); }
    void check_end(std::atomic<uint64_t> &finished)
    {
        if (done || !open) return;
        if (initiator)
        {
            if (!complete_in() || jobs_done) return;
            if (!(j.rcloses && j.last) && resp_owed[j.id % 65536].load()) return;     // write-complete still due; a stall is reported by the caller
            if (round + 1 < jobs.size()) { ++round; open = false; prog(); return; }
            jobs_done = true;
            if (j.rcloses) return;      // until the other side closes
            if (endmode == 0) { finish(finished); return; }
            if (endmode == 1) { syscall(SYS_shutdown, fd, SHUT_WR); return; }
            net::rst_close(fd); fd = -1; done = true; finished.fetch_add(1); prog();
        }
        else if (responder_through() && j.rcloses && j.last) finish(finished);
    }
    std::string where() const { return vh::strf("job %llu (%s) round %zu: %llu/%llu sent, %llu/%llu received%s%s", (unsigned long long)j.id, j.echo ? "echo" : "reply", round, (unsigned long long)produced,
        (unsigned long long)(initiator ? j.up : j.down), (unsigned long long)got, (unsigned long long)(initiator ? j.down : j.up), jobs_done ? ", jobs done" : "", open && initiator && !jobs_done && complete_in() ? ", write-complete callback outstanding" : ""); }
};
static void set_pace(RawConn &c, Rng &r)
{
    switch (r.below(4))
    {
    case 0: c.wchunk = 1 + r.below(100) + (c.initiator && c.jobs.size() ? c.jobs[0].up / 300 : 500); c.rchunk = 65536; break;
    case 1: c.wchunk = 60000; c.rchunk = 600 + r.below(2000) + (c.jobs.size() ? c.jobs[0].down / 300 : 500); c.lazy = 40; break;
    case 2: c.lazy = 80; c.wchunk = 20000; c.rchunk = 200000; break;
    default: c.wchunk = 1 + r.below(60000); c.rchunk = 5000 + r.below(200000);
    }
    if (r.chance(30)) { int sz = 2000 + r.below(30000); syscall(SYS_setsockopt, c.fd, SOL_SOCKET, SO_RCVBUF, &sz, sizeof sz); }
    if (r.chance(30)) { int sz = 2000 + r.below(30000); syscall(SYS_setsockopt, c.fd, SOL_SOCKET, SO_SNDBUF, &sz, sizeof sz); }
}
// drives raw connections until all are done; new ones come from accepting on the targets
struct Driver
{
    Rng r; std::vector<RawConn> conns; std::vector<std::function<void()>> pending; std::vector<int> listeners; std::atomic<uint64_t> finished{0}, accepted{0}; std::atomic<bool> quit{false}; std::thread th;
    std::mutex wm; std::string stuck;
    explicit Driver(uint64_t s) : r(s) {}
    void run(const std::function<bool()> &over)
    {
        while (true)
        {
            bool moved = false;
            for (int l : listeners)
            {
                int s = syscall(SYS_accept4, l, nullptr, nullptr, SOCK_CLOEXEC | SOCK_NONBLOCK);
                if (s >= 0) { RawConn c; c.fd = s; c.initiator = false; set_pace(c, r); conns.push_back(c); accepted.fetch_add(1); moved = true; prog(); }
            }
            if (pending.size() && r.chance(20)) { pending.back()(); pending.pop_back(); moved = true; }
            std::string w;
            for (auto &c : conns) { if (c.fd >= 0 && c.step(r, finished)) moved = true; if (!c.done) w += c.where() + "; "; }
            if (pending.empty() && over()) break;
            if (!moved) { std::lock_guard<std::mutex> _(wm); stuck = w; vh::msleep(0.05 + r.below(200) / 1000.0); }
            if (quit) break;
        }
        for (auto &c : conns) if (c.fd >= 0) { vh::sys_close(c.fd); c.fd = -1; }
    }
    bool all_done() { for (auto &c : conns) if (!c.done) return false; return true; }
    std::string where() { std::lock_guard<std::mutex> _(wm); return stuck.substr(0, 1500); }
};

static inj::Rates rates(Rng &r)
{
    inj::Rates a; a.eagain_sockets_only = true;
    if (r.chance(60)) { a.shorten = r.chance(50) ? 300 : 50; a.eintr = r.below(60); a.eagain = r.below(60); }
    if (r.chance(40)) { a.delay = 20; a.delay_us = 300; a.mutex_delay = 10; }
    return a;
}
static std::vector<Target> targets(Rng &r, int max) { std::vector<Target> v; int n = 1 + r.below(max); for (int i = 0; i < n; ++i) v.push_back(new_target(FAMS[r.below(3)])); return v; }

// connections held by a server's initiating peers
static void add_initiator(Driver &d, const std::vector<Target> &ts, std::vector<Job> jobs, uint64_t greet)
{
    Target t = ts[d.r.below(ts.size())];
    RawConn c; c.initiator = true; c.jobs = jobs; c.greet_left = c.greet_total = greet; c.endmode = d.r.below(3);
    // an RST may overtake nothing here: everything was read by both sides before it is sent
    c.fd = net::connect_to(t.addr()); if (c.fd < 0) vh::viol("connect-refused", "connecting to a listening server (%s) failed: errno %d", famname(t.fam), errno);
    net::nonblock(c.fd); set_pace(c, d.r);
    d.conns.push_back(c); prog();
}
static std::vector<Job> rounds(Rng &r, uint64_t cap, bool bulk)
{
    std::vector<Job> v; int n = r.chance(50) ? 1 : 1 + r.below(5); for (int i = 0; i < n; ++i) { v.push_back(make_job(r, n > 1 ? cap / 3 : cap, bulk)); v.back().last = i == n - 1; }
    if (r.chance(30)) v.back().rcloses = 1;
    return v;
}
static uint64_t bulk_cap() {
#ifdef __SANITIZE_THREAD__
    return vh::thorough ? 2000000 : 500000;
#else
    return vh::thorough ? 6000000 : 1200000;
#endif
}
static void case_data(uint64_t k, Rng &r)
{
    int fd0 = vh::fd_count(), th0 = vh::thread_count();
    int combo = r.below(3), nconn = 1 + r.below(r.chance(30) ? 40 : 10), workers = 1 + r.below(4), conts = 1 + r.below(3);
    uint64_t cap = nconn > 12 ? bulk_cap() / 8 : bulk_cap() / (r.chance(80) ? 3 : 1);
    sysconfig::event_number = r.chance(80) ? 2048 : 1 + r.below(6);
    sysconfig::buffer_io_step = r.chance(70) ? 1024 : r.chance(50) ? 100 + r.below(900) : 65536;
    std::vector<Target> ts = targets(r, 3);
    // (two library sides never both have more to write than the smallest socket buffer holds, one packet per byte)
    uint64_t greet = r.chance(40) ? pick_size(r, combo == 2 ? 100 : 400000) : 0;
    Rng jr(r.next());
    std::unique_ptr<reactor::tcp_server> sv; std::unique_ptr<reactor::tcp_client> cl; std::unique_ptr<DataObj> so, co;
    std::vector<std::unique_ptr<Driver>> ds; std::atomic<bool> halt{false};
    inj::Rates ra = rates(r); inj::random(r.next(), ra);
    if (combo != 1)
    {
        so = std::make_unique<DataObj>(true); so->greet = greet; so->hold = r.below(2);
        sv = std::make_unique<reactor::tcp_server>(workers, so.get()); so->wire(*sv); start_cb(*sv, *so);
        for (auto &t : ts) lib_listen(*sv, t, r);
        sv->run();
    }
    uint64_t njobs = 0, expect_conns = nconn;
    if (combo == 0)
    {
        int nd = 1 + r.below(3);
        for (int i = 0; i < nd; ++i) ds.push_back(std::make_unique<Driver>(r.next()));
        for (int i = 0; i < nconn; ++i)
        {
            auto js = rounds(jr, cap, true); njobs += js.size(); Driver *d = ds[i % nd].get();
            d->pending.push_back([d, &ts, js, greet] { add_initiator(*d, ts, js, greet); });
        }
        for (auto &d : ds) { Driver *p = d.get(); d->th = std::thread([p] { p->run([p] { return p->all_done(); }); p->quit = true; }); }
        for (auto &d : ds) { Driver *p = d.get(); live("stall", "transfers with a server: ", [&, p] { return p->quit.load(); }, [&, p] { return p->where() + so->dump(); }); }
    }
    else
    {
        co = std::make_unique<DataObj>(false); co->hold = r.below(2); if (combo == 2) co->greet = greet;
        cl = std::make_unique<reactor::tcp_client>(1 + (int)r.below(4), conts, co.get()); co->wire(*cl); start_cb(*cl, *co);
        for (int i = 0; i < nconn; ++i) { auto js = rounds(jr, cap, combo == 1); njobs += js.size(); co->jobs.push_back(js); }
        if (combo == 1)
        {
            for (auto &t : ts) raw_listen(t);
            auto d = std::make_unique<Driver>(r.next()); for (auto &t : ts) d->listeners.push_back(t.raw);
            ds.push_back(std::move(d));
        }
        std::vector<int> per(ts.size(), 0); for (int i = 0; i < nconn; ++i) ++per[r.below(ts.size())];
        bool early = r.chance(50);
        if (early) for (size_t i = 0; i < ts.size(); ++i) lib_add(*cl, ts[i], per[i]);
        for (auto &d : ds) { Driver *p = d.get(); d->th = std::thread([p, &halt] { p->run([&] { return halt.load(); }); }); }
        cl->run();
        if (!early) for (size_t i = 0; i < ts.size(); ++i) lib_add(*cl, ts[i], per[i]);
        auto w = [&] { return vh::strf("transfers of a client: %llu of %llu jobs done, %llu connections, raw side: ", (unsigned long long)co->done.load(), (unsigned long long)njobs, (unsigned long long)co->started.load()) + (ds.size() ? ds[0]->where() : "") + co->dump() + (so ? so->dump() : ""); };
        uint64_t last = progress.load(); double still = 0;
        while (co->done.load() < njobs)
        {
            vh::msleep(1); vh::tick(); uint64_t p = progress.load(); if (p != last) { last = p; still = 0; } else still += 1;
            if (still > 20000 && co->done.load() < njobs) vh::viol("stall", "no progress for 20 s: %s", w().c_str());
        }
        // every connection ends, on both sides
        live("close-missing", "connections of the client ending", [&] { return co->ended_count() == expect_conns; });
        if (combo == 1) live("stall", "raw side seeing the connections end", [&] { return ds[0]->accepted.load() == expect_conns && ds[0]->finished.load() >= njobs; });
        halt = true;
    }
    for (auto &d : ds) d->th.join();
    if (sv)
    {
        live("close-missing", "connections of the server ending", [&] { return so->started.load() == expect_conns && so->ended_count() == expect_conns; },
            [&] { return vh::strf(" (%llu of %llu accepted)", (unsigned long long)so->started.load(), (unsigned long long)expect_conns) + so->dump(); });
    }
    if (co) CHECK(co->started.load() == expect_conns, "connection-count", "%llu connections announced, %llu requested", (unsigned long long)co->started.load(), (unsigned long long)expect_conns);
    inj::reset();
    if (cl) { cl->shutdown(); co->down = true; cl.reset(); }
    if (sv) { sv->shutdown(); so->down = true; sv.reset(); }
    if (so) {
        for (auto &t : so->st) for (auto &x : t.all) CHECK(!x->owed || x->s.rcloses, "write-complete-missing", "no write-complete callback after an asynchronous write of a connection that was kept open");
    }
    ds.clear(); forget(ts);
    sysconfig::buffer_io_step = 1024; sysconfig::event_number = 2048;
    fds_back(fd0, "after a data case"); threads_back(th0, "reactor");
    uint64_t deep = 0, bytes = 0, wr = 0;
    for (Obj *o : {(Obj *)so.get(), (Obj *)co.get()}) if (o) { o->sum(o->server ? "server_" : "client_"); bytes += static_cast<DataObj *>(o)->bytes.load(); for (auto &t : o->st) for (auto &x : t.all) { wr = std::max<uint64_t>(wr, x->writes); deep += x->given; } }
    vh::ev("bytes_shown", bytes); vh::ev("bytes_written", deep); vh::ev("jobs", njobs); vh::ev(combo == 0 ? "cases_server" : combo == 1 ? "cases_client" : "cases_both");
    if (wr > 5000) vh::ev("long_write_chains");
    vh::distinct(vh::mix(vh::mix(combo * 100 + workers, nconn), bytes));
    if (k < 4) vh::sample(vh::strf("%s, %d connections, %d workers, %llu jobs, %llu bytes shown, greeting %llu", combo == 0 ? "raw peers/server" : combo == 1 ? "client/raw peers" : "client/server", nconn, workers,
        (unsigned long long)njobs, (unsigned long long)bytes, (unsigned long long)greet));
}

#include "reactor_more.h"

void harness_init()
{
    net::my_port();
    log::info << "warm-up" << log::endl;
    // whatever is created on first use
    { int f = new_target(AF_INET).port; reactor::tcp_server s(1); s.listen(f, family::ipv4, "127.0.0.1"); s.run(); s.shutdown(); }
    base_threads = vh::thread_count();
}
void harness_fini() {}
void run_case(uint64_t k, Rng &r)
{
    if (vh::mode == "data") { if (r.chance(12)) case_lost(k, r); else case_data(k, r); }
    else if (vh::mode == "life") case_life(k, r);
    else if (vh::mode == "client") case_client(k, r);
    else if (vh::mode == "fault") case_fault(k, r);
    else if (vh::mode == "stop") case_stop(k, r);
    else vh::broken("mode");
}
