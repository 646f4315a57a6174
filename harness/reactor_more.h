// ---------------------------------------------------------------- life cycle
struct LifePlan { size_t start_write = 0, reply_write = 0; int close_at = 0; bool twice = false, hold = false, close_on_eof = false; };
struct LifeObj : Obj
{
    LifePlan p; std::atomic<uint64_t> read_bytes{0}, closes[5];
    LifeObj(bool s, LifePlan pl) : Obj(s), p(pl) { for (auto &x : closes) x = 0; }
    void shut(CS &s, const Sp &c, int at) { closes[at].fetch_add(1, std::memory_order_relaxed); drop(s, c, p.twice); }
    void on(Kind k, CSp s, const Sp &c) override
    {
        switch (k)
        {
        case K_START:
            if (p.hold) s->hold = c;
            if (p.start_write) { put(*s, c, std::string(p.start_write, 'S')); write(*s, c); }
            if (p.close_at == 1 && !s->ended) shut(*s, c, 1);
            break;
        case K_READ:
        {
            size_t n = c->rbuffer().size(); read_bytes.fetch_add(n, std::memory_order_relaxed);
            if (p.close_at == 2 && (n || p.close_on_eof)) { shut(*s, c, 2); return; }
            if (n && p.reply_write) { put(*s, c, std::string(p.reply_write, 'R')); write(*s, c); }
            break;
        }
        case K_WRITE: if (p.close_at == 3) shut(*s, c, 3); break;
        case K_CLOSED: s->hold.reset(); if (p.close_at == 4) shut(*s, c, 4); break;
        }
    }
};
struct PeerStats { std::atomic<uint64_t> connects{0}, rst{0}, done{0}, saw_close{0}; };
// waits for the end of the stream; false if it does not come
static bool sees_end(int fd, double seconds, std::string *got = nullptr)
{
    std::string d; double waited = 0;
    while (true)
    {
        d.clear(); short ev = vh::sys_poll(fd, POLLIN, 20);
        if (!(ev & (POLLIN | POLLHUP | POLLERR))) { waited += 0.02; if (waited > seconds) return false; continue; }
        if (!net::read_some(fd, d)) return true;
        if (d.size()) waited = 0;
        prog(); if (got) *got += d; else if (d.empty()) { vh::msleep(1); waited += 0.001; if (waited > seconds) return false; }
    }
}
// what a peer does with its connection
static void peer_life(int fd, int kind, const LifePlan &p, Rng &r, PeerStats &st, const char *who)
{
    size_t n = r.chance(60) ? 1 + r.below(200) : 1 + r.below(100000);
    bool sends = kind >= 2;
    if (kind == 5 && r.chance(30)) sends = false;
    if (r.chance(20)) { int sz = p.start_write + p.reply_write > 20000 ? 60000 : 3000; syscall(SYS_setsockopt, fd, SOL_SOCKET, SO_RCVBUF, &sz, sizeof sz); }
    if (r.chance(50)) vh::msleep(r.below(2000) / 1000.0);
    if (sends)
    {
        std::string d = r.bytes(n); size_t o = 0; bool ok = true;
        while (o < n && ok)
        {
            size_t m = r.chance(60) ? n - o : 1 + r.below(n - o);
            // the other side may close or be busy writing: never block on it
            double waited = 0; size_t e = o + m;
            while (o < e && ok)
            {
                ssize_t w = syscall(SYS_sendto, fd, d.data() + o, e - o, MSG_NOSIGNAL | MSG_DONTWAIT, nullptr, 0);
                if (w > 0) { o += w; prog(); continue; }
                if (errno != EAGAIN && errno != EINTR) { ok = false; break; }
                std::string t; if (kind >= 4) net::read_some(fd, t);
                vh::sys_poll(fd, POLLOUT | (kind >= 4 ? POLLIN : 0), 10); waited += 0.01; if (waited > (kind >= 4 ? 30 : 0.05)) ok = false;
            }
            if (r.chance(20)) vh::msleep(r.below(1000) / 1000.0);
        }
        if (!ok) sends = false;
    }
    bool closes = p.close_at == 1 || (p.close_at == 2 && sends) || (p.close_at == 3 && (p.start_write || (p.reply_write && sends)));
    switch (kind)
    {
    case 0: case 2: vh::sys_close(fd); break;
    case 1: case 3: net::rst_close(fd); break;
    case 4: case 6:
        syscall(SYS_shutdown, fd, SHUT_WR);
        if (!sees_end(fd, 25)) vh::viol("close-not-seen", "%s: the peer half-closed and does not see the connection end within 25 s (plan: start %zu reply %zu close at %d)", who, p.start_write, p.reply_write, p.close_at);
        st.saw_close.fetch_add(1); vh::sys_close(fd); break;
    default:
        if (closes)
        {
            if (!sees_end(fd, 25)) vh::viol("close-not-seen", "%s: a handler closes the connection, but the peer does not see that within 25 s (plan: start %zu reply %zu close at %d)", who, p.start_write, p.reply_write, p.close_at);
            st.saw_close.fetch_add(1);
        }
        else { std::string d; for (int i = 0; i < 4; ++i) if (vh::sys_poll(fd, POLLIN, 3) & POLLIN) net::read_some(fd, d); }
        if (r.chance(30)) net::rst_close(fd); else vh::sys_close(fd);
    }
    st.done.fetch_add(1); prog();
}
static void case_life(uint64_t k, Rng &r)
{
    int fd0 = vh::fd_count(), th0 = vh::thread_count();
    bool server = r.chance(60); LifePlan p;
    p.start_write = r.chance(50) ? 0 : r.chance(60) ? 1 + r.below(3000) : 200000 + r.below(2500000);
    p.reply_write = r.chance(50) ? 0 : r.chance(60) ? 1 + r.below(3000) : 200000 + r.below(1500000);
    p.close_at = r.below(5); p.twice = r.chance(30); p.hold = r.chance(30); p.close_on_eof = r.chance(50);
    int n = 1 + r.below(r.chance(30) ? 40 : 12), workers = 1 + r.below(3), nthr = 1 + r.below(4);
    LifeObj o(server, p); PeerStats st;
    std::vector<Target> ts = targets(r, 2);
    inj::Rates ra; ra.eagain_sockets_only = true; if (r.chance(40)) { ra.delay = 20; ra.delay_us = 400; ra.mutex_delay = 10; ra.eintr = 20; ra.shorten = r.chance(30) ? 200 : 0; } inj::random(r.next(), ra);
    std::vector<std::thread> th; std::vector<int> kinds; for (int i = 0; i < n; ++i) kinds.push_back(r.below(7));
    uint64_t sd = r.next(); std::atomic<int> next{0};
    std::unique_ptr<reactor::tcp_server> sv; std::unique_ptr<reactor::tcp_client> cl;
    int running = 0; uint64_t sure = 0; for (int x : kinds) sure += server ? x != 1 : x == 4 || x == 6;   // a client may find its connection reset before it looks at it
    if (server)
    {
        sv = std::make_unique<reactor::tcp_server>(workers, static_cast<Obj *>(&o)); o.wire(*sv); start_cb(*sv, o);
        for (auto &t : ts) lib_listen(*sv, t, r);
        sv->run(); running = vh::fd_count();
        for (int i = 0; i < nthr; ++i) th.emplace_back([&, i] {
            Rng q(sd + i); int j;
            while ((j = next++) < n)
            {
                Target &t = ts[q.below(ts.size())]; int fd = net::connect_to(t.addr());
                if (fd < 0) vh::viol("connect-refused", "connecting to a listening server failed: errno %d", errno);
                st.connects.fetch_add(1); peer_life(fd, kinds[j], p, q, st, famname(t.fam));
            }
        });
    }
    else
    {
        for (auto &t : ts) raw_listen(t);
        cl = std::make_unique<reactor::tcp_client>(workers, 1 + (int)r.below(2), static_cast<Obj *>(&o)); o.wire(*cl); start_cb(*cl, o);
        cl->run(); running = vh::fd_count();
        for (int i = 0; i < n; ++i) lib_add(*cl, ts[i % ts.size()], 1);
        for (int i = 0; i < nthr; ++i) th.emplace_back([&, i] {
            Rng q(sd + i); int j;
            while ((j = next++) < n)
            {
                Target &t = ts[j % ts.size()]; int fd = net::accept_one(t.raw, 20000);
                if (fd < 0) vh::viol("connection-missing", "a requested connection did not arrive within 20 s");
                st.connects.fetch_add(1); peer_life(fd, kinds[j], p, q, st, famname(t.fam));
            }
        });
    }
    live("stall", "peers finishing", [&] { return st.done.load() == (uint64_t)n; }, [&] { return vh::strf(" %llu of %d done", (unsigned long long)st.done.load(), n) + o.dump(); });
    for (auto &t : th) t.join();
    // a client connection reset before the client looked at it is a failed connection
    live("start-missing", "accept/connect callbacks", [&] { return o.started.load() >= sure; }, [&] { return vh::strf(" %llu connections, %llu not reset at once, %llu callbacks", (unsigned long long)n, (unsigned long long)sure, (unsigned long long)o.started.load()); });
    live("closed-missing", "every connection ending by its closed callback or by its handler", [&] { return o.ended_count() == o.started.load(); }, [&] { return o.dump(); });
    fds_back(running, "all connections have ended, the reactor still runs", [&] { return vh::strf(" %llu of %d started ", (unsigned long long)o.started.load(), n) + o.dump(); });
    // connections that were not sure to be announced may have come meanwhile
    live("closed-missing", "every connection ending by its closed callback or by its handler", [&] { return o.ended_count() == o.started.load(); }, [&] { return o.dump(); });
    CHECK(o.started.load() <= (uint64_t)n, "start-count", "%llu accept/connect callbacks for %d connections", (unsigned long long)o.started.load(), n);
    inj::reset();
    if (sv) sv->shutdown(); else cl->shutdown();
    o.down = true; o.release(); sv.reset(); cl.reset();
    forget(ts); fds_back(fd0, "after a life-cycle case"); threads_back(th0, "reactor");
    o.sum(server ? "server_" : "client_"); vh::ev("handler_closes", o.dropped.load()); vh::ev("peer_saw_close", st.saw_close.load());
    static const char *CN[] = {"", "closes_in_start", "closes_in_read", "closes_in_write_complete", "closes_in_closed"};
    for (int i = 1; i < 5; ++i) vh::ev(CN[i], o.closes[i].load());
    vh::distinct(vh::mix(vh::mix(server * 8 + p.close_at, n), vh::mix(p.start_write, p.reply_write)));
    if (k < 4) vh::sample(vh::strf("%s, %d peers, %d workers, start write %zu, reply %zu, close at %d%s: %llu closed callbacks, %llu closed by handlers", o.name(), n, workers, p.start_write, p.reply_write, p.close_at,
        p.twice ? " twice" : "", (unsigned long long)o.closed.load(), (unsigned long long)o.dropped.load()));
}

// ---------------------------------------------------------------- client
struct ClientObj : Obj
{
    std::vector<Target> *ts; std::atomic<uint64_t> ann[16]; int drop_percent = 0; std::atomic<uint64_t> salt{0};
    explicit ClientObj(std::vector<Target> *t) : Obj(false), ts(t) { for (auto &x : ann) x = 0; }
    void on(Kind k, CSp s, const Sp &c) override
    {
        if (k != K_START) return;
        net::Addr a = net::peer(c->fd()); if (!a.len) vh::viol("not-connected", "the connect callback of a connection that is not connected");
        int hit = -1;
        for (size_t i = 0; i < ts->size(); ++i)
        {
            auto &t = (*ts)[i];
            if (t.raw < 0 || t.fam != a.fam()) continue;
            if (t.fam == AF_UNIX ? a.path() == t.path : a.port() == t.port && a.ip() == net::loop_ip(t.fam)) hit = i;
        }
        CHECK(hit >= 0, "wrong-target", "the connect callback of a connection to something that was not asked for");
        ann[hit].fetch_add(1);
        if ((int)(vh::mix(salt.fetch_add(1), 5) % 100) < drop_percent) drop(*s, c);
        else { put(*s, c, "hi"); write(*s, c); }
    }
};
static void case_client(uint64_t k, Rng &r)
{
    int fd0 = vh::fd_count(), th0 = vh::thread_count();
    std::vector<Target> ts = targets(r, 4); std::vector<int> refused;
    for (auto &t : ts) raw_listen(t);
    int conts = 1 + r.below(4), workers = 1 + r.below(4), nthr = 1 + r.below(4);
    ClientObj o(&ts); o.drop_percent = r.chance(30) ? 50 : 0;
    auto cl = std::make_unique<reactor::tcp_client>(workers, conts, static_cast<Obj *>(&o)); o.wire(*cl); start_cb(*cl, o);
    std::vector<std::atomic<uint64_t>> want(ts.size()), acc(ts.size()); for (auto &x : want) x = 0; for (auto &x : acc) x = 0;
    std::atomic<bool> quit{false}; std::mutex fm; std::vector<int> held;
    std::thread at([&] {
        std::vector<char> sink(4096);
        while (!quit)
        {
            bool moved = false;
            for (size_t i = 0; i < ts.size(); ++i)
            {
                int s = syscall(SYS_accept4, ts[i].raw, nullptr, nullptr, SOCK_CLOEXEC | SOCK_NONBLOCK);
                if (s >= 0) { acc[i].fetch_add(1); held.push_back(s); moved = true; prog(); }
            }
            if (!moved) vh::msleep(0.3);
        }
    });
    // ports that are taken and refuse
    for (int i = 0; i < 2; ++i)
    {
        int f = i ? AF_INET6 : AF_INET; int s = net::sock(f, SOCK_STREAM); int tries = 0;
        while (true)
        {
            net::Addr a = net::addr_ip(f, net::loop_ip(f), net::my_port());
            if (syscall(SYS_bind, s, &a.ss, a.len) == 0) break;
            if (errno != EADDRINUSE || ++tries > 400) vh::broken("raw bind %d", errno);
        }
        refused.push_back(s);
    }
    std::string plain = vh::scratch + "/plain" + std::to_string(++serial); { int f = ::open(plain.c_str(), O_CREAT | O_WRONLY, 0600); vh::sys_close(f); }
    std::atomic<uint64_t> bad{0}, adds{0}; bool inject = r.chance(30); uint64_t hits0 = inj::scripted_hits(); int tot_bad_percent = r.below(60);
    auto one = [&](Rng &q, bool count_only_good) {
        if (!count_only_good && q.chance(tot_bad_percent))
        {
            int n = 1 + q.below(4); bad.fetch_add(n); adds.fetch_add(1);
            switch (q.below(10))
            {
            case 0: cl->add("127.0.0.1", net::local(refused[0]).port(), family::ipv4, n); break;
            case 1: cl->add("::1", net::local(refused[1]).port(), family::ipv6, n); break;
            case 2: cl->add_unix(vh::scratch + "/missing", n); break;
            case 3: cl->add_unix(plain, n); break;
            case 4: cl->add("300.1.1.1", 80, family::ipv4, n); break;
            case 5: cl->add(q.chance(50) ? "" : "localhost", 80, family::ipv4, n); break;
            case 6: cl->add("127.0.0.1", 80, family::ipv6, n); break;
            case 7: cl->add("127.0.0.1", q.chance(50) ? -1 : 70000, family::ipv4, n); break;
            case 8: cl->add_unix(vh::scratch + "/" + std::string(120, 'x'), n); break;
            default: cl->add("::1", 65536, family::ipv6, n);
            }
            return;
        }
        size_t i = q.below(ts.size()); int n = q.chance(10) ? 0 : q.chance(70) ? 1 + q.below(3) : 1 + q.below(15);
        want[i].fetch_add(n); adds.fetch_add(1);
        if (n == 1 && q.chance(50)) { if (ts[i].fam == AF_UNIX) cl->add_unix(ts[i].path); else cl->add(net::loop_ip(ts[i].fam), ts[i].port, libfam(ts[i].fam)); }
        else lib_add(*cl, ts[i], n);
    };
    inj::Rates ra; ra.eagain_sockets_only = true; if (r.chance(50)) { ra.delay = 30; ra.delay_us = 500; ra.mutex_delay = 20; ra.eintr = 30; } inj::random(r.next(), ra);
    int before = r.chance(60) ? r.below(6) : 0; for (int i = 0; i < before; ++i) one(r, false);
    if (inject)
    {
        static const int ce[] = {ECONNREFUSED, ETIMEDOUT, ENETUNREACH, EADDRNOTAVAIL, EHOSTUNREACH, EAGAIN, ECONNRESET, EACCES, EPERM, ENETDOWN}, se[] = {EMFILE, ENFILE, ENOBUFS, ENOMEM};
        for (int i = 0; i < 3; ++i) if (r.chance(70)) inj::fail(inj::F_CONNECT, -1, ce[r.below(10)], 1 + r.below(2), r.below(12)); else inj::fail(inj::F_SOCKET, -1, se[r.below(4)], 1, r.below(6));
    }
    if (r.chance(30)) vh::msleep(1);
    uint64_t sd = r.next(); int per = r.below(8); bool parallel = r.chance(50);
    std::vector<std::thread> th;
    auto start = [&] { for (int i = 0; i < nthr; ++i) th.emplace_back([&, i] { Rng q(sd + i); for (int j = 0; j < per; ++j) { one(q, false); if (q.chance(30)) vh::msleep(q.below(1500) / 1000.0); } }); };
    if (parallel) start();
    cl->run();
    if (!parallel) start();
    for (auto &t : th) t.join();
    auto total = [&](std::vector<std::atomic<uint64_t>> &v) { uint64_t n = 0; for (auto &x : v) n += x; return n; };
    auto report = [&] { std::string s = vh::strf(" (%d connectors, %d workers, %llu failures injected)", conts, workers, (unsigned long long)(inj::scripted_hits() - hits0));
        for (size_t i = 0; i < ts.size(); ++i) s += vh::strf(" [%s wanted %llu established %llu announced %llu]", famname(ts[i].fam), (unsigned long long)want[i].load(), (unsigned long long)acc[i].load(), (unsigned long long)o.ann[i].load()); return s; };
    // a request that failed by injection may be missing, nothing else
    auto settled = [&] { uint64_t h = inj::scripted_hits() - hits0; if (total(acc) != o.started.load() || total(acc) + h < total(want)) return false; for (size_t i = 0; i < ts.size(); ++i) if (acc[i].load() != o.ann[i].load()) return false; return true; };
    live("connections-missing", "requested connections being established and announced", settled, report);
    inj::clear_fail();
    // a request made later
    for (int j = 0; j < 1 + (int)r.below(3); ++j) one(r, true);
    live("connections-missing", "connections requested later being established and announced", settled, report);
    vh::msleep(r.chance(20) ? 20 : 2);
    // the failures counted may be those of bad requests, then good ones are still on their way
    live("connections-missing", "established connections being announced", settled, report);
    for (size_t i = 0; i < ts.size(); ++i)
        CHECK(acc[i].load() <= want[i].load(), "too-many-connections", "more connections than requested%s", report().c_str());
    CHECK(total(acc) + (inj::scripted_hits() - hits0) >= total(want), "connections-missing", "connections missing%s", report().c_str());
    uint64_t hits = inj::scripted_hits() - hits0;
    inj::reset();
    cl->shutdown(); o.down = true; cl.reset();
    quit = true; at.join();
    for (size_t i = 0; i < ts.size(); ++i) CHECK(acc[i].load() <= want[i].load(), "too-many-connections", "more connections than requested%s", report().c_str());
    for (int s : held) vh::sys_close(s);
    for (int s : refused) vh::sys_close(s);
    ::unlink(plain.c_str());
    vh::ev("requested", total(want)); vh::ev("established", total(acc)); vh::ev("announced", o.started.load()); vh::ev("bad_requests", bad.load()); vh::ev("adds", adds.load()); vh::ev("connect_failures_injected", hits);
    vh::distinct(vh::mix(vh::mix(conts * 8 + workers, total(want)), vh::mix(bad.load(), nthr * 16 + per)));
    if (k < 4) vh::sample(vh::strf("%zu targets, %d connectors, %d workers, %d adding threads:", ts.size(), conts, workers, nthr) + report() + vh::strf(", %llu to bad targets", (unsigned long long)bad.load()));
    forget(ts); fds_back(fd0, "after a client case"); threads_back(th0, "client");
}

// ---------------------------------------------------------------- output that cannot be sent
// Write-complete must not come for output that was never accepted: the connection fails under it, or the peer never reads.
struct LostObj : Obj
{
    size_t big; std::atomic<uint64_t> lost{0}, failed{0}, sent{0};
    int at_start; std::atomic<uint64_t> accepted{0};
    LostObj(size_t b, int st) : Obj(true), big(b), at_start(st) {}
    // a write whose first attempt finds the connection broken (and it stays broken)
    void refused(CS &s, const Sp &c, unsigned v)
    {
        static const int we[] = {EPIPE, ECONNRESET, ETIMEDOUT, EHOSTUNREACH, ENETUNREACH, ENETDOWN};
        inj::fail(inj::F_WRITE, c->fd(), we[v % 6], 1000000); put(s, c, std::string(1 + v * 40, 'x'));
        s.tag = 3; s.owed = true; int before = s.writes; reactor::async_write(c);
        if (s.ended || inj::armed(inj::F_WRITE, c->fd()) >= 1000000) { s.tag = -1; return; }     // nothing was attempted through this path
        CHECK(s.writes == before, "write-complete-unsent", "write-complete callback although the first attempt to send broke the connection");
        s.tag = 1; failed.fetch_add(1, std::memory_order_relaxed);
    }
    void on(Kind k, CSp s, const Sp &c) override
    {
        if (k == K_WRITE)
        {
            CHECK(s->tag != 1, "write-complete-unsent", "write-complete callback although the connection broke before the %llu bytes handed over were sent", (unsigned long long)s->given);
            CHECK(s->tag != 2, "write-complete-unsent", "write-complete callback although the peer never read and %llu bytes were handed over", (unsigned long long)s->given);
            sent.fetch_add(1, std::memory_order_relaxed);
            if (s->tag == -1 && s->reads >= 1000) { unsigned v = s->reads - 1000; s->reads = 0; refused(*s, c, v); }
            return;
        }
        if (k == K_START && at_start && (accepted.fetch_add(1, std::memory_order_relaxed) + at_start) % 4 == 0) { refused(*s, c, at_start); return; }
        if (k != K_READ || !c->rbuffer().size() || s->tag != -1) return;
        std::string d(c->rbuffer().rawbuf(), c->rbuffer().size());
        for (size_t i = 0; i + 1 < d.size(); i += 2)
        {
            unsigned v = (unsigned char)d[i + 1];
            switch (d[i])
            {
            case 'n': put(*s, c, std::string(1 + v, 'n')); write(*s, c); break;
            case 'b':
                s->tag = 2; lost.fetch_add(1, std::memory_order_relaxed); put(*s, c, std::string(big, 'b')); write(*s, c);
                if (v & 1) { put(*s, c, std::string(v, 'c')); write(*s, c); }
                return;
            case 'm': s->reads = 1000 + v; put(*s, c, "m"); write(*s, c); return;        // the next write is issued by write-complete and fails
            default: refused(*s, c, v); return;
            }
        }
    }
};
static void case_lost(uint64_t k, Rng &r)
{
    int fd0 = vh::fd_count(), th0 = vh::thread_count();
    LostObj o(10000000, r.chance(60) ? 1 + r.below(200) : 0); std::vector<Target> ts = targets(r, 2);
    inj::Rates ra; ra.eagain_sockets_only = true; if (r.chance(40)) { ra.delay = 20; ra.delay_us = 300; ra.eintr = 20; } inj::random(r.next(), ra);
    auto sv = std::make_unique<reactor::tcp_server>(1 + (int)r.below(2), static_cast<Obj *>(&o)); o.wire(*sv); start_cb(*sv, o);
    for (auto &t : ts) lib_listen(*sv, t, r);
    sv->run(); int running = vh::fd_count(), n = 3 + r.below(12), bigs = 0; uint64_t want = 0;
    std::vector<int> fds;
    for (int i = 0; i < n; ++i)
    {
        Target &t = ts[r.below(ts.size())]; int fd = net::sock(t.fam, SOCK_STREAM), sz = 20000; net::Addr a = t.addr();
        syscall(SYS_setsockopt, fd, SOL_SOCKET, SO_RCVBUF, &sz, sizeof sz);
        if (syscall(SYS_connect, fd, &a.ss, a.len)) vh::viol("connect-refused", "connecting to a listening server failed: errno %d", errno);
        ++want; fds.push_back(fd); std::string d; for (int j = r.below(3); j > 0; --j) { d += 'n'; d += (char)r.below(256); }
        bool b = bigs < 2 && r.chance(30); bigs += b; d += b ? 'b' : r.chance(50) ? 'm' : 'x'; d += (char)r.below(256);
        if (syscall(SYS_sendto, fd, d.data(), d.size(), MSG_NOSIGNAL, nullptr, 0) != (ssize_t)d.size() && !o.at_start) vh::viol("connect-refused", "sending a few bytes to a server failed: errno %d", errno);
        if (r.chance(30)) vh::msleep(r.below(1000) / 1000.0);
    }
    live("connections-missing", "connections being accepted and read", [&] { return o.started.load() == want && (o.at_start || o.lost.load() == (uint64_t)bigs); }, [&] { return o.dump(); });
    vh::msleep(r.below(8));
    for (int fd : fds) if (r.chance(60)) net::rst_close(fd); else vh::sys_close(fd);
    live("closed-missing", "connections with output that cannot be sent ending", [&] { return o.ended_count() == o.started.load(); }, [&] { return o.dump(); });
    inj::reset(); fds_back(running, "connections with output that cannot be sent");
    sv->shutdown(); o.down = true; o.release(); sv.reset(); forget(ts); fds_back(fd0, "after a case of lost output"); threads_back(th0, "server");
    vh::ev("never_read_outputs", o.lost.load()); vh::ev("failed_outputs", o.failed.load()); vh::ev("cb_write_complete", o.n_cb[K_WRITE].load());
    vh::distinct(vh::mix(vh::mix(n, bigs), o.sent.load()));
    if (k < 4) vh::sample(vh::strf("%d connections, %d with unread and %llu with refused output", n, bigs, (unsigned long long)o.failed.load()));
}

// ---------------------------------------------------------------- faults
struct Alien { std::atomic<uint64_t> injected_read{0}, injected_write{0}; };
static void alien_cb(DataObj &o, CSp s, const Sp &c, Kind k, const std::string &d, Alien &a)
{
    static const int re[] = {ETIMEDOUT, ECONNRESET, EHOSTUNREACH, ENETUNREACH, ECONNABORTED, ENETDOWN, EHOSTDOWN, ENONET, ENOPROTOOPT, ENETRESET}, we[] = {EPIPE, ECONNRESET, ETIMEDOUT, EHOSTUNREACH, ENETUNREACH, ENETDOWN, EHOSTDOWN, ENONET, ENOPROTOOPT, ENETRESET};
    if (k == K_CLOSED) { s->hold.reset(); return; }
    if (k != K_READ || d.empty()) return;
    unsigned v = d.size() > 1 ? (unsigned char)d[1] : 0;
    switch (d[0])
    {
    case 'w': o.put(*s, c, std::string(1000000 + v * 10000, 'W')); o.write(*s, c); break;
    case 'c': o.drop(*s, c, v & 1); break;
    case 'e': inj::fail(inj::F_READ, c->fd(), re[v % 10]); a.injected_read.fetch_add(1); break;
    case 'x': inj::fail(inj::F_WRITE, c->fd(), we[v % 10], 1, v % 3); a.injected_write.fetch_add(1); o.put(*s, c, std::string(5000, 'X')); o.write(*s, c); break;
    }
}
static bool push(int fd, const std::string &d, double seconds)
{
    size_t o = 0; double waited = 0;
    while (o < d.size())
    {
        ssize_t w = syscall(SYS_sendto, fd, d.data() + o, d.size() - o, MSG_NOSIGNAL | MSG_DONTWAIT, nullptr, 0);
        if (w > 0) { o += w; continue; }
        if (errno != EAGAIN && errno != EINTR) return false;
        vh::sys_poll(fd, POLLOUT, 5); waited += 0.005; if (waited > seconds) return false;
    }
    return true;
}
static void end_any(int fd, Rng &q) { if (q.chance(50)) net::rst_close(fd); else vh::sys_close(fd); }
// one hostile connection; never feeds the progress counter
static void hostile(int fd, Rng &q, std::vector<int> &parked, const std::atomic<bool> &stop, std::atomic<uint64_t> *kinds)
{
    int h = q.below(12); kinds[h].fetch_add(1, std::memory_order_relaxed);
    Job j = make_job(q, 60000, true); std::string d;
    switch (h)
    {
    case 0: vh::sys_close(fd); return;
    case 1: net::rst_close(fd); return;
    case 2: push(fd, head_of(j).substr(0, 1 + q.below(31)), 0.1); end_any(fd, q); return;
    case 3: j.up += 10; d = head_of(j); gen(key_up(j.id), 0, q.below(j.up), d); push(fd, d, 0.1); if (q.chance(50)) vh::msleep(1); end_any(fd, q); return;
    case 4: j.echo = 0; j.up = q.below(1000); j.down = 300000 + q.below(2000000); d = head_of(j); gen(key_up(j.id), 0, j.up, d); push(fd, d, 0.1);
        if (q.chance(50)) { vh::msleep(q.below(5)); end_any(fd, q); } else parked.push_back(fd); return;
    case 5: push(fd, "g" + q.bytes(q.below(30000)), 0.1); if (q.chance(30)) parked.push_back(fd); else end_any(fd, q); return;
    case 6:     // flood, as fast as it goes
    {
        std::string blk = "g" + q.bytes(200000); double until = vh::now() + 0.05 + q.below(250) / 1000.0;
        while (!stop && vh::now() < until) if (!push(fd, blk, 0.05)) break;
        end_any(fd, q); return;
    }
    case 7: push(fd, "w" + std::string(1, (char)q.below(200)), 0.1); if (q.chance(60)) parked.push_back(fd); else { vh::msleep(q.below(3)); end_any(fd, q); } return;
    case 8: push(fd, "e" + std::string(1, (char)q.below(200)), 0.1); vh::msleep(q.below(3)); push(fd, q.bytes(10), 0.05); vh::msleep(q.below(2)); end_any(fd, q); return;
    case 9: push(fd, "x" + std::string(1, (char)q.below(200)), 0.1); vh::msleep(q.below(4)); end_any(fd, q); return;
    case 10: j.echo = 0; j.down = 1 + q.below(800000); d = head_of(j); gen(key_up(j.id), 0, j.up, d); push(fd, d, 0.2); syscall(SYS_shutdown, fd, SHUT_WR);
        if (q.chance(50)) sees_end(fd, 1); end_any(fd, q); return;
    default: push(fd, "c" + std::string(1, (char)q.below(200)), 0.1); if (q.chance(50)) sees_end(fd, 1); vh::sys_close(fd); return;
    }
}
// runs raw initiators with one job list each until all are through
static void run_jobs(DataObj &so, const std::vector<Target> &ts, Rng &r, Rng &jr, int n, uint64_t cap, const char *what)
{
    Driver d(r.next()); std::atomic<bool> over{false};
    for (int i = 0; i < n; ++i) { auto js = rounds(jr, cap, true); d.pending.push_back([&d, &ts, js] { add_initiator(d, ts, js, 0); }); }
    d.th = std::thread([&] { d.run([&] { return d.all_done(); }); over = true; });
    live("starved", vh::strf("%s: ", what), [&] { return over.load(); }, [&] { return d.where() + so.dump(); });
    d.th.join();
}
static void case_fault_server(uint64_t k, Rng &r)
{
    int fd0 = vh::fd_count(), th0 = vh::thread_count();
    int workers = r.chance(50) ? 1 : 1 + r.below(3); uint64_t cap = 60000;
    std::vector<Target> ts = targets(r, 2); Alien al; std::atomic<uint64_t> kinds[12]; for (auto &x : kinds) x = 0;
    auto so = std::make_unique<DataObj>(true); so->hold = r.below(2);
    DataObj *sp = so.get(); so->alien = [&al, sp](CSp s, const Sp &c, Kind kd, const std::string &d) { alien_cb(*sp, s, c, kd, d, al); };
    auto sv = std::make_unique<reactor::tcp_server>(workers, static_cast<Obj *>(so.get())); so->wire(*sv); start_cb(*sv, *so);
    for (auto &t : ts) lib_listen(*sv, t, r);
    if (r.chance(30))       // an address that is taken
    {
        Target t = new_target(FAMS[r.below(3)]); raw_listen(t); bool threw = false;
        try { if (t.fam == AF_UNIX) sv->listen_unix(t.path); else sv->listen(t.port, libfam(t.fam), net::loop_ip(t.fam)); } catch (const std::exception &) { threw = true; }
        CHECK(threw, "listen-taken", "listening on an address in use was not reported");
        vh::ev("failed_listens"); std::vector<Target> v{t}; forget(v);
    }
    sv->run(); int running = vh::fd_count();
    inj::Rates ra = rates(r); inj::random(r.next(), ra);
    std::atomic<bool> stop{false}; std::vector<std::thread> th; uint64_t sd = r.next(); int nh = 1 + r.below(3), per = 3 + r.below(14);
    std::vector<std::vector<int>> parked(nh);
    for (int i = 0; i < nh; ++i) th.emplace_back([&, i] {
        Rng q(sd + i);
        for (int j = 0; j < per && !stop; ++j)
        {
            int fd = net::connect_to(ts[q.below(ts.size())].addr()); if (fd < 0) vh::viol("connect-refused", "connecting to a listening server failed: errno %d", errno);
            hostile(fd, q, parked[i], stop, kinds);
        }
    });
    static const int ae[] = {ECONNABORTED, EMFILE, ENFILE, ENOBUFS, ENOMEM, EPROTO, EPERM, EINTR, ENETDOWN, EHOSTUNREACH, ETIMEDOUT, EHOSTDOWN, ENONET, ENOPROTOOPT, EOPNOTSUPP};
    int na = r.below(4); for (int i = 0; i < na; ++i) inj::fail(inj::F_ACCEPT, -1, ae[r.below(15)], 1 + r.below(4), r.below(10));
    Rng jr(r.next()); int good = 2 + r.below(8);
    run_jobs(*so, ts, r, jr, good, cap, "good connections beside hostile ones");
    live("hostile-stall", "hostile peers finishing", [&] { static double w = 0; (void)w; uint64_t n = 0; for (auto &x : kinds) n += x; prog(n == (uint64_t)nh * per ? 0 : 1); return n == (uint64_t)nh * per; });
    for (auto &t : th) t.join();
    // those that never read are still there
    run_jobs(*so, ts, r, jr, 2, cap, "new connections while peers that never read are open");
    for (auto &v : parked) for (int fd : v) end_any(fd, r);
    live("closed-missing", "connections of vanished peers ending", [&] { return so->ended_count() == so->started.load(); }, [&] { return so->dump(); });
    inj::reset(); inj::clear_fail();
    fds_back(running, "connections of vanished peers");
    // real exhaustion of descriptors
    uint64_t exhausted = 0;
    if (r.chance(50))
    {
        Driver d(r.next()); std::vector<size_t> which; int m = 2 + r.below(8); std::atomic<bool> over{false};
        for (int i = 0; i < m; ++i) { RawConn c; c.initiator = true; c.jobs = rounds(jr, 20000, true); for (auto &j : c.jobs) j.rcloses = 0; which.push_back(r.below(ts.size())); c.fd = net::sock(ts[which.back()].fam, SOCK_STREAM); c.endmode = r.below(3); c.greet_total = ts.size(); d.conns.push_back(c); }
        rlimit old, nw; getrlimit(RLIMIT_NOFILE, &old); nw = old; int room = r.below(4), fr = 0, l = 0;
        while (fr < room || l < 3) { if (!vh::fd_open(l)) ++fr; ++l; }
        while (vh::fd_open(l)) ++l;
        nw.rlim_cur = l; setrlimit(RLIMIT_NOFILE, &nw);
        size_t ci = 0; for (auto &c : d.conns) { c.greet_total = 0; net::Addr a = ts[which[ci++]].addr(); if (syscall(SYS_connect, c.fd, &a.ss, a.len)) vh::viol("connect-refused", "connecting to a listening server failed: errno %d", errno); net::nonblock(c.fd); set_pace(c, d.r); }
        uint64_t acc0 = inj::calls(inj::F_ACCEPT);
        d.th = std::thread([&] { d.run([&] { return d.all_done(); }); over = true; });
        if (room == 0) { vh::msleep(15); setrlimit(RLIMIT_NOFILE, &old); }
        live("starved", "connections waiting for descriptors", [&] { return over.load(); }, [&] { return vh::strf("(room for %d) ", room) + d.where() + so->dump(); });
        d.th.join(); setrlimit(RLIMIT_NOFILE, &old);
        exhausted = inj::calls(inj::F_ACCEPT) - acc0; vh::ev("exhaustion_rounds");
    }
    // no watches left for new connections
    uint64_t unwatched = 0;
    if (r.chance(30))
    {
        uint64_t h0 = inj::scripted_hits(); int m = 1 + r.below(4); inj::fail(inj::F_EPOLL_NEW, -1, r.chance(70) ? ENOSPC : ENOMEM, m);
        std::vector<int> v; for (int i = 0; i < m + 2; ++i) { int fd = net::connect_to(ts[r.below(ts.size())].addr()); if (fd < 0) vh::viol("connect-refused", "connecting to a listening server failed: errno %d", errno); v.push_back(fd); if (r.chance(50)) push(fd, "g" + r.bytes(50), 0.05); }
        for (int i = 0; i < 600 && inj::scripted_hits() - h0 < (uint64_t)m; ++i) vh::msleep(0.5);
        unwatched = inj::scripted_hits() - h0; inj::clear_fail(); for (int fd : v) end_any(fd, r);
    }
    vh::ev("watches_refused", unwatched);
    run_jobs(*so, ts, r, jr, 1 + r.below(3), cap, "new connections afterwards");
    live("closed-missing", "every connection ending", [&] { return so->ended_count() == so->started.load(); }, [&] { return so->dump(); });
    fds_back(running, "all connections ended");
    sv->shutdown(); so->down = true; so->release(); sv.reset();
    forget(ts); fds_back(fd0, "after a fault case"); threads_back(th0, "server");
    so->sum("server_"); static const char *HN[] = {"hostile_close", "hostile_reset", "hostile_partial_header", "hostile_vanish_mid", "hostile_never_read_reply", "hostile_garbage", "hostile_flood", "hostile_never_read", "error_on_read", "error_on_write", "hostile_half_close", "closed_by_handler"};
    for (int i = 0; i < 12; ++i) vh::ev(HN[i], kinds[i].load());
    vh::ev("error_injections", al.injected_read.load() + al.injected_write.load());
    vh::distinct(vh::mix(vh::mix(workers, so->started.load()), vh::mix(so->bytes.load(), exhausted)));
    if (k < 4) vh::sample(vh::strf("server with %d workers: %d good, %d hostile connections, %d accept errors, %llu injected connection errors", workers, good, nh * per, na, (unsigned long long)(al.injected_read + al.injected_write)));
}
static void case_fault_client(uint64_t k, Rng &r)
{
    int fd0 = vh::fd_count(), th0 = vh::thread_count();
    std::vector<Target> ts = targets(r, 2), bad = targets(r, 1); for (auto &t : ts) raw_listen(t); raw_listen(bad[0]);
    auto co = std::make_unique<DataObj>(false); DataObj *cp = co.get(); Alien al;
    int style = r.below(4); Target bt = bad[0];
    co->is_alien = [bt](const Sp &c) { net::Addr a = net::peer(c->fd()); if (!a.len) return true; return a.fam() == bt.fam && (bt.fam == AF_UNIX ? a.path() == bt.path : a.port() == bt.port); };
    co->alien = [=, &al](CSp s, const Sp &c, Kind kd, const std::string &)
    {
        if (kd == K_START && style) { if (style == 3) { inj::fail(style % 2 ? inj::F_WRITE : inj::F_READ, c->fd(), ECONNRESET); al.injected_write.fetch_add(1); } cp->put(*s, c, std::string(style == 2 ? 1500000 : 100, 'A')); cp->write(*s, c); }
        if (kd == K_CLOSED) s->hold.reset();
    };
    auto cl = std::make_unique<reactor::tcp_client>(1 + (int)r.below(2), 1 + (int)r.below(2), static_cast<Obj *>(co.get())); co->wire(*cl); start_cb(*cl, *co);
    uint64_t njobs = 0; int good = 2 + r.below(8), nbad = 3 + r.below(15);
    for (int i = 0; i < good * 2; ++i) { auto js = rounds(r, 60000, true); if (i < good) njobs += js.size(); co->jobs.push_back(js); }
    inj::random(r.next(), rates(r));
    cl->run(); int running = vh::fd_count();
    int unwatched = 0;
    if (r.chance(40))
    {
        // no watches left for new connections
        uint64_t h0 = inj::scripted_hits(); int m = 1 + r.below(4); inj::fail(inj::F_EPOLL_NEW, -1, r.chance(70) ? ENOSPC : ENOMEM, m);
        for (int i = 0; i < m; ++i) lib_add(*cl, bad[0], 1);
        for (int i = 0; i < 600 && inj::scripted_hits() - h0 < (uint64_t)m; ++i) vh::msleep(0.5);
        vh::ev("watches_refused", inj::scripted_hits() - h0); inj::clear_fail(); unwatched = m;
    }
    Driver d(r.next()); for (auto &t : ts) d.listeners.push_back(t.raw); std::atomic<bool> halt{false}, stop{false};
    d.th = std::thread([&] { d.run([&] { return halt.load(); }); });
    std::vector<int> parked; std::atomic<uint64_t> kinds[12]; for (auto &x : kinds) x = 0; std::atomic<int> bacc{0}; uint64_t sd = r.next();
    std::thread ht([&] { Rng q(sd); while (!stop) { int s = syscall(SYS_accept4, bad[0].raw, nullptr, nullptr, SOCK_CLOEXEC); if (s < 0) { vh::msleep(0.3); continue; } ++bacc; hostile(s, q, parked, stop, kinds); } });
    for (int i = 0; i < std::max(good, nbad); ++i) { if (i < nbad) lib_add(*cl, bad[0], 1); if (i < good) lib_add(*cl, ts[r.below(ts.size())], 1); }
    auto rep = [&] { return vh::strf("%llu of %llu jobs done; ", (unsigned long long)co->done.load(), (unsigned long long)njobs) + d.where() + co->dump(); };
    live("starved", "good connections of a client beside hostile peers: ", [&] { return co->done.load() >= njobs; }, rep);
    // later connections
    uint64_t extra = 0; { std::lock_guard<std::mutex> _(co->jm); if (co->jobs.size()) extra = co->jobs.front().size(); }
    lib_add(*cl, ts[0], 1); njobs += extra;
    live("starved", "a later connection of the client: ", [&] { return co->done.load() >= njobs; }, rep);
    { double w = 0; while (bacc.load() < nbad + unwatched && w < 5000) { vh::msleep(1); w += 1; } }
    stop = true; ht.join(); for (int fd : parked) end_any(fd, r);
    live("closed-missing", "connections of hostile peers ending", [&] { return co->ended_count() == co->started.load(); }, [&] { return co->dump(); });
    halt = true; d.th.join();
    inj::reset(); fds_back(running - 0, "client connections ended");
    cl->shutdown(); co->down = true; co->release(); cl.reset();
    forget(ts); forget(bad); fds_back(fd0, "after a client fault case"); threads_back(th0, "client");
    co->sum("client_"); vh::ev("client_hostile", bacc.load());
    vh::distinct(vh::mix(vh::mix(good, nbad), co->bytes.load()));
    if (k < 4) vh::sample(vh::strf("client with %d good and %d hostile servers", good, nbad));
}
static void case_fault(uint64_t k, Rng &r) { if (r.chance(75)) case_fault_server(k, r); else case_fault_client(k, r); }

// ---------------------------------------------------------------- shutdown
struct BusyObj : Obj
{
    int slow = 0; size_t burst = 0; std::atomic<int> inside{0};
    explicit BusyObj(bool s) : Obj(s) {}
    void on(Kind k, CSp s, const Sp &c) override
    {
        ++inside;
        if (slow && s->reads % 4 == 0) vh::msleep(slow / 10.0);
        if (k == K_START && burst) { put(*s, c, std::string(burst, 'B')); write(*s, c); }
        if (k == K_READ && c->rbuffer().size()) { std::string d(c->rbuffer().rawbuf(), c->rbuffer().size()); put(*s, c, d); write(*s, c); }
        if (!down) --inside;
    }
};
template <typename T> static void stop_it(T &t, Obj &o, const char *when)
{
    std::atomic<bool> back{false};
    std::thread h([&] { t.shutdown(); o.down = true; back = true; });
    double waited = 0;
    while (!back) { vh::msleep(0.5); waited += 0.5; if (waited < 24000) vh::tick(); else vh::viol("shutdown-hang", "shutdown of a %s (%s) did not return within 24 s", o.name(), when); }
    h.join();
}
static void case_stop(uint64_t k, Rng &r)
{
    int fd0 = vh::fd_count(), th0 = vh::thread_count();
    std::vector<Target> ts = targets(r, 3); int role = r.below(3), rounds_ = 1 + r.below(4); int moment = 0; uint64_t conns = 0, cbs = 0;
    static const char *MN[] = {"right after start", "idle", "during a connection storm", "during transfers"};
    bool raw_target = role == 1; if (raw_target) for (auto &t : ts) raw_listen(t);
    std::atomic<bool> quit{false}; std::vector<std::thread> th; std::mutex held_m; std::vector<int> held;
    for (int round = 0; round < rounds_; ++round)
    {
        moment = r.below(4);
        auto so = std::make_unique<BusyObj>(true); auto co = std::make_unique<BusyObj>(false);
        so->slow = co->slow = r.chance(30) ? r.below(20) : 0; so->burst = r.chance(40) ? r.below(600000) : 0; co->burst = r.chance(60) ? 1 + r.below(200000) : 0;
        std::unique_ptr<reactor::tcp_server> sv; std::unique_ptr<reactor::tcp_client> cl;
        inj::Rates ra; ra.eagain_sockets_only = true; if (r.chance(50)) { ra.delay = 30; ra.delay_us = 600; ra.mutex_delay = 20; ra.eintr = 20; } inj::random(r.next(), ra);
        if (role != 1)
        {
            sv = std::make_unique<reactor::tcp_server>(1 + (int)r.below(4), static_cast<Obj *>(so.get())); so->wire(*sv); start_cb(*sv, *so);
            bool got = false;
            try { for (auto &t : ts) lib_listen(*sv, t, r, true); got = true; } catch (const std::exception &e) { vh::viol("address-not-reusable", "listening again on the address of a stopped server failed: %s", e.what()); }
            (void)got; sv->run();
        }
        if (role != 0)
        {
            cl = std::make_unique<reactor::tcp_client>(1 + (int)r.below(3), 1 + (int)r.below(3), static_cast<Obj *>(co.get())); co->wire(*cl); start_cb(*cl, *co);
            if (r.chance(40)) lib_add(*cl, ts[0], 1 + r.below(5));
            cl->run();
        }
        quit = false; uint64_t sd = r.next();
        if (moment >= 2 || (moment == 1 && r.chance(50)))
        {
            if (role != 1) for (int i = 0; i < 1 + (int)r.below(3); ++i) th.emplace_back([&, i, sd, moment, round] {
                Rng q(sd + i * 100 + round); std::vector<int> mine; std::string junk = q.bytes(20000), t;
                for (int n = 0; !quit; ++n)
                {
                    if (moment == 2 || mine.size() < 4)
                    {
                        int fd = net::connect_to(ts[q.below(ts.size())].addr());
                        if (fd >= 0) { net::nonblock(fd); mine.push_back(fd); } else vh::msleep(1);
                        if (mine.size() > 20) { end_any(mine[0], q); mine.erase(mine.begin()); }
                    }
                    for (int fd : mine) { if (moment >= 2) syscall(SYS_sendto, fd, junk.data(), q.below(junk.size()), MSG_NOSIGNAL | MSG_DONTWAIT, nullptr, 0); if (q.chance(70)) { t.clear(); net::read_some(fd, t); } }
                    if (moment == 1 || q.chance(20)) vh::msleep(0.3);
                }
                for (int fd : mine) end_any(fd, q);
            });
            if (role != 0) th.emplace_back([&, sd, moment] {
                Rng q(sd + 7); std::vector<int> mine; std::string t;
                for (int n = 0; !quit; ++n)
                {
                    if (raw_target) for (auto &x : ts)
                    {
                        int s = syscall(SYS_accept4, x.raw, nullptr, nullptr, SOCK_CLOEXEC | SOCK_NONBLOCK); if (s >= 0) mine.push_back(s);
                        if (mine.size() > 20) { end_any(mine[0], q); mine.erase(mine.begin()); }
                    }
                    for (int fd : mine) { t.clear(); if (net::read_some(fd, t) && t.size()) syscall(SYS_sendto, fd, t.data(), t.size(), MSG_NOSIGNAL | MSG_DONTWAIT, nullptr, 0); }
                    vh::msleep(0.2);
                }
                for (int fd : mine) end_any(fd, q);
            });
            if (role != 0) { reactor::tcp_client *c = cl.get(); for (int i = 0; i < (moment == 2 ? 20 : 4); ++i) { lib_add(*c, ts[r.below(ts.size())], 1 + r.below(3)); if (r.chance(20)) vh::msleep(0.3); } }
        }
        if (moment) vh::msleep(r.chance(50) ? r.below(2000) / 1000.0 : r.below(30));
        vh::tick();
        // stopping does not depend on free descriptors
        rlimit old; getrlimit(RLIMIT_NOFILE, &old); bool starve = th.empty() && r.chance(30);
        if (starve) { vh::ev("out_of_descriptors"); rlimit nw = old; int l = 3; while (vh::fd_open(l)) ++l; nw.rlim_cur = l; setrlimit(RLIMIT_NOFILE, &nw); }
        if (sv && (!cl || r.chance(50))) { stop_it(*sv, *so, MN[moment]); if (cl) stop_it(*cl, *co, MN[moment]); }
        else { stop_it(*cl, *co, MN[moment]); if (sv) stop_it(*sv, *so, MN[moment]); }
        if (starve) setrlimit(RLIMIT_NOFILE, &old);
        conns += so->count() + co->count(); for (int i = 0; i < 4; ++i) cbs += so->n_cb[i] + co->n_cb[i];
        int now_inside = so->inside + co->inside; CHECK(now_inside == 0, "handler-running", "a handler is still running after shutdown returned");
        // peers keep trying; nothing may run any more
        if (r.chance(30)) vh::msleep(3);
        sv.reset(); cl.reset();
        quit = true; for (auto &t : th) t.join(); th.clear();
        // connections left in the listen queue of raw targets
        if (raw_target) for (auto &t : ts) { int s; while ((s = syscall(SYS_accept4, t.raw, nullptr, nullptr, SOCK_CLOEXEC | SOCK_NONBLOCK)) >= 0) vh::sys_close(s); }
        inj::reset();
        threads_back(th0, "stopped reactor");
        fds_back(raw_target ? fd0 + (int)ts.size() : fd0, "reactor stopped and destroyed");
        vh::ev("shutdowns", (role != 1) + (role != 0)); vh::ev(moment == 0 ? "right_after_start" : moment == 1 ? "idle" : moment == 2 ? "in_storm" : "in_transfer"); if (round) vh::ev("restarts_on_same_address");
        vh::distinct(vh::mix(vh::mix(role * 4 + moment, conns), cbs));
    }
    forget(ts); fds_back(fd0, "after a shutdown case");
    vh::ev("connections", conns); vh::ev("callbacks", cbs);
    if (k < 4) vh::sample(vh::strf("%s, %d rounds on the same %zu addresses, last stopped %s, %llu connections, %llu callbacks", role == 0 ? "server" : role == 1 ? "client" : "server and client", rounds_, ts.size(), MN[moment], (unsigned long long)conns, (unsigned long long)cbs));
}
