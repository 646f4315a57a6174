// C19: named shared memory: creation, content, concurrent openers and unlinkers, ownership of mappings.
#include "act.h"
#include "cppev/ipc.h"
using vh::Rng;
using namespace cppev;
using act::RLX;

namespace
{
struct Sh : act::Common { std::atomic<int> creators{0}, unlinks{0}, opened{0}; std::atomic<uint64_t> checked{0}; };
Sh *sh; std::string base; int serial;
using Word = std::atomic<uint64_t>;
std::string fresh() { return vh::strf("%s_%d", base.c_str(), serial++); }
bool exists(const std::string &n) { struct stat st; return syscall(SYS_newfstatat, AT_FDCWD, ("/dev/shm" + n).c_str(), &st, 0) == 0; }
void wipe(const std::string &n) { syscall(SYS_unlink, ("/dev/shm" + n).c_str()); }
int raised(const std::function<void()> &f, std::string *what = nullptr) { try { f(); } catch (const std::exception &e) { if (what) *what = e.what(); return 1; } return 0; }
void delays(Rng &r) { inj::Rates x; if (r.chance(80)) { x.delay = 100 + r.below(800); x.delay_us = r.below(r.chance(20) ? 3000 : 200); } inj::random(r.next(), x); }
Word *words(const shared_memory &m) { return static_cast<Word *>(m.ptr()); }
uint64_t tag(uint64_t key, int actor, int w) { return vh::mix(vh::mix(key, actor + 1), w + 1) | 1; }

// All open one name at once; every actor owns a slot of words and every word is zero or what its owner writes
void case_openers(Rng &r, bool procs)
{
    std::string name = fresh(); int n = 2 + r.below(r.chance(20) ? 12 : 5), per = 1 + r.below(r.chance(30) ? 2000 : 20); uint64_t key = r.next(); bool before = r.chance(20), sizes = r.chance(35), keep = r.chance(50); int rounds = 1 + r.below(3);
    // with different sizes everyone writes its slot and the end of its own region
    std::vector<int> size(n, n * per * 8 + int(r.below(3)) * 4); if (sizes) for (auto &s : size) s += r.below(4) * (r.chance(50) ? 4096 : 1000) / 8 * 8;
    if (sizes && r.chance(15)) { for (auto &s : size) s += r.below(4) * 1500000 / 8 * 8; vh::ev("megabytes"); }
    int common = n * per; if (before) { shared_memory m(name, size[0]); CHECK(m.creator(), "creator", "the first opener is not the creator"); words(m)[0].store(tag(key, 0, 0), RLX); }
    std::vector<std::unique_ptr<shared_memory>> held;
    for (int round = 0; round < rounds; ++round)
    {
        sh->creators = 0; sh->opened = 0;
        if (round > 0 && r.chance(50)) { held.clear(); shared_memory m(name, 8); CHECK(!m.creator(), "creator", "an opener of an existing name is told it is the creator"); m.unlink(); before = false; key = r.next(); if (sizes) for (auto &s : size) s = std::max<int>(common * 8, s - 1000); }
        bool first = round == 0 || !before; delays(r);
        together(*sh, procs, r, n, "concurrent openers", [&](int i, Rng &q) {
            act::dally(q); shared_memory m(name, size[i]); if (m.creator()) sh->creators.fetch_add(1, RLX); sh->opened.fetch_add(1, RLX);
            CHECK(m.ptr() != nullptr && m.size() == size[i], "size", "opened with size %d, it has size %d", size[i], m.size());
            Word *w = words(m);
            auto look = [&](bool own) {
                for (int a = 0; a < n; ++a)
                    for (int k = 0; k < per; ++k)
                    {
                        uint64_t v = w[a * per + k].load(RLX), t = tag(key, a, k);
                        if (a == i && own) CHECK(v == t, "lost-write", "opener %d finds 0x%llx where it wrote 0x%llx", i, (unsigned long long)v, (unsigned long long)t);
                        else if (a == i && first && !(before && a == 0 && k == 0)) CHECK(v == 0, "not-zero", "memory of a fresh name holds 0x%llx before anyone wrote there", (unsigned long long)v);
                        else CHECK(v == 0 || v == t, "not-zero", "memory holds 0x%llx, which nobody wrote there", (unsigned long long)v);
                    }
                sh->checked.fetch_add(1, RLX); };
            look(!first);
            if (q.chance(20)) act::dally(q);
            for (int k = 0; k < per; ++k) { uint64_t t = tag(key, i, k); w[i * per + k].store(t, RLX); }
            uint64_t *tail = nullptr; if (sizes) { tail = reinterpret_cast<uint64_t *>(static_cast<char *>(m.ptr()) + size[i] / 8 * 8 - 8); }
            if (tail && reinterpret_cast<Word *>(tail) >= w + common) reinterpret_cast<Word *>(tail)->fetch_or(1, RLX);
            look(true); act::bump(*sh, procs);
            if (q.chance(50)) { shared_memory o(std::move(m)); CHECK(o.ptr() == w && o.size() == size[i], "move", "moving does not transfer the mapping"); m = std::move(o); CHECK(m.ptr() == w, "move", "moving back does not transfer the mapping"); }
            // until everybody has written
            double t0 = vh::now(); while (sh->opened.load(RLX) < n && vh::now() - t0 < 30) sched_yield();
            look(true); if (tail && reinterpret_cast<Word *>(tail) >= w + common) CHECK(reinterpret_cast<Word *>(tail)->load(RLX) & 1, "lost-write", "a write at the end of the region is lost"); });
        int c = sh->creators; CHECK(c == (first && !before ? 1 : 0), "creator", "%d of %d concurrent openers of %s name are told they are the creator", c, n, first && !before ? "a fresh" : "an existing");
        before = true; inj::reset();
        // content outlives the handles
        auto m = std::make_unique<shared_memory>(name, size[r.below(n)]); CHECK(!m->creator(), "creator", "reopening an existing name creates");
        for (int a = 0; a < n; ++a) for (int k = 0; k < per; ++k) CHECK(words(*m)[a * per + k].load(RLX) == tag(key, a, k), "lost-write", "after everyone has closed, what opener %d wrote is lost", a);
        if (keep) held.push_back(std::move(m));
        vh::ev("concurrent_openers", n); if (sizes) vh::ev("different_sizes"); vh::tick();
    }
    held.clear(); CHECK(vh::maps_count(name) == 0, "leak", "mappings remain after all handles are gone"); wipe(name);
    vh::distinct(vh::mix(vh::mix(n * 8 + rounds, per), sizes * 4 + keep * 2 + procs)); vh::ev("contents_checked", sh->checked.exchange(0));
}
// Openers and unlinkers at once: every creation beyond the first needs an unlinking
void case_unlinkers(Rng &r, bool procs)
{
    std::string name = fresh(); int n = 2 + r.below(6), ops = 5 + r.below(40); sh->creators = 0; sh->unlinks = 0; delays(r); int size = 8 + r.below(9000); uint64_t key = r.next();
    together(*sh, procs, r, n, "concurrent openers and unlinkers", [&](int i, Rng &q) {
        for (int k = 0; k < ops; ++k)
        {
            shared_memory m(name, size); if (m.creator()) sh->creators.fetch_add(1, RLX);
            uint64_t v = words(m)[0].load(RLX); CHECK(v == 0 || v == key, "not-zero", "memory holds 0x%llx, which nobody wrote", (unsigned long long)v); static_cast<char *>(m.ptr())[size - 1] = 0; words(m)[0].store(size >= 9 ? key : 0, RLX);
            if (q.chance(40)) { if (!raised([&] { m.unlink(); })) sh->unlinks.fetch_add(1, RLX); else vh::ev("unlink_lost"); }
            act::bump(*sh, procs);
        } });
    inj::reset(); int c = sh->creators, u = sh->unlinks, e = exists(name);
    CHECK(c == u + e, "creator", "%d creations, %d successful unlinkings, and the name %s", c, u, e ? "exists" : "does not exist"); vh::ev("creations", c); vh::ev("unlinkings", u); wipe(name); CHECK(vh::maps_count(name) == 0, "leak", "mappings remain");
    vh::distinct(vh::mix(c, u * 8 + n));
}
// Histories of handles against a model of objects and mappings
struct Payload { int a; double b; char text[16]; Payload(int x, double y, const std::string &s) : a(x), b(y) { memset(text, 0, 16); strncpy(text, s.c_str(), 15); } };
void case_history(Rng &r)
{
    struct Obj { std::string bytes; }; struct H { std::unique_ptr<shared_memory> m; int name = -1; int size = 0; bool creator = false; std::shared_ptr<Obj> o; };
    std::vector<std::string> names{fresh(), fresh(), fresh()}; std::shared_ptr<Obj> cur[3]; std::vector<H> hs; std::string hist; uint64_t sig = 9; int fds = vh::fd_count();
    auto probe = [&] {
        for (int i = 0; i < 3; ++i)
        {
            long want = 0; for (auto &h : hs) want += h.name == i && h.m->ptr(); long got = vh::maps_count(names[i]); CHECK(got == want, "mappings", "%ld mappings of a name with %ld handles;%s", got, want, hist.c_str());
            CHECK(exists(names[i]) == !!cur[i], "unlink", "name %d %s;%s", i, cur[i] ? "is gone" : "exists", hist.c_str());
        }
        for (auto &h : hs) if (h.name >= 0) { CHECK(h.m->size() == h.size && h.m->creator() == h.creator && h.m->ptr(), "handle", "a handle of size %d (creator %d) tells size %d, creator %d;%s", h.size, h.creator, h.m->size(), h.m->creator(), hist.c_str());
            CHECK(!memcmp(h.m->ptr(), h.o->bytes.data(), h.size), "content", "memory seen through a handle differs from what was written;%s", hist.c_str()); } else CHECK(h.m->ptr() == nullptr && !h.m->creator(), "handle", "a handle that was moved away still has memory;%s", hist.c_str());
        CHECK(vh::fd_count() == fds, "leak", "%d descriptors, %d at first;%s", vh::fd_count(), fds, hist.c_str()); };
    int n = 5 + r.below(40); bool huge = r.chance(8); if (huge) vh::ev("megabytes");
    for (int i = 0; i < n; ++i)
    {
        if (hist.size() > 500) hist.erase(0, hist.size() - 500);
        int k = r.below(9); if (hs.empty()) k = 0; size_t a = r.below(hs.size()), b = r.below(hs.size()); sig = vh::mix(sig, k);
        switch (k)
        {
        case 0: case 1:
        {
            if (hs.size() > 6) continue; H h; h.name = r.below(3); h.size = 1 + r.below(r.chance(50) ? 100 : huge ? 5000000 : 20000); auto &o = cur[h.name]; h.creator = !o; if (!o) o = std::make_shared<Obj>(); if (int(o->bytes.size()) < h.size) o->bytes.resize(h.size, 0);
            h.o = o; hist += vh::strf(" %zu:open(%d,%d)", hs.size(), h.name, h.size); mode_t mode = r.chance(50) ? 0600 : r.pick(std::vector<mode_t>{0644, 0660, 0640});
            h.m = std::make_unique<shared_memory>(names[h.name], h.size, mode);
            if (h.creator) { struct stat st; mode_t um = umask(0); umask(um); CHECK(stat(("/dev/shm" + names[h.name]).c_str(), &st) == 0 && (st.st_mode & 0777) == (mode & ~um), "mode", "created with mode %o instead of %o", st.st_mode & 0777, mode & ~um); vh::ev("fresh_objects"); } else vh::ev("reopened");
            hs.push_back(std::move(h)); break;
        }
        case 2: hist += vh::strf(" ~%zu", a); hs.erase(hs.begin() + a); vh::ev("handles_destroyed"); break;
        case 3: case 4:
        {
            if (hs[a].name < 0) continue; int off = r.below(hs[a].size), len = 1 + r.below(std::min(hs[a].size - off, 200)); std::string d = r.bytes(len); memcpy(static_cast<char *>(hs[a].m->ptr()) + off, d.data(), len); hs[a].o->bytes.replace(off, len, d); hist += vh::strf(" write%zu(%d,%d)", a, off, len); break;
        }
        case 5:
        {
            hist += vh::strf(" move%zu", a); H h; h.name = hs[a].name; h.size = hs[a].size; h.creator = hs[a].creator; h.o = hs[a].o; void *p = hs[a].m->ptr(); h.m = std::make_unique<shared_memory>(std::move(*hs[a].m)); CHECK(h.m->ptr() == p, "move", "moving changes the address");
            hs[a].name = -1; hs[a].size = 0; hs[a].creator = false; hs[a].o.reset(); hs.push_back(std::move(h)); vh::ev("moves"); break;
        }
        case 6:
        {
            hist += vh::strf(" %zu=%zu", a, b); shared_memory &s = *hs[b].m; void *p = s.ptr(); *hs[a].m = std::move(s); CHECK(hs[a].m->ptr() == p, "move", "moving changes the address;%s", hist.c_str()); if (a == b) break;
            if (hs[a].name >= 0) vh::ev("overwrites"); hs[a].name = hs[b].name; hs[a].size = hs[b].size; hs[a].creator = hs[b].creator; hs[a].o = hs[b].o; hs[b].name = -1; hs[b].size = 0; hs[b].creator = false; hs[b].o.reset(); break;
        }
        case 7:
        {
            hist += vh::strf(" unlink%zu", a); int nm = hs[a].name; int e = raised([&] { hs[a].m->unlink(); }); if (nm < 0) break;
            CHECK(e == !cur[nm], "unlink", "unlinking a name that %s %s;%s", cur[nm] ? "exists" : "does not exist", e ? "raises an error" : "raises no error", hist.c_str()); cur[nm].reset(); vh::ev("unlinks"); break;
        }
        case 8:
        {
            if (hs[a].name < 0 || hs[a].size < int(sizeof(Payload))) continue; int x = r.next(); double y = r.below(1000) / 7.0; std::string t = r.text(r.below(15), "abc"); hist += vh::strf(" construct%zu", a);
            auto *p = hs[a].m->construct<Payload>(x, y, t); CHECK(static_cast<void *>(p) == hs[a].m->ptr() && p->a == x && p->b == y && t == p->text, "construct", "an object constructed in shared memory differs from its arguments"); hs[a].o->bytes.replace(0, sizeof(Payload), std::string(reinterpret_cast<char *>(p), sizeof(Payload))); vh::ev("constructed"); break;
        }
        }
        probe();
    }
    hs.clear(); hist += " end"; probe(); for (auto &x : names) wipe(x); vh::ev("histories"); vh::distinct(sig); if (r.chance(2)) vh::sample(hist.substr(0, 300));
}
void case_failures(Rng &r)
{
    int fds = vh::fd_count(); std::string name = fresh(), what; bool existing = r.chance(50); uint64_t key = r.next() | 1; if (existing) { shared_memory m(name, 64); words(m)[0] = key; }
    int size = 1 + r.below(10000); std::string bad = name; bool fails = true, half = false;
    switch (r.below(9))
    {
    case 0: bad = name + "/x"; break;
    case 1: bad = r.pick(std::vector<std::string>{"", "/"}); break;
    case 2: bad = "/" + std::string(256 + r.below(500), 'n'); break;
    case 3: size = 0; break;
    case 4: size = -1 - int(r.below(1000000)); break;
    case 5: inj::fail(inj::F_SHM_OPEN, -1, r.pick(std::vector<int>{EACCES, EMFILE, ENFILE, ENOSPC, ENOMEM}), 1, r.below(2)); fails = false; half = true; break;
    case 6: inj::fail(inj::F_FTRUNCATE, -1, r.pick(std::vector<int>{EIO, ENOSPC, EFBIG}), 1); fails = false; half = true; break;
    case 7: inj::fail(inj::F_MMAP, -1, r.pick(std::vector<int>{ENOMEM, EACCES, ENFILE}), 1); fails = false; half = true; break;
    case 8:
    {
        std::vector<int> f; rlimit rl, lo; getrlimit(RLIMIT_NOFILE, &rl); lo = rl; lo.rlim_cur = 64; setrlimit(RLIMIT_NOFILE, &lo); int d; while ((d = syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDONLY | O_CLOEXEC)) >= 0) f.push_back(d);
        CHECK(raised([&] { shared_memory m(name, size); }, &what) == 1, "failure", "opening without free descriptors raises no error"); for (int x : f) vh::sys_close(x); setrlimit(RLIMIT_NOFILE, &rl); vh::ev("out_of_descriptors"); goto judged;
    }
    }
    {
        uint64_t h0 = inj::scripted_hits(); int e = raised([&] { shared_memory m(bad, size); if (existing && !fails) CHECK(words(m)[0].load() == key || size < 8, "content", "content of an existing name changed"); }, &what); bool hit = inj::scripted_hits() != h0; inj::reset();
        if (fails) CHECK(e, "failure", "opening %s with size %d raises no error", vh::show(bad, 40).c_str(), size); if (half && hit) { CHECK(e, "failure", "a failing system call raises no error"); vh::ev("injected_failures"); }
        if (!e && half) { wipe(name); existing = false; }
    }
judged:
    vh::ev("failures"); CHECK(vh::fd_count() == fds, "leak", "a failed opening leaves a descriptor (%s)", what.c_str()); CHECK(vh::maps_count(base) == 0, "leak", "a failed opening leaves a mapping (%s)", what.c_str());
    CHECK(exists(name) == existing, "failure", "after a failed opening (%s) the name %s", what.c_str(), existing ? "is gone" : "exists");
    shared_memory m(name, 64); CHECK(m.creator() == !existing && words(m)[0].load() == (existing ? key : 0), "content", "after a failed opening (%s) the name holds 0x%llx, creator %d", what.c_str(), (unsigned long long)words(m)[0].load(), m.creator());
    m.unlink(); CHECK(raised([&] { m.unlink(); }), "unlink", "unlinking a missing name raises no error"); CHECK(!exists(name), "unlink", "the name exists after unlinking"); vh::distinct(vh::hash(what) + existing);
}
}
void harness_init() { sh = act::shared<Sh>(); base = vh::strf("/vh%d", getpid()); }
void harness_fini() {}
void run_case(uint64_t, Rng &r)
{
    bool procs = r.chance(50); int k = r.below(100);
    if (k < 30) case_openers(r, procs); else if (k < 50) case_unlinkers(r, procs); else if (k < 80) case_history(r); else case_failures(r);
}
