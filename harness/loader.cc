// C25: dynamic loader over generated libraries that identify themselves and count loading and unloading.
#include "act.h"
#include <stdexcept>
#include <dlfcn.h>
#include <cmath>
#include "cppev/dynamic_loader.h"
using vh::Rng; using cppev::dynamic_loader;

namespace
{
const int N = 6, PROVIDES = 7, USES = 8, LACKS = 9, ALL = 9; std::string aux, dir;
std::atomic<int> ups[ALL + 1], downs[ALL + 1];
std::string file(int i) { return vh::strf("%s/libvhdl%d.so", aux.c_str(), i); }
std::string slurp(const std::string &p) { std::string s; int f = syscall(SYS_openat, AT_FDCWD, p.c_str(), O_RDONLY | O_CLOEXEC); if (f < 0) vh::broken("%s", p.c_str()); char b[65536]; ssize_t n; while ((n = vh::sys_read(f, b, sizeof b)) > 0) s.append(b, n); vh::sys_close(f); return s; }
void put(const std::string &p, const std::string &s) { int f = syscall(SYS_openat, AT_FDCWD, p.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_CLOEXEC, 0755); if (f < 0 || vh::sys_write(f, s.data(), s.size()) != ssize_t(s.size())) vh::broken("%s", p.c_str()); vh::sys_close(f); }
template <typename F> bool raised(F f, std::string &msg)
{
    try { f(); } catch (const std::runtime_error &e) { msg = e.what(); return true; } catch (const std::exception &e) { vh::viol("error-kind", "something else than a runtime error is raised: %s", e.what()); }
    return false;
}
bool mapped(int i) { return vh::maps_count(vh::strf("libvhdl%d.so", i)) > 0; }
struct L { std::unique_ptr<dynamic_loader> p; int id; void *raw; };
// everything a library offers
void use(const dynamic_loader &l, int id, Rng &r, int *calls)
{
    int n = 1 + r.below(4);
    while (n--) switch (r.below(7))
    {
    case 0: { auto f = l.load<int()>("dl_ident"); int g = f(); CHECK(g == id, "symbol", "library %d gives the function of %d", id, g); break; }
    case 1: { auto f = l.load<int(int, int)>("dl_mix"); int a = r.below(1000), b = r.below(1000), g = f(a, b); CHECK(g == a * id + b, "symbol", "a function of library %d returns %d for (%d, %d)", id, g, a, b); break; }
    case 2: { auto f = l.load<const char *()>("dl_text"); CHECK(vh::strf("text of %d", id) == f(), "symbol", "library %d says '%s'", id, f()); break; }
    case 3: { int *v = l.load<int>("dl_value"); CHECK(*v == id * 1000, "symbol", "library %d has the value %d", id, *v); break; }
    case 4: { if (!calls) break; auto f = l.load<int()>("dl_next"); int g = f(); CHECK(g == ++*calls, "symbol", "call %d of library %d returns %d", *calls, id, g); break; }
    case 5: { auto f = l.load<int()>(id % 2 ? "dl_odd" : "dl_even"); int g = f(); CHECK(g == -id, "symbol", "library %d returns %d", id, g); break; }
    case 6:
    {
        std::string name, msg; switch (r.below(5)) { case 0: name = id % 2 ? "dl_even" : "dl_odd"; break; case 1: name = vh::strf("dl_missing_%d", int(r.below(1000))); break; case 2: name = "dl_null"; break; case 3: name = std::string(1 + r.below(3000), 'q'); break; default: name = "Dl_ident"; }
        CHECK(raised([&] { l.load<int()>(name); }, msg), "no-error", "loading '%s', which library %d lacks, raises no error", name.substr(0, 40).c_str(), id); CHECK(!msg.empty() && (name == "dl_null" || msg.find(name) != std::string::npos), "message", "loading the missing '%s' says '%s'", name.substr(0, 40).c_str(), msg.substr(0, 80).c_str()); vh::ev("missing_symbols"); break;
    }
    }
    vh::ev("symbols", 1);
}
// a file or name that cannot be loaded
std::string bad(Rng &r, const std::string &own)
{
    std::string p = dir + "/" + own, good = slurp(file(1));
    switch (r.below(9))
    {
    case 0: return vh::strf("%s/missing%d.so", dir.c_str(), int(r.below(1000))); case 1: return vh::strf("libvhmissing%d.so", int(r.below(1000))); case 2: return dir;
    case 3: put(p, ""); return p; case 4: put(p, r.bytes(1 + r.below(3000))); return p; case 5: put(p, good.substr(0, r.below(64))); return p;
    case 6: { good[r.below(4)] ^= 1 + r.below(255); put(p, good); return p; }
    case 7: { good[18] ^= 1 + r.below(60); put(p, good); return p; }          // other machine
    default: { size_t at = good.find("libc.so.6"); if (at == std::string::npos) { good[4] = 1; } else good.replace(at, 9, "libZ.so.6"); put(p, good); return p; }    // needs a library that is not there
    }
}
void refuse(Rng &r, const std::string &own)
{
    std::string p = bad(r, own), msg; CHECK(raised([&] { dynamic_loader l(p); }, msg), "no-error", "loading %s raises no error", p.c_str()); std::string base = p.substr(p.rfind('/') + 1); CHECK(msg.find(base) != std::string::npos || msg.find("libZ") != std::string::npos, "message", "loading %s says '%s'", p.c_str(), msg.c_str()); vh::ev("refused_files");
}
std::string path_of(int i, Rng &r) { int k = r.below(4); return k == 0 ? vh::strf("libvhdl%d.so", i) : k == 1 ? vh::strf("%s/link%d", dir.c_str(), i) : k == 2 ? vh::strf("%s/../%s/libvhdl%d.so", aux.c_str(), aux.substr(aux.rfind('/') + 1).c_str(), i) : file(i); }
void history(Rng &r)
{
    std::vector<L> v; int have[N + 1] = {0}, calls[N + 1] = {0}; for (int i = 1; i <= N; ++i) { ups[i] = downs[i] = 0; } int up[N + 1] = {0}; std::string h; int n = 5 + r.below(40); uint64_t sig = 0;
    auto verify = [&] { for (int i = 1; i <= N; ++i) { CHECK(ups[i] == up[i], "loads", "library %d was loaded %d times instead of %d;%s", i, ups[i].load(), up[i], h.c_str()); CHECK(downs[i] == up[i] - (have[i] > 0), "release", "library %d was unloaded %d times instead of %d with %d users;%s", i, downs[i].load(), up[i] - (have[i] > 0), have[i], h.c_str()); } };
    for (int o = 0; o < n; ++o)
    {
        vh::tick(); int k = r.below(7); if (v.empty()) k = 0; size_t a = r.below(v.size()); sig = vh::mix(sig, k);
        switch (k)
        {
        case 0: case 1: { if (v.size() > 8) break; L l; l.id = 1 + r.below(N); l.raw = nullptr; h += vh::strf(" open%d", l.id); std::string p = path_of(l.id, r); l.p = std::make_unique<dynamic_loader>(p); if (have[l.id]++ == 0) { up[l.id]++; calls[l.id] = 0; } v.push_back(std::move(l)); vh::ev("loaders"); break; }
        case 2: { L l; l.id = 1 + r.below(N); h += vh::strf(" raw%d", l.id); l.raw = dlopen(file(l.id).c_str(), RTLD_NOW); if (!l.raw) vh::broken("dlopen: %s", dlerror()); if (have[l.id]++ == 0) { up[l.id]++; calls[l.id] = 0; } v.push_back(std::move(l)); vh::ev("users_besides"); break; }
        case 3: case 4: if (v[a].p) { h += vh::strf(" use%d", v[a].id); use(*v[a].p, v[a].id, r, &calls[v[a].id]); } break;
        case 5: { h += vh::strf(" drop%d", v[a].id); int id = v[a].id; if (v[a].raw) dlclose(v[a].raw); v.erase(v.begin() + a); --have[id]; vh::ev("destroyed"); if (r.chance(20)) CHECK(mapped(id) == (have[id] > 0), "release", "library %d with %d users is %smapped;%s", id, have[id], mapped(id) ? "" : "not ", h.c_str()); break; }
        case 6: h += " refuse"; refuse(r, "bad.so"); break;
        }
        verify();
    }
    while (!v.empty()) { size_t a = r.below(v.size()); int id = v[a].id; h += vh::strf(" drop%d", id); if (v[a].p && r.chance(50)) use(*v[a].p, id, r, &calls[id]); if (v[a].raw) dlclose(v[a].raw); v.erase(v.begin() + a); --have[id]; verify(); }
    vh::ev("histories"); vh::distinct(vh::mix(sig, vh::hash(h))); if (r.chance(3)) vh::sample(h.substr(0, 300));
    if (r.chance(20)) { dynamic_loader m("libm.so.6"); double x = r.below(1000) / 100.0; CHECK(m.load<double(double)>("cos")(x) == std::cos(x), "symbol", "cos of libm differs"); }
}
// a library that calls functions of another one, loaded before or after it, and one with a function nobody has
void dependent(Rng &r)
{
    for (int i = 1; i <= ALL; ++i) ups[i] = downs[i] = 0;
    auto open = [&](int i) { return std::make_unique<dynamic_loader>(path_of(i, r)); };
    std::vector<std::pair<std::unique_ptr<dynamic_loader>, int>> v; bool first = r.chance(50), lacks = r.chance(40);
    if (lacks) v.emplace_back(open(LACKS), LACKS);
    if (first) { v.emplace_back(open(PROVIDES), PROVIDES); v.emplace_back(open(USES), USES); } else { v.emplace_back(open(USES), USES); use(*v.back().first, USES, r, nullptr); v.emplace_back(open(PROVIDES), PROVIDES); }
    if (r.chance(40)) { int i = r.chance(50) ? PROVIDES : USES; v.emplace_back(open(i), i); }
    auto cross = [&] { for (auto &x : v) if (x.second == USES) { int a = r.below(1000), g = x.first->load<int(int)>("dl_cross")(a); CHECK(g == (a + PROVIDES) * 2, "symbol", "a function of library %d that uses one of library %d returns %d for %d", USES, PROVIDES, g, a); } };
    cross(); for (auto &x : v) use(*x.first, x.second, r, nullptr);
    std::string order; bool used = true;
    while (!v.empty())
    {
        size_t a = r.below(v.size()); order += vh::strf(" %d", v[a].second); v.erase(v.begin() + a); used = false; for (auto &x : v) used |= x.second == USES;
        if (used) cross();      // what it was bound to stays as long as it does
        for (auto &x : v) { CHECK(ups[x.second] == 1 && downs[x.second] == 0, "release", "library %d in use was loaded %d and unloaded %d times; dropped%s", x.second, ups[x.second].load(), downs[x.second].load(), order.c_str()); if (r.chance(50)) use(*x.first, x.second, r, nullptr); }
    }
    for (int i = 1; i <= ALL; ++i) { CHECK(ups[i] == (i == PROVIDES || i == USES || (i == LACKS && lacks)), "loads", "library %d was loaded %d times", i, ups[i].load()); CHECK(downs[i] == ups[i], "release", "library %d without users was loaded %d and unloaded %d times; dropped%s", i, ups[i].load(), downs[i].load(), order.c_str()); }
    vh::ev("dependent_libraries"); vh::distinct(vh::hash(order + vh::strf("%d", first)));
}
void threads(Rng &r)
{
    for (int i = 1; i <= N; ++i) ups[i] = downs[i] = 0; int n = 2 + r.below(5); std::vector<uint64_t> s; for (int i = 0; i < n; ++i) s.push_back(r.next()); int pool = 1 + r.below(N); std::unique_ptr<dynamic_loader> common; if (r.chance(50)) common = std::make_unique<dynamic_loader>(file(1)); act::Common c; std::vector<std::thread> t;
    act::together(c, false, r, n, "threads", [&](int me, Rng &q) {
        std::vector<std::pair<std::unique_ptr<dynamic_loader>, int>> v; int ops = 5 + q.below(25);
        for (int k = 0; k < ops; ++k) { vh::tick(); int x = q.below(10); if (v.empty() || (x < 3 && v.size() < 5)) { int id = 1 + q.below(pool); v.emplace_back(std::make_unique<dynamic_loader>(path_of(id, q)), id); } else if (x < 6) { auto &l = q.pick(v); use(*l.first, l.second, q, nullptr); } else if (x < 8) v.erase(v.begin() + q.below(v.size())); else if (x < 9) refuse(q, vh::strf("bad%d.so", me)); else if (common) use(*common, 1, q, nullptr); }
    });
    if (common) use(*common, 1, r, nullptr); common.reset(); for (int i = 1; i <= N; ++i) CHECK(ups[i] == downs[i], "release", "library %d was loaded %d and unloaded %d times", i, ups[i].load(), downs[i].load()); vh::ev("threads", n); vh::distinct(r.next());
}
}
extern "C" __attribute__((visibility("default"))) void vh_dl_event(int id, int what) { (what > 0 ? ups : downs)[id].fetch_add(1, std::memory_order_relaxed); vh::ev(what > 0 ? "loads" : "unloads"); }
void harness_init() { const char *a = getenv("VH_AUX"); if (!a) vh::broken("VH_AUX"); aux = a; dir = vh::scratch; for (int i = 1; i <= ALL; ++i) if (symlink(file(i).c_str(), vh::strf("%s/link%d", dir.c_str(), i).c_str())) vh::broken("symlink"); }
void harness_fini() {}
void run_case(uint64_t, Rng &r) { if (vh::mode == "mt") threads(r); else if (r.chance(15)) dependent(r); else history(r); }
