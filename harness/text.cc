// C24: text, arithmetic, time and identification helpers against independent definitions.
#include "act.h"
#include <algorithm>
#include <numeric>
#include <queue>
#include <system_error>
#include <sys/wait.h>
#include "cppev/utils.h"
using vh::Rng;

namespace
{
bool mt;
template <typename F> bool raises(F f) { try { f(); } catch (const std::exception &) { return true; } return false; }
std::vector<std::string> ref_split(const std::string &s, const std::string &sep)
{
    std::vector<std::string> v; size_t at = 0, f;
    while ((f = s.find(sep, at)) != std::string::npos) { v.push_back(s.substr(at, f - at)); at = f + sep.size(); }
    v.push_back(s.substr(at)); return v;
}
std::string ref_join(const std::vector<std::string> &v, const std::string &sep) { std::string s; for (size_t i = 0; i < v.size(); ++i) { if (i) s.append(sep); s.append(v[i]); } return s; }
bool starts(const std::string &s, const std::string &c) { return s.compare(0, c.size(), c) == 0; }
bool ends(const std::string &s, const std::string &c) { return s.size() >= c.size() && s.compare(s.size() - c.size(), c.size(), c) == 0; }
std::string ref_strip(std::string s, const std::string &c, bool l, bool r)
{
    if (l) { size_t p = 0; while (s.compare(p, c.size(), c) == 0) p += c.size(); s.erase(0, p); }
    if (r) { size_t e = s.size(); while (e >= c.size() && s.compare(e - c.size(), c.size(), c) == 0) e -= c.size(); s.resize(e); }
    return s;
}
std::string any_text(Rng &r, size_t n)
{
    switch (r.below(4)) { case 0: return r.bytes(n); case 1: return r.text(n, std::string("a\0", 2)); case 2: return r.text(n, "ab"); default: return r.text(n, std::string(" ,a\n\xff\0;", 7)); }
}
size_t length(Rng &r) { int k = r.below(100); return k < 10 ? 0 : k < 50 ? r.below(6) : k < 90 ? r.below(60) : k < 98 ? r.below(2000) : r.below(200000); }
// text in which the separator occurs a lot, overlaps itself and is cut off
std::string with(Rng &r, const std::string &sep, size_t n)
{
    std::string s; while (s.size() < n) switch (r.below(5)) { case 0: case 1: s += sep; break; case 2: s += sep.substr(0, r.below(sep.size() + 1)); break; case 3: s += sep.substr(r.below(sep.size())); break; default: s += any_text(r, r.below(4)); }
    if (r.chance(20)) s.resize(n); return s;
}
void texts(Rng &r)
{
    size_t n = length(r); std::string sep; int sk = r.below(10); size_t sl = sk < 5 ? 1 : sk < 9 ? 1 + r.below(4) : 1 + r.below(n + 4); do sep = any_text(r, sl); while (sep.empty()); std::string s = r.chance(70) ? with(r, sep, n) : any_text(r, n); if (r.chance(3)) s = sep;
    auto got = cppev::split(s, sep), want = ref_split(s, sep); CHECK(got == want, "split", "splitting %s at %s gives %zu pieces instead of %zu", vh::show(s).c_str(), vh::show(sep).c_str(), got.size(), want.size());
    std::string back = cppev::join(got, sep); CHECK(back == s, "join", "joining the pieces of %s with %s gives %s", vh::show(s).c_str(), vh::show(sep).c_str(), vh::show(back).c_str());
    vh::ev("splits"); vh::ev("pieces", got.size());
    std::vector<std::string> v(r.chance(5) ? 0 : r.below(10)); for (auto &x : v) x = any_text(r, r.chance(30) ? 0 : r.below(20)); std::string glue = r.chance(15) ? "" : any_text(r, r.below(4));
    std::string j = cppev::join(v, glue); CHECK(j == ref_join(v, glue), "join", "joining %zu texts with %s gives %s", v.size(), vh::show(glue).c_str(), vh::show(j).c_str()); vh::ev("joins"); if (v.empty()) vh::ev("joins_of_nothing");
    std::string c = sep, b = r.chance(30) ? s : ""; for (size_t i = r.below(4); i--;) b += c; b += any_text(r, r.below(6)); if (r.chance(30)) b += c.substr(r.below(c.size())); for (size_t i = r.below(4); i--;) b += c; if (r.chance(10)) { b.clear(); for (size_t i = r.below(5); i--;) b += c; b += c.substr(0, r.below(c.size())); }
    std::string a = cppev::strip(b, c), l = cppev::lstrip(b, c), q = cppev::rstrip(b, c);
    CHECK(l == ref_strip(b, c, true, false), "strip", "lstrip of %s by %s gives %s", vh::show(b).c_str(), vh::show(c).c_str(), vh::show(l).c_str()); CHECK(q == ref_strip(b, c, false, true), "strip", "rstrip of %s by %s gives %s", vh::show(b).c_str(), vh::show(c).c_str(), vh::show(q).c_str());
    CHECK(!starts(a, c) && !ends(a, c), "strip", "strip of %s by %s leaves %s", vh::show(b).c_str(), vh::show(c).c_str(), vh::show(a).c_str()); CHECK(a == ref_strip(b, c, true, true), "strip", "strip of %s by %s gives %s", vh::show(b).c_str(), vh::show(c).c_str(), vh::show(a).c_str()); vh::ev("strips"); if (a.size() < b.size()) vh::ev("stripped");
    if (r.chance(5)) { CHECK(raises([&] { cppev::split(s, ""); }), "empty", "splitting at nothing raises no error"); CHECK(raises([&] { cppev::strip(s, ""); }) && raises([&] { cppev::lstrip(s, ""); }) && raises([&] { cppev::rstrip(s, ""); }), "empty", "stripping nothing raises no error"); vh::ev("refused"); }
    vh::distinct(vh::mix(vh::hash(s.substr(0, 200)), vh::hash(sep.substr(0, 50)))); if (r.chance(1)) vh::sample("split " + vh::show(s, 40) + " at " + vh::show(sep, 10) + vh::strf(": %zu pieces", got.size()));
}
int64_t positive(Rng &r) { int b = 1 + r.below(63); int64_t x = r.next() & ((b == 63 ? ~0ull >> 1 : (1ull << b) - 1)); if (r.chance(5)) x = INT64_MAX - r.below(3); return x ? x : 1; }
void numbers(Rng &r)
{
    auto rep = [&](__int128 x) { return x <= INT64_MAX; };
    auto L = [](int64_t a, int64_t b) { __int128 g = std::gcd(a, b); return __int128(a) / g * b; };
    for (int i = 0; i < 20; ++i)
    {
        int64_t a = positive(r), b = positive(r); if (r.chance(50)) { int64_t g = 1 + r.below(100000); a = 1 + r.below(1000000000) % 100000; b = 1 + r.below(100000); a *= g; b *= g; if (r.chance(20)) b = a; if (r.chance(10)) a = 1; }
        int64_t g = cppev::greatest_common_divisor(a, b); CHECK(g == std::gcd(a, b), "gcd", "gcd(%lld, %lld) = %lld", (long long)a, (long long)b, (long long)g);
        if (rep(L(a, b))) { int64_t l = cppev::least_common_multiple(a, b); CHECK(l == int64_t(L(a, b)), "lcm", "lcm(%lld, %lld) = %lld", (long long)a, (long long)b, (long long)l); vh::ev("lcms"); }
        std::vector<int64_t> v(2 + r.below(6)); int64_t f = 1 + r.below(1000); for (auto &x : v) x = f * (1 + r.below(r.chance(50) ? 60 : 100000)); if (r.chance(20)) for (auto &x : v) x = positive(r);
        int64_t gv = v[0]; __int128 lv = v[0]; for (size_t k = 1; k < v.size(); ++k) { gv = std::gcd(gv, v[k]); if (rep(lv)) lv = L(lv, v[k]); }
        std::string s; for (auto x : v) s += vh::strf(" %lld", (long long)x);
        g = cppev::greatest_common_divisor(v); CHECK(g == gv, "gcd", "gcd(%s ) = %lld", s.c_str(), (long long)g); if (rep(lv)) { int64_t l = cppev::least_common_multiple(v); CHECK(l == int64_t(lv), "lcm", "lcm(%s ) = %lld", s.c_str(), (long long)l); vh::ev("lcms"); } vh::ev("gcds", 2); vh::distinct(vh::mix(a, b));
    }
}
// ---- time ----
long days_from_civil(long y, int m, int d) { y -= m <= 2; long era = (y >= 0 ? y : y - 399) / 400; unsigned long yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + long(doe) - 719468; }
struct Civil { long y; int m, d, wd, yd, H, M, S; };
Civil civil(int64_t t)
{
    Civil c; int64_t z = t / 86400, s = t % 86400; if (s < 0) { s += 86400; --z; } c.H = s / 3600; c.M = s / 60 % 60; c.S = s % 60; c.wd = ((z + 4) % 7 + 7) % 7; int64_t w = z;
    z += 719468; long era = (z >= 0 ? z : z - 146096) / 146097; unsigned long doe = z - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; c.y = long(yoe) + era * 400; unsigned long doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153; c.d = doy - (153 * mp + 2) / 5 + 1; c.m = mp < 10 ? mp + 3 : mp - 9; c.y += c.m <= 2; c.yd = w - days_from_civil(c.y, 1, 1); return c;
}
struct Zone { const char *tz; int off; const char *name; bool eu; };
const Zone zones[] = {{"UTC", 0, "UTC", false}, {"XYZ-5:30", 19800, "XYZ", false}, {"ABC+8", -28800, "ABC", false}, {"<+1245>-12:45", 45900, "+1245", false}, {"CET-1CEST,M3.5.0,M10.5.0/3", 3600, "CET", true}};
const Zone *zone;
int offset_at(int64_t t, std::string &name)
{
    name = zone->name; if (!zone->eu) return zone->off; Civil c = civil(t); long y = c.y;
    auto last_sunday = [&](int m) { long d = days_from_civil(y, m, 31); return (d - ((d + 4) % 7 + 7) % 7) * 86400 + 3600; };
    if (t >= last_sunday(3) && t < last_sunday(10)) { name = "CEST"; return 7200; } return zone->off;
}
std::string ref_format(int64_t t, const std::string &f)
{
    static const char *wd[] = {"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"}, *mo[] = {"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"};
    std::string name, o; int off = offset_at(t, name); Civil c = civil(t + off);
    for (size_t i = 0; i < f.size(); ++i)
    {
        if (f[i] != '%') { o += f[i]; continue; }
        switch (f[++i])
        {
        case 'Y': o += std::to_string(c.y); break; case 'm': o += vh::strf("%02d", c.m); break; case 'd': o += vh::strf("%02d", c.d); break; case 'H': o += vh::strf("%02d", c.H); break; case 'M': o += vh::strf("%02d", c.M); break; case 'S': o += vh::strf("%02d", c.S); break;
        case 'F': o += vh::strf("%ld-%02d-%02d", c.y, c.m, c.d); break; case 'T': o += vh::strf("%02d:%02d:%02d", c.H, c.M, c.S); break; case 'Z': o += name; break; case 'z': o += vh::strf("%c%02d%02d", off < 0 ? '-' : '+', abs(off) / 3600, abs(off) / 60 % 60); break;
        case 'j': o += vh::strf("%03d", c.yd + 1); break; case 'A': o += wd[c.wd]; break; case 'a': o += std::string(wd[c.wd], 3); break; case 'B': o += mo[c.m - 1]; break; case 'b': o += std::string(mo[c.m - 1], 3); break; case 'u': o += char('0' + (c.wd ? c.wd : 7)); break; case '%': o += '%'; break;
        }
    }
    return o;
}
void times(Rng &r)
{
    if (!mt) { zone = &zones[r.below(5)]; setenv("TZ", zone->tz, 1); tzset(); }
    for (int i = 0; i < 10; ++i)
    {
        int64_t t; switch (r.below(6)) { case 0: t = r.below(4102444800ll); break; case 1: t = r.below(100000); break; case 2: t = days_from_civil(1970 + r.below(200), 1 + r.below(12), 1 + r.below(28)) * 86400 + r.range(-2, 2); break; case 3: t = r.below(253402300800ll); break; case 4: t = r.below(67768036191676799ll - 86400); break; default: t = (1ll << (31 + r.below(4))) + r.range(-2, 2); }
        if (t < 0 || r.chance(3)) t = 0; if (zone->eu) t %= 253402214400ll /* rules of later years are up to the C library */; std::string f; int parts = 1 + r.below(r.chance(5) ? 250 : 8); for (int k = 0; k < parts; ++k) { if (r.chance(30)) f += r.text(1 + r.below(3), "abc :-/\xc3"); f += '%'; f += "YmdHMSFTZzjAaBbu%"[r.below(17)]; }
        bool dflt = r.chance(20); std::string want = ref_format(t, dflt ? "%F %T %Z" : f), got; bool err = raises([&] { got = dflt ? cppev::timestamp(t) : cppev::timestamp(t, f.c_str()); });
        if (want.size() < 1000) CHECK(!err && got == want, "timestamp", "time %lld in %s by %s is %s instead of %s", (long long)t, zone->tz, dflt ? "default" : f.c_str(), err ? "an error" : got.c_str(), want.c_str()); else CHECK(err || got == want, "timestamp", "a long format is cut off"); vh::ev("timestamps"); vh::distinct(vh::mix(t, vh::hash(f)));
    }
    int64_t far = INT64_MAX - r.below(1ll << (1 + r.below(62))); if (far > 67768036191676799ll + 86400) { std::string got; bool err = raises([&] { got = cppev::timestamp(far); }); CHECK(err, "timestamp", "time %lld, whose year cannot be represented, is %s", (long long)far, vh::show(got).c_str()); vh::ev("overflowing_times"); }
    time_t a = ::time(nullptr), c = cppev::time(), b = ::time(nullptr); CHECK(a <= c && c <= b, "time", "the time is %lld between %lld and %lld", (long long)c, (long long)a, (long long)b); a = ::time(nullptr); std::string now = cppev::timestamp(); b = ::time(nullptr); bool in = false; for (time_t x = a; x <= b; ++x) in |= now == ref_format(x, "%F %T %Z"); CHECK(in, "timestamp", "the present time is %s", now.c_str());
}
template <typename D> struct Clk { typedef D duration; typedef typename D::rep rep; typedef typename D::period period; typedef std::chrono::time_point<Clk> time_point; static const bool is_steady = false; static time_point now() { return time_point(std::chrono::duration_cast<D>(std::chrono::system_clock::now().time_since_epoch())); } };
template <typename C> void ceiling(Rng &r, const char *name)
{
    using namespace std::chrono; typedef typename C::duration D; typedef typename C::time_point P; int64_t sec = duration_cast<D>(seconds(1)).count();
    for (int i = 0; i < 10; ++i)
    {
        int64_t x; switch (r.below(5)) { case 0: x = r.below(4000000000ull) * sec + r.below(sec); break; case 1: x = r.below(1000) * sec; break; case 2: x = (1 + r.below(4000000000ull)) * sec - 1; break; case 3: x = r.below(3 * sec); break; default: x = r.range(-4000000000ll, 4) * sec - int64_t(r.below(sec)) * r.below(2); /* before the epoch, too */ }
        P p{D(x)}; P c = cppev::ceil_time_point<C>(p); int64_t y = c.time_since_epoch().count(); CHECK(y == ((x >= 0 ? x / sec : -((-x + sec - 1) / sec)) + 1) * sec, "ceil", "%lld of %s (%lld a second) is rounded up to %lld", (long long)x, name, (long long)sec, (long long)y); vh::ev("rounded");
    }
}
template <typename C> void sleeping(Rng &r, const char *name)
{
    using namespace std::chrono; auto t = C::now() + duration_cast<typename C::duration>(microseconds(r.range(-2000, 3000))); cppev::sleep_until<C>(duration_cast<nanoseconds>(t.time_since_epoch())); auto e = C::now(); CHECK(e >= t, "sleep", "sleeping by %s ended early", name); vh::ev("slept");
}
// ---- identification ----
void ids(Rng &r)
{
    CHECK(cppev::gettid() == syscall(SYS_gettid), "gettid", "the thread's id is %d instead of %ld", cppev::gettid(), syscall(SYS_gettid));
    int n = 1 + r.below(4); std::vector<std::thread> t; for (int i = 0; i < n; ++i) t.emplace_back([] { for (int k = 0; k < 3; ++k) { auto a = cppev::gettid(); CHECK(a == syscall(SYS_gettid), "gettid", "a thread's id is %d instead of %ld", a, syscall(SYS_gettid)); } vh::ev("thread_ids"); }); for (auto &x : t) x.join();
    if (mt || !r.chance(40)) return;
    int deep = r.below(3); bool in_thread = r.chance(30); std::function<int()> child = [&]() -> int { if (cppev::gettid() != syscall(SYS_gettid)) return 1; bool bad = false; std::thread q([&] { bad = cppev::gettid() != syscall(SYS_gettid); }); q.join(); if (bad || cppev::gettid() != syscall(SYS_gettid)) return 2; if (deep-- > 0) { int st = vh::reap(vh::spawn(child)); return st == -1 ? 3 : WEXITSTATUS(st); } return 0; };
    int st; if (in_thread) { std::thread q([&] { cppev::gettid(); st = vh::reap(vh::spawn(child)); }); q.join(); } else st = vh::reap(vh::spawn(child));
    CHECK(WIFEXITED(st) && WEXITSTATUS(st) < 3, "child-died", "status 0x%x", st); CHECK(WEXITSTATUS(st) == 0, "gettid", "in a forked process the thread id is wrong (%d)", WEXITSTATUS(st)); vh::ev("forked_ids");
}
enum class Colour { red = -3, green, blue = 100000 };
void comparisons(Rng &r)
{
    typedef std::tuple<int, std::string, unsigned> T; std::vector<T> v; int n = r.below(20); for (int i = 0; i < n; ++i) v.emplace_back(r.range(-5, 5), any_text(r, r.below(3)), r.below(4)); T a(r.range(-2, 2), "b", 1), b(r.range(-2, 2), r.chance(50) ? "a" : "c", r.below(3));
    CHECK((cppev::tuple_less<T, 0>()(a, b)) == (std::get<0>(a) < std::get<0>(b)) && (cppev::tuple_greater<T, 0>()(a, b)) == (std::get<0>(a) > std::get<0>(b)) && (cppev::tuple_less<T, 1>()(a, b)) == (std::get<1>(a) < std::get<1>(b)) && (cppev::tuple_greater<T, 2>()(a, b)) == (std::get<2>(a) > std::get<2>(b)), "compare", "tuples are compared by the wrong element");
    std::priority_queue<T, std::vector<T>, cppev::tuple_less<T, 2>> q(v.begin(), v.end()); unsigned last = 4; while (!q.empty()) { CHECK(std::get<2>(q.top()) <= last, "compare", "a queue of tuples is out of order"); last = std::get<2>(q.top()); q.pop(); }
    cppev::enum_hash h; CHECK(h(Colour::red) == h(Colour::red) && h(Colour::blue) == h(Colour::blue), "hash", "equal values hash differently");
    int e = 1 + r.below(130); std::string text = "some text " + std::to_string(r.below(1000)); auto held = [&](const std::exception &x) { return strstr(x.what(), text.c_str()) != nullptr; }; int ok = 0;
    try { cppev::throw_system_error(text, e); } catch (const std::system_error &x) { ok += x.code().value() == e && x.code().category() == std::system_category() && held(x); }
    try { errno = e; cppev::throw_system_error(text); } catch (const std::system_error &x) { ok += x.code().value() == e && held(x); }
    try { cppev::throw_logic_error(text); } catch (const std::logic_error &x) { ok += held(x); }
    try { cppev::throw_runtime_error(text); } catch (const std::system_error &) {} catch (const std::runtime_error &x) { ok += held(x); }
    CHECK(ok == 4, "errors", "only %d of 4 errors carry their code %d and text", ok, e); vh::ev("comparisons");
}
void huge()
{
    size_t n = (1ull << 31) + 1000; std::string s(n, 'x'); size_t at[] = {10, 1ull << 30, (1ull << 31) - 1, (1ull << 31) + 7}; for (size_t a : at) s[a] = ','; auto v = cppev::split(s, ","); CHECK(v.size() == 5, "split", "a text of %zu bytes gives %zu pieces instead of 5", n, v.size()); size_t b = 0; for (int i = 0; i < 5; ++i) { size_t e = i < 4 ? at[i] : n; CHECK(v[i].size() == e - b && (v[i].empty() || (v[i][0] == 'x' && v[i].back() == 'x')), "split", "piece %d of a text of %zu bytes has %zu bytes instead of %zu", i, n, v[i].size(), e - b); b = e + 1; } vh::tick();
    CHECK(cppev::join(v, ",") == s, "join", "joining the pieces of a text of %zu bytes gives another one", n); vh::tick(); v.clear(); s[0] = s[n - 1] = ','; s = cppev::strip(s, ","); CHECK(s.size() == n - 2, "strip", "stripping a text of %zu bytes gives %zu", n, s.size()); vh::ev("gigabyte_texts"); vh::distinct(n);
}
void one(Rng &r)
{
    int k = r.below(100);
    if (k < 55) for (int i = 0; i < 10; ++i) texts(r); else if (k < 65) numbers(r); else if (k < 80) times(r);
    else if (k < 87) { using namespace std::chrono; ceiling<system_clock>(r, "system clock"); ceiling<steady_clock>(r, "steady clock"); ceiling<Clk<milliseconds>>(r, "milliseconds"); ceiling<Clk<microseconds>>(r, "microseconds"); ceiling<Clk<seconds>>(r, "seconds"); }
    else if (k < 90) { if (r.chance(50)) sleeping<std::chrono::system_clock>(r, "system clock"); else if (r.chance(50)) sleeping<std::chrono::steady_clock>(r, "steady clock"); else sleeping<Clk<std::chrono::microseconds>>(r, "microseconds"); }
    else if (k < 95) ids(r); else comparisons(r);
}
}
void harness_init() { mt = vh::mode == "mt"; zone = &zones[mt ? vh::seed % 5 : 0]; setenv("TZ", zone->tz, 1); tzset(); if (vh::mode == "huge") vh::set_patience(200); }
void harness_fini() {}
void run_case(uint64_t, Rng &r)
{
    if (vh::mode == "huge") { huge(); return; }
    if (!mt) { one(r); return; }
    int n = 2 + r.below(4); std::vector<uint64_t> s; for (int i = 0; i < n; ++i) s.push_back(r.next()); std::vector<std::thread> t; for (int i = 0; i < n; ++i) t.emplace_back([&, i] { Rng q(s[i]); for (int k = 0; k < 5; ++k) { one(q); vh::tick(); } }); for (auto &x : t) x.join(); vh::ev("threads", n);
}
