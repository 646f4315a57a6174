// C21/C22: subprocesses: what they get and give, and their life cycle.
#include "vh.h"
#include <csignal>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include "cppev/subprocess.h"
using vh::Rng;
using namespace cppev;
extern "C" { extern int (*vh_nanosleep_hook)(const timespec *, timespec *); extern void (*vh_kill_hook)(pid_t, int); }

namespace
{
std::string bin; bool mt;
std::string prog(const std::string &n) { return bin + "/" + n; }
uint64_t gmix(uint64_t z) { z += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
std::string gen(uint64_t s, uint64_t n, bool text) { std::string r(n, 0); for (uint64_t i = 0; i < n; ++i) { unsigned char c = gmix(s * 1000003 + i / 8) >> (i % 8 * 8); r[i] = text && !c ? 1 : c; } return r; }
int raised(const std::function<void()> &f, std::string *what = nullptr) { try { f(); } catch (const std::exception &e) { if (what) *what = e.what(); return 1; } return 0; }
void faults(Rng &r) { if (mt) return; inj::Rates x; if (r.chance(50)) { if (r.chance(70)) x.shorten = r.below(500); if (r.chance(50)) x.eintr = r.below(300); if (r.chance(30)) { x.delay = r.below(100); x.delay_us = 200; } } inj::random(r.next(), x); }
// library polls at 50 ms
int short_sleep(const timespec *a, timespec *) { double ms = a->tv_sec * 1e3 + a->tv_nsec / 1e6; if (ms > 10) ms = 1; vh::msleep(ms); return 0; }
std::string cmdline(const std::vector<std::string> &v) { std::string s; for (size_t i = 0; i < v.size(); ++i) s += (i ? " " : "") + v[i]; return s; }
std::string letters(unsigned char x) { return {char('a' + (x >> 4)), char('a' + (x & 15))}; }
std::string num(long long n) { return std::to_string(n); }
std::string diff(const std::string &got, const std::string &want)
{
    size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
    return vh::strf("%zu bytes, expected %zu, first difference at %zu", got.size(), want.size(), i);
}
// outcome of a child by waitid, without reaping: 0 running, 1 ended (status), -1 reaped
int truth(pid_t p, int &status)
{
    siginfo_t si; memset(&si, 0, sizeof si); if (syscall(SYS_waitid, P_PID, p, &si, WEXITED | WNOHANG | WNOWAIT, nullptr) != 0) return -1; if (si.si_pid == 0) return 0;
    status = si.si_code == CLD_EXITED ? si.si_status << 8 : si.si_code == CLD_KILLED ? si.si_status : si.si_status | 0x80; return 1;
}
// a stopped process has not ended
void stopped(subp_open &s, Rng &r)
{
    s.send_signal(SIGSTOP); siginfo_t si; vh::must("signal", "a subprocess stops", [&] { memset(&si, 0, sizeof si); return syscall(SYS_waitid, P_PID, s.pid(), &si, WSTOPPED | WNOHANG | WNOWAIT, nullptr) == 0 && si.si_pid; }, 20);
    int n = 1 + r.below(3); for (int i = 0; i < n; ++i) { CHECK(!s.poll(), "poll", "polling tells that a stopped process has ended, status 0x%x", s.returncode()); s.communicate(); int st; CHECK(truth(s.pid(), st) == 0, "poll", "polling reaped a stopped process"); }
    s.send_signal(SIGCONT); if (r.chance(50)) CHECK(!s.poll(), "poll", "polling tells that a continued process has ended, status 0x%x", s.returncode()); CHECK(!vh::waits([&] { s.poll(); }), "poll-blocks", "polling waits for the process"); vh::ev("stopped");
}
// waits until the child has written ready (nothing else follows)
void until_ready(subp_open &s) { double t0 = vh::now(); while (std::string(s.stdout()) != "ready\n") { s.communicate(); if (vh::now() - t0 > 20) vh::viol("not-captured", "output \"ready\" of a running subprocess does not arrive: %s", vh::show(s.stdout()).c_str()); vh::msleep(0.2); } }
void wait_any(subp_open &s, Rng &r)
{
    switch (r.below(4))
    {
    case 0: s.wait(); break;
    case 1: s.wait(std::chrono::microseconds(r.below(2000))); break;
    case 2: s.wait(std::chrono::milliseconds(r.below(3))); break;
    case 3: while (!s.poll()) { s.communicate(); if (r.chance(50)) vh::msleep(r.below(10) / 10.0); } s.communicate(); break;
    }
}
std::vector<std::string> random_env(Rng &r)
{
    std::vector<std::string> e; int n = r.below(r.chance(10) ? 300 : 8); for (int i = 0; i < n; ++i) { std::string v = r.bytes(r.below(n < 10 && r.chance(5) ? 20000 : 30)); for (auto &c : v) if (!c) c = 'z'; e.push_back(vh::strf("V%d=", int(r.below(n + 1))) + v); } return e;
}
void case_report(Rng &r)
{
    std::vector<std::string> args, env = random_env(r); int n = r.below(r.chance(5) ? 3000 : 10); for (int i = 0; i < n; ++i) { std::string a = r.chance(30) ? r.pick(std::vector<std::string>{"-", "--", "-la", "*", "$HOME", "'", "\"x\"", ";ls", "\\", "|", ">out", "&&", "\t", "\n", "a/b/", "/", "%s", "~"}) : r.bytes(1 + r.below(n < 20 && r.chance(3) ? 60000 : 20)); for (auto &c : a) if (!c || c == ' ') c = 'y'; args.push_back(a); }
    bool by_name = r.chance(30); std::string p = by_name ? "p-report" : prog("p-report"); if (by_name) env.push_back("PATH=" + std::string(r.chance(50) ? "/no/such:" : "") + bin);
    std::vector<std::string> all{p}; all.insert(all.end(), args.begin(), args.end()); std::string out; int rc;
    if (r.chance(50)) { auto t = subprocess::exec_cmd(cmdline(all), env); rc = std::get<0>(t); out = std::get<1>(t); CHECK(std::get<2>(t).empty(), "captured", "standard error is not empty: %s", vh::show(std::get<2>(t)).c_str()); }
    else { auto t = subprocess::exec_cmd(cmdline(all), env); rc = std::get<0>(t); out = std::get<1>(t); }
    CHECK(rc == 0, "command", "command ended with status 0x%x (%s)", rc, vh::show(cmdline(all)).c_str());
    size_t at = 0; auto u32 = [&] { CHECK(at + 4 <= out.size(), "captured", "output ends after %zu bytes", out.size()); uint32_t v; memcpy(&v, &out[at], 4); at += 4; return v; }; auto str = [&] { uint32_t l = u32(); CHECK(at + l <= out.size(), "captured", "output ends after %zu bytes", out.size()); std::string s = out.substr(at, l); at += l; return s; };
    uint32_t c = u32(); CHECK(c == args.size() + 1, "arguments", "%u arguments arrive instead of %zu", c, args.size() + 1); std::string zero = str(); CHECK(zero == "p-report" || zero == p, "arguments", "argument 0 is %s", vh::show(zero).c_str());
    for (size_t i = 0; i < args.size(); ++i) { std::string a = str(); CHECK(a == args[i], "arguments", "argument %zu is %s instead of %s", i + 1, vh::show(a).c_str(), vh::show(args[i]).c_str()); }
    c = u32(); CHECK(c == env.size(), "environment", "%u environment entries arrive instead of %zu", c, env.size()); for (size_t i = 0; i < env.size(); ++i) { std::string a = str(); CHECK(a == env[i], "environment", "environment entry %zu is %s instead of %s", i, vh::show(a).c_str(), vh::show(env[i]).c_str()); }
    CHECK(at == out.size(), "captured", "%zu bytes too many", out.size() - at); vh::ev("reports"); vh::ev("arguments", args.size()); vh::ev("environment_entries", env.size()); vh::distinct(vh::hash(cmdline(all)));
}
void case_emit(Rng &r)
{
    auto len = [&]() -> long { int x = r.below(100); return x < 15 ? 0 : x < 50 ? r.below(200) : x < 75 ? r.below(10000) : x < 95 ? 60000 + r.below(20000) : r.below(3000000); };
    long n1 = len(), n2 = len(); uint64_t s = r.below(1000000000); bool text = r.chance(50); int code = r.below(256), sig = r.chance(25) ? r.pick(std::vector<int>{SIGTERM, SIGKILL, SIGABRT, SIGSEGV, SIGUSR1, SIGPIPE, SIGALRM}) : 0; long chunk = 1 + r.below(r.chance(50) ? 100 : 100000); if (n1 + n2 > 300000 && chunk < 5000) chunk = 50000;
    int how = r.chance(40) ? r.below(4) : 0;
    std::string cmd = cmdline({prog("p-emit"), num(s), num(n1), num(n2), num(chunk), num(r.chance(40) ? r.below(500) : 0), num(code), num(sig), num(text), num(how)}), o = gen(s, n1, text), e = gen(s + 1, n2, text); int want = sig ? sig : code << 8;
    if (n1 + n2 > 20000 && chunk < 1000) cmd = cmdline({prog("p-emit"), num(s), num(n1), num(n2), num(chunk), "0", num(code), num(sig), num(text), num(how)});
    faults(r);
    if (!text || r.chance(30))
    {
        auto t = subprocess::exec_cmd(cmd, {}); CHECK(std::get<0>(t) == want, "status", "status 0x%x reported instead of 0x%x", std::get<0>(t), want);
        CHECK(std::get<1>(t) == o, "captured", "standard output: %s", diff(std::get<1>(t), o).c_str()); CHECK(std::get<2>(t) == e, "captured", "standard error: %s", diff(std::get<2>(t), e).c_str());
    }
    else
    {
        subp_open p(cmd, {"A=1"}); CHECK(p.pid() > 0, "pid", "pid %d", p.pid()); int mode = r.below(3); size_t so = 0, se = 0;
        if (mode == 1) vh::msleep(r.below(30) / 10.0);    // may have ended before anyone looks
        if (mode == 2) while (!p.poll())
        {
            p.communicate(); std::string a = p.stdout(), b = p.stderr(); CHECK(a.size() >= so && b.size() >= se && !o.compare(0, a.size(), a) && !e.compare(0, b.size(), b), "captured", "output so far is no prefix of what the subprocess writes: %s; %s", diff(a, o).c_str(), diff(b, e).c_str()); so = a.size(); se = b.size(); if (!mt) vh::tick();
        }
        wait_any(p, r); CHECK(p.returncode() == want, "status", "status 0x%x reported instead of 0x%x", p.returncode(), want);
        CHECK(o == p.stdout(), "captured", "standard output: %s", diff(p.stdout(), o).c_str()); CHECK(e == p.stderr(), "captured", "standard error: %s", diff(p.stderr(), e).c_str());
    }
    vh::ev("bytes_captured", n1 + n2); if (sig) vh::ev("ended_by_signal"); if (how & 1) vh::ev("closed_early"); if (how & 2) vh::ev("left_a_process"); if (n1 + n2 > 65536) vh::ev("more_than_a_pipe"); vh::distinct(vh::mix(s, n1 * 31 + n2));
}
void case_input(Rng &r)
{
    long total = r.chance(60) ? r.below(3000) : r.chance(80) ? r.below(200000) : r.below(3000000), chunk = 1 + r.below(r.chance(40) ? 200 : 70000); if (total > 100000 && chunk < 4096) chunk = 4096; int nth = r.chance(40) && total < 20000 ? 2 + r.below(5) : 0, code = r.below(256); bool any = r.chance(60); std::string in = gen(r.next() % 1000000007, total, !any), o, e; if (any && r.chance(50)) for (auto &c : in) if (c & 3) c = 0;
    for (long i = 0; i < total; ++i) (nth && i / 64 % nth == nth - 1 ? e : o) += any ? letters(in[i]) : std::string(1, in[i]);
    std::string cmd = cmdline({prog("p-cat"), num(total), num(chunk), num(nth), num(r.chance(40) && total / chunk < 300 ? r.below(300) : 0), num(code), any ? "1" : "0"}); faults(r);
    subp_open p(cmd, {}); long at = 0; int calls = 0;
    while (at < total || r.chance(20))
    {
        long n = std::min<long>(total - at, r.chance(30) ? total : 1 + r.below(r.chance(50) ? 100 : 100000)); if (total > 100000 && n < 1000) n = std::min<long>(total - at, 20000); ++calls;
        switch (r.below(4)) { case 0: p.communicate(in.data() + at, n); at += n; break; case 1: p.communicate(); break; case 2: p.communicate("", 0); break; case 3: p.communicate(in.substr(at, n)); at += n; break; }
        if (r.chance(20)) vh::msleep(r.below(10) / 10.0); if (r.chance(10)) CHECK(!p.poll() || at >= total, "poll", "a process that waits for input is told to have ended"); if (!mt) vh::tick();
    }
    wait_any(p, r); CHECK(p.returncode() == code << 8, "input", "the subprocess ended with status 0x%x instead of 0x%x, %ld bytes of input", p.returncode(), code << 8, total);
    CHECK(o == p.stdout(), "input", "echo of the input on standard output: %s", diff(p.stdout(), o).c_str()); CHECK(e == p.stderr(), "input", "echo of the input on standard error: %s", diff(p.stderr(), e).c_str());
    vh::ev("bytes_of_input", total); vh::ev("input_calls", calls); if (total > 65536) vh::ev("input_more_than_a_pipe"); if (any) vh::ev("input_of_any_bytes"); vh::distinct(vh::mix(total, chunk * 8 + calls));
}
void case_odd(Rng &r)
{
    switch (r.below(4))
    {
    case 0:     // cannot be executed
    {
        std::string bad = r.pick(std::vector<std::string>{"/no/such/program", "no_such_program_vh", bin, bin + "/not-executable", bin + "/", "", " ", "./", "/", "//", bin + "/p-report/x"}); std::string cmd = bad + (r.chance(50) ? " a b" : "");
        if (r.chance(50)) { auto t = subprocess::exec_cmd(cmd, random_env(r)); CHECK(std::get<0>(t) != 0, "status", "%s reports success", vh::show(cmd).c_str()); } else { subp_open p(cmd, {}); p.communicate("some input", 10); wait_any(p, r); CHECK(p.returncode() != 0 && p.poll(), "status", "%s reports success", vh::show(cmd).c_str()); }
        vh::ev("cannot_be_executed"); break;
    }
    case 1:     // input for a process that does not read it
    {
        int code = r.below(256), sig = r.chance(30) ? SIGKILL : 0; subp_open p(cmdline({prog("p-early"), num(code), num(sig)}), {}); int n = 1 + r.below(6); std::string in = r.text(r.chance(50) ? 100 : 100000, "abc"); for (int i = 0; i < n; ++i) { p.communicate(in); if (r.chance(50)) vh::msleep(r.below(20) / 10.0); }
        wait_any(p, r); CHECK(p.returncode() == (sig ? sig : code << 8), "status", "status 0x%x reported instead of 0x%x", p.returncode(), sig ? sig : code << 8); p.communicate(in); p.communicate(); vh::ev("input_not_read"); break;
    }
    case 2: { auto t = subprocess::exec_cmd(prog("p-eof"), {}); CHECK(std::get<0>(t) == 7 << 8, "input", "a command without input that reads its standard input ended with status 0x%x", std::get<0>(t)); vh::ev("commands_reading_nothing"); break; }
    case 3:     // output in both directions while nobody reads: no deadlock
    {
        long n = 100000 + r.below(400000); bool any = r.chance(60); std::string in = gen(r.below(1000), n, !any), want; if (any) for (char c : in) want += letters(c); else want = in; subp_open p(cmdline({prog("p-cat"), num(n), num(65536), "0", "0", "3", any ? "1" : "0"}), {}); p.communicate(in); wait_any(p, r); CHECK(p.returncode() == 3 << 8 && want == p.stdout(), "input", "one call with %ld bytes of input: %s", n, diff(p.stdout(), want).c_str()); vh::ev("input_in_one_call"); break;
    }
    }
}
void data_case(Rng &r) { int k = r.below(100); if (k < 25) case_report(r); else if (k < 55) case_emit(r); else if (k < 85) case_input(r); else case_odd(r); inj::reset(); }

// life cycle
std::atomic<int> stale{0};
void on_kill(pid_t p, int sig) { int st; if (p <= 0 || truth(p, st) == -1) vh::viol("misdirected-signal", "signal %d is sent to process %d, which is no child that still exists", sig, p); }
struct S { std::unique_ptr<subp_open> p; pid_t pid = 0; int kind = 0; bool over = false; int status = -1; std::string sigs; };
void check_end(S &s, const std::string &hist)
{
    int st; CHECK(truth(s.pid, st) == -1, "zombie", "after its end was reported the process is still a zombie;%s", hist.c_str()); CHECK(s.p->returncode() == s.status, "status", "status 0x%x reported instead of 0x%x;%s", s.p->returncode(), s.status, hist.c_str());
}
void do_poll(S &s, const std::string &hist)
{
    int st = -1, t = s.over ? -1 : truth(s.pid, st); if (t == 1) s.status = st; bool b = s.p->poll();
    if (s.over) { CHECK(b, "poll", "polling became false again;%s", hist.c_str()); check_end(s, hist); return; }
    if (t == 1) CHECK(b, "poll", "polling denies that the process has ended;%s", hist.c_str());
    if (b) { if (t == 0) { CHECK(truth(s.pid, st) == -1, "poll", "polling tells that a running process has ended;%s", hist.c_str()); s.status = s.p->returncode(); } s.over = true; check_end(s, hist); vh::ev("polls_true"); } else { CHECK(truth(s.pid, st) >= 0, "poll", "polling reaped the process and denies its end;%s", hist.c_str()); vh::ev("polls_false"); }
}
void case_history(Rng &r)
{
    int fds = vh::fd_count(), n = 5 + r.below(25), code = 1 + r.below(200); std::vector<S> v; std::string hist; uint64_t sig = 3;
    std::vector<pid_t> dropped;
    auto reap_dropped = [&](pid_t p, int kind) { double t0 = vh::now(); int st = 0; if (kind != 1) syscall(SYS_kill, p, SIGKILL); while (syscall(SYS_wait4, p, &st, WNOHANG, nullptr) == 0) { if (vh::now() - t0 > 20) vh::viol("no-eof", "a process does not see the end of its input after its handle is gone;%s", hist.c_str()); vh::msleep(0.1); } if (kind == 1) { CHECK(st == 7 << 8, "no-eof", "reading to the end of input ended with status 0x%x;%s", st, hist.c_str()); vh::ev("ends_of_input"); } };
    for (int i = 0; i < n; ++i)
    {
        if (hist.size() > 500) hist.erase(0, hist.size() - 500); vh::tick();
        int k = r.below(10); if (v.empty()) k = 0; size_t a = r.below(v.size()), b = r.below(v.size()); sig = vh::mix(sig, k);
        switch (k)
        {
        case 0:
        {
            if (v.size() > 4) continue; S s; s.kind = r.below(4); std::string c = s.kind == 0 ? prog("p-sleep") : s.kind == 1 ? prog("p-eof") : s.kind == 2 ? cmdline({prog("p-line"), num(code), num(r.chance(30) ? SIGUSR1 : 0)}) : cmdline({prog("p-early"), num(code)}); hist += vh::strf(" %zu:open(%d)", v.size(), s.kind);
            s.p = std::make_unique<subp_open>(c, std::vector<std::string>{}); s.pid = s.p->pid(); CHECK(s.pid > 1, "pid", "pid %d", s.pid); int st; CHECK(truth(s.pid, st) >= 0, "pid", "pid %d is no child of ours", s.pid); v.push_back(std::move(s)); vh::ev("subprocesses"); break;
        }
        case 1: case 2: hist += vh::strf(" poll%zu", a); do_poll(v[a], hist); break;
        case 3:
            if (v[a].kind == 0 && !v[a].over && r.chance(20)) { hist += vh::strf(" stop%zu", a); until_ready(*v[a].p); stopped(*v[a].p, r); break; }
            if (v[a].kind == 0 && !v[a].over) { int g = r.pick(std::vector<int>{SIGTERM, SIGKILL, SIGUSR1, SIGINT}); hist += vh::strf(" kill%zu(%d)", a, g); if (r.chance(60)) until_ready(*v[a].p); if (g == SIGTERM && r.chance(50)) v[a].p->terminate(); else if (g == SIGKILL && r.chance(50)) v[a].p->kill(); else v[a].p->send_signal(g); if (v[a].kind == 0) v[a].kind = 10; vh::ev("signals"); }
            break;
        case 4:
            if (v[a].over || v[a].kind == 3 || v[a].kind == 10 || v[a].kind == 12) { hist += vh::strf(" wait%zu", a); wait_any(*v[a].p, r); if (!v[a].over) { v[a].over = true; v[a].status = v[a].p->returncode(); if (v[a].kind == 3) CHECK(v[a].status == code << 8, "status", "status 0x%x", v[a].status); } check_end(v[a], hist); CHECK(v[a].p->poll(), "poll", "polling after waiting denies the end;%s", hist.c_str()); vh::ev("waits"); }
            break;
        case 5: hist += vh::strf(" comm%zu", a); if (v[a].kind == 2 && r.chance(60)) { v[a].p->communicate("x"); v[a].kind = 12; } else v[a].p->communicate(); break;
        case 6:
        {
            hist += vh::strf(" move%zu", a); auto q = std::make_unique<subp_open>(std::move(*v[a].p)); CHECK(q->pid() == v[a].pid, "pid", "moving changes the pid"); v[a].p = std::move(q); vh::ev("moves"); break;
        }
        case 7:
        {
            if (a == b) continue; hist += vh::strf(" %zu=%zu", a, b); pid_t p = v[a].pid; int kind = v[a].kind; bool over = v[a].over; *v[a].p = std::move(*v[b].p); v[a].pid = v[b].pid; v[a].kind = v[b].kind; v[a].over = v[b].over; v[a].status = v[b].status; v.erase(v.begin() + b); if (!over) reap_dropped(p, kind); vh::ev("overwrites"); break;
        }
        case 8: { hist += vh::strf(" ~%zu", a); pid_t p = v[a].pid; int kind = v[a].kind; bool over = v[a].over; v.erase(v.begin() + a); if (!over) reap_dropped(p, kind); vh::ev("destroyed"); break; }
        case 9: if (v[a].over) { hist += vh::strf(" late-signal%zu", a); CHECK(raised([&] { if (r.chance(30)) v[a].p->kill(); else if (r.chance(30)) v[a].p->terminate(); else v[a].p->send_signal(SIGTERM); }), "signal", "signalling a process that has been waited for raises no error;%s", hist.c_str()); vh::ev("late_signals"); } break;
        }
    }
    while (!v.empty()) { size_t a = r.below(v.size()); pid_t p = v[a].pid; int kind = v[a].kind; bool over = v[a].over; hist += vh::strf(" ~%zu", a); v.erase(v.begin() + a); if (!over) reap_dropped(p, kind); }
    CHECK(vh::fd_count() == fds, "leak", "%d descriptors are left, %d at first;%s", vh::fd_count(), fds, hist.c_str()); vh::ev("histories"); vh::distinct(sig); if (r.chance(2)) vh::sample(hist.substr(0, 300));
}
// what a child inherits while siblings are alive
void case_inherited(Rng &r)
{
    int fds = vh::fd_count(); { std::vector<std::unique_ptr<subp_open>> sib; int n = r.below(5); for (int i = 0; i < n; ++i) sib.push_back(std::make_unique<subp_open>(prog("p-sleep"), std::vector<std::string>{}));
    if (n && r.chance(50)) { size_t a = r.below(n); pid_t q = sib[a]->pid(); sib.erase(sib.begin() + a); syscall(SYS_kill, q, SIGKILL); syscall(SYS_wait4, q, nullptr, 0, nullptr); }
    // descriptors of any number, and standard ones that are closed in the parent
    std::vector<int> more; if (r.chance(25)) { int m = r.pick(std::vector<int>{20, 60, 130, 250, 500, 700, 1010, 1500, 4000}), d; while (int(more.size()) < m && (d = syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDONLY | O_CLOEXEC)) >= 0) { more.push_back(d); if (d > m) break; } vh::ev("high_descriptors"); }
    int saved[3] = {-1, -1, -1}, closed = r.chance(25) ? 1 + int(r.below(7)) : 0; for (int i = 0; i < 3; ++i) if (closed >> i & 1) { saved[i] = syscall(SYS_fcntl, i, F_DUPFD_CLOEXEC, 700); if (saved[i] < 0) continue; vh::sys_close(i); } if (closed) vh::ev("closed_standard_descriptors");
    std::string out, raises; int rc = -1; try { subp_open p(cmdline({prog("p-fds"), "1"}), {}); p.communicate("x"); wait_any(p, r); out = p.stdout(); rc = p.returncode(); } catch (const std::exception &e) { raises = e.what(); }
    for (int i = 0; i < 3; ++i) if (saved[i] >= 0) { syscall(SYS_dup3, saved[i], i, 0); vh::sys_close(saved[i]); } for (int d : more) vh::sys_close(d);
    CHECK(raises.empty(), "inherited", "with %zu more descriptors and standard ones closed (%d), using a subprocess raises %s", more.size(), closed, raises.c_str()); CHECK(rc == 0, "inherited", "with standard descriptors closed (%d), a subprocess that reads a byte of input ends with status 0x%x", closed, rc);
    size_t at = 0; std::map<int, std::string> to;
    while (at < out.size()) { size_t e = out.find('\n', at); if (e == std::string::npos) break; std::string l = out.substr(at, e - at); at = e + 1; int f = atoi(l.c_str()); to[f] = l.substr(l.find(' ') + 1); }
    CHECK(to.size() == 3 && to.count(0) && to.count(1) && to.count(2), "inherited", "a subprocess has these descriptors:\n%s", out.c_str()); CHECK(to[0] != to[1] && to[1] != to[2] && to[0] != to[2], "inherited", "standard descriptors of a subprocess are the same:\n%s", out.c_str());
    for (auto &s : sib) { s->kill(); s->wait(std::chrono::milliseconds(1)); } vh::ev("inheritances", n + 1); }
    CHECK(vh::fd_count() == fds, "leak", "%d descriptors are left, %d at first", vh::fd_count(), fds);
}
void case_signals(Rng &r)
{
    int n = 1 + r.below(4); std::vector<S> v(n); for (auto &s : v) { s.p = std::make_unique<subp_open>(prog("p-sig"), std::vector<std::string>{}); s.pid = s.p->pid(); } for (auto &s : v) { until_ready(*s.p); s.sigs = "ready\n"; }
    std::string h; int ops = 1 + r.below(8);
    auto settled = [&](S &s) { double t0 = vh::now(); while (s.sigs != s.p->stdout()) { if (vh::now() - t0 > 20) vh::viol("signal", "a subprocess got the signals %s instead of %s;%s", vh::show(s.p->stdout()).c_str(), vh::show(s.sigs).c_str(), h.c_str()); s.p->communicate(); vh::msleep(0.1); } };
    for (int i = 0; i < ops; ++i) { size_t a = r.below(n); int g = r.pick(std::vector<int>{SIGHUP, SIGINT, SIGQUIT, SIGUSR1, SIGUSR2, SIGALRM, SIGCONT, SIGWINCH, SIGRTMIN + 1}); v[a].p->send_signal(g); v[a].sigs += num(g) + "\n"; h += vh::strf(" %zu<-%d", a, g); settled(v[a]); vh::ev("signals"); }
    for (auto &s : v) settled(s);
    for (auto &s : v) { bool term = r.chance(50); if (term) { s.p->terminate(); s.sigs += num(SIGTERM) + "\n"; } else s.p->kill(); wait_any(*s.p, r); CHECK(s.p->returncode() == (term ? 33 << 8 : SIGKILL), "signal", "after %s the status is 0x%x", term ? "terminate" : "kill", s.p->returncode()); CHECK(s.sigs == s.p->stdout(), "signal", "a subprocess got the signals %s instead of %s;%s", vh::show(s.p->stdout()).c_str(), vh::show(s.sigs).c_str(), h.c_str()); vh::tick(); }
    vh::ev("signal_cases"); vh::distinct(vh::hash(h));
}
void case_failing(Rng &r)
{
    int fds = vh::fd_count(); int children = 0; std::string what; bool ran = false; uint64_t h0 = inj::scripted_hits();
    auto open = [&] { subp_open p(prog("p-early") + " 5", {}); ran = true; p.wait(std::chrono::milliseconds(1)); CHECK(p.returncode() == 5 << 8, "status", "status 0x%x", p.returncode()); };
    int e, k = r.below(3);
    if (k == 0) { inj::fail(inj::F_FORK, -1, r.pick(std::vector<int>{EAGAIN, ENOMEM}), 1); e = raised(open, &what); }
    else if (k == 1) { inj::fail(inj::F_PIPE, -1, r.pick(std::vector<int>{EMFILE, ENFILE}), 1, r.below(3)); e = raised(open, &what); }
    else
    {
        int keep = r.below(7); std::vector<int> f; rlimit rl, lo; getrlimit(RLIMIT_NOFILE, &rl); lo = rl; lo.rlim_cur = 64; setrlimit(RLIMIT_NOFILE, &lo); int d; while ((d = syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDONLY | O_CLOEXEC)) >= 0) f.push_back(d); for (int i = 0; i < keep && !f.empty(); ++i) { vh::sys_close(f.back()); f.pop_back(); }
        e = raised(open, &what); for (int x : f) vh::sys_close(x); setrlimit(RLIMIT_NOFILE, &rl); if (keep < 6) CHECK(e || ran, "failure", "without free descriptors nothing is raised"); vh::ev("out_of_descriptors");
    }
    bool hit = inj::scripted_hits() != h0; inj::reset(); if (hit && k < 2) { CHECK(e && !ran, "failure", "a failing system call while creating a subprocess raises no error"); vh::ev("creation_failures"); }
    siginfo_t si; memset(&si, 0, sizeof si); children = syscall(SYS_waitid, P_ALL, 0, &si, WEXITED | WNOHANG | WNOWAIT, nullptr) == 0; CHECK(!children, "leak", "a failed creation (%s) leaves a child", what.c_str()); CHECK(vh::fd_count() == fds, "leak", "a failed creation (%s) leaves %d descriptors instead of %d", what.c_str(), vh::fd_count(), fds); vh::distinct(vh::hash(what));
}
// several threads with subprocesses of their own
void case_threads(Rng &r, bool life)
{
    int n = 2 + r.below(5), fds = vh::fd_count(); std::vector<uint64_t> s; std::atomic<bool> over{false}; std::vector<std::thread> busy; std::string many; for (int i = 0; i < 1500; ++i) many += " 0" + std::string(i % 50, 'a');
    // other threads that use memory
    if (life && r.chance(50)) for (int i = 0; i < 3; ++i) busy.emplace_back([&] { std::vector<std::unique_ptr<char[]>> v; while (!over.load(std::memory_order_relaxed)) { for (int k = 0; k < 2000; ++k) v.emplace_back(new char[8 + k % 60]); v.clear(); } }); for (int i = 0; i < n; ++i) s.push_back(r.next()); std::vector<std::thread> t;
    for (int i = 0; i < n; ++i) t.emplace_back([&, i] {
        Rng q(s[i]);
        for (int k = 0; k < 4; ++k)
        {
            if (!life) { data_case(q); vh::tick(); continue; }
            subp_open p(prog("p-fds") + (q.chance(50) ? many : ""), {}); wait_any(p, q); std::string out = p.stdout(); int lines = 0; for (char c : out) lines += c == '\n'; CHECK(lines == 3, "inherited", "a subprocess started beside others has these descriptors:\n%s", out.c_str());
            auto e = std::make_unique<subp_open>(prog("p-eof"), std::vector<std::string>{}); pid_t pid = e->pid(); if (q.chance(50)) e->communicate("abc"); if (q.chance(50)) vh::msleep(q.below(20) / 10.0); e.reset();
            double t0 = vh::now(); int st = 0; while (syscall(SYS_wait4, pid, &st, WNOHANG, nullptr) == 0) { if (vh::now() - t0 > 20) vh::viol("no-eof", "beside other threads starting subprocesses, a process does not see the end of its input after its handle is gone"); vh::msleep(0.1); } CHECK(st == 7 << 8, "no-eof", "reading to the end of input ended with status 0x%x", st); vh::ev("ends_of_input"); vh::tick();
        } });
    for (auto &x : t) x.join(); over = true; for (auto &x : busy) x.join(); CHECK(vh::fd_count() == fds, "leak", "%d descriptors are left, %d at first", vh::fd_count(), fds); vh::ev("threads", n); vh::distinct(r.next());
}
}
void harness_init()
{
    signal(SIGPIPE, SIG_DFL); bin = vh::scratch + "/bin"; mkdir(bin.c_str(), 0755); const char *aux = getenv("VH_AUX"); if (!aux) vh::broken("VH_AUX");
    std::string body; int f = syscall(SYS_openat, AT_FDCWD, (std::string(aux) + "/probe").c_str(), O_RDONLY | O_CLOEXEC); char b[65536]; ssize_t n; while ((n = vh::sys_read(f, b, sizeof b)) > 0) body.append(b, n); vh::sys_close(f); if (body.empty()) vh::broken("no probe");
    for (const char *p : {"p-report", "p-emit", "p-cat", "p-early", "p-eof", "p-line", "p-sleep", "p-sig", "p-fds", "not-executable"}) { int o = syscall(SYS_openat, AT_FDCWD, prog(p).c_str(), O_CREAT | O_WRONLY | O_CLOEXEC, strcmp(p, "not-executable") ? 0755 : 0644); if (vh::sys_write(o, body.data(), body.size()) != ssize_t(body.size())) vh::broken("probe"); vh::sys_close(o); }
    for (int i = 3; i < 1024; ++i) { int fl = syscall(SYS_fcntl, i, F_GETFD); if (fl >= 0) syscall(SYS_fcntl, i, F_SETFD, FD_CLOEXEC); }
    vh_nanosleep_hook = short_sleep; if (vh::mode.find("life") == 0) vh_kill_hook = on_kill; mt = vh::mode == "datamt" || vh::mode == "lifemt";
}
void harness_fini() {}
void run_case(uint64_t, Rng &r)
{
    if (vh::mode == "data") { data_case(r); return; }
    if (mt) { case_threads(r, vh::mode == "lifemt"); return; }
    int k = r.below(100); if (k < 45) case_history(r); else if (k < 60) case_inherited(r); else if (k < 80) case_signals(r); else case_failing(r);
}
