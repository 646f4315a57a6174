// Raw sockets for the far side of what the library does
#ifndef NET_H
#define NET_H
#include "vh.h"
#include <arpa/inet.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/syscall.h>

namespace net
{
struct Addr
{
    sockaddr_storage ss; socklen_t len;
    int fam() const { return ss.ss_family; }
    int port() const { return ntohs(fam() == AF_INET ? ((sockaddr_in *)&ss)->sin_port : ((sockaddr_in6 *)&ss)->sin6_port); }
    std::string ip() const
    {
        char b[64] = ""; 
        if (fam() == AF_INET) inet_ntop(AF_INET, &((sockaddr_in *)&ss)->sin_addr, b, sizeof b);
        else inet_ntop(AF_INET6, &((sockaddr_in6 *)&ss)->sin6_addr, b, sizeof b);
        return b;
    }
    std::string path() const
    {
        auto u = (const sockaddr_un *)&ss;
        size_t n = len - offsetof(sockaddr_un, sun_path);
        return std::string(u->sun_path, strnlen(u->sun_path, n));
    }
};
inline Addr addr_ip(int fam, const std::string &ip, int port)
{
    Addr a; memset(&a, 0, sizeof a); a.ss.ss_family = fam;
    if (fam == AF_INET) { auto p = (sockaddr_in *)&a.ss; p->sin_port = htons(port); inet_pton(fam, ip.c_str(), &p->sin_addr); a.len = sizeof *p; }
    else { auto p = (sockaddr_in6 *)&a.ss; p->sin6_port = htons(port); inet_pton(fam, ip.c_str(), &p->sin6_addr); a.len = sizeof *p; }
    return a;
}
inline Addr addr_unix(const std::string &path)
{
    Addr a; memset(&a, 0, sizeof a); auto p = (sockaddr_un *)&a.ss; p->sun_family = AF_UNIX;
    if (path.size() >= sizeof p->sun_path) vh::broken("path too long");
    memcpy(p->sun_path, path.data(), path.size()); a.len = offsetof(sockaddr_un, sun_path) + path.size() + 1;
    return a;
}
inline const char *loop_ip(int fam) { return fam == AF_INET ? "127.0.0.1" : "::1"; }
inline int sock(int fam, int type) { int s = syscall(SYS_socket, fam, type | SOCK_CLOEXEC, 0); if (s < 0) vh::broken("raw socket errno %d", errno); return s; }
inline Addr local(int s) { Addr a; memset(&a, 0, sizeof a); a.len = sizeof a.ss; if (syscall(SYS_getsockname, s, &a.ss, &a.len) < 0) vh::broken("getsockname %d", errno); return a; }
inline Addr peer(int s) { Addr a; memset(&a, 0, sizeof a); a.len = sizeof a.ss; if (syscall(SYS_getpeername, s, &a.ss, &a.len) < 0) a.len = 0; return a; }
// a port below the ephemeral range that no other harness process uses: processes own disjoint ranges
inline int my_port()
{
    static int slot = -1; static unsigned next = 0; static std::mutex mx; std::lock_guard<std::mutex> _(mx);
    for (int i = 0; slot < 0; ++i)
    {
        if (i == 24) vh::broken("no port range left");
        int s = sock(AF_UNIX, SOCK_STREAM); sockaddr_un u; memset(&u, 0, sizeof u); u.sun_family = AF_UNIX;
        int n = snprintf(u.sun_path + 1, 100, "vh-port-range-%d", i);
        if (syscall(SYS_bind, s, &u, offsetof(sockaddr_un, sun_path) + 1 + n) == 0) slot = i;     // kept open
        else vh::sys_close(s);
    }
    return 20000 + slot * 500 + next++ % 500;
}
inline int listener(const Addr &a, int backlog = 512)
{
    int s = sock(a.fam(), SOCK_STREAM); int one = 1;
    syscall(SYS_setsockopt, s, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
    if (syscall(SYS_bind, s, &a.ss, a.len) < 0) vh::broken("raw bind errno %d", errno);
    if (syscall(SYS_listen, s, backlog) < 0) vh::broken("raw listen errno %d", errno);
    return s;
}
inline int connect_to(const Addr &a, int rcvbuf = 0)
{
    int s = sock(a.fam(), SOCK_STREAM);
    if (rcvbuf) syscall(SYS_setsockopt, s, SOL_SOCKET, SO_RCVBUF, &rcvbuf, sizeof rcvbuf);
    int r;
    while ((r = syscall(SYS_connect, s, &a.ss, a.len)) < 0 && errno == EINTR) ;
    if (r < 0) { int e = errno; vh::sys_close(s); errno = e; return -1; }
    return s;
}
inline int accept_one(int l, int timeout_ms = 15000)
{
    for (int w = 0; w < timeout_ms; w += 100)
    {
        vh::tick();
        if (vh::sys_poll(l, POLLIN, 100) & POLLIN)
        {
            int s = syscall(SYS_accept4, l, nullptr, nullptr, SOCK_CLOEXEC);
            if (s >= 0) return s;
        }
    }
    return -1;
}
inline void nonblock(int fd) { syscall(SYS_fcntl, fd, F_SETFL, syscall(SYS_fcntl, fd, F_GETFL) | O_NONBLOCK); }
inline void rst_close(int s) { linger l{1, 0}; syscall(SYS_setsockopt, s, SOL_SOCKET, SO_LINGER, &l, sizeof l); vh::sys_close(s); }
// blocking write of everything; false if the peer is gone
inline bool write_full(int fd, const char *p, size_t n)
{
    double waited = 0;
    while (n)
    {
        ssize_t r = syscall(SYS_sendto, fd, p, n, MSG_NOSIGNAL | MSG_DONTWAIT, nullptr, 0);
        if (r < 0 && errno == ENOTSOCK) r = vh::sys_write(fd, p, n);
        if (r < 0 && (errno == EAGAIN || errno == EINTR)) { vh::sys_poll(fd, POLLOUT, 20); waited += 0.02; if (waited > 60) return false; continue; }
        if (r < 0) return false;
        waited = 0; vh::tick();
        p += r; n -= r;
    }
    return true;
}
// reads what is there; appends; returns false at end of file or error
inline bool read_some(int fd, std::string &out, size_t max = 65536, bool *reset = nullptr)
{
    std::vector<char> b(max);
    ssize_t r = syscall(SYS_read, fd, b.data(), max);
    if (r > 0) { out.append(b.data(), r); return true; }
    if (r < 0 && (errno == EAGAIN || errno == EINTR)) return true;
    if (r < 0 && reset) *reset = true;
    return false;
}
// -1 nothing yet, 0 data, 1 eof, 2 error
inline int peek(int fd)
{
    char c; ssize_t r = syscall(SYS_recvfrom, fd, &c, 1, MSG_PEEK | MSG_DONTWAIT, nullptr, nullptr);
    if (r > 0) return 0;
    if (r == 0) return 1;
    return errno == EAGAIN ? -1 : 2;
}
}
#endif
