// Interposed system calls (linked with --wrap): while a Sys is installed on
// the current thread, the calls of the library go through it.
#pragma once
#include <cerrno>
#include <cstdarg>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <csignal>
#include <chrono>
#include <ctime>
#include <sys/time.h>
#include <poll.h>
#include <sys/epoll.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

extern "C"
{
#define VP_CALLS(X) \
    X(int, socket, (int d, int t, int p), (d, t, p)) \
    X(int, connect, (int fd, const sockaddr *a, socklen_t l), (fd, a, l)) \
    X(int, close, (int fd), (fd)) \
    X(int, bind, (int fd, const sockaddr *a, socklen_t l), (fd, a, l)) \
    X(int, listen, (int fd, int n), (fd, n)) \
    X(int, accept, (int fd, sockaddr *a, socklen_t *l), (fd, a, l)) \
    X(int, accept4, (int fd, sockaddr *a, socklen_t *l, int f), (fd, a, l, f)) \
    X(int, setsockopt, (int fd, int lv, int n, const void *v, socklen_t l), (fd, lv, n, v, l)) \
    X(int, getsockopt, (int fd, int lv, int n, void *v, socklen_t *l), (fd, lv, n, v, l)) \
    X(int, select, (int n, fd_set *r, fd_set *w, fd_set *e, timeval *t), (n, r, w, e, t)) \
    X(int, poll, (pollfd *f, nfds_t n, int t), (f, n, t)) \
    X(ssize_t, send, (int fd, const void *b, size_t n, int f), (fd, b, n, f)) \
    X(ssize_t, sendto, (int fd, const void *b, size_t n, int f, const sockaddr *a, socklen_t l), (fd, b, n, f, a, l)) \
    X(ssize_t, sendmsg, (int fd, const msghdr *m, int f), (fd, m, f)) \
    X(ssize_t, write, (int fd, const void *b, size_t n), (fd, b, n)) \
    X(ssize_t, recv, (int fd, void *b, size_t n, int f), (fd, b, n, f)) \
    X(ssize_t, recvfrom, (int fd, void *b, size_t n, int f, sockaddr *a, socklen_t *l), (fd, b, n, f, a, l)) \
    X(ssize_t, recvmsg, (int fd, msghdr *m, int f), (fd, m, f)) \
    X(ssize_t, read, (int fd, void *b, size_t n), (fd, b, n)) \
    X(int, getaddrinfo, (const char *h, const char *s, const addrinfo *hi, addrinfo **r), (h, s, hi, r)) \
    X(void, freeaddrinfo, (addrinfo *a), (a)) \
    X(int, getnameinfo, (const sockaddr *a, socklen_t l, char *h, socklen_t hl, char *s, socklen_t sl, int f), (a, l, h, hl, s, sl, f)) \
    X(int, getpeername, (int fd, sockaddr *a, socklen_t *l), (fd, a, l)) \
    X(int, getsockname, (int fd, sockaddr *a, socklen_t *l), (fd, a, l)) \
    X(int, shutdown, (int fd, int h), (fd, h)) \
    X(int, epoll_create1, (int f), (f)) \
    X(int, epoll_ctl, (int e, int op, int fd, epoll_event *ev), (e, op, fd, ev)) \
    X(int, epoll_wait, (int e, epoll_event *ev, int n, int t), (e, ev, n, t))
// the same in other words: these end up in the calls above
#define VP_MORE_CALLS(X) \
    X(ssize_t, readv, (int fd, const iovec *v, int n), (fd, v, n)) \
    X(ssize_t, writev, (int fd, const iovec *v, int n), (fd, v, n)) \
    X(int, ppoll, (pollfd *f, nfds_t n, const timespec *t, const sigset_t *m), (f, n, t, m)) \
    X(int, pselect, (int n, fd_set *r, fd_set *w, fd_set *e, const timespec *t, const sigset_t *m), (n, r, w, e, t, m)) \
    X(int, epoll_create, (int n), (n)) \
    X(int, epoll_pwait, (int e, epoll_event *ev, int n, int t, const sigset_t *m), (e, ev, n, t, m))
#define X(ret, name, args, call) ret __real_##name args;
VP_CALLS(X)
VP_MORE_CALLS(X)
#undef X
std::chrono::steady_clock::time_point __real__ZNSt6chrono3_V212steady_clock3nowEv();
std::chrono::system_clock::time_point __real__ZNSt6chrono3_V212system_clock3nowEv();
int __real_clock_gettime(clockid_t c, timespec *t);
int __real_gettimeofday(timeval *t, void *z);
time_t __real_time(time_t *t);
int __real_fcntl(int fd, int cmd, ...);
int __real_ioctl(int fd, unsigned long req, ...);
}

namespace vp
{
struct Sys
{
    virtual ~Sys() = default;
#define X(ret, name, args, call) virtual ret name args { return __real_##name call; }
VP_CALLS(X)
#undef X
    // (a transfer of the first part only is a short one)
    virtual ssize_t readv(int fd, const iovec *v, int n) { return n > 0 ? read(fd, v->iov_base, v->iov_len) : 0; }
    virtual ssize_t writev(int fd, const iovec *v, int n) { return n > 0 ? write(fd, v->iov_base, v->iov_len) : 0; }
    virtual int ppoll(pollfd *f, nfds_t n, const timespec *t, const sigset_t *)
    {
        int64_t ms = t ? (int64_t)t->tv_sec * 1000 + (t->tv_nsec + 999999) / 1000000 : -1;
        return poll(f, n, (int)(ms > 0x7fffffff ? 0x7fffffff : ms));
    }
    virtual int pselect(int n, fd_set *r, fd_set *w, fd_set *e, const timespec *t, const sigset_t *)
    {
        timeval tv = {}; if(t) { tv.tv_sec = t->tv_sec; tv.tv_usec = (t->tv_nsec + 999) / 1000; if(tv.tv_usec == 1000000) { ++tv.tv_sec; tv.tv_usec = 0; } }
        return select(n, r, w, e, t ? &tv : nullptr);
    }
    virtual int epoll_create(int) { return epoll_create1(0); }
    virtual int epoll_pwait(int e, epoll_event *ev, int n, int t, const sigset_t *) { return epoll_wait(e, ev, n, t); }
    virtual int64_t skew() { return 0; }        // how much time was pretended to pass, in ns; added to every clock
    virtual int fcntl(int fd, int cmd, long arg) { return __real_fcntl(fd, cmd, arg); }
    virtual int ioctl(int fd, unsigned long req, void *arg) { return __real_ioctl(fd, req, arg); }
};
extern thread_local Sys *sys;
struct UseSys { Sys *old; explicit UseSys(Sys &s) : old(sys) { sys = &s; } ~UseSys() { sys = old; } };
struct NoSys { Sys *old; NoSys() : old(sys) { sys = nullptr; } ~NoSys() { sys = old; } };
}
