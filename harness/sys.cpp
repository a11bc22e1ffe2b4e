#include <cstring>
#include "sys.hpp"
namespace vp { thread_local Sys *sys = nullptr; }
using vp::sys;
// while a hook runs, its own calls are real ones
struct Out { vp::Sys *s; Out() : s(sys) { sys = nullptr; } ~Out() { int e = errno; sys = s; errno = e; } };
#if defined(__SANITIZE_THREAD__)
#define VP_TSAN 1
#elif defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define VP_TSAN 1
#endif
#endif
#ifdef VP_TSAN
// The kernel's and libc's writes into the library's variables are invisible to ThreadSanitizer: repeat them where it sees them.
static void touch(void *p, size_t n) { for(size_t a = 0; p && a < n; ++a) { volatile char *c = (volatile char *)p + a; *c = *c; } }
struct Touch : vp::Sys
{
    static int addr(int r, sockaddr *a, socklen_t *l) { if(r >= 0 && a && l) { touch(a, 2); touch(l, sizeof *l); } return r; }
    int accept(int fd, sockaddr *a, socklen_t *l) override { return addr(__real_accept(fd, a, l), a, l); }
    int accept4(int fd, sockaddr *a, socklen_t *l, int f) override { return addr(__real_accept4(fd, a, l, f), a, l); }
    int getpeername(int fd, sockaddr *a, socklen_t *l) override { return addr(__real_getpeername(fd, a, l), a, l); }
    int getsockname(int fd, sockaddr *a, socklen_t *l) override { return addr(__real_getsockname(fd, a, l), a, l); }
    int getsockopt(int fd, int lv, int n, void *v, socklen_t *l) override { int r = __real_getsockopt(fd, lv, n, v, l); if(!r) { touch(v, *l); touch(l, sizeof *l); } return r; }
    int poll(pollfd *f, nfds_t n, int t) override { int r = __real_poll(f, n, t); if(r >= 0) for(nfds_t a = 0; a < n; ++a) touch(&f[a].revents, sizeof f[a].revents); return r; }
    int select(int n, fd_set *r, fd_set *w, fd_set *e, timeval *t) override { int x = __real_select(n, r, w, e, t); touch(r, r ? 8 : 0); touch(w, w ? 8 : 0); touch(e, e ? 8 : 0); return x; }
    int epoll_wait(int e, epoll_event *ev, int n, int t) override { int r = __real_epoll_wait(e, ev, n, t); if(r > 0) touch(ev, r * sizeof *ev); return r; }
    int getnameinfo(const sockaddr *a, socklen_t l, char *h, socklen_t hl, char *s, socklen_t sl, int f) override
    { int r = __real_getnameinfo(a, l, h, hl, s, sl, f); if(!r) { if(h && hl) touch(h, strlen(h) + 1); if(s && sl) touch(s, strlen(s) + 1); } return r; }
    int getaddrinfo(const char *h, const char *s, const addrinfo *hi, addrinfo **r) override { int x = __real_getaddrinfo(h, s, hi, r); if(!x) touch(r, sizeof *r); return x; }
    ssize_t recv(int fd, void *b, size_t n, int f) override { ssize_t r = __real_recv(fd, b, n, f); if(r > 0 && !(f & MSG_PEEK)) touch(b, r); return r; }
    ssize_t read(int fd, void *b, size_t n) override { ssize_t r = __real_read(fd, b, n); if(r > 0) touch(b, r); return r; }
};
static vp::Sys &by_default() { static Touch t; return t; }
#else
static vp::Sys &by_default() { static vp::Sys s; return s; }
#endif
extern "C"
{
#define X(ret, name, args, call) ret __wrap_##name args { if(!sys) return by_default().name call; Out o; return o.s->name call; }
VP_CALLS(X)
#undef X
#define X(ret, name, args, call) ret __wrap_##name args { if(!sys) return __real_##name call; Out o; return o.s->name call; }
VP_MORE_CALLS(X)
#undef X
static int64_t skew() { if(!sys) return 0; Out o; return o.s->skew(); }
std::chrono::steady_clock::time_point __wrap__ZNSt6chrono3_V212steady_clock3nowEv() { return __real__ZNSt6chrono3_V212steady_clock3nowEv() + std::chrono::nanoseconds(skew()); }
std::chrono::system_clock::time_point __wrap__ZNSt6chrono3_V212system_clock3nowEv() { return __real__ZNSt6chrono3_V212system_clock3nowEv() + std::chrono::nanoseconds(skew()); }
int __wrap_clock_gettime(clockid_t c, timespec *t)
{
    int r = __real_clock_gettime(c, t);
    if(int64_t s = r ? 0 : skew()) { s += t->tv_nsec; t->tv_sec += s / 1000000000; t->tv_nsec = s % 1000000000; }
    return r;
}
int __wrap_gettimeofday(timeval *t, void *z)
{
    int r = __real_gettimeofday(t, z);
    if(int64_t s = r ? 0 : skew()) { s = s / 1000 + t->tv_usec; t->tv_sec += s / 1000000; t->tv_usec = s % 1000000; }
    return r;
}
time_t __wrap_time(time_t *t) { time_t r = __real_time(nullptr) + skew() / 1000000000; if(t) *t = r; return r; }
int __wrap_fcntl(int fd, int cmd, ...)
{
    va_list l; va_start(l, cmd); long arg = va_arg(l, long); va_end(l);
    if(!sys) return __real_fcntl(fd, cmd, arg);
    Out o;
    return o.s->fcntl(fd, cmd, arg);
}
int __wrap_fcntl64(int fd, int cmd, ...)
{
    va_list l; va_start(l, cmd); long arg = va_arg(l, long); va_end(l);
    if(!sys) return __real_fcntl(fd, cmd, arg);
    Out o;
    return o.s->fcntl(fd, cmd, arg);
}
int __wrap_ioctl(int fd, unsigned long req, ...)
{
    va_list l; va_start(l, req); void *arg = va_arg(l, void *); va_end(l);
    if(!sys) return __real_ioctl(fd, req, arg);
    Out o;
    return o.s->ioctl(fd, req, arg);
}
}
