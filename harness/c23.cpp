// C23: sockets and listeners own their descriptors: none leaked, none closed twice.
#include <map>
#include <memory>
#include <sys/resource.h>
#include <frnetlib/TcpSocket.h>
#include <frnetlib/TcpListener.h>
#include "fakesock.hpp"
#include "sys.hpp"
using namespace vp;

struct Faults : Sys
{
    Case *cx = nullptr;
    size_t count = 0, fail_at = SIZE_MAX;
    int err = 0;
    bool high = false;              // hand out descriptors beyond FD_SETSIZE
    std::string failed;             // the call that was made to fail
    std::vector<addrinfo *> own;
    int multi_port = 0;

    bool hit(const char *name)
    {
        cx->steps();
        if(count++ != fail_at) return false;
        failed = name;
        errno = err;
        return true;
    }
    int lift(int fd)
    {
        if(fd < 0 || !high) return fd;
        int h = __real_fcntl(fd, F_DUPFD, 1100);
        if(h < 0) return fd;
        __real_close(fd);
        return h;
    }
    int socket(int d, int t, int p) override { return hit("socket") ? -1 : lift(__real_socket(d, t, p)); }
    int connect(int fd, const sockaddr *a, socklen_t l) override { return hit("connect") ? -1 : __real_connect(fd, a, l); }
    int bind(int fd, const sockaddr *a, socklen_t l) override { return hit("bind") ? -1 : __real_bind(fd, a, l); }
    int listen(int fd, int n) override { return hit("listen") ? -1 : __real_listen(fd, n); }
    int accept(int fd, sockaddr *a, socklen_t *l) override { return hit("accept") ? -1 : lift(__real_accept(fd, a, l)); }
    int accept4(int fd, sockaddr *a, socklen_t *l, int f) override { return hit("accept") ? -1 : lift(__real_accept4(fd, a, l, f)); }
    int setsockopt(int fd, int lv, int n, const void *v, socklen_t l) override { return hit("setsockopt") ? -1 : __real_setsockopt(fd, lv, n, v, l); }
    int getsockopt(int fd, int lv, int n, void *v, socklen_t *l) override { return hit("getsockopt") ? -1 : __real_getsockopt(fd, lv, n, v, l); }
    int select(int n, fd_set *r, fd_set *w, fd_set *e, timeval *t) override { if(hit("select")) return err == ETIMEDOUT ? 0 : -1; return __real_select(n, r, w, e, t); }
    int poll(pollfd *f, nfds_t n, int t) override { if(hit("poll")) return err == ETIMEDOUT ? 0 : -1; return __real_poll(f, n, t); }
    int fcntl(int fd, int cmd, long arg) override { return hit("fcntl") ? -1 : __real_fcntl(fd, cmd, arg); }
    int ioctl(int fd, unsigned long r, void *a) override { return hit("ioctl") ? -1 : __real_ioctl(fd, r, a); }
    int getnameinfo(const sockaddr *a, socklen_t l, char *h, socklen_t hl, char *s, socklen_t sl, int f) override { return hit("getnameinfo") ? EAI_FAIL : __real_getnameinfo(a, l, h, hl, s, sl, f); }
    int getpeername(int fd, sockaddr *a, socklen_t *l) override { return hit("getpeername") ? -1 : __real_getpeername(fd, a, l); }
    int getsockname(int fd, sockaddr *a, socklen_t *l) override { return hit("getsockname") ? -1 : __real_getsockname(fd, a, l); }
    int shutdown(int fd, int h) override { return hit("shutdown") ? -1 : __real_shutdown(fd, h); }
    ssize_t send(int fd, const void *b, size_t n, int f) override { return hit("send") ? -1 : __real_send(fd, b, n, f | MSG_DONTWAIT); }
    ssize_t recv(int fd, void *b, size_t n, int f) override { return hit("recv") ? -1 : __real_recv(fd, b, n, f | MSG_DONTWAIT); }
    ssize_t sendto(int fd, const void *b, size_t n, int f, const sockaddr *, socklen_t) override { return send(fd, b, n, f); }
    ssize_t recvfrom(int fd, void *b, size_t n, int f, sockaddr *, socklen_t *) override { return recv(fd, b, n, f); }
    ssize_t sendmsg(int fd, const msghdr *m, int f) override { return hit("send") ? -1 : __real_sendmsg(fd, m, f | MSG_DONTWAIT); }
    ssize_t recvmsg(int fd, msghdr *m, int f) override { return hit("recv") ? -1 : __real_recvmsg(fd, m, f | MSG_DONTWAIT); }
    ssize_t write(int fd, const void *b, size_t n) override { return send(fd, b, n, 0); }
    ssize_t read(int fd, void *b, size_t n) override { return recv(fd, b, n, 0); }
    int getaddrinfo(const char *h, const char *s, const addrinfo *hi, addrinfo **r) override
    {
        if(hit("getaddrinfo")) return EAI_AGAIN;
        if(!h || strcmp(h, "multi.test") != 0) return __real_getaddrinfo(h, s, hi, r);
        // several candidates: refused ones around a working one
        addrinfo *head = nullptr, **tail = &head;
        static const char *const A[] = {"127.0.0.9", "::1", "127.0.0.1", "127.0.0.1"};
        for(const char *a : A)
        {
            addrinfo want = {}, *one = nullptr;
            want.ai_socktype = SOCK_STREAM; want.ai_flags = AI_NUMERICHOST;
            if(__real_getaddrinfo(a, s, &want, &one) != 0) continue;
            *tail = one; tail = &one->ai_next;
            while(*tail) tail = &(*tail)->ai_next;
            own.push_back(one);
        }
        *r = head;
        return 0;
    }
    void freeaddrinfo(addrinfo *a) override { __real_freeaddrinfo(a); }   // glibc frees each node on its own
};

static void setup()
{
    int null = ::open("/dev/null", O_RDONLY);
    if(null > 0) { ::dup2(null, 0); ::close(null); }
    rlimit r;
    if(getrlimit(RLIMIT_NOFILE, &r) == 0 && r.rlim_cur < 1400) { r.rlim_cur = std::min<rlim_t>(r.rlim_max, 4096); setrlimit(RLIMIT_NOFILE, &r); }
}

static void scan(std::vector<bool> &v)
{
    v.assign(1500, false);
    for(int a = 0; a < 300; ++a) v[a] = __real_fcntl(a, F_GETFD) != -1;
    for(int a = 1100; a < 1200; ++a) v[a] = __real_fcntl(a, F_GETFD) != -1;
}
static uint64_t identity(int fd) { struct stat st; return fstat(fd, &st) ? 0 : (uint64_t)st.st_ino * 31 + st.st_dev; }
static int port_of(int fd)
{
    sockaddr_storage a; socklen_t l = sizeof a;
    if(__real_getsockname(fd, (sockaddr *)&a, &l)) return 0;
    return ntohs(a.ss_family == AF_INET6 ? ((sockaddr_in6 *)&a)->sin6_port : ((sockaddr_in *)&a)->sin_port);
}

struct World
{
    Case &cx;
    Faults f;
    std::unique_ptr<fr::TcpSocket> s[3];
    std::unique_ptr<fr::TcpListener> l[3];
    std::vector<bool> base;
    std::map<int, uint64_t> sentinels;       // descriptors of the harness, which nobody else may touch
    std::string op;
    bool zero = false;                       // standard input is closed, so that its number is handed out

    explicit World(Case &c) : cx(c) { f.cx = &c; }
    ~World()
    {
        f.fail_at = SIZE_MAX;
        for(auto &x : s) x.reset();
        for(auto &x : l) x.reset();
        for(auto &x : sentinels) __real_close(x.first);
        // what was leaked must not disturb later cases
        std::vector<bool> now; scan(now);
        for(size_t a = zero ? 0 : 3; a < now.size(); ++a) if(now[a] && !base[a]) __real_close((int)a);
        if(zero) ::open("/dev/null", O_RDONLY);
    }
    void sentinel()
    {   // takes the lowest free number, so that a second close of it is noticed
        int fd = ::open("/dev/null", O_RDONLY);
        if(fd >= 0 && fd < 290) sentinels[fd] = identity(fd); else if(fd >= 0) __real_close(fd);
    }
    void check()
    {
        std::vector<bool> now; scan(now);
        std::map<int, std::string> owned;
        auto own = [&](bool connected, int fd, const std::string &who)
        {
            if(!connected) { VP_CHECK(cx, fd < 0, "stale", "after " + op + ", " + who + " says it is unconnected but has descriptor " + num(fd)); return; }
            VP_CHECK(cx, fd >= 0 && fd < 1500 && now[fd], "dead", "after " + op + ", " + who + " says it is connected but its descriptor " + snum(fd) + " is not open");
            VP_CHECK(cx, !sentinels.count(fd), "stolen", "after " + op + ", " + who + " claims descriptor " + num(fd) + " that belongs to somebody else");
            VP_CHECK(cx, !base[fd], "stolen", "after " + op + ", " + who + " claims descriptor " + num(fd));
            VP_CHECK(cx, !owned.count(fd), "shared", "after " + op + ", " + who + " and " + owned[fd] + " hold the same descriptor " + num(fd));
            struct stat st;
            VP_CHECK(cx, fstat(fd, &st) == 0 && S_ISSOCK(st.st_mode), "no-socket", "after " + op + ", the descriptor of " + who + " is not a socket");
            owned[fd] = who;
            linger lg = {1, 0};
            __real_setsockopt(fd, SOL_SOCKET, SO_LINGER, &lg, sizeof lg);
        };
        for(int a = 0; a < 3; ++a) if(s[a]) own(s[a]->connected(), s[a]->get_socket_descriptor(), "socket " + num(a));
        for(int a = 0; a < 3; ++a) if(l[a]) own(l[a]->connected(), l[a]->get_socket_descriptor(), "listener " + num(a));
        for(auto &x : sentinels) VP_CHECK(cx, now[x.first] && identity(x.first) == x.second, "closed-other", "after " + op + " descriptor " + num(x.first) + ", which belongs to somebody else, was closed");
        for(size_t a = 0; a < now.size(); ++a)
        {
            if(base[a]) VP_CHECK(cx, now[a], "closed-other", "after " + op + " descriptor " + num(a) + " of the process was closed");
            else if(now[a]) VP_CHECK(cx, owned.count((int)a) || sentinels.count((int)a), "leak", "after " + op + " descriptor " + num(a) + " is open but nobody owns it");
        }
    }
    int live_port()
    {
        std::vector<int> p;
        for(auto &x : l) if(x && x->connected()) { int q = port_of(x->get_socket_descriptor()); if(q) p.push_back(q); }
        return p.empty() ? 0 : p[cx.draw(p.size())];
    }
};

static void prop(Case &cx)
{
    cx.reset_steps(100000);
    static int closed_port = 0;
    if(!closed_port)
    {   // a port that refuses: bound but not listening (kept for the life of the process)
        int fd = ::socket(AF_INET, SOCK_STREAM, 0);
        sockaddr_in a = {}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        if(::bind(fd, (sockaddr *)&a, sizeof a)) cx.discard();
        closed_port = port_of(fd);
    }
    World w(cx);
    if(cx.chance(1, 6)) { w.zero = true; __real_close(0); cx.label("descriptor 0 is free"); cx.note([] { return "descriptor 0 is free"; }); }
    scan(w.base);
    for(auto &x : w.s) x = std::make_unique<fr::TcpSocket>();
    for(auto &x : w.l) x = std::make_unique<fr::TcpListener>();
    if(cx.chance(1, 4)) { w.f.high = true; cx.label("descriptors beyond FD_SETSIZE"); }
    size_t n = 2 + cx.draw(cx.thorough ? 40 : 20), interesting = 0;
    if(cx.chance(7, 8)) { UseSys u(w.f); w.l[0]->listen("0"); cx.note([] { return "listener 0 listens"; }); }
    for(size_t step = 0; step < n; ++step)
    {
        int i = (int)cx.draw(3), j = (int)cx.draw(3);
        auto &s = *w.s[i];
        auto &l = *w.l[j];
        w.f.count = 0; w.f.failed.clear();
        w.f.fail_at = cx.chance(2, 5) ? cx.draw(14) : SIZE_MAX;
        w.f.err = cx.pick({ECONNREFUSED, ENETUNREACH, ETIMEDOUT, EMFILE, EACCES, EINVAL, ENOBUFS, EADDRINUSE, ECONNABORTED});
        bool was = s.connected();
        Status st = Status::Unknown;
        switch(cx.weighted({5, 5, 4, 2, 2, 1, 1, 1, 1, 1, 1, 1}))
        {
            case 0:
            {
                l.set_inet_version(cx.pick({fr::Socket::IP::v4, fr::Socket::IP::any, fr::Socket::IP::v6}));
                bool lw = l.connected();
                std::string port = cx.chance(1, 8) ? (cx.flip() ? "no-such-service" : "99999999999") : "0";
                if(cx.chance(1, 8)) port = num(closed_port);
                w.op = std::string("listening on port ") + port + (lw ? " again" : "") + " with listener " + num(j);
                { UseSys u(w.f); st = l.listen(port); }
                if(!w.f.failed.empty()) w.op += " (with " + w.f.failed + " failing)";
                VP_CHECK(cx, l.connected() == (st == Status::Success), "listen-state", "after " + w.op + " returned " + status_name(st) + " the listener says it is " + (l.connected() ? "connected" : "unconnected"));
                if(lw || st != Status::Success) ++interesting;
                break;
            }
            case 1:
            {
                int port = cx.chance(1, 4) ? closed_port : w.live_port();
                if(!port) port = closed_port;
                const char *host = cx.pick<const char *>({"127.0.0.1", "127.0.0.1", "localhost", "::1", "multi.test", "multi.test", "127.0.0.1", "bad..name"});
                s.set_inet_version(cx.chance(1, 4) ? cx.pick({fr::Socket::IP::v4, fr::Socket::IP::v6}) : fr::Socket::IP::any);
                w.op = std::string("connecting socket ") + num(i) + (was ? " again" : "") + " to " + host + ":" + num(port);
                if(!strcmp(host, "bad..name")) { host = "256.1.1.1.1"; w.f.fail_at = 0; }  // no resolver needed
                { UseSys u(w.f); st = s.connect(host, num(port), std::chrono::seconds(1)); }
                if(!w.f.failed.empty()) w.op += " (with " + w.f.failed + " failing)";
                VP_CHECK(cx, s.connected() == (st == Status::Success), "connect-state", "after " + w.op + " returned " + status_name(st) + " the socket says it is " + (s.connected() ? "connected" : "unconnected"));
                if(st == Status::Success) cx.label(was ? "reconnected" : "connected");
                if(was || st != Status::Success) ++interesting;
                break;
            }
            case 2:
            {
                for(int k = 0; k < 3 && cx.draw(4); ++k)
                {   // rather one that has somebody waiting
                    pollfd p = {w.l[j]->get_socket_descriptor(), POLLIN, 0};
                    if(p.fd >= 0 && __real_poll(&p, 1, 0) > 0) break;
                    j = (j + 1) % 3;
                }
                auto &l = *w.l[j];
                if(l.connected())
                {
                    pollfd p = {l.get_socket_descriptor(), POLLIN, 0};
                    if(__real_poll(&p, 1, 0) <= 0) { w.op = "nothing"; break; }     // it would block
                }
                w.op = "accepting from listener " + num(j) + " into " + (was ? "connected " : "") + "socket " + num(i);
                { UseSys u(w.f); st = l.accept(s); }
                if(!w.f.failed.empty()) w.op += " (with " + w.f.failed + " failing)";
                if(st == Status::Success) cx.label(was ? "accepted into a connected socket" : "accepted");
                if(st == Status::Success) VP_CHECK(cx, s.connected(), "accept-state", "after " + w.op + " the socket is unconnected");
                if(!l.connected()) VP_CHECK(cx, st != Status::Success, "accept-closed", "accepting from a closed listener succeeded");
                if(was || st != Status::Success) ++interesting;
                break;
            }
            case 3: w.op = "disconnecting socket " + num(i); { UseSys u(w.f); s.disconnect(); } VP_CHECK(cx, !s.connected(), "disconnect", "after " + w.op + " it is still connected"); if(!was) ++interesting; break;
            case 4: w.op = "closing listener " + num(j); { UseSys u(w.f); l.close_socket(); } VP_CHECK(cx, !l.connected(), "disconnect", "after " + w.op + " it is still connected"); break;
            case 5: w.op = "destroying socket " + num(i); { UseSys u(w.f); w.s[i].reset(); } w.s[i] = std::make_unique<fr::TcpSocket>(); ++interesting; break;
            case 6: w.op = "destroying listener " + num(j); { UseSys u(w.f); w.l[j].reset(); } w.l[j] = std::make_unique<fr::TcpListener>(); break;
            case 7:
            {
                w.op = "moving listener " + num(j) + " and destroying the old one";
                bool lw = l.connected(); int fd = l.get_socket_descriptor();
                { UseSys u(w.f); auto m = std::make_unique<fr::TcpListener>(std::move(l)); if(cx.flip()) w.l[j] = std::move(m); else { w.l[j].swap(m); w.l[(j + 1) % 3].swap(m); m.reset(); } }
                fr::TcpListener &now = *w.l[j];
                if(lw) { VP_CHECK(cx, now.connected() && now.get_socket_descriptor() == fd, "moved", "the listener moved to does not hold the descriptor"); ++interesting; }
                break;
            }
            case 8:
            {   // adopting a descriptor
                if(!l.connected() && cx.chance(1, 3))
                {
                    int fd = ::socket(AF_INET, SOCK_STREAM, 0);
                    sockaddr_in a = {}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
                    if(fd < 0) break;
                    if(__real_bind(fd, (sockaddr *)&a, sizeof a) || __real_listen(fd, 5)) { __real_close(fd); break; }
                    w.op = "giving listener " + num(j) + " a descriptor";
                    { UseSys u(w.f); l.set_socket_descriptor(fd); }
                    VP_CHECK(cx, l.connected() && l.get_socket_descriptor() == fd, "adopt", "after " + w.op + " it does not hold it");
                    cx.label("listener given a descriptor");
                    break;
                }
                int p[2];
                if(::socketpair(AF_UNIX, SOCK_STREAM, 0, p)) break;
                w.sentinels[p[1]] = identity(p[1]);
                int32_t fd = p[0];
                w.op = std::string("giving ") + (was ? "connected " : "") + "socket " + num(i) + " another descriptor";
                { UseSys u(w.f); s.set_descriptor(&fd); }
                if(cx.chance(1, 4)) { fd = s.get_socket_descriptor(); UseSys u(w.f); s.set_descriptor(&fd); w.op += " twice"; }
                VP_CHECK(cx, s.connected() && s.get_socket_descriptor() == p[0], "adopt", "after " + w.op + " it does not hold it");
                ++interesting;
                break;
            }
            case 9:
            {   // releasing the descriptor
                if(l.connected() && cx.chance(1, 4))
                {
                    int fd = l.get_socket_descriptor();
                    w.op = "releasing the descriptor of listener " + num(j);
                    { UseSys u(w.f); l.set_socket_descriptor(-1); }
                    VP_CHECK(cx, !l.connected(), "release", "after " + w.op + " it is still connected");
                    VP_CHECK(cx, __real_fcntl(fd, F_GETFD) != -1, "release-closed", w.op + " closed it"); w.sentinels[fd] = identity(fd);
                    break;
                }
                int fd = s.get_socket_descriptor();
                w.op = "releasing the descriptor of socket " + num(i);
                { UseSys u(w.f); s.set_descriptor(nullptr); }
                VP_CHECK(cx, !s.connected(), "release", "after " + w.op + " it is still connected");
                if(was) { VP_CHECK(cx, __real_fcntl(fd, F_GETFD) != -1, "release-closed", w.op + " closed it"); w.sentinels[fd] = identity(fd); }
                break;
            }
            case 10:
            {
                w.op = "using socket " + num(i);
                UseSys u(w.f);
                s.set_receive_timeout((uint32_t)cx.draw(1000)); s.set_send_timeout((uint32_t)cx.draw(1000)); s.set_blocking(cx.flip());
                char b[4]; size_t r = 0;
                if(s.connected()) { s.receive_raw(b, 4, r); r = 0; s.send_raw("abcd", 4, r); }
                break;
            }
            default: w.op = "shutting down socket " + num(i) + " and listener " + num(j); { UseSys u(w.f); s.shutdown(); l.shutdown(); } break;
        }
        cx.note([&] { return w.op + " -> " + status_name(st); });
        if(!w.f.failed.empty()) { cx.label("injected failure of " + w.f.failed); ++interesting; }
        w.f.fail_at = SIZE_MAX;
        w.check();
        if(cx.flip()) w.sentinel();
    }
    w.op = "destroying everything";
    w.f.fail_at = SIZE_MAX;
    { UseSys u(w.f); for(auto &x : w.s) x.reset(); for(auto &x : w.l) x.reset(); }
    w.check();
    if(interesting >= 2) cx.nontrivial();
}

Property vp::the_property = {"C23", prop,
    "a case is a history of 2-41 operations (listen, connect to accepting, refusing and multi-address targets, accept, disconnect, close, destroy, move, adopt and release descriptors, I/O) over 3 sockets and 3 listeners on real loopback sockets, with any one system call per operation made to fail, comparing the process's open descriptors with those the objects own after every step; non-trivial: at least two steps re-use an open object, fail, or hit an injected failure",
    160000, 960000, 30, 8, false, setup};
