// C30: connecting and listening try every candidate address and report the true outcome.
#include <map>
#include <memory>
#include <frnetlib/TcpSocket.h>
#include <frnetlib/TcpListener.h>
#include "fakesock.hpp"
#include "sys.hpp"
using namespace vp;

// what happens to one candidate address
enum Fate { ACCEPT, ACCEPT_LATER, REFUSE, REFUSE_LATER, HANG, NO_SOCKET, NO_NONBLOCK, NO_VERDICT,   // connecting
            LISTENS, OPT_FAIL, BIND_FAIL, LISTEN_FAIL, L_NO_SOCKET };                                // listening
static const char *FATE[] = {"accepts", "accepts later", "refuses", "refuses later", "never answers", "no socket to be had", "cannot be made non-blocking", "no verdict to be had",
                             "can be listened on", "rejects an option", "cannot be bound", "cannot be listened on", "no socket to be had"};
struct Cand
{
    Fate fate = ACCEPT; int err = 0; double delay = 0; int family = AF_INET;
    bool in_time = true;
    // what was seen
    int fd = -1, sockets = 0, attempts = 0, listens = 0; bool pending = false, done = false;
    double waited = 0; int interrupts = 0; double started = 0; bool bound = false, hit = false;
};

struct Net : Sys
{
    Case *cx;
    std::vector<Cand> c;
    int gai_error = 0, gai_calls = 0, frees = 0; bool bad_free = false;
    std::string host, port; bool null_host = false; addrinfo hints = {};
    std::vector<addrinfo> ai; std::vector<sockaddr_storage> sa;
    double clock = 0;                   // virtual milliseconds
    std::map<int, int> owner;           // open descriptors -> candidate
    std::vector<int> opened; std::vector<int> order;
    size_t next_socket = 0;
    int eintr_budget = 0; double eintr_part = 0;
    std::string wrong;

    void complain(const std::string &s) { if(wrong.empty()) wrong = s; }
    int getaddrinfo(const char *h, const char *s, const addrinfo *hi, addrinfo **r) override
    {
        cx->steps(); ++gai_calls;
        null_host = !h; host = h ? h : ""; port = s ? s : "";
        if(hi) hints = *hi;
        if(gai_error) { errno = ENOENT; return gai_error; }
        ai.assign(c.size(), addrinfo()); sa.assign(c.size(), sockaddr_storage());
        for(size_t a = 0; a < c.size(); ++a)
        {
            ai[a].ai_family = c[a].family; ai[a].ai_socktype = SOCK_STREAM; ai[a].ai_protocol = IPPROTO_TCP;
            ai[a].ai_addr = (sockaddr *)&sa[a];
            if(c[a].family == AF_INET)
            {
                auto *x = (sockaddr_in *)&sa[a]; x->sin_family = AF_INET; x->sin_port = htons(1000); x->sin_addr.s_addr = htonl(0x0a000000 + (uint32_t)a);
                ai[a].ai_addrlen = sizeof *x;
            }
            else
            {
                auto *x = (sockaddr_in6 *)&sa[a]; x->sin6_family = AF_INET6; x->sin6_port = htons(1000); x->sin6_addr.s6_addr[0] = 0xfd; x->sin6_addr.s6_addr[15] = (uint8_t)a;
                ai[a].ai_addrlen = sizeof *x;
            }
            ai[a].ai_next = a + 1 < c.size() ? &ai[a + 1] : nullptr;
        }
        *r = ai.empty() ? nullptr : &ai[0];
        return 0;
    }
    void freeaddrinfo(addrinfo *a) override { ++frees; if(ai.empty() || a != &ai[0]) bad_free = true; }
    int which(const sockaddr *a, socklen_t l)
    {
        if(l >= sizeof(sockaddr_in) && a->sa_family == AF_INET) { size_t k = ntohl(((const sockaddr_in *)a)->sin_addr.s_addr) - 0x0a000000; if(k < c.size() && c[k].family == AF_INET) return (int)k; }
        if(l >= sizeof(sockaddr_in6) && a->sa_family == AF_INET6) { size_t k = ((const sockaddr_in6 *)a)->sin6_addr.s6_addr[15]; if(k < c.size() && c[k].family == AF_INET6) return (int)k; }
        complain("an address was used that no candidate has");
        return -1;
    }
    int socket(int d, int t, int) override
    {
        cx->steps();
        // the attempt is for the next candidate in turn
        size_t k = next_socket < c.size() ? next_socket : c.size() - 1;
        ++next_socket;
        if(d != c[k].family) complain("a socket of the wrong family was made for candidate " + num(k));
        if((t & 0xf) != SOCK_STREAM) complain("a socket of the wrong type was made");
        ++c[k].sockets;
        if(c[k].fate == NO_SOCKET || c[k].fate == L_NO_SOCKET) { errno = c[k].err; return -1; }
        int fd = __real_socket(AF_UNIX, SOCK_STREAM | (t & (SOCK_NONBLOCK | SOCK_CLOEXEC)), 0);
        if(fd < 0) return -1;
        c[k].fd = fd; owner[fd] = (int)k;
        return fd;
    }
    Cand *of(int fd) { auto i = owner.find(fd); return i == owner.end() ? nullptr : &c[i->second]; }
    int close(int fd) override { cx->steps(); if(!owner.erase(fd)) complain("a descriptor was closed that is not open"); return __real_close(fd); }
    int fcntl(int fd, int cmd, long arg) override
    {
        Cand *x = of(fd);
        if(x && x->fate == NO_NONBLOCK && !x->done && (cmd == F_SETFL || cmd == F_GETFL)) { x->hit = true; errno = x->err; return -1; }
        return __real_fcntl(fd, cmd, arg);
    }
    int ioctl(int fd, unsigned long r, void *a) override
    {
        Cand *x = of(fd);
        if(x && x->fate == NO_NONBLOCK && !x->done) { x->hit = true; errno = x->err; return -1; }
        return __real_ioctl(fd, r, a);
    }
    int connect(int fd, const sockaddr *a, socklen_t l) override
    {
        cx->steps();
        int k = which(a, l);
        Cand *x = of(fd);
        if(!x || k < 0) { errno = EBADF; return -1; }
        if(x != &c[k]) complain("the descriptor made for candidate " + num(x - &c[0]) + " was used for candidate " + num(k));
        ++x->attempts; order.push_back(k);
        bool nb = __real_fcntl(fd, F_GETFL, 0) & O_NONBLOCK;
        x->started = clock;
        switch(x->fate)
        {
            case ACCEPT: x->done = true; return 0;
            case REFUSE: errno = x->err; return -1;
            case NO_NONBLOCK: errno = ECONNREFUSED; return -1;      // its mode was never asked to change (SOCK_NONBLOCK): it refuses
            default:
                if(!nb)
                {   // a blocking attempt takes as long as it takes
                    if(x->fate == HANG || !x->in_time) { complain("a blocking connect cannot honour the timeout"); errno = ETIMEDOUT; return -1; }
                    clock += x->delay;
                    if(x->fate == ACCEPT_LATER || x->fate == NO_VERDICT) { x->done = true; return 0; }
                    errno = x->err; return -1;
                }
                x->pending = true;
                errno = EINPROGRESS;
                return -1;
        }
    }
    int64_t skew() override { return (int64_t)(clock * 1e6); }
    // -> 1 ready, 0 timed out, -1 interrupted
    int wait(int fd, double ms)
    {
        cx->steps();
        Cand *x = of(fd);
        if(!x) { complain("waited for a descriptor that is not open"); errno = EBADF; return -1; }
        double at = x->fate == HANG ? 1e300 : x->started + x->delay;
        if(eintr_budget > 0)
        {   // after some part of the wait
            double end = std::min(at, ms < 0 ? 1e300 : clock + ms), part = end > 1e200 ? 100 : (end - clock) * eintr_part;
            if(part > 0) { x->waited += part; clock += part; }
            --eintr_budget; ++x->interrupts; errno = EINTR; return -1;
        }
        if(x->done || at <= clock) return 1;
        if(ms < 0) { if(at > 1e200) { complain("waited without a limit"); return 0; } x->waited += at - clock; clock = at; return 1; }
        if(at <= clock + ms) { x->waited += at - clock; clock = at; return 1; }
        x->waited += ms; clock += ms;
        return 0;
    }
    int poll(pollfd *f, nfds_t n, int t) override
    {
        if(n != 1) { complain("polled for " + num(n) + " descriptors"); return 0; }
        f->revents = 0;
        int r = wait(f->fd, t);
        if(r == 1) { Cand *x = of(f->fd); bool bad = x->fate == REFUSE_LATER; f->revents = (short)((f->events & POLLOUT) | (bad ? POLLERR | POLLHUP : 0)); if(!f->revents) { complain("did not wait for writability"); r = 0; } }
        return r;
    }
    int select(int n, fd_set *r, fd_set *w, fd_set *e, timeval *t) override
    {
        int fd = -1;
        for(int a = 0; a < n && a < FD_SETSIZE; ++a) if(w && FD_ISSET(a, w)) fd = a;
        if(fd < 0) { complain("did not wait for writability"); return 0; }
        int k = wait(fd, t ? t->tv_sec * 1000.0 + t->tv_usec / 1000.0 : -1);
        if(k < 0) return k;
        if(r) FD_ZERO(r); if(w) FD_ZERO(w); if(e) FD_ZERO(e);
        if(k == 1) FD_SET(fd, w);
        return k;
    }
    int getsockopt(int fd, int lv, int o, void *v, socklen_t *l) override
    {
        Cand *x = of(fd);
        if(x && lv == SOL_SOCKET && o == SO_ERROR)
        {
            if(x->fate == NO_VERDICT) { errno = x->err; return -1; }
            int e = x->fate == REFUSE_LATER ? x->err : 0;
            if(x->fate == ACCEPT_LATER) x->done = true;
            memcpy(v, &e, sizeof e); *l = sizeof e;
            return 0;
        }
        return __real_getsockopt(fd, lv, o, v, l);
    }
    int setsockopt(int fd, int, int o, const void *, socklen_t) override
    {
        Cand *x = of(fd);
        if(!x) { errno = EBADF; return -1; }
        if(x->fate == OPT_FAIL && !x->bound) { errno = x->err; return -1; }
        return 0;
    }
    int bind(int fd, const sockaddr *a, socklen_t l) override
    {
        cx->steps();
        int k = which(a, l); Cand *x = of(fd);
        if(!x || k < 0) { errno = EBADF; return -1; }
        if(x != &c[k]) complain("the descriptor made for candidate " + num(x - &c[0]) + " was used for candidate " + num(k));
        ++x->attempts; order.push_back(k);
        if(x->fate == BIND_FAIL) { errno = x->err; return -1; }
        x->bound = true;
        return 0;
    }
    int listen(int fd, int n) override
    {
        cx->steps();
        Cand *x = of(fd);
        if(!x) { errno = EBADF; return -1; }
        ++x->listens;
        if(!x->bound) complain("listened before binding");
        if(n <= 0) complain("listened with a queue of " + snum(n));
        if(x->fate == LISTEN_FAIL) { errno = x->err; return -1; }
        x->done = true;
        return 0;
    }
};

static std::string describe(const Net &n)
{
    std::string s;
    for(auto &x : n.c) { if(s.size()) s += ", "; s += FATE[x.fate]; if(x.fate == ACCEPT_LATER || x.fate == REFUSE_LATER || x.fate == NO_VERDICT) s += " (after " + num((uint64_t)x.delay) + " ms)"; }
    return s;
}

static void one_connect(Case &cx, fr::TcpSocket &s, std::map<int, int> &open, bool &interesting)
{
    Net net; net.cx = &cx; net.owner = open;
    uint64_t secs = cx.pick<uint64_t>({0, 1, 2, 5, 20, 60, 3600, 100000});
    double limit = (secs == 0 ? 20 : secs) * 1000.0;
    int fam = cx.pick({AF_UNSPEC, AF_INET, AF_INET6});
    switch(fam) { case AF_UNSPEC: s.set_inet_version(fr::Socket::IP::any); break; case AF_INET: s.set_inet_version(fr::Socket::IP::v4); break; default: s.set_inet_version(fr::Socket::IP::v6); }
    if(cx.chance(1, 10)) net.gai_error = cx.pick({EAI_NONAME, EAI_AGAIN, EAI_FAIL, EAI_SERVICE, EAI_MEMORY, EAI_SYSTEM});
    size_t n = 1 + cx.draw(5);
    int later = 0;
    for(size_t a = 0; a < n; ++a)
    {
        Cand c;
        c.fate = (Fate)cx.weighted({3, 3, 3, 3, 2, 1, 1, 1});
        c.family = fam == AF_UNSPEC ? (cx.flip() ? AF_INET6 : AF_INET) : fam;
        c.err = cx.pick({ECONNREFUSED, ENETUNREACH, EHOSTUNREACH, ETIMEDOUT, ECONNRESET, EACCES, EADDRNOTAVAIL, EMFILE, ENOBUFS, EAFNOSUPPORT, EAGAIN});
        if(c.fate == REFUSE && (c.err == EAGAIN)) c.err = ECONNREFUSED;
        if(c.fate == ACCEPT_LATER || c.fate == REFUSE_LATER || c.fate == NO_VERDICT)
        {
            c.in_time = !cx.chance(1, 3);
            c.delay = c.in_time ? (cx.flip() ? cx.draw((uint64_t)(limit - 600) + 1) : cx.draw(std::min<uint64_t>(900, (uint64_t)limit - 600))) : limit + 600 + cx.draw((uint64_t)limit * 2 + 10);
            ++later;
        }
        if(c.fate == HANG) { c.in_time = false; ++later; }
        net.c.push_back(c);
    }
    int eintr = net.eintr_budget = cx.chance(1, 3) ? 1 + (int)cx.draw(4) : 0;
    if(eintr) net.eintr_part = (double)cx.draw(10) / 10;
    std::string host = cx.pick<const char *>({"name.test", "10.0.0.1", "fd00::1", "localhost", "x"}), port = cx.pick<const char *>({"80", "1000", "http", "65535"});
    cx.note([&] { return "connecting to " + host + ":" + port + " with timeout " + num(secs) + " s" + (net.gai_error ? " (lookup fails)" : "; candidates: " + describe(net)) + (eintr ? "; interrupted " + num(eintr) + " times" : ""); });
    Status st;
    { UseSys u(net); st = s.connect(host, port, std::chrono::seconds(secs)); }
    std::string ctx = " (candidates: " + describe(net) + "; timeout " + num(secs) + " s" + (eintr ? "; " + num(eintr) + " interruptions" : "") + ")";
    VP_CHECK(cx, net.wrong.empty(), "call", net.wrong + ctx);
    VP_CHECK(cx, net.gai_calls == 1 && !net.null_host && net.host == host && net.port == port, "lookup", "the lookup was for '" + net.host + "' and '" + net.port + "' instead of '" + host + "' and '" + port + "'");
    VP_CHECK(cx, net.hints.ai_family == fam && net.hints.ai_socktype == SOCK_STREAM, "hints", "the lookup asked for the wrong kind of address");
    VP_CHECK(cx, net.frees == (net.gai_error ? 0 : 1) && !net.bad_free, "free", "the list of addresses was freed " + num(net.frees) + " times");
    open = net.owner;
    if(net.gai_error)
    {
        VP_CHECK(cx, st == Status::AddressLookupFailure, "lookup-status", "a failed lookup returned " + status_name(st));
        VP_CHECK(cx, !s.connected() && net.owner.empty(), "leftover", "a failed lookup left the socket connected or something open");
        VP_CHECK(cx, net.next_socket == 0, "lookup-continues", "something was connected to after a failed lookup");
        cx.label("lookup failure");
        return;
    }
    size_t win = n;
    for(size_t a = 0; a < n && win == n; ++a) if(net.c[a].fate == ACCEPT || (net.c[a].fate == ACCEPT_LATER && net.c[a].in_time)) win = a;
    // every candidate up to the winner is tried, in order, once
    std::vector<int> want;
    for(size_t a = 0; a <= win && a < n; ++a) if(net.c[a].fate != NO_SOCKET && !(net.c[a].fate == NO_NONBLOCK && net.c[a].hit)) want.push_back((int)a);
    auto list = [](const std::vector<int> &v) { std::string s; for(int x : v) s += (s.empty() ? "" : ",") + num((uint64_t)x); return s; };
    VP_CHECK(cx, net.order == want, "order", "candidates " + list(net.order) + " were tried instead of " + list(want) + ctx);
    for(size_t a = 0; a < n; ++a) if(a < win && !net.c[a].in_time && net.c[a].attempts)
    {
        double w = net.c[a].waited;
        VP_CHECK(cx, w > limit - 500 && w < limit + 500, "timeout", "candidate " + num(a) + " was waited for " + std::to_string(w) + " ms instead of " + std::to_string(limit) + ctx);
    }
    if(win < n)
    {
        VP_CHECK(cx, st == Status::Success, "status", "connecting returned " + status_name(st) + " although candidate " + num(win) + " accepts" + ctx);
        VP_CHECK(cx, s.connected() && s.get_socket_descriptor() == net.c[win].fd, "wrong-one", "the socket does not hold the connection of candidate " + num(win) + ctx);
        VP_CHECK(cx, s.get_remote_address() == host + ":" + port, "remote", "the remote address is '" + s.get_remote_address() + "'");
        VP_CHECK(cx, !(__real_fcntl(net.c[win].fd, F_GETFL, 0) & O_NONBLOCK) && s.get_blocking(), "mode", "the new connection is non-blocking" + ctx);
        VP_CHECK(cx, net.owner.size() == 1, "leftover", num(net.owner.size()) + " descriptors are open after connecting" + ctx);
        cx.label(win ? "connected to a later candidate" : "connected to the first candidate");
    }
    else
    {
        VP_CHECK(cx, st == Status::NoRouteToHost, "status", "connecting returned " + status_name(st) + " although no candidate accepts" + ctx);
        VP_CHECK(cx, !s.connected(), "state", "the socket is connected after a failed connect" + ctx);
        VP_CHECK(cx, net.owner.empty(), "leftover", num(net.owner.size()) + " descriptors are open after a failed connect" + ctx);
        cx.label("no candidate accepts");
    }
    if(eintr && later) cx.label("interrupted");
    if(win > 0) interesting = true;
}

static void one_listen(Case &cx, fr::TcpListener &l, std::map<int, int> &open, bool &interesting)
{
    Net net; net.cx = &cx; net.owner = open;
    int fam = cx.pick({AF_UNSPEC, AF_INET, AF_INET6});
    switch(fam) { case AF_UNSPEC: l.set_inet_version(fr::Socket::IP::any); break; case AF_INET: l.set_inet_version(fr::Socket::IP::v4); break; default: l.set_inet_version(fr::Socket::IP::v6); }
    if(cx.chance(1, 10)) net.gai_error = cx.pick({EAI_NONAME, EAI_AGAIN, EAI_SERVICE, EAI_FAIL});
    size_t n = 1 + cx.draw(4);
    for(size_t a = 0; a < n; ++a)
    {
        Cand c;
        c.fate = (Fate)(LISTENS + cx.weighted({3, 1, 4, 3, 1}));
        c.family = fam == AF_UNSPEC ? (cx.flip() ? AF_INET6 : AF_INET) : fam;
        c.err = cx.pick({EADDRINUSE, EACCES, EADDRNOTAVAIL, EINVAL, EMFILE, EAFNOSUPPORT, ENOBUFS, ENOPROTOOPT});
        net.c.push_back(c);
    }
    std::string port = cx.pick<const char *>({"0", "8080", "http", "65535"});
    cx.note([&] { return "listening on " + port + (net.gai_error ? " (lookup fails)" : "; candidates: " + describe(net)); });
    Status st;
    { UseSys u(net); st = l.listen(port); }
    std::string ctx = " (candidates: " + describe(net) + ")";
    VP_CHECK(cx, net.wrong.empty(), "call", net.wrong + ctx);
    VP_CHECK(cx, net.gai_calls == 1 && net.null_host && net.port == port, "lookup", "the lookup was for '" + net.host + "' and '" + net.port + "'");
    VP_CHECK(cx, net.hints.ai_family == fam && net.hints.ai_socktype == SOCK_STREAM && (net.hints.ai_flags & AI_PASSIVE), "hints", "the lookup asked for the wrong kind of address");
    VP_CHECK(cx, net.frees == (net.gai_error ? 0 : 1) && !net.bad_free, "free", "the list of addresses was freed " + num(net.frees) + " times");
    open = net.owner;
    if(net.gai_error)
    {
        VP_CHECK(cx, st == Status::AddressLookupFailure, "lookup-status", "a failed lookup returned " + status_name(st));
        VP_CHECK(cx, !l.connected() && net.owner.empty(), "leftover", "a failed lookup left something open");
        return;
    }
    // a candidate that rejects an option may be used without it or skipped
    size_t win = n; bool bound = false;
    for(size_t a = 0; a < n && win == n; ++a) { if(net.c[a].fate == LISTENS) win = a; }
    int held = l.connected() ? l.get_socket_descriptor() : -1;
    for(size_t a = 0; a < n; ++a)
    {
        if(net.c[a].fate == LISTEN_FAIL && net.c[a].bound) bound = true;
        if(net.c[a].fate == OPT_FAIL && a < win && held >= 0 && net.c[a].fd == held && net.c[a].done) win = a;
    }
    if(win < n)
    {
        VP_CHECK(cx, st == Status::Success, "status", "listening returned " + status_name(st) + " although candidate " + num(win) + " can be listened on" + ctx);
        VP_CHECK(cx, held >= 0 && held == net.c[win].fd && net.c[win].done, "wrong-one", "the listener does not hold candidate " + num(win) + ctx);
        VP_CHECK(cx, net.owner.size() == 1, "leftover", num(net.owner.size()) + " descriptors are open after listening" + ctx);
        cx.label(win ? "listens on a later candidate" : "listens on the first candidate");
    }
    else
    {
        VP_CHECK(cx, st == Status::BindFailed || (bound && st == Status::ListenFailed), "status", "listening returned " + status_name(st) + " although no candidate can be listened on" + ctx);
        VP_CHECK(cx, held < 0 && net.owner.empty(), "leftover", "something is open after a failed listen" + ctx);
        cx.label("nothing can be listened on");
    }
    if(win > 0) interesting = true;
}

static void prop(Case &cx)
{
    cx.reset_steps(10000);
    bool interesting = false;
    std::map<int, int> open;
    Net idle; idle.cx = &cx;
    bool listening = cx.chance(2, 5);
    size_t n = 1 + cx.draw(3);
    struct Sweep { std::map<int, int> &o; ~Sweep() { for(auto &x : o) __real_close(x.first); } };
    if(listening)
    {
        auto l = std::make_unique<fr::TcpListener>();
        Sweep sweep{open};
        for(size_t a = 0; a < n; ++a) one_listen(cx, *l, open, interesting);
        idle.owner = open;
        { UseSys u(idle); l.reset(); }
        open = idle.owner;
        VP_CHECK(cx, idle.wrong.empty() && open.empty(), "leftover", "destroying the listener left something open");
    }
    else
    {
        auto s = std::make_unique<fr::TcpSocket>();
        Sweep sweep{open};
        for(size_t a = 0; a < n; ++a) one_connect(cx, *s, open, interesting);
        idle.owner = open;
        { UseSys u(idle); s.reset(); }
        open = idle.owner;
        VP_CHECK(cx, idle.wrong.empty() && open.empty(), "leftover", "destroying the socket left something open");
    }
    if(interesting) cx.nontrivial();
}

Property vp::the_property = {"C30", prop,
    "a case makes 1-3 connects or listens on one object against a scripted resolver and kernel: 1-5 candidate addresses, each accepting, refusing, answering late (before or after the timeout, on a virtual clock), never answering or failing at some system call, with interruptions; non-trivial: the first candidate is not the one that succeeds",
    4800000, 28800000};
