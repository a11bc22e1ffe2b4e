// C24: blocking mode, timeouts and options always match the operating system's state.
#include <chrono>
#include <memory>
#include <frnetlib/TcpSocket.h>
#include <frnetlib/TcpListener.h>
#include <frnetlib/SSLContext.h>
#include <frnetlib/SSLSocket.h>
#include "fakesock.hpp"
#include "sys.hpp"
using namespace vp;

struct FailFcntl : Sys
{
    size_t at = SIZE_MAX, n = 0; bool failed = false;
    bool hit() { if(n++ != at) return false; failed = true; errno = EIO; return true; }
    bool set_only = false;      // mbedtls does not look at what F_GETFL returns
    int fcntl(int fd, int cmd, long arg) override { return !(set_only && cmd != F_SETFL) && hit() ? -1 : __real_fcntl(fd, cmd, arg); }
    int ioctl(int fd, unsigned long r, void *a) override { return hit() ? -1 : __real_ioctl(fd, r, a); }
};

static double now_ms() { return std::chrono::duration<double, std::milli>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct M { uint32_t rcv = 0, snd = 0; bool tcp = true, tls = false; };

static void check(Case &cx, fr::Socket &s, const M &m, const std::string &op)
{
    VP_CHECK(cx, s.get_receive_timeout() == m.rcv, "reported", "after " + op + " the reported receive timeout is " + num(s.get_receive_timeout()) + " instead of " + num(m.rcv));
    VP_CHECK(cx, s.get_send_timeout() == m.snd, "reported", "after " + op + " the reported send timeout is " + num(s.get_send_timeout()) + " instead of " + num(m.snd));
    if(!s.connected()) return;
    int fd = s.get_socket_descriptor();
    int fl = __real_fcntl(fd, F_GETFL, 0);
    VP_CHECK(cx, fl >= 0, "dead", "after " + op + " the descriptor is not open");
    bool real = !(fl & O_NONBLOCK);
    VP_CHECK(cx, real == s.get_blocking(), "mode", "after " + op + " the descriptor is " + (real ? "blocking" : "non-blocking") + " but the socket reports " + (s.get_blocking() ? "blocking" : "non-blocking"));
    auto tmo = [&](int opt, uint32_t want, const char *what)
    {
        timeval tv = {}; socklen_t l = sizeof tv;
        if(__real_getsockopt(fd, SOL_SOCKET, opt, &tv, &l)) return;
        double got = tv.tv_sec * 1000.0 + tv.tv_usec / 1000.0;
        bool ok = want == 0 ? got == 0 : (got >= (double)want - 0.01 && got <= (double)want + 10.5);
        VP_CHECK(cx, ok, "timeout-option", "after " + op + " the descriptor's " + what + " timeout is " + std::to_string(got) + " ms instead of " + num(want));
    };
    tmo(SO_RCVTIMEO, m.rcv, "receive");
    tmo(SO_SNDTIMEO, m.snd, "send");
    if(m.tcp)
    {
        int v = 0; socklen_t l = sizeof v;
        if(__real_getsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &v, &l) == 0)
            VP_CHECK(cx, v != 0, "nodelay", "after " + op + " send coalescing is enabled");
    }
    linger lg = {1, 0};
    __real_setsockopt(fd, SOL_SOCKET, SO_LINGER, &lg, sizeof lg);
}

struct RawFd { int fd = -1; ~RawFd() { close(); } void close() { if(fd >= 0) { linger lg = {1, 0}; __real_setsockopt(fd, SOL_SOCKET, SO_LINGER, &lg, sizeof lg); __real_close(fd); } fd = -1; } };

static int raw_listen(sockaddr_in &a)
{
    int fd = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    a = {}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    socklen_t l = sizeof a;
    if(fd < 0 || ::bind(fd, (sockaddr *)&a, sizeof a) || ::listen(fd, 64) || ::getsockname(fd, (sockaddr *)&a, &l)) { if(fd >= 0) __real_close(fd); return -1; }
    return fd;
}

static uint32_t timeout_value(Case &cx)
{
    switch(cx.weighted({2, 3, 3, 2, 1, 2}))
    {
        case 0: return 0;
        case 1: return 1 + (uint32_t)cx.draw(50);
        case 2: return 900 + (uint32_t)cx.draw(300);
        case 3: return (uint32_t)cx.draw(100000);
        case 4: return cx.pick<uint32_t>({UINT32_MAX, UINT32_MAX - 1, 0x7fffffffu, 0x80000000u, 4294967000u, 999, 1000, 1001, 2000, 60000});
        default: return (uint32_t)cx.integer(32);
    }
}

static void prop(Case &cx)
{
    cx.reset_steps(1000000);
    // per process: our own accepting socket for connects, and a library listener for accepts
    static int lfd = -1; static sockaddr_in la;
    static std::unique_ptr<fr::TcpListener> lib; static sockaddr_in6 liba; static socklen_t libl; 
    if(lfd < 0)
    {
        lfd = raw_listen(la);
        lib = std::make_unique<fr::TcpListener>();
        lib->set_inet_version(fr::Socket::IP::v4);
        if(lfd < 0 || lib->listen("0") != Status::Success) cx.discard();
        libl = sizeof liba;
        ::getsockname(lib->get_socket_descriptor(), (sockaddr *)&liba, &libl);
    }
    const int N = 2;
    std::unique_ptr<fr::Socket> s[N];
    M m[N];
    RawFd peer[N];
    static auto context = std::make_shared<fr::SSLContext>();
    auto create = [&](int i)
    {
        m[i] = M();
        m[i].tls = cx.chance(1, 3);
        if(m[i].tls) { cx.label("TLS socket"); s[i] = std::make_unique<fr::SSLSocket>(context); }
        else s[i] = std::make_unique<fr::TcpSocket>();
    };
    for(int i = 0; i < N; ++i) create(i);
    auto adopt = [&](int i, int fd)
    {
        if(!m[i].tls) { int32_t d = fd; s[i]->set_descriptor(&d); return; }
        auto *n = new mbedtls_net_context;
        mbedtls_net_init(n);
        n->fd = fd;
        s[i]->set_descriptor(n);
    };
    size_t n = 2 + cx.draw(14), changes = 0, rtime = 0;
    for(size_t k = 0; k < n; ++k)
    {
        int i = (int)cx.draw(N);
        auto &x = *s[i];
        std::string op;
        bool was = x.connected();
        size_t what = cx.weighted({4, 3, 3, 3, 6, 1, 1, 1, 2, 1});
        if(m[i].tls && (what < 2 || what > 7)) what = 7;        // a handshake takes too long, and there is no TLS peer
        switch(what)
        {
            case 0:
            {
                op = std::string(was ? "reconnecting" : "connecting");
                Status st = x.connect("127.0.0.1", num(ntohs(la.sin_port)), std::chrono::seconds(5));
                VP_CHECK(cx, st == Status::Success, "connect", "could not connect: " + status_name(st));
                peer[i].close();
                peer[i].fd = __real_accept(lfd, nullptr, nullptr);
                m[i].tcp = true;
                VP_CHECK(cx, x.get_blocking(), "new-blocking", "after " + op + " the socket reports non-blocking");
                break;
            }
            case 1:
            {
                op = std::string("accepting") + (was ? " into a connected socket" : "");
                RawFd c; c.fd = ::socket(AF_INET, SOCK_STREAM, 0);
                sockaddr_in to; memcpy(&to, &liba, sizeof to); to.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
                if(c.fd < 0 || ::connect(c.fd, (sockaddr *)&to, sizeof to)) cx.discard();
                Status st = lib->accept(static_cast<fr::TcpSocket &>(x));
                VP_CHECK(cx, st == Status::Success, "accept", "could not accept: " + status_name(st));
                peer[i].close(); peer[i].fd = c.fd; c.fd = -1;
                m[i].tcp = true;
                VP_CHECK(cx, x.get_blocking(), "new-blocking", "after " + op + " the socket reports non-blocking");
                break;
            }
            case 2: { m[i].rcv = timeout_value(cx); op = "setting the receive timeout to " + num(m[i].rcv); x.set_receive_timeout(m[i].rcv); ++changes; break; }
            case 3: { m[i].snd = timeout_value(cx); op = "setting the send timeout to " + num(m[i].snd); x.set_send_timeout(m[i].snd); ++changes; break; }
            case 4:
            {
                bool b = cx.flip(), before = x.get_blocking();
                FailFcntl f; f.set_only = m[i].tls; if(cx.chance(1, 6)) f.at = cx.draw(3);
                op = std::string("switching to ") + (b ? "blocking" : "non-blocking");
                Status st; { UseSys u(f); st = x.set_blocking(b); }
                if(f.failed) { op += " (with a failing system call)"; cx.label("failing mode switch"); }
                if(was)
                {
                    VP_CHECK(cx, (st == Status::Success) == (x.get_blocking() == b) || (before == b && (st == Status::Success || f.failed)), "switch", op + " returned " + status_name(st) + " but the mode is " + (x.get_blocking() ? "blocking" : "non-blocking"));
                    if(!f.failed) VP_CHECK(cx, st == Status::Success && x.get_blocking() == b, "switch", op + " returned " + status_name(st));
                }
                ++changes;
                break;
            }
            case 5: op = "disconnecting"; x.disconnect(); peer[i].close(); break;
            case 6: op = "recreating"; create(i); peer[i].close(); break;
            case 7:
            {
                int p[2];
                bool nb = cx.flip(), tcp = cx.chance(2, 3);
                if(tcp)
                {
                    p[0] = ::socket(AF_INET, SOCK_STREAM, 0);
                    if(p[0] < 0 || ::connect(p[0], (sockaddr *)&la, sizeof la) || (nb && __real_fcntl(p[0], F_SETFL, O_NONBLOCK))) cx.discard();
                    p[1] = __real_accept(lfd, nullptr, nullptr);
                }
                else if(::socketpair(AF_UNIX, SOCK_STREAM | (nb ? SOCK_NONBLOCK : 0), 0, p)) cx.discard();
                op = std::string("adopting a ") + (nb ? "non-blocking" : "blocking") + (tcp ? " TCP" : "") + " descriptor" + (was ? " while connected" : "");
                adopt(i, p[0]);
                peer[i].close(); peer[i].fd = p[1];
                m[i].tcp = tcp;
                VP_CHECK(cx, x.connected() && x.get_socket_descriptor() == p[0], "adopted", "after " + op + " the socket has another descriptor");
                break;
            }
            case 8:
            {   // behaviour of an empty socket
                if(!was) { op = "nothing"; break; }
                char b[8]; size_t r = 77;
                bool real = !(__real_fcntl(x.get_socket_descriptor(), F_GETFL, 0) & O_NONBLOCK);
                if(real && (m[i].rcv == 0 || m[i].rcv > 60 || rtime > 120)) { op = "nothing"; break; }
                op = "receiving nothing";
                double t0 = now_ms();
                Status st = x.receive_raw(b, sizeof b, r);
                double el = now_ms() - t0;
                if(real)
                {
                    rtime += m[i].rcv;
                    VP_CHECK(cx, st == Status::Timeout, "empty", "an empty blocking socket with a timeout of " + num(m[i].rcv) + " ms returned " + status_name(st));
                    VP_CHECK(cx, el >= m[i].rcv - 2.0, "early", "a receive timeout of " + num(m[i].rcv) + " ms expired after " + std::to_string(el));
                    VP_CHECK(cx, el < m[i].rcv + 8000.0, "late", "a receive timeout of " + num(m[i].rcv) + " ms expired after " + std::to_string(el));
                    cx.label("waited for a receive timeout");
                }
                else
                {
                    VP_CHECK(cx, st == Status::WouldBlock, "empty", "an empty non-blocking socket returned " + status_name(st));
                    cx.label("empty non-blocking receive");
                }
                VP_CHECK(cx, r == 0, "empty-count", "an empty receive reported " + num(r) + " bytes");
                break;
            }
            default:
            {   // a peer that does not read
                if(!was || !m[i].tcp) { op = "nothing"; break; }
                bool real = !(__real_fcntl(x.get_socket_descriptor(), F_GETFL, 0) & O_NONBLOCK);
                if(real && (m[i].snd == 0 || m[i].snd > 60 || rtime > 120)) { op = "nothing"; break; }
                int sz = 4096;
                __real_setsockopt(x.get_socket_descriptor(), SOL_SOCKET, SO_SNDBUF, &sz, sizeof sz);
                __real_setsockopt(peer[i].fd, SOL_SOCKET, SO_RCVBUF, &sz, sizeof sz);
                static const std::string big(16 << 20, 'x');
                size_t sent = 0;
                op = "sending to a peer that does not read";
                double t0 = now_ms();
                Status st = x.send_raw(big.data(), big.size(), sent);
                double el = now_ms() - t0;
                if(real)
                {
                    rtime += m[i].snd;
                    VP_CHECK(cx, st == Status::Timeout, "full", "a blocking socket with a full buffer returned " + status_name(st));
                    VP_CHECK(cx, el >= m[i].snd - 2.0, "early", "a send timeout of " + num(m[i].snd) + " ms expired after " + std::to_string(el));
                    cx.label("waited for a send timeout");
                }
                else { VP_CHECK(cx, st == Status::WouldBlock, "full", "a non-blocking socket with a full buffer returned " + status_name(st)); cx.label("full non-blocking send"); }
                VP_CHECK(cx, sent < big.size(), "full-count", "everything was sent");
                x.disconnect(); peer[i].close();
                break;
            }
        }
        cx.note([&] { return std::string(m[i].tls ? "TLS socket " : "socket ") + num(i) + ": " + op; });
        for(int a = 0; a < N; ++a) check(cx, *s[a], m[a], op + (a == i ? "" : " (the other socket)"));
    }
    if(changes >= 2) cx.nontrivial();
}

Property vp::the_property = {"C24", prop,
    "a case is a history of 2-15 operations (connect, reconnect, accept, adopt a descriptor, disconnect, recreate, switch mode with or without a failing system call, set timeouts, receive on empty and send to full sockets) over two TCP or TLS sockets (the latter with adopted descriptors) on real loopback connections, comparing reported and real mode, timeouts and options after every step; non-trivial: at least two settings are changed",
    120000, 720000};
