// C25: the selector reports exactly the ready members with their own user data.
#include <chrono>
#include <map>
#include <memory>
#include <set>
#include <thread>
#include <frnetlib/SocketSelector.h>
#include <frnetlib/TcpSocket.h>
#include <frnetlib/SSLContext.h>
#include <frnetlib/SSLSocket.h>
#include <frnetlib/TcpListener.h>
#include "fakesock.hpp"
#include "sys.hpp"
#include "tls.hpp"
using namespace vp;

struct FailCtl : Sys
{
    struct Forever { };
    bool fail_add = false, interrupt = false, pretend = false;
    int waits = 0;
    double passed = 0;      // pretended waiting, in ms
    int epoll_ctl(int e, int op, int fd, epoll_event *ev) override { if(fail_add && op == EPOLL_CTL_ADD) { errno = ENOSPC; return -1; } return __real_epoll_ctl(e, op, fd, ev); }
    int epoll_wait(int e, epoll_event *ev, int n, int t) override { if(interrupt) { interrupt = false; errno = EINTR; return -1; } if(!pretend) return __real_epoll_wait(e, ev, n, t); int r = __real_epoll_wait(e, ev, n, 0); if(!r) { if(t < 0 || ++waits > 3000) throw Forever(); else passed += t; } return r; }
    int64_t skew() override { return (int64_t)(std::min(passed, 4e12) * 1e6); }
};

static double now_ms() { return std::chrono::duration<double, std::milli>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static void reset_on_close(int fd) { linger lg = {1, 0}; __real_setsockopt(fd, SOL_SOCKET, SO_LINGER, &lg, sizeof lg); }

struct Ent
{
    std::shared_ptr<fr::SocketDescriptor> d;    // our reference, may be given up
    std::weak_ptr<fr::SocketDescriptor> w;
    fr::Socket *s = nullptr;
    bool tls = false;                   // a TLS socket with an adopted descriptor
    fr::Listener *l = nullptr;
    int peer = -1;
    size_t pending = 0;                 // unread bytes, or connections waiting
    bool hup = false;                   // the peer is gone, or will send no more
    bool open = false;
    std::vector<int> waiting;           // raw clients of a listener, in order
    int incarnation = 0;
    // membership
    bool member = false; void *opaque = nullptr; int reg = -1;
    bool live() const { return member && open && reg == incarnation; }
    bool ready() const { return live() && (pending > 0 || hup); }
    void drop_peer() { if(peer >= 0) { reset_on_close(peer); __real_close(peer); } peer = -1; for(int x : waiting) { reset_on_close(x); __real_close(x); } waiting.clear(); }
};

static void prop(Case &cx)
{
    cx.reset_steps(1000000);
    auto sel = std::make_unique<fr::SocketSelector>();
    size_t big = cx.chance(1, 60) ? 90 + cx.draw(40) : 0;
    size_t N = 3 + cx.draw(4), L = cx.draw(3);
    if(big) { N = big; cx.label("about a hundred members"); }
    std::vector<Ent> e(N + L);
    std::vector<int> files;
    struct Sweep { std::vector<Ent> &e; std::vector<int> &f; ~Sweep() { for(auto &x : e) x.drop_peer(); for(int x : f) __real_close(x); } } sweep{e, files};
    static auto context = std::make_shared<fr::SSLContext>();
    bool some_tls = cx.chance(1, 3);
    auto fresh = [&](Ent &x, bool listener)
    {
        x = Ent();
        if(listener && some_tls && cx.chance(1, 2))
        {
            static std::map<pid_t, std::pair<std::string, std::string>> files;
            auto &f = files[getpid()];
            if(f.first.empty()) { f.second = tls::save("c25.key", tls::key(0).pem()); f.first = tls::save("c25.crt", tls::make(tls::Cert())); }
            auto p = std::make_shared<fr::SSLListener>(context, f.first, f.second);
            x.l = p.get(); x.d = p; x.tls = true; p->set_inet_version(fr::Socket::IP::v4);
            cx.label("TLS listeners");
        }
        else if(listener) { auto p = std::make_shared<fr::TcpListener>(); x.l = p.get(); x.d = p; p->set_inet_version(fr::Socket::IP::v4); }
        else if(some_tls && cx.chance(1, 4)) { auto p = std::make_shared<fr::SSLSocket>(context); x.s = p.get(); x.d = p; x.tls = true; cx.label("TLS sockets"); }
        else { auto p = std::make_shared<fr::TcpSocket>(); x.s = p.get(); x.d = p; }
        x.w = x.d;
    };
    for(size_t a = 0; a < e.size(); ++a) fresh(e[a], a >= N);
    auto open_socket = [&](Ent &x)
    {
        int p[2];
        if(::socketpair(AF_UNIX, SOCK_STREAM, 0, p)) cx.discard();
        if(!x.open) ++x.incarnation; else ++x.incarnation;
        x.drop_peer();
        int32_t fd = p[0];
        if(x.tls) { auto *c = new mbedtls_net_context; mbedtls_net_init(c); c->fd = fd; x.s->set_descriptor(c); }
        else x.s->set_descriptor(&fd);
        x.peer = p[1]; x.pending = 0; x.hup = false; x.open = true;
    };
    auto open_listener = [&](Ent &x)
    {
        x.drop_peer();
        if(x.l->listen("0") != Status::Success) cx.discard();
        ++x.incarnation;
        x.pending = 0; x.hup = false; x.open = true;
    };
    auto arrived = [&](int fd) { pollfd p = {fd, POLLIN, 0}; return __real_poll(&p, 1, 5000) > 0; };
    size_t serial = 0, interesting = 0;
    std::string op;
    auto name = [&](const Ent &x) { return std::string(x.l ? x.tls ? "TLS listener " : "listener " : x.tls ? "TLS socket " : "socket ") + num(&x - &e[0]); };
    auto wait = [&](int ms)
    {
        std::set<const fr::SocketDescriptor *> want;
        for(auto &x : e) if(x.ready()) want.insert(x.s ? (fr::SocketDescriptor *)x.s : (fr::SocketDescriptor *)x.l);
        FailCtl f; f.interrupt = cx.chance(1, 20);
        bool intr = f.interrupt;
        double t0 = now_ms();
        std::vector<std::pair<std::shared_ptr<fr::SocketDescriptor>, void *>> got;
        { UseSys u(f); got = sel->wait(std::chrono::milliseconds(ms)); }
        double el = now_ms() - t0;
        if(intr && !f.interrupt)
        {
            VP_CHECK(cx, got.empty() || got.size() == std::min<size_t>(want.size(), 100), "interrupted", "an interrupted wait returned part of the members");
            cx.label("interrupted wait");
            if(got.empty()) return;
        }
        std::set<const fr::SocketDescriptor *> seen;
        for(auto &g : got)
        {
            VP_CHECK(cx, g.first != nullptr, "null", "after " + op + " a wait returned a null member");
            Ent *x = nullptr;
            for(auto &y : e) if((y.s ? (fr::SocketDescriptor *)y.s : (fr::SocketDescriptor *)y.l) == g.first.get() && !y.w.expired()) x = &y;
            VP_CHECK(cx, x != nullptr, "unknown", "after " + op + " a wait returned something that was never added");
            VP_CHECK(cx, x->member, "removed", "after " + op + " a wait returned " + name(*x) + ", which is no member");
            VP_CHECK(cx, x->ready(), "idle", "after " + op + " a wait returned " + name(*x) + ", which is not ready");
            VP_CHECK(cx, g.second == x->opaque, "opaque", "after " + op + " a wait returned " + name(*x) + " with somebody else's user data");
            VP_CHECK(cx, seen.insert(g.first.get()).second, "twice", "after " + op + " a wait returned " + name(*x) + " twice");
        }
        if(want.size() <= 100) { for(auto &x : e) if(x.ready()) VP_CHECK(cx, seen.count(x.s ? (fr::SocketDescriptor *)x.s : (fr::SocketDescriptor *)x.l), "missed", "after " + op + " a wait did not return " + name(x) + ", which is ready"); }
        else VP_CHECK(cx, got.size() == 100, "missed", "a wait returned " + num(got.size()) + " members although " + num(want.size()) + " are ready");
        if(want.empty()) VP_CHECK(cx, el >= ms - 2.0, "early", "a wait of " + num(ms) + " ms with nothing ready returned after " + std::to_string(el));
        if(want.size() > 1) cx.label("several ready");
        if(want.size()) ++interesting;
    };
    auto long_wait = [&]        // the clock is a pretended one
    {
        for(auto &x : e) if(x.ready()) return;
        int64_t ms = cx.pick<int64_t>({1000, 86400000, INT32_MAX - 1ll, INT32_MAX, INT32_MAX + 1ll, 3600000000ll, UINT32_MAX, UINT32_MAX + 1ll, UINT32_MAX + 101ll, 1ll << 40, INT64_MAX}) - (int64_t)cx.draw(2);
        FailCtl f; f.pretend = true;
        bool none = true, forever = false;
        try { UseSys u(f); none = sel->wait(std::chrono::milliseconds(ms)).empty(); }
        catch(const FailCtl::Forever &) { forever = true; }
        VP_CHECK(cx, none, "idle", "after " + op + " a wait returned something although nothing is ready");
        // forever and 2^31 ms (25 days) are much the same
        VP_CHECK(cx, forever ? ms >= INT32_MAX : f.passed >= (double)std::min<int64_t>(ms, INT32_MAX), "early", "a wait of " + std::to_string(ms) + " ms with nothing ready " + (forever ? "would never have returned" : "would have returned after " + std::to_string((int64_t)f.passed)));
        cx.label("long wait");
    };
    auto woken_wait = [&]       // something becomes ready while it waits
    {
        for(auto &x : e) if(x.ready()) return;
        for(auto &x : e) if(x.live() && x.s && x.peer >= 0 && !x.hup)
        {
            unsigned us = (unsigned)cx.draw(3000);
            std::thread t([&] { usleep(us); if(__real_send(x.peer, "y", 1, MSG_DONTWAIT) == 1) ++x.pending; });
            double t0 = now_ms();
            auto got = sel->wait(std::chrono::milliseconds(20000));
            double el = now_ms() - t0;
            t.join();
            VP_CHECK(cx, x.pending == 1 && got.size() == 1 && got[0].first.get() == (fr::SocketDescriptor *)x.s && got[0].second == x.opaque, "woken", "after " + op + " a wait during which " + name(x) + " became ready returned " + num(got.size()) + " members");
            VP_CHECK(cx, el < 10000, "woken", "after " + op + " a wait during which " + name(x) + " became ready took " + std::to_string(el) + " ms");
            cx.label("woken wait");
            ++interesting;
            return;
        }
    };
    size_t n = big ? 8 + cx.draw(20) : 4 + cx.draw(24);
    if(big) for(size_t a = 0; a < N; ++a) { open_socket(e[a]); e[a].opaque = (void *)(0x1000 + ++serial); sel->add(e[a].d, e[a].opaque); e[a].member = true; e[a].reg = e[a].incarnation; if(cx.draw(20)) { if(__real_send(e[a].peer, "x", 1, MSG_DONTWAIT) == 1) ++e[a].pending; } }
    int waited = 0;
    if(!big) for(auto &x : e) if(cx.chance(3, 4))
    {
        if(x.l) open_listener(x); else open_socket(x);
        if(cx.flip()) { x.opaque = (void *)(0x1000 + ++serial); sel->add(x.d, x.opaque); x.member = true; x.reg = x.incarnation; cx.note([&] { return "opened and added " + name(x); }); }
        else cx.note([&] { return "opened " + name(x); });
    }
    for(size_t step = 0; step < n; ++step)
    {
        op = "nothing";
        Ent &x = e[cx.draw(e.size())];
        if(x.w.expired()) { x.drop_peer(); fresh(x, &x - &e[0] >= (long)N); }
        switch(cx.weighted({5, 6, 4, 4, 2, 3, 2, 2, 6, 1, 2, 1}))
        {
            case 0:
                op = std::string(x.open ? "reopening " : "opening ") + name(x);
                if(x.l) open_listener(x); else open_socket(x);
                break;
            case 1:
            {
                bool inject = cx.chance(1, 12), dup = x.member, threw = false;
                if(!x.d) { x.d = x.w.lock(); }
                void *o = (void *)(cx.chance(1, 8) ? (uintptr_t)0 : 0x1000 + ++serial);
                FailCtl f; f.fail_add = inject;
                op = "adding " + name(x) + (inject ? " (with the system refusing)" : "");
                try { UseSys u(f); sel->add(x.d, o); } catch(const std::exception &) { threw = true; }
                if(!x.open || inject) VP_CHECK(cx, threw, "accepted", op + " was accepted although it is " + (x.open ? "refused by the system" : "disconnected"));
                if(dup && x.live()) VP_CHECK(cx, threw, "accepted", op + " twice was accepted");
                if(!dup && x.open && !inject) VP_CHECK(cx, !threw, "refused", op + " was refused");
                if(!threw) { x.member = true; x.opaque = o; x.reg = x.incarnation; }
                else { cx.label("refused add"); ++interesting; }
                break;
            }
            case 2:
            {
                if(!x.d) { x.d = x.w.lock(); }
                op = "removing " + name(x) + (x.member ? (x.live() ? "" : ", which has been disconnected meanwhile,") : ", which is no member,");
                if(x.member && !x.live()) { cx.label("removed after a disconnect"); ++interesting; }
                void *o;
                try { o = sel->remove(x.d); } catch(const std::exception &ex) { cx.fail("remove-throws", op + " threw: " + ex.what()); }
                VP_CHECK(cx, o == (x.member ? x.opaque : nullptr), "remove-opaque", op + " returned the wrong user data");
                x.member = false; x.opaque = nullptr;
                break;
            }
            case 3:
                if(x.s && x.peer >= 0 && x.open && !x.hup) { op = "sending to " + name(x); size_t k = 1 + cx.draw(5); if(__real_send(x.peer, "abcdefgh", k, MSG_DONTWAIT | MSG_NOSIGNAL) != (ssize_t)k) cx.discard(); x.pending += k; }
                else if(x.l && x.open && x.waiting.size() < 5)
                {
                    op = "connecting to " + name(x);
                    sockaddr_in a; socklen_t al = sizeof a;
                    int c = ::socket(AF_INET, SOCK_STREAM, 0);
                    if(c < 0 || ::getsockname(x.l->get_socket_descriptor(), (sockaddr *)&a, &al)) cx.discard();
                    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
                    if(::connect(c, (sockaddr *)&a, sizeof a) || !arrived(x.l->get_socket_descriptor())) { __real_close(c); cx.discard(); }
                    // accept queues are filled in order; wait until ours is in, too
                    x.waiting.push_back(c); ++x.pending;
                }
                break;
            case 4: if(x.s && x.open && x.peer >= 0) { op = "closing the peer of " + name(x); if(cx.flip()) ::shutdown(x.peer, SHUT_WR); else { __real_close(x.peer); x.peer = -1; } x.hup = true; } break;
            case 5:
                if(x.s && x.open && x.pending)
                {
                    op = "reading from " + name(x);
                    char b[64]; size_t want = cx.flip() ? x.pending : 1 + cx.draw(x.pending), got = 0;
                    while(want) { if(x.tls) { ssize_t k = __real_recv(x.s->get_socket_descriptor(), b, std::min(want, sizeof b), 0); if(k <= 0) break; got = (size_t)k; } else if(x.s->receive_raw(b, std::min(want, sizeof b), got) != Status::Success) break; want -= got; x.pending -= got; }
                    if(want && !x.hup) cx.discard();
                    if(want) x.pending = 0;
                }
                else if(x.l && x.tls && x.open && x.pending)
                {
                    op = "accepting from " + name(x);
                    int c = __real_accept(x.l->get_socket_descriptor(), nullptr, nullptr);
                    if(c < 0) cx.discard();
                    reset_on_close(c);
                    __real_close(c); __real_close(x.waiting.front());
                    x.waiting.erase(x.waiting.begin()); --x.pending;
                }
                else if(x.l && x.open && x.pending)
                {
                    Ent &y = e[cx.draw(N)];
                    if(!y.s || y.tls || y.w.expired()) break;
                    op = "accepting from " + name(x) + " into " + name(y);
                    if(x.l->accept(*y.s) != Status::Success) cx.discard();
                    y.drop_peer();
                    y.peer = x.waiting.front(); x.waiting.erase(x.waiting.begin()); --x.pending;
                    y.pending = 0; y.hup = false; y.open = true; ++y.incarnation;
                    reset_on_close(y.s->get_socket_descriptor());
                    cx.label("accepted");
                    // later actions of the TCP peer must have arrived before a wait is judged; keep it simple
                    __real_close(y.peer); y.peer = -1; y.hup = true;
                    if(!arrived(y.s->get_socket_descriptor())) cx.discard();
                }
                break;
            case 6: if(x.open) { op = "disconnecting " + name(x); if(x.s) x.s->disconnect(); else x.l->close_socket(); x.drop_peer(); x.open = false; x.pending = 0; x.hup = false; } break;
            case 7:
                if(x.d)
                {
                    op = "giving up the reference to " + name(x);
                    x.d.reset();
                    if(x.member) { VP_CHECK(cx, !x.w.expired(), "dead", name(x) + " was destroyed while it is a member"); cx.label("kept alive by the selector"); }
                    else { VP_CHECK(cx, x.w.expired(), "kept", name(x) + " is kept alive although it is no member"); x.open = false; }
                }
                break;
            case 8: { if(cx.chance(1, 12)) long_wait(); else if(cx.chance(1, 40)) woken_wait(); int ms = waited < 3 && cx.chance(1, 12) ? 1 + (int)cx.draw(8) : 0; if(ms) ++waited; wait(ms); break; }
            case 9:
                op = "replacing the selector";
                sel.reset();
                for(auto &y : e) { y.member = false; y.opaque = nullptr; if(!y.d) { VP_CHECK(cx, y.w.expired(), "kept", name(y) + " outlives the selector that held it"); y.open = false; } }
                sel = std::make_unique<fr::SocketSelector>();
                break;
            case 11:
                // the descriptor number is taken over by a file
                if(x.s && x.open && files.size() < 3)
                {
                    op = "disconnecting " + name(x) + " and opening a file on its descriptor number";
                    int old = x.s->get_socket_descriptor();
                    x.s->disconnect(); x.drop_peer(); x.open = false; x.pending = 0; x.hup = false;
                    int fd = ::open("/dev/null", O_RDONLY | O_CLOEXEC);
                    if(fd == old) { cx.label("descriptor number reused by a file"); ++interesting; }
                    if(fd >= 0) files.push_back(fd);
                }
                break;
            default:
                // the descriptor of one socket is taken over by another
                if(x.s && x.open)
                {
                    Ent &y = e[cx.draw(N)];
                    if(&y == &x || !y.s || y.w.expired() || y.open) break;
                    op = "disconnecting " + name(x) + " and opening " + name(y) + " on its descriptor number";
                    int old = x.s->get_socket_descriptor();
                    x.s->disconnect(); x.drop_peer(); x.open = false; x.pending = 0; x.hup = false;
                    open_socket(y);
                    if(y.s->get_socket_descriptor() == old) { cx.label("descriptor number reused"); ++interesting; }
                }
                break;
        }
        cx.note([&] { return op; });
        for(auto &y : e) if(y.member) VP_CHECK(cx, !y.w.expired(), "dead", "after " + op + " " + name(y) + " was destroyed while it is a member");
    }
    op = "everything";
    wait(0);
    if(interesting >= 3) cx.nontrivial();
}

Property vp::the_property = {"C25", prop,
    "a case is a history of 4-27 operations (open, reopen, add, remove, send, connect, read, accept, hang up, disconnect, drop reference, replace selector, descriptor number reuse, failing system call, wait) over 3-6 sockets (sometimes about 100, sometimes TLS ones) and up to 2 listeners; non-trivial: at least three waits with ready members, refused adds, removals after a disconnect or reused numbers",
    240000, 1440000};
