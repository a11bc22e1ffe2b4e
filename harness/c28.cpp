// C28: TLS sockets behave like plain sockets: same data, same blocking and timeouts.
#include "msgs.hpp"
#include "tls.hpp"
using namespace vp;
using namespace msgs;

struct Step
{
    Item it;
    int probe = 0;          // the sender checks, while nothing is under way, that: 1 a non-blocking receive would block, 2 a timed one times out, 3 both modes are real
    unsigned ms = 0;
};
struct Side
{
    bool nb = false;                    // non-blocking throughout
    unsigned send_timeout = 0;          // sends that time out are resumed
    unsigned slow = 0;                  // microseconds between receives
    int sndbuf = 0, rcvbuf = 0;
    int ending = 0;                     // closes: 0 the connection ends, 1 is reset, 2 ends after something that is not TLS
    bool sends_on = false;              // goes on sending after the peer has closed
    std::string error;
};

// short transfers and interruptions, for the library and mbedtls alike
struct Noise : Sys
{
    Rng r;
    unsigned level = 0;         // of 100 calls
    uint64_t hits = 0;
    int streak = 0;
    bool interrupt() { if(r.below(100) < level && ++streak < 4) { ++hits; errno = EINTR; return true; } streak = 0; return false; }
    size_t cut(size_t n) { if(n < 2 || r.below(100) >= level) return n; ++hits; return 1 + r.below(r.below(2) ? n : std::min<size_t>(n, 8)); }
    ssize_t read(int fd, void *b, size_t n) override { return interrupt() ? -1 : __real_read(fd, b, cut(n)); }
    ssize_t recv(int fd, void *b, size_t n, int f) override { return interrupt() ? -1 : __real_recv(fd, b, cut(n), f); }
    ssize_t recvfrom(int fd, void *b, size_t n, int f, sockaddr *a, socklen_t *l) override { return interrupt() ? -1 : __real_recvfrom(fd, b, cut(n), f, a, l); }
    ssize_t write(int fd, const void *b, size_t n) override { return interrupt() ? -1 : __real_write(fd, b, cut(n)); }
    ssize_t send(int fd, const void *b, size_t n, int f) override { return interrupt() ? -1 : __real_send(fd, b, cut(n), f); }
    ssize_t sendto(int fd, const void *b, size_t n, int f, const sockaddr *a, socklen_t l) override { return interrupt() ? -1 : __real_sendto(fd, b, cut(n), f, a, l); }
    int poll(pollfd *f, nfds_t n, int t) override { return interrupt() ? -1 : __real_poll(f, n, t); }
};

// the first socket made gets the number 0, which stands for /dev/null otherwise
struct Zero : Sys
{
    static void hold() { int n = ::open("/dev/null", O_RDWR); if(n > 0) { ::dup2(n, 0); ::close(n); } }
    int socket(int d, int t, int p) override
    {
        int fd = __real_socket(d, t, p);
        struct stat st;
        if(fd < 0 || fstat(0, &st) != 0 || !S_ISCHR(st.st_mode)) return fd;
        ::dup2(fd, 0);
        __real_close(fd);
        return 0;
    }
};

static bool real_blocking(int fd) { return !(__real_fcntl(fd, F_GETFL) & O_NONBLOCK); }

// the descriptor's options against what the socket was told
static std::string options(fr::SSLSocket &s, uint32_t receive, uint32_t send)
{
    int fd = s.get_socket_descriptor();
    if(s.get_receive_timeout() != receive || s.get_send_timeout() != send) return "the timeouts reported are not those set";
    for(int opt : {SO_RCVTIMEO, SO_SNDTIMEO})
    {
        uint32_t want = opt == SO_RCVTIMEO ? receive : send;
        timeval tv = {}; socklen_t l = sizeof tv;
        if(__real_getsockopt(fd, SOL_SOCKET, opt, &tv, &l)) continue;
        double got = tv.tv_sec * 1000.0 + tv.tv_usec / 1000.0;
        if(want == 0 ? got != 0 : got < want - 0.01 || got > want + 10.5) return std::string("the descriptor's ") + (opt == SO_RCVTIMEO ? "receive" : "send") + " timeout is " + std::to_string(got) + " ms instead of " + num(want);
    }
    int v = 1; socklen_t l = sizeof v;
    if(__real_getsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &v, &l) == 0 && v == 0) return "send coalescing is enabled";
    return "";
}

static std::string probe(fr::SSLSocket &s, const Side &o, int what, unsigned ms)
{
    char b[8]; size_t got = 77;
    int fd = s.get_socket_descriptor();
    auto mode = [&](bool want) { return s.get_blocking() == want && real_blocking(fd) == want; };
    if(!mode(!o.nb)) return std::string("the socket should be ") + (o.nb ? "non-blocking" : "blocking") + ", it reports " + (s.get_blocking() ? "blocking" : "non-blocking") + " and its descriptor is " + (real_blocking(fd) ? "blocking" : "non-blocking");
    if(what & 1)
    {
        if(s.set_blocking(false) != Status::Success) return "set_blocking(false) failed";
        if(!mode(false)) return "after set_blocking(false) the reported or the real mode is blocking";
        s.set_receive_timeout(5000);
        double t0 = tls::now_ms();
        Status st = s.receive_raw(b, sizeof b, got);
        double el = tls::now_ms() - t0;
        if(st != Status::WouldBlock) return std::string("a non-blocking receive with nothing pending returned ") + status_name(st);
        if(el > 2500) return "a non-blocking receive with nothing pending took " + std::to_string(el) + " ms";
        if(got != 0) return "a receive that returned nothing reports " + num(got) + " bytes";
    }
    if(what & 2)
    {
        if(s.set_blocking(true) != Status::Success) return "set_blocking(true) failed";
        if(!mode(true)) return "after set_blocking(true) the reported or the real mode is non-blocking";
        s.set_receive_timeout(ms);
        if(s.get_receive_timeout() != ms) return "the receive timeout reported is not the one set";
        double t0 = tls::now_ms();
        Status st = s.receive_raw(b, sizeof b, got);
        double el = tls::now_ms() - t0;
        if(st != Status::Timeout) return std::string("a blocking receive with a timeout and nothing pending returned ") + status_name(st);
        if(el < ms - 2.0 || el > ms + 2500.0) return "a receive timeout of " + num(ms) + " ms took " + std::to_string(el);
        if(got != 0) return "a receive that returned nothing reports " + num(got) + " bytes";
    }
    s.set_receive_timeout(20000);
    if(s.set_blocking(!o.nb) != Status::Success) return "set_blocking() failed";
    if(!mode(!o.nb)) return "after set_blocking() the reported or the real mode is wrong";
    return "";
}

// sends raw data, resuming after would-block and, with a send timeout, after timeouts
static Status push(fr::SSLSocket &s, const Side &o, const std::string &d, std::atomic<int> &resumed)
{
    size_t sent = 0, last = 0;
    auto limit = std::chrono::steady_clock::now() + std::chrono::seconds(20);
    while(true)
    {
        Status st = s.send_raw(d.data(), d.size(), sent);
        if(st == Status::Success) return sent == d.size() ? st : Status::Unknown;
        if(sent < last || sent > d.size()) return Status::Unknown;
        last = sent;
        if(!(o.nb && st == Status::WouldBlock) && !(!o.nb && o.send_timeout && st == Status::Timeout)) return st;
        if(std::chrono::steady_clock::now() > limit) return Status::Timeout;
        ++resumed;
        if(o.nb) { pollfd f = {s.get_socket_descriptor(), POLLOUT, 0}; __real_poll(&f, 1, 20); }
    }
}

static void drive(fr::SSLSocket &s, Side &o, const std::vector<Step> &steps, bool client, bool closes, std::atomic<int> &resumed)
{
    int fd = s.get_socket_descriptor();
    if(o.sndbuf) __real_setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &o.sndbuf, sizeof o.sndbuf);
    if(o.rcvbuf) __real_setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &o.rcvbuf, sizeof o.rcvbuf);
    s.set_receive_timeout(20000);
    s.set_send_timeout(o.send_timeout ? o.send_timeout : 20000);
    o.error = options(s, 20000, o.send_timeout ? o.send_timeout : 20000);
    if(!o.error.empty()) return;
    if(o.nb && s.set_blocking(false) != Status::Success) { o.error = "set_blocking failed"; return; }
    for(auto &x : steps)
    {
        Status st;
        if(x.it.up == client)
        {
            if(x.probe) { o.error = probe(s, o, x.probe, x.ms); if(!o.error.empty()) return; }
            if(x.it.kind == RAW) { if(x.it.pause) usleep(x.it.pause); st = push(s, o, x.it.data, resumed); }
            else st = send_item(s, x.it, client);
            if(st != Status::Success) { o.error = "sending a " + x.it.str() + " bytes returned " + status_name(st); return; }
        }
        else
        {
            if(o.slow && x.it.kind == RAW)
            {
                std::string got;
                auto limit = std::chrono::steady_clock::now() + std::chrono::seconds(20);
                while(got.size() < x.it.data.size())
                {
                    usleep(o.slow);
                    std::string b(std::min<size_t>(x.it.data.size() - got.size(), 1 + x.it.data.size() / 20), '\1');
                    size_t n = 0;
                    st = s.receive_raw(&b[0], b.size(), n);
                    if(st == Status::WouldBlock && o.nb && std::chrono::steady_clock::now() < limit) continue;
                    if(st != Status::Success) { o.error = "receiving a " + x.it.str() + " bytes returned " + status_name(st) + " after " + num(got.size()); return; }
                    if(n == 0 || n > b.size()) { o.error = "a successful receive of " + num(b.size()) + " bytes reports " + num(n); return; }
                    got.append(b, 0, n);
                }
                o.error = diff(got, x.it.data);
                if(!o.error.empty()) o.error = "a " + x.it.str() + " bytes: " + o.error;
            }
            else o.error = recv_item(s, x.it, client, st);
            if(!o.error.empty()) return;
        }
    }
    if(closes)
    {
        static const unsigned char junk[] = {0x17, 3, 3, 0, 32, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9};
        if(o.ending == 2) __real_send(fd, junk, sizeof junk, MSG_NOSIGNAL | MSG_DONTWAIT);
        if(o.ending == 1) tls::reset_on_close(fd);
        s.disconnect(); if(s.connected()) o.error = "still connected after disconnecting"; }
    else
    {
        char b[16] = {}; size_t got = 0;
        Status st = recv_all(s, b, 1, got);
        if(st == Status::Success) o.error = "after the peer closed, a byte that was never sent is received";
        else if(st != Status::Disconnected && st != Status::SSLError) o.error = std::string("after the peer closed, receiving returned ") + status_name(st);
        else if(o.sends_on)
        {
            double t0 = tls::now_ms();
            do
            {
                size_t sent = 0;
                st = s.send_raw(b, sizeof b, sent);
                if(st == Status::Success && tls::now_ms() - t0 > 8000) break;
                if(st == Status::Success) usleep(100);
            } while(st == Status::Success);
            if(st != Status::Disconnected && st != Status::SSLError && st != Status::SendError) o.error = std::string("long after the peer closed, sending returns ") + status_name(st);
        }
        tls::reset_on_close(fd);
    }
}

// timeouts set on the object before or after it got its connection, tried out by one end while the other does not touch the connection
struct Timed
{
    bool before = false, nb = false;    // nb: sends without blocking instead of a send timeout
    unsigned receive = 0, send = 0;     // 0: not set
    uint32_t early_receive = 0, early_send = 0;     // set before connecting, looked at and taken back
    std::string data;                   // what is sent to a peer that does not read
    void set(fr::SSLSocket &s) const { if(receive) s.set_receive_timeout(receive); if(send && !nb) s.set_send_timeout(send); }
};
struct Gate { std::atomic<int> resumed{0}; std::atomic<bool> stalled{false}, done{false}, failed{false}; };

static std::string in_time(double el, unsigned ms, const char *what) { return el < ms - 2.0 || el > ms + 2500.0 ? std::string("a ") + what + " timeout of " + num(ms) + " ms took " + std::to_string(el) : ""; }
static std::string try_timeouts(fr::SSLSocket &s, const Timed &t, Gate &g)
{
    if(!t.before) t.set(s);
    std::string where = t.before ? "set before connecting: " : "set after connecting: ", e;
    if(t.receive)
    {
        char b[8]; size_t got = 77;
        double t0 = tls::now_ms();
        Status st = s.receive_raw(b, sizeof b, got);
        double el = tls::now_ms() - t0;
        if(st != Status::Timeout) return where + "a blocking receive with a timeout and nothing pending returned " + status_name(st) + " after " + std::to_string(el) + " ms";
        if(!(e = in_time(el, t.receive, "receive")).empty()) return where + e;
    }
    if(t.send && t.nb)
    {
        if(s.set_blocking(false) != Status::Success) return "set_blocking(false) failed";
        size_t sent = 0;
        double t0 = tls::now_ms();
        Status st = s.send_raw(t.data.data(), t.data.size(), sent);
        double el = tls::now_ms() - t0;
        if(st != Status::WouldBlock) return std::string("a non-blocking send to a peer that does not read returned ") + status_name(st) + " after " + num(sent) + " bytes and " + std::to_string(el) + " ms";
        if(el > 2500) return "a non-blocking send took " + std::to_string(el) + " ms";
        g.stalled = true;
        for(size_t last = sent; (st = s.send_raw(t.data.data(), t.data.size(), sent)) == Status::WouldBlock; last = sent)
        {
            if(sent < last || sent > t.data.size() || tls::now_ms() - t0 > 20000) return "a resumed send does not get on";
            pollfd f = {s.get_socket_descriptor(), POLLOUT, 0}; __real_poll(&f, 1, 20);
            ++g.resumed;
        }
        if(st != Status::Success || sent != t.data.size()) return std::string("a send resumed after would-block returned ") + status_name(st);
        if(s.set_blocking(true) != Status::Success) return "set_blocking(true) failed";
    }
    else if(t.send)
    {
        size_t sent = 0;
        double t0 = tls::now_ms();
        Status st = s.send_raw(t.data.data(), t.data.size(), sent);
        double el = tls::now_ms() - t0;
        if(st != Status::Timeout) return where + "a blocking send with a timeout to a peer that does not read returned " + status_name(st) + " after " + num(sent) + " bytes and " + std::to_string(el) + " ms";
        if(!(e = in_time(el, t.send, "send")).empty()) return where + e;
        g.stalled = true;
        s.set_send_timeout(20000);
        st = s.send_raw(t.data.data(), t.data.size(), sent);
        if(st != Status::Success || sent != t.data.size()) return where + "a send resumed after its timeout returned " + status_name(st);
    }
    g.done = true;
    return "";
}
static std::string let_try(fr::SSLSocket &s, const Timed &t, Gate &g)
{
    double start = tls::now_ms();
    while(!g.stalled && !g.done && !g.failed) { if(tls::now_ms() - start > 7000) return "the other end's timeouts do not expire"; usleep(200); }
    if(g.failed) return "";
    if(t.send)
    {
        // its own receive timeout stays, whatever it is
        std::string got(t.data.size(), '\1');
        size_t n = 0;
        Status st = Status::Success;
        double t0 = tls::now_ms();
        while(n < got.size() && !g.failed)
        {
            size_t r = 0;
            st = s.receive_raw(&got[n], got.size() - n, r);
            if(st == Status::Success && r > 0 && r <= got.size() - n) n += r;
            else if(st != Status::Timeout || tls::now_ms() - t0 > 20000) break;
        }
        if(g.failed) return "";
        if(n != got.size()) return std::string("receiving what had been stalled returned ") + status_name(st) + " after " + num(n) + " bytes";
        if(got != t.data) return "what had been stalled: " + diff(got, t.data);
    }
    start = tls::now_ms();
    while(!g.done && !g.failed && tls::now_ms() - start < 20000) usleep(200);
    return "";
}

struct Cred { std::string crt, key, ca; };
static const Cred &cred()
{
    static std::map<pid_t, Cred> m;
    Cred &c = m[getpid()];
    if(c.crt.empty())
    {
        tls::Cert x;
        x.subject = x.issuer = "CN=127.0.0.1"; x.ca = true;
        c.ca = tls::make(x);
        c.crt = tls::save("c28.crt", c.ca);
        c.key = tls::save("c28.key", tls::key(0).pem());
        tls::context(0)->load_ca_certs_from_file(c.crt);
        tls::context(2)->load_ca_certs_from_file(c.crt);
    }
    return c;
}

static const size_t STALL = 6000000;
static std::string pattern(Case &cx, size_t n) { std::string s(n, 0); uint32_t x = (uint32_t)cx.draw(UINT32_MAX) | 1; for(char &c : s) { x = x * 1664525u + 1013904223u; c = (char)(x >> 24); } return s; }

static void prop(Case &cx)
{
    auto &cr = cred();
    tls::context(1); tls::context(2);
    bool zero = cx.chance(1, 8);
    if(zero) { Zero::hold(); cx.label("the listener gets descriptor 0"); }
    auto baseline = tls::open_fds();
    size_t rounds = 1 + (cx.chance(1, 3) ? 1 : 0);
    std::unique_ptr<fr::SSLListener> l(new fr::SSLListener(tls::context(1), cr.crt, cr.key));
    l->set_inet_version(fr::Socket::IP::v4);
    if(zero) { Zero z; UseSys u(z); VP_CHECK(cx, l->listen("0") == Status::Success, "listen", "listening with descriptor 0 failed"); }
    else VP_CHECK(cx, l->listen("0") == Status::Success, "listen", "listening failed");
    VP_CHECK(cx, l->connected(), "listen", "a listener that listens says it is unconnected");
    if(cx.chance(1, 6)) { VP_CHECK(cx, l->listen("0") == Status::Success, "listen", "listening again failed"); }
    std::string port = num(tls::port_of(l->get_socket_descriptor()));
    auto c = std::make_unique<fr::SSLSocket>(tls::context(0)), s = std::make_unique<fr::SSLSocket>(tls::context(2));
    bool nontrivial = false;
    for(size_t round = 0; round < rounds; ++round)
    {
        if(round && cx.flip()) { std::swap(c, s); cx.label("socket objects change roles"); cx.note([] { return "the socket objects change roles"; }); }
        Side C, S;
        bool raw_only = false;
        for(Side *o : {&C, &S})
        {
            o->nb = cx.chance(1, 3);
            raw_only |= o->nb;
            if(cx.chance(1, 3)) o->slow = 1 + (unsigned)cx.draw(3000);
            if(cx.chance(1, 3)) { o->sndbuf = 16384 << cx.draw(3); }
            if(cx.chance(1, 3)) o->rcvbuf = 16384 << cx.draw(3);
            if(!o->nb && cx.chance(1, 6)) { o->send_timeout = 1 + (unsigned)cx.draw(20); raw_only = true; }
        }
        // a small receive buffer makes the kernel stall on large messages
        size_t big = cx.chance(1, 4) && !C.rcvbuf && !S.rcvbuf ? 600000 : 40000;
        auto items = gen_script(cx, 6, true, big);
        std::vector<Step> steps;
        int waited = 0;
        for(auto &x : items)
        {
            Step st;
            st.it = x;
            if(raw_only) { st.it.kind = RAW; if(st.it.data.empty()) st.it.data = "x"; }
            st.it.pause = std::min(st.it.pause, 300u);
            if(cx.chance(1, 3)) { st.probe = 1 + (int)cx.draw(3); st.ms = 5 + (unsigned)cx.draw(40); if((st.probe & 2) && ++waited > 2) st.probe = 1; }
            if(st.probe) nontrivial = true;
            steps.push_back(st);
        }
        bool client_closes = !cx.flip(), drop_listener = round + 1 == rounds && cx.chance(1, 6);
        {
            // a reset may drop what is still on its way
            Side &closer = client_closes ? C : S, &other = client_closes ? S : C;
            closer.ending = (int)cx.weighted({3, 1, 1});
            if(closer.ending == 1 && (steps.empty() || steps.back().it.up == client_closes)) closer.ending = 0;
            other.sends_on = cx.chance(1, 3);
        }
        Timed timed[2];                         // the client's and the server's timeouts
        for(Timed &t : timed)
        {
            if(cx.chance(1, 3)) { t.early_receive = 1 + (uint32_t)cx.draw(40000); t.early_send = 1 + (uint32_t)cx.draw(40000); }
            if(!cx.chance(1, 5)) continue;
            t.before = cx.flip();
            size_t k = cx.draw(3);
            if(k != 1) t.receive = 5 + (unsigned)cx.draw(50);
            if(k != 0) { t.send = 5 + (unsigned)cx.draw(50); t.data = pattern(cx, STALL); }
            t.nb = t.send && cx.chance(1, 3);
            nontrivial = true;
        }
        cx.note([&]
        {
            auto side = [](const Side &o) { return std::string(o.nb ? "non-blocking" : "blocking") + (o.slow ? " slow" : "") + (o.send_timeout ? " send timeout " + num(o.send_timeout) : "") + (o.sndbuf ? " sndbuf " + snum(o.sndbuf) : "") + (o.rcvbuf ? " rcvbuf " + snum(o.rcvbuf) : ""); };
            auto tm = [](const Timed &t) { return (t.early_receive ? " (timeouts " + num(t.early_receive) + " and " + num(t.early_send) + " at first)" : std::string()) + (t.receive ? " (receive timeout " + num(t.receive) + (t.before ? " set before)" : ")") : std::string()) + (t.send ? (t.nb ? " (stalls without blocking, " : " (send timeout ") + num(t.send) + (t.before ? " set before)" : ")") : std::string()); };
            std::string t = "client " + side(C) + tm(timed[0]) + ", server " + side(S) + tm(timed[1]) + (drop_listener ? ", the listener is destroyed after accepting" : "") + ":";
            for(auto &x : steps) t += (x.probe ? " probe" + snum(x.probe) : std::string()) + " " + x.it.str();
            static const char *how[] = {" closes", " resets", " sends something that is not TLS and closes"};
            return t + (client_closes ? " client" : " server") + how[(client_closes ? C : S).ending] + ((client_closes ? S : C).sends_on ? ", the other end sends on" : "");
        });
        Noise noise[2];                         // the client's and the server's
        for(Noise &n : noise) { if(cx.chance(1, 4)) { n.level = 1 + (unsigned)cx.draw(40); n.r.reseed(cx.draw(1 << 20)); } }
        Gate gate[2];
        fr::SSLSocket *ends[2] = {c.get(), s.get()};
        for(int e = 0; e < 2; ++e)
        {
            Timed &t = timed[e];
            ends[e]->set_receive_timeout(t.early_receive);
            ends[e]->set_send_timeout(t.early_send);
            if(t.before) t.set(*ends[e]);
        }
        // takes the early ones back
        auto fresh = [&](fr::SSLSocket &x, const Timed &t) -> std::string
        {
            auto e = options(x, t.before && t.receive ? t.receive : t.early_receive, t.before && t.send && !t.nb ? t.send : t.early_send);
            if(!e.empty()) return "new connection: " + e;
            if(!(t.before && t.receive)) x.set_receive_timeout(0);
            if(!(t.before && t.send && !t.nb)) x.set_send_timeout(0);
            return options(x, t.before ? t.receive : 0, t.before && !t.nb ? t.send : 0);
        };
        auto both = [&](fr::SSLSocket &x, bool client, std::string &error)
        {
            for(int e = 0; e < 2; ++e)
            {
                if(!timed[e].receive && !timed[e].send) continue;
                if((e == 0) == client)
                {
                    int small = 65536;
                    if(timed[e].send) __real_setsockopt(x.get_socket_descriptor(), SOL_SOCKET, SO_SNDBUF, &small, sizeof small);
                    error = try_timeouts(x, timed[e], gate[e]);
                }
                else error = let_try(x, timed[e], gate[e]);
                if(!error.empty()) return;
            }
        };
        std::atomic<int> resumed{0};
        std::string accept_error;
        std::thread t([&]
        {
            try
            {
                UseSys u(noise[1]);
                Status st = l->accept(*s);
                if(st != Status::Success) { accept_error = std::string("accepting returned ") + status_name(st); return; }
                if(s->get_remote_address() != "127.0.0.1") { accept_error = "the accepted socket reports " + s->get_remote_address(); return; }
                if(!s->get_blocking() || !real_blocking(s->get_socket_descriptor())) { accept_error = "an accepted socket is not blocking"; return; }
                if(drop_listener) l.reset();
                S.error = fresh(*s, timed[1]);
                if(S.error.empty()) both(*s, false, S.error);
                if(S.error.empty()) drive(*s, S, steps, false, !client_closes, resumed);
            }
            catch(const std::exception &e) { S.error = e.what(); }
            if(!S.error.empty()) gate[0].failed = gate[1].failed = true;
            if(!S.error.empty() && s->connected()) ::shutdown(s->get_socket_descriptor(), SHUT_RDWR);
        });
        std::string error;
        try
        {
            UseSys u(noise[0]);
            Status st = c->connect("127.0.0.1", port, std::chrono::seconds(20));
            if(st != Status::Success) { error = std::string("connecting returned ") + status_name(st); if(l) ::shutdown(l->get_socket_descriptor(), SHUT_RDWR); }
            else if(!c->connected()) error = "not connected after a successful connect";
            else if(!c->get_blocking() || !real_blocking(c->get_socket_descriptor())) error = "a new connection is not blocking";
            else if(c->get_remote_address() != "127.0.0.1:" + port) error = "the remote address is reported as " + c->get_remote_address();
            else
            {
                C.error = fresh(*c, timed[0]);
                if(C.error.empty()) both(*c, true, C.error);
                if(C.error.empty()) drive(*c, C, steps, true, client_closes, resumed);
            }
        }
        catch(const std::exception &e) { C.error = e.what(); }
        if(!error.empty() || !C.error.empty()) gate[0].failed = gate[1].failed = true;
        if((!error.empty() || !C.error.empty()) && c->connected()) ::shutdown(c->get_socket_descriptor(), SHUT_RDWR);
        t.join();
        VP_CHECK(cx, error.empty(), "connect", error);
        VP_CHECK(cx, accept_error.empty(), "accept", accept_error);
        VP_CHECK(cx, C.error.empty() || S.error.empty(), "both", "client: " + C.error + "; server: " + S.error);
        VP_CHECK(cx, C.error.empty(), "client", "client: " + C.error);
        VP_CHECK(cx, S.error.empty(), "server", "server: " + S.error);
        if(resumed) { cx.label("sends resumed"); nontrivial = true; }
        if(C.nb || S.nb) cx.label("non-blocking");
        if(drop_listener) cx.label("listener gone");
        if(timed[0].send || timed[1].send) cx.label("a send stalls");
        if(C.ending == 1 || S.ending == 1) cx.label("reset at the end");
        if(C.ending == 2 || S.ending == 2) cx.label("not TLS at the end");
        if(gate[0].resumed > 1 || gate[1].resumed > 1) cx.label("resumed again and again");
        if(noise[0].hits || noise[1].hits) cx.label("short transfers and interruptions");
        if(round) cx.label("socket objects used again");
        if(cx.flip()) { c->disconnect(); s->disconnect(); }     // or they are still open when used again
    }
    c.reset(); s.reset(); l.reset();
    if(zero && __real_fcntl(0, F_GETFD, 0) == -1) Zero::hold();
    std::string d = tls::fd_diff(baseline, tls::open_fds());
    VP_CHECK(cx, d.empty(), "descriptors", "after destroying the sockets and the listener the open descriptors are off by" + d);
    if(nontrivial) cx.nontrivial();
}

Property vp::the_property = {"C28", prop,
    "a case is 1-2 TLS connections through real loopback sockets with a script of 1-7 messages of all kinds and sizes (up to 600000 bytes) and directions, blocking or non-blocking ends, small socket buffers, slow receivers, send timeouts, timeouts set before or after connecting and tried out, short transfers and interruptions of the system calls below TLS, mode, option and timeout probes between messages and either side closing, resetting or sending something that is not TLS; objects are used again, also in the other role; non-trivial: a probe or a trial was made or a send had to be resumed",
    2100, 40000, 60, 16, false, nullptr, 0, 0, 10, 2, 40};
