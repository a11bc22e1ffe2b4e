// C32: shutting down wakes blocked operations and ends the stream cleanly.
#include <linux/sockios.h>
#include "msgs.hpp"
#include "tls.hpp"
using namespace vp;

struct Cred { std::string crt, key; };
static const Cred &cred()
{
    static std::map<pid_t, Cred> m;
    Cred &c = m[getpid()];
    if(c.crt.empty())
    {
        tls::Cert x;
        x.subject = x.issuer = "CN=127.0.0.1"; x.ca = true;
        c.crt = tls::save("c32.crt", tls::make(x));
        c.key = tls::save("c32.key", tls::key(0).pem());
        tls::context(0)->load_ca_certs_from_file(c.crt);
    }
    return c;
}

static const double PROMPT = 8000;      // ms: later than this is not prompt
struct Job                              // an operation on a thread of its own
{
    std::atomic<bool> done{false};
    std::atomic<bool> begun{false};
    std::string error;
    std::thread t;
    template<typename F> explicit Job(F f) { t = std::thread([this, f] { begun = true; try { f(); } catch(const std::exception &e) { error = std::string("threw ") + e.what(); } done = true; }); }
    ~Job() { join(); }
    void join()
    {
        if(!t.joinable()) return;
        if(!wait(3000)) { fputs("an operation does not return at all\n", stderr); abort(); }
        t.join();
    }
    bool wait(double ms) { double end = tls::now_ms() + ms; for(unsigned a = 0; !done; ++a) { if(tls::now_ms() > end) return done; usleep(a < 50 ? 10 : 200); } return true; }
};

enum Kind { RAW, ALL, PACKET, REQUEST, RESPONSE, FRAME, KINDS };
static const char *const KIND[] = {"raw bytes", "an exact number of bytes", "a packet", "an HTTP request", "an HTTP response", "a WebSocket frame"};
struct Rx
{
    Kind kind = RAW; size_t part = 0; std::string whole, body;
    // results
    Status st = Status::Unknown; std::string got, error; bool wrong = false;
    bool complete() const { return part == whole.size(); }
    void make(Case &cx, bool client)
    {
        kind = (Kind)cx.draw(KINDS);
        body = cx.blob(1 + cx.draw(cx.chance(1, 8) ? 20000 : 130));
        auto be = [](uint64_t v, int n) { std::string s; while(n--) s += (char)(v >> (n * 8)); return s; };
        switch(kind)
        {
            case RAW: case ALL: case KINDS: whole = body; break;
            case PACKET: whole = be(body.size(), 4) + body; break;
            case REQUEST: whole = "PUT /x HTTP/1.1\r\nHost: h\r\nContent-Length: " + num(body.size()) + "\r\n\r\n" + body; break;
            case RESPONSE: whole = "HTTP/1.1 200 OK\r\nContent-Length: " + num(body.size()) + "\r\n\r\n" + body; break;
            case FRAME:
                whole = "\x82";
                whole += (char)((client ? 0 : 0x80) | (body.size() < 126 ? body.size() : 126));
                if(body.size() >= 126) whole += be(body.size(), 2);
                if(!client) whole += std::string(4, 0);
                whole += body;
        }
        part = cx.chance(1, 8) ? whole.size() : cx.flip() ? 0 : cx.draw(whole.size());
    }
    void run(fr::Socket &s, bool client)
    {
        switch(kind)
        {
            case RAW: case KINDS:
                for(char b[5000]; ; ) { size_t n = 0; st = s.receive_raw(b, sizeof b, n); if(st != Status::Success) break; got.append(b, n); if(got.size() > whole.size()) break; }
                wrong = whole.compare(0, got.size(), got);
                break;
            case ALL: { std::string b(whole.size(), 0); st = s.receive_all(&b[0], b.size()); wrong = st == Status::Success && b != whole; break; }
            case PACKET: { fr::Packet p; st = s.receive(p); std::string b(p.size(), 0); if(st == Status::Success) { p.extract_raw(&b[0], b.size()); wrong = b != body; } break; }
            case REQUEST: { fr::HttpRequest r; st = s.receive(r); wrong = st == Status::Success && r.get_body() != body; break; }
            case RESPONSE: { fr::HttpResponse r; st = s.receive(r); wrong = st == Status::Success && r.get_body() != body; break; }
            case FRAME:
                if(client) { fr::ClientWebFrame f; st = s.receive(f); wrong = st == Status::Success && f.get_payload() != body; }
                else { fr::ServerWebFrame f; st = s.receive(f); wrong = st == Status::Success && f.get_payload() != body; }
        }
    }
};
static const size_t BIG = 1500000;
struct Tx
{
    int kind = 0; std::string wire; size_t sent = 0; Status st = Status::Unknown;
    const std::string *data = nullptr;
    void make(Case &cx)
    {
        static const std::string big = [] { std::string s(BIG, 0); uint32_t x = 12345; for(char &c : s) { x = x * 1664525u + 1013904223u; c = (char)(x >> 24); } return s; }();
        data = &big;
        kind = (int)cx.draw(3);
        auto be = [](uint64_t v, int n) { std::string s; while(n--) s += (char)(v >> (n * 8)); return s; };
        wire = (kind == 1 ? be(BIG, 4) : kind == 2 ? "\x82\x7f" + be(BIG, 8) : std::string()) + big;
    }
    void run(fr::Socket &s)
    {
        if(kind == 0) st = s.send_raw(data->data(), data->size(), sent);
        else if(kind == 1) { fr::Packet p; p.add_raw(data->data(), data->size()); st = s.send(p); }
        else { fr::ServerWebFrame f; f.set_opcode(fr::WebFrame::Opcode::Binary); f.set_payload(*data); st = s.send(f); }
    }
    const char *name() const { static const char *const N[] = {"raw bytes", "a packet", "a WebSocket frame"}; return N[kind]; }
};

struct Ends     // reset at the end: thousands of connections in TIME_WAIT would use the ports up
{
    std::unique_ptr<fr::Socket> c, s;
    Ends() = default;
    Ends(Ends &&) = default;
    Ends &operator=(Ends &&) = default;
    ~Ends() { for(auto *x : {&c, &s}) if(*x && (*x)->get_socket_descriptor() >= 0) tls::reset_on_close((*x)->get_socket_descriptor()); }
};
struct Bench
{
    Case &cx; bool tls; std::unique_ptr<fr::Listener> l; std::string port;
    Bench(Case &cx_, bool tls_) : cx(cx_), tls(tls_)
    {
        if(tls) l.reset(new fr::SSLListener(tls::context(1), cred().crt, cred().key)); else l.reset(new fr::TcpListener);
        l->set_inet_version(fr::Socket::IP::v4);
        listen();
    }
    void listen() 
    {
        Status st = l->listen("0");
        if(st == Status::BindFailed)
        {   // no port is free at all?
            int f = ::socket(AF_INET, SOCK_STREAM, 0);
            sockaddr_in x = {}; x.sin_family = AF_INET;
            int r = __real_bind(f, (sockaddr *)&x, sizeof x);
            __real_close(f);
            if(r) cx.discard();
        }
        VP_CHECK(cx, st == Status::Success, "listen", std::string("listening returned ") + status_name(st)); port = num(tls::port_of(l->get_socket_descriptor()));
    }
    std::unique_ptr<fr::Socket> make(int role) const { if(tls) return std::unique_ptr<fr::Socket>(new fr::SSLSocket(tls::context(role))); return std::unique_ptr<fr::Socket>(new fr::TcpSocket); }
    void join(fr::Socket &c, fr::Socket &s)
    {
        Status a = Status::Unknown, b;
        if(tls)
        {
            Job j([&] { a = l->accept(s); });
            b = c.connect("127.0.0.1", port, std::chrono::seconds(20));
            if(b != Status::Success) { j.wait(2000); if(!j.done) ::shutdown(l->get_socket_descriptor(), SHUT_RDWR); }
            j.wait(20000);
        }
        else { b = c.connect("127.0.0.1", port, std::chrono::seconds(20)); if(b == Status::Success) a = l->accept(s); }
        VP_CHECK(cx, b == Status::Success && a == Status::Success, "join", std::string("connecting returned ") + status_name(b) + ", accepting " + status_name(a));
    }
    Ends join() { Ends e; e.c = make(0); e.s = make(2); join(*e.c, *e.s); return e; }
    void talk(fr::Socket &a, fr::Socket &b, const std::string &which)
    {
        const std::string m = "are you there?";
        std::string got(m.size(), 0);
        size_t sent = 0;
        b.set_receive_timeout(5000);
        Status x = a.send_raw(m.data(), m.size(), sent), y = x == Status::Success ? b.receive_all(&got[0], got.size()) : Status::Unknown;
        VP_CHECK(cx, x == Status::Success && y == Status::Success && got == m, "others", which + " does not work: sending returned " + status_name(x) + ", receiving " + status_name(y));
    }
};

static const char *when(int k) { return k == 0 ? "before it" : k == 1 ? "right then" : "while it waits"; }
static void pause_for(Job *j, int k, unsigned us)
{
    if(j) while(!j->begun) sched_yield();
    if(k == 1 && us) usleep(us % 200);
    if(k == 2) usleep(400 + us);
}
static bool failed(Status s) { return s != Status::Success && s != Status::WouldBlock && s != Status::Timeout && s != Status::NotEnoughData && s != Status::Unknown; }

static void sockets(Case &cx, bool tls)
{
    Bench b(cx, tls);
    Ends e = b.join(), other;
    bool bystander = cx.chance(1, tls ? 6 : 3);
    if(bystander) other = b.join();
    bool client = !cx.flip();
    fr::Socket &v = client ? *e.c : *e.s, &p = client ? *e.s : *e.c;
    bool rx = true, tx = cx.chance(1, 3);
    if(tx) rx = !tls && cx.chance(1, 3);
    int k = (int)cx.weighted({1, 2, 4});
    unsigned us = (unsigned)cx.draw(cx.chance(1, 10) ? 4000 : 400);
    size_t times = 1 + (cx.chance(1, 5) ? 1 : 0);
    bool timeouts = cx.chance(1, 4), nonblocking = k == 0 && cx.chance(1, 4), reuse = cx.flip(), idle = cx.chance(1, 10), early = !tls && cx.chance(1, 3);
    std::string before = cx.chance(1, 2) ? cx.blob(1 + cx.draw(3000)) : "";
    Rx r; Tx t;
    if(rx) r.make(cx, client);
    if(tx) t.make(cx);
    std::string ctx = std::string(tls ? "TLS " : "") + (client ? "client" : "accepted") + " socket shut down " + when(k) + (k ? " (" + num(us) + " us)" : "") + (times > 1 ? " twice" : "") + (before.empty() ? "" : ", having sent " + num(before.size()) + " bytes")
        + (rx ? std::string(", receiving ") + KIND[r.kind] + " of which " + num(r.part) + " of " + num(r.whole.size()) + " bytes arrived" : "") + (tx ? std::string(", sending ") + t.name() : "") + (timeouts ? ", with timeouts" : "") + (nonblocking ? ", non-blocking" : "") + (early ? ", disconnected soon" : "");
    cx.note([&] { return ctx; });
    if(tx) { int small = 16384; __real_setsockopt(v.get_socket_descriptor(), SOL_SOCKET, SO_SNDBUF, &small, sizeof small); __real_setsockopt(p.get_socket_descriptor(), SOL_SOCKET, SO_RCVBUF, &small, sizeof small); }
    if(timeouts) { v.set_receive_timeout(60000); v.set_send_timeout(60000); }
    size_t n = 0;
    if(!before.empty()) VP_CHECK(cx, v.send_raw(before.data(), before.size(), n) == Status::Success, "before", ctx + ": sending beforehand failed");
    if(rx && r.part)
    {
        n = 0;
        VP_CHECK(cx, p.send_raw(r.whole.data(), r.part, n) == Status::Success, "before", ctx + ": the peer's sending failed");
        int left = 1;   // all of it has to be there: what arrives after the shutdown may break the connection
        for(int a = 0; a < 20000 && (__real_ioctl(p.get_socket_descriptor(), SIOCOUTQ, &left), left); ++a) usleep(50);
        if(left) cx.discard();
    }
    if(nonblocking) VP_CHECK(cx, v.set_blocking(false) == Status::Success, "before", ctx + ": switching to non-blocking failed");
    int fd = v.get_socket_descriptor();
    if(idle) { auto x = b.make(2); x->shutdown(); if(tls) fr::SSLListener(tls::context(1), cred().crt, cred().key).shutdown(); else fr::TcpListener().shutdown(); }
    if(k == 0) for(size_t a = 0; a < times; ++a) v.shutdown();
    bool stuck_rx = false, stuck_tx = false;
    {
        std::unique_ptr<Job> jr, jt;
        if(rx) jr.reset(new Job([&] { r.run(v, client); }));
        if(tx) jt.reset(new Job([&] { t.run(v); }));
        if(k) { pause_for(jr.get(), k, us); if(jt) pause_for(jt.get(), 1, 0); for(size_t a = 0; a < times; ++a) v.shutdown(); }
        if(jr) stuck_rx = !jr->wait(PROMPT);
        if(jt) stuck_tx = !jt->wait(stuck_rx ? 1000 : PROMPT);
        if(stuck_rx || stuck_tx) ::shutdown(fd, SHUT_RDWR);
        if(jr) { jr->join(); r.error = jr->error; }
        if(jt) { jt->join(); if(r.error.empty()) r.error = jt->error; }
    }
    VP_CHECK(cx, !stuck_rx, "stuck", ctx + ": the receive does not return");
    VP_CHECK(cx, !stuck_tx, "stuck", ctx + ": the send does not return");
    VP_CHECK(cx, r.error.empty(), "threw", ctx + ": " + r.error);
    if(rx)
    {
        VP_CHECK(cx, !r.wrong, "data", ctx + ": something else than was sent was received");
        VP_CHECK(cx, failed(r.st) || (r.st == Status::Success && r.complete()), "status", ctx + ": the receive returned " + status_name(r.st));
        if(!tls && r.kind == RAW) VP_CHECK(cx, r.got.size() == r.part, "lost", ctx + ": of " + num(r.part) + " bytes that had arrived " + num(r.got.size()) + " were received");
        if(!tls && r.complete()) VP_CHECK(cx, r.kind == RAW || r.st == Status::Success, "lost", ctx + ": the message that had arrived was not received, but " + status_name(r.st));
    }
    if(tx)
    {
        VP_CHECK(cx, failed(t.st), "status", ctx + ": the send returned " + status_name(t.st));
        VP_CHECK(cx, k || tls || !t.sent, "sent", ctx + ": " + num(t.sent) + " bytes count as sent");
    }
    VP_CHECK(cx, v.connected() && v.get_socket_descriptor() == fd && __real_fcntl(fd, F_GETFD, 0) >= 0, "descriptor", ctx + ": the socket lost its descriptor");
    VP_CHECK(cx, v.get_blocking() == !nonblocking, "mode", ctx + ": the blocking mode changed");
    early = early && (!rx || r.kind == RAW || r.part == 0) && r.got.size() == (rx ? r.part : 0);  // nothing is left unread
    if(early) v.disconnect();
    // the peer gets what was sent and then the end
    std::string got;
    Status end = Status::Unknown;
    p.set_receive_timeout((uint32_t)PROMPT);
    for(char buf[60000]; ; ) { size_t g = 0; end = p.receive_raw(buf, sizeof buf, g); if(end != Status::Success) break; got.append(buf, g); if(got.size() > BIG + 10000) break; }
    VP_CHECK(cx, tls ? failed(end) : end == Status::Disconnected, "end", ctx + ": the peer sees no end of the stream, but " + status_name(end) + " after " + num(got.size()) + " bytes");
    std::string want = before + (tx ? t.wire : std::string());
    VP_CHECK(cx, got.size() >= before.size() && want.compare(0, got.size(), got) == 0, "delivered", ctx + ": the peer received " + num(got.size()) + " bytes that are not what was sent");
    if(tx && t.kind == 0 && !tls) VP_CHECK(cx, got.size() == before.size() + t.sent, "count", ctx + ": " + num(t.sent) + " bytes count as sent, the peer received " + num(got.size() - before.size()));
    // nothing blocks any more
    if(!early)
    {
        v.set_receive_timeout(0); v.set_send_timeout(0);
        Status a = Status::Unknown, z = Status::Unknown;
        bool stuck;
        { Job j([&] { char buf[3000]; size_t g = 0; while((a = v.receive_raw(buf, sizeof buf, g)) == Status::Success) {} size_t s = 0; z = v.send_raw("x", 1, s); }); stuck = !j.wait(PROMPT); if(stuck) ::shutdown(fd, SHUT_RDWR); }
        VP_CHECK(cx, !stuck, "later", ctx + ": later operations block");
        VP_CHECK(cx, failed(a) && failed(z), "later", ctx + ": later receiving returned " + status_name(a) + ", sending " + status_name(z));
    }
    if(bystander) { b.talk(*other.c, *other.s, ctx + ": another connection"); b.talk(*other.s, *other.c, ctx + ": another connection"); }
    if(reuse)
    {   // the same object is used for another connection
        if(client) { Ends m; auto &s2 = m.s = b.make(2); b.join(v, *s2); b.talk(v, *s2, ctx + ": the next connection"); b.talk(*s2, v, ctx + ": the next connection"); }
        else { Ends m; auto &c2 = m.c = b.make(0); b.join(*c2, v); b.talk(v, *c2, ctx + ": the next connection"); b.talk(*c2, v, ctx + ": the next connection"); }
        cx.label("used again");
    }
    if(!early) tls::reset_on_close(v.get_socket_descriptor());
    v.disconnect();
    VP_CHECK(cx, !v.connected(), "disconnect", ctx + ": still connected after disconnecting");
    if(k) cx.nontrivial();
    if(tx) cx.label("a send");
    if(rx && tx) cx.label("both directions");
    if(rx && r.part) cx.label("mid-message");
    if(tls) cx.label("TLS");
}

static void listeners(Case &cx, bool tls)
{
    Bench b(cx, tls);
    Ends other;
    bool bystander = cx.chance(1, tls ? 6 : 3);
    if(bystander) other = b.join();
    int k = (int)cx.weighted({1, 2, 4});
    unsigned us = (unsigned)cx.draw(cx.chance(1, 10) ? 4000 : 400);
    size_t times = 1 + (cx.chance(1, 5) ? 1 : 0), accepts = tls ? 1 : 1 + (cx.chance(1, 4) ? 1 : 0);
    bool racing = !tls && k && cx.chance(1, 5), again = cx.flip();
    std::string ctx = std::string(tls ? "TLS " : "") + "listener shut down " + when(k) + (k ? " (" + num(us) + " us)" : "") + (times > 1 ? " twice" : "") + (accepts > 1 ? ", two accepting threads" : ", accepting") + (racing ? ", as a client connects" : "");
    cx.note([&] { return ctx; });
    int fd = b.l->get_socket_descriptor();
    std::vector<std::unique_ptr<fr::Socket>> s;
    std::vector<Status> st(accepts, Status::Unknown);
    for(size_t a = 0; a < accepts; ++a) s.push_back(b.make(2));
    if(k == 0) for(size_t a = 0; a < times; ++a) b.l->shutdown();
    size_t stuck = 0;
    std::string error;
    int raw = -1;
    auto knock = [&]
    {
        int f = ::socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0);
        sockaddr_in x = {}; x.sin_family = AF_INET; x.sin_port = htons((uint16_t)atoi(b.port.c_str())); x.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        (void)!::connect(f, (sockaddr *)&x, sizeof x);
        tls::reset_on_close(f);
        return f;
    };
    {
        std::vector<std::unique_ptr<Job>> j;
        for(size_t a = 0; a < accepts; ++a) j.emplace_back(new Job([&, a] { st[a] = b.l->accept(*s[a]); }));
        for(auto &x : j) pause_for(x.get(), k, us);
        if(racing) raw = knock();
        if(k) for(size_t a = 0; a < times; ++a) b.l->shutdown();
        for(auto &x : j) if(!x->wait(stuck ? 500 : PROMPT)) ++stuck;
        if(stuck) for(int a = 0; a < 50 && !(j[0]->done && j.back()->done); ++a) { ::shutdown(fd, SHUT_RDWR); int f = knock(); usleep(20000); __real_close(f); }
        for(auto &x : j) { x->join(); if(error.empty()) error = x->error; }
    }
    if(raw >= 0) __real_close(raw);
    VP_CHECK(cx, !stuck, "stuck", ctx + ": accepting does not return");
    VP_CHECK(cx, error.empty(), "threw", ctx + ": " + error);
    size_t won = 0;
    for(size_t a = 0; a < accepts; ++a)
    {
        if(racing && st[a] == Status::Success) { ++won; VP_CHECK(cx, s[a]->connected(), "status", ctx + ": accepting succeeded without a connection"); continue; }
        VP_CHECK(cx, failed(st[a]), "status", ctx + ": accepting returned " + status_name(st[a]));
        VP_CHECK(cx, !s[a]->connected(), "status", ctx + ": a socket is connected although accepting returned " + status_name(st[a]));
    }
    VP_CHECK(cx, won <= 1, "status", ctx + ": one client was accepted twice");
    VP_CHECK(cx, b.l->connected() && b.l->get_socket_descriptor() == fd && __real_fcntl(fd, F_GETFD, 0) >= 0, "descriptor", ctx + ": the listener lost its descriptor");
    {
        Status a = Status::Unknown; bool late;
        auto x = b.make(2);
        { Job j([&] { a = b.l->accept(*x); }); late = !j.wait(PROMPT); if(late) for(int i = 0; i < 50 && !j.done; ++i) { ::shutdown(fd, SHUT_RDWR); int f = knock(); usleep(20000); __real_close(f); } }
        VP_CHECK(cx, !late, "later", ctx + ": accepting again blocks");
        VP_CHECK(cx, failed(a) || (racing && !won && a == Status::Success), "later", ctx + ": accepting again returned " + status_name(a));
    }
    if(bystander) { b.talk(*other.c, *other.s, ctx + ": a connection accepted earlier"); b.talk(*other.s, *other.c, ctx + ": a connection accepted earlier"); }
    if(again) { b.listen(); Ends e = b.join(); b.talk(*e.c, *e.s, ctx + ": a connection made after listening again"); cx.label("listening again"); }
    b.l->close_socket();
    VP_CHECK(cx, !b.l->connected(), "close", ctx + ": the listener is connected although it was closed");
    if(k) cx.nontrivial();
    cx.label(tls ? "TLS listener" : "listener");
}

static void prop(Case &cx)
{
    bool tls = cx.chance(1, 40);
    if(tls) { cred(); tls::context(1); tls::context(2); }
    auto base = tls::open_fds();
    if(cx.chance(1, 4)) listeners(cx, tls); else sockets(cx, tls);
    std::string d = tls::fd_diff(base, tls::open_fds());
    VP_CHECK(cx, d.empty(), "descriptors", "in the end the open descriptors are off by" + d);
}

Property vp::the_property = {"C32", prop,
    "a case shuts a connected TCP or TLS socket (client or accepted, with none, some or all of a message of any kind arrived, or with a send stalled, or both at once) or a listener (one or two accepting threads, sometimes as a client connects) down before, at the beginning of, or in the middle of a blocked operation, once or twice, and looks at the operation, the peer, later operations, other connections and the object's next use; non-trivial: the operation was under way or about to be",
    50000, 350000, 90, 12, false, nullptr, 0, 0, 5, 3, 40};
