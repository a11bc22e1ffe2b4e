// C26: concurrent clients and servers over real connections exchange data intact.
#include <map>
#include <frnetlib/SocketSelector.h>
#include "msgs.hpp"
using namespace vp;
using namespace msgs;
typedef fr::WebSocket<fr::TcpSocket> Ws;

struct Conn
{
    uint64_t id = 0;
    bool ws = false, v6 = false, by_name = false;
    int source = 0;                     // 127.0.0.x to come from, or 0
    std::vector<Item> items;
    size_t vanish = SIZE_MAX;           // the client disappears before this item ...
    int how = 0;                        // ... 0 closing, 1 resetting, 2 in the middle of the item
    bool client_closes = true;
    bool nb_client = false, nb_server = false;  // only with raw data
    bool mid_handshake = false;
    int after = 0;                      // connects once so many connections were served
    size_t lossy = SIZE_MAX;            // a reset may take these messages with it
};

struct Shared
{
    std::mutex m;
    std::string error;
    std::map<uint64_t, std::string> addr;
    std::atomic<int> served{0};
    std::atomic<bool> stop{false};
    bool reuse = false;                 // accept with the socket objects of earlier connections
    std::vector<std::shared_ptr<fr::TcpSocket>> pool[2];
    void give_back(const std::shared_ptr<fr::TcpSocket> &s, bool ws) { if(!reuse) return; std::lock_guard<std::mutex> g(m); pool[ws].push_back(s); }
    std::shared_ptr<fr::TcpSocket> take(bool ws)
    {
        {
            std::lock_guard<std::mutex> g(m);
            if(!pool[ws].empty()) { auto s = pool[ws].back(); pool[ws].pop_back(); ++reused; return s; }
        }
        if(ws) return std::make_shared<Ws>();
        return std::make_shared<fr::TcpSocket>();
    }
    int reused = 0;
    bool failed() { std::lock_guard<std::mutex> g(m); return !error.empty(); }
    void fail(const std::string &s) { std::lock_guard<std::mutex> g(m); if(error.empty()) error = s; }
};

static void give_up(fr::Socket &s) { s.set_receive_timeout(20000); s.set_send_timeout(20000); }
static void rst(int fd) { linger lg = {1, 0}; __real_setsockopt(fd, SOL_SOCKET, SO_LINGER, &lg, sizeof lg); }

static std::string see_close(fr::Socket &s, bool ws, bool client)
{
    if(ws)
    {   // a close frame comes first
        fr::ClientWebFrame c; fr::ServerWebFrame v;
        fr::WebFrame &f = client ? (fr::WebFrame &)c : v;
        Status st;
        do st = s.receive(f); while(st == Status::WouldBlock);
        if(st == Status::Disconnected) return "";
        if(st != Status::Success || f.get_opcode() != fr::WebFrame::Opcode::Disconnect) return std::string("instead of a close frame, receiving returned ") + status_name(st);
    }
    char b[16]; size_t got = 0;
    Status st = recv_all(s, b, 1, got);
    if(st != Status::Disconnected) return std::string("after the peer closed, receiving returned ") + status_name(st);
    return "";
}

static void client(const Conn &c, const std::string &port, Shared &sh)
{
    auto who = "client " + num(c.id) + ": ";
    std::unique_ptr<fr::TcpSocket> s;
    Ws *ws = nullptr;
    if(c.ws) { auto p = std::make_unique<Ws>(); ws = p.get(); s = std::move(p); } else s = std::make_unique<fr::TcpSocket>();
    for(int a = 0; a < 10000 && sh.served < c.after && !sh.failed(); ++a) usleep(a < 1000 ? 50 : 2000);
    if(c.ws && c.mid_handshake)
    {   // vanishes during the handshake
        fr::TcpSocket t;
        if(t.connect(c.v6 ? "::1" : "127.0.0.1", port, std::chrono::seconds(20)) != Status::Success) { sh.fail(who + "could not connect"); return; }
        size_t sent = 0;
        std::string part = "GET / HTTP/1.1\r\nUpgr";
        t.send_raw(part.data(), c.how == 0 ? 0 : part.size(), sent);
        if(c.how == 1) rst(t.get_socket_descriptor());
        return;
    }
    if(c.source)
    {   // from a chosen address
        int fd = ::socket(AF_INET, SOCK_STREAM, 0);
        sockaddr_in a = {}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(0x7f000000u + (uint32_t)c.source);
        sockaddr_in to = {}; to.sin_family = AF_INET; to.sin_addr.s_addr = htonl(INADDR_LOOPBACK); to.sin_port = htons((uint16_t)atoi(port.c_str()));
        if(fd < 0 || ::bind(fd, (sockaddr *)&a, sizeof a) || ::connect(fd, (sockaddr *)&to, sizeof to)) { sh.fail(who + "could not connect from its address"); return; }
        int32_t d = fd;
        s->set_descriptor(&d);
    }
    else
    {
        std::string host = c.v6 ? "::1" : c.by_name ? "localhost" : "127.0.0.1";
        Status st = ws ? ws->connect(host, port, std::chrono::seconds(20)) : s->connect(host, port, std::chrono::seconds(20));
        if(st != Status::Success) { sh.fail(who + "connecting returned " + status_name(st)); return; }
        if(s->get_remote_address() != host + ":" + port) { sh.fail(who + "reports the remote address '" + s->get_remote_address() + "'"); return; }
    }
    give_up(*s);
    if(send_all(*s, (const char *)&c.id, sizeof c.id) != Status::Success) { sh.fail(who + "could not send its name"); return; }
    if(c.nb_client) s->set_blocking(false);
    for(size_t a = 0; a < c.items.size(); ++a)
    {
        const Item &it = c.items[a];
        if(a == c.vanish)
        {
            if(c.how == 2 && it.up && it.data.size() > 1) { std::string half = it.data.substr(0, it.data.size() / 2); if(it.kind == RAW) send_all(*s, half.data(), half.size()); else { uint32_t len = htonl(1000); send_all(*s, (const char *)&len, it.kind == PACKET ? 4 : 1); } }
            if(c.how == 1) rst(s->get_socket_descriptor());
            int32_t fd = s->get_socket_descriptor();
            s->set_descriptor(nullptr);     // no close frame
            __real_close(fd);
            return;
        }
        Status st;
        if(it.up) { st = send_item(*s, it, true); if(st != Status::Success) { sh.fail(who + "sending a " + it.str() + " bytes returned " + status_name(st)); return; } }
        else { std::string e = recv_item(*s, it, true, st); if(!e.empty()) { sh.fail(who + e); return; } }
    }
    if(c.client_closes) s->disconnect();
    else { std::string e = see_close(*s, c.ws, true); if(!e.empty()) sh.fail(who + e); else rst(s->get_socket_descriptor()); }
}

// the server's side of one connection, resumable before every receive
struct Served
{
    std::shared_ptr<fr::TcpSocket> s;
    std::string address;
    const Conn *c = nullptr;
    size_t i = 0;
    bool done = false, finished = false;

    // performs the next receive (it is known to be due) and what follows it; blocking = may go on receiving
    void advance(const std::vector<Conn> &conns, Shared &sh, bool all)
    {
        bool first = true;
        while(!done && (first || all || (c && i < c->items.size() && !c->items[i].up)))
        {
            if(!c)
            {
                uint64_t id = 0; size_t got = 0;
                Status st = recv_all(*s, (char *)&id, sizeof id, got);
                if(st != Status::Success || id >= conns.size()) { if(!sh.stop) sh.fail(std::string("server: no name received: ") + status_name(st)); done = true; return; }
                c = &conns[id];
                std::string want = c->v6 ? "::1" : "127.0.0." + num(c->source ? (uint64_t)c->source : 1);
                if(address != want && !(address == "::ffff:" + want && !c->v6)) { sh.fail("server: client " + num(id) + " is reported to come from '" + address + "' instead of " + want); done = true; return; }
                if(c->nb_server) s->set_blocking(false);
                first = false;
                continue;
            }
            std::string who = "server of client " + num(c->id) + ": ";
            if(i == c->items.size())
            {
                if(!all && !first) return;
                if(c->client_closes) { std::string e = see_close(*s, c->ws, false); if(!e.empty()) sh.fail(who + e); rst(s->get_socket_descriptor()); }
                else s->disconnect();
                done = true;
                finished = true;
                return;
            }
            const Item &it = c->items[i];
            bool gone = i >= c->vanish, lossy = i >= c->lossy;
            Status st;
            if(it.up)
            {
                std::string e = recv_item(*s, it, false, st);
                if(gone) { if(st == Status::Success) sh.fail(who + "received a " + it.str() + " bytes that was not sent completely"); done = true; finished = true; return; }
                if(lossy && st != Status::Success) { done = true; finished = true; return; }
                if(!e.empty()) { sh.fail(who + e); done = true; return; }
                first = false;
            }
            else
            {
                st = send_item(*s, it, false);
                if(gone && st != Status::Success) { done = true; finished = true; return; }
                if(gone && i + 1 == c->items.size()) { done = true; finished = true; return; }
                if(!gone && st != Status::Success) { sh.fail(who + "sending a " + it.str() + " bytes returned " + status_name(st)); done = true; return; }
            }
            ++i;
            // the closing step: the server closes by itself, the client's close has to be waited for
            if(!all && i == c->items.size() && !c->client_closes) first = true;
        }
    }
};

static void serve_threads(fr::TcpListener &l, bool ws, const std::vector<Conn> &conns, Shared &sh)
{
    std::vector<std::thread> t;
    int errors = 0;
    while(!sh.stop)
    {
        std::shared_ptr<fr::TcpSocket> s = sh.take(ws);
        give_up(*s);
        Status st;
        try { st = l.accept(*s); } catch(const std::runtime_error &) { sh.give_back(s, ws); continue; }   // no WebSocket client
        if(st != Status::Success) { if(++errors > 100) { sh.fail(std::string("server: accepting returned ") + status_name(st)); break; } continue; }
        if(sh.stop) { rst(s->get_socket_descriptor()); break; }
        auto v = std::make_shared<Served>();
        v->address = s->get_remote_address();
        v->s = std::move(s);
        t.emplace_back([v, ws, &conns, &sh] { v->advance(conns, sh, true); auto s = std::move(v->s); sh.give_back(s, ws); if(v->finished) ++sh.served; });
    }
    for(auto &x : t) x.join();
}

static void serve_selector(const std::shared_ptr<fr::TcpListener> &l, const std::vector<Conn> &conns, Shared &sh)
{
    fr::SocketSelector sel;
    int tag = 0;
    sel.add(l, &tag);
    std::map<void *, std::unique_ptr<Served>> live;
    while(!sh.stop)
    {
        auto ready = sel.wait(std::chrono::milliseconds(2000));
        for(auto &r : ready)
        {
            if(r.second == &tag)
            {
                auto s = sh.take(false);
                give_up(*s);
                if(l->accept(*s) != Status::Success) continue;
                if(sh.stop) { rst(s->get_socket_descriptor()); break; }
                auto v = std::make_unique<Served>();
                v->address = s->get_remote_address();
                v->s = s;
                sel.add(s, v.get());
                void *key = v.get();
                live[key] = std::move(v);
                continue;
            }
            auto f = live.find(r.second);
            if(f == live.end() || r.first.get() != f->second->s.get()) { sh.fail("the selector returned the wrong user data"); return; }
            Served *v = f->second.get();
            v->advance(conns, sh, false);
            if(v->done)
            {
                if(sel.remove(v->s) != v) sh.fail("the selector returned the wrong user data on removal");
                sh.give_back(v->s, false);
                if(v->finished) ++sh.served;
                live.erase(f);
            }
        }
    }
}

static void prop(Case &cx)
{
    cx.reset_steps(1000000);
    std::shared_ptr<fr::TcpListener> l[2] = {std::make_shared<fr::TcpListener>(), std::make_shared<fr::TcpListener>()};
    int ver = (int)cx.draw(3);      // any, v4, v6
    fr::Socket::IP V[] = {fr::Socket::IP::any, fr::Socket::IP::v4, fr::Socket::IP::v6};
    std::string port[2]; bool six[2];
    for(int a = 0; a < 2; ++a)
    {
        l[a]->set_inet_version(V[ver]);
        Status st = l[a]->listen("0");
        VP_CHECK(cx, st == Status::Success, "listen", std::string("listening returned ") + status_name(st));
        sockaddr_storage sa; socklen_t n = sizeof sa;
        if(::getsockname(l[a]->get_socket_descriptor(), (sockaddr *)&sa, &n)) cx.discard();
        six[a] = sa.ss_family == AF_INET6;
        VP_CHECK(cx, ver == 0 || six[a] == (ver == 2), "family", "the listener has the wrong address family");
        port[a] = num(ntohs(six[a] ? ((sockaddr_in6 *)&sa)->sin6_port : ((sockaddr_in *)&sa)->sin_port));
    }
    size_t k = 1 + cx.draw(cx.thorough ? 10 : 7);
    std::vector<Conn> conns(k);
    bool reuse = cx.chance(1, 3);
    int earlier = 0;
    bool any_ws = false, any_vanish = false, sel = cx.chance(1, 3);
    size_t big = cx.chance(1, 10) ? 1500000 : 60000;
    for(size_t a = 0; a < k; ++a)
    {
        Conn &c = conns[a];
        c.id = a;
        c.ws = cx.chance(1, 3);
        c.v6 = six[c.ws] ? (ver == 2 ? true : cx.flip()) : false;   // a dual-stack listener takes both
        if(six[c.ws] && ver == 2 && cx.chance(1, 4)) c.v6 = false;
        c.items = gen_script(cx, 6, c.ws, big);
        c.client_closes = !cx.chance(1, 3);
        if(!c.v6 && !c.ws && cx.chance(1, 3)) c.source = 1 + (int)cx.draw(200);
        if(!c.v6) c.by_name = cx.flip();
        if(!c.ws && cx.chance(1, 4))
        {   // non-blocking ends, raw data only
            for(auto &x : c.items) { x.kind = RAW; if(x.data.empty()) x.data = "x"; }
            c.nb_client = cx.flip(); c.nb_server = !sel && cx.flip();
        }
        if(cx.chance(1, 5)) { c.vanish = cx.draw(c.items.size()); c.how = (int)cx.draw(3); any_vanish = true; c.client_closes = true;
            if(c.how == 1)
            {
                c.lossy = c.vanish;
                while(c.lossy > 0 && c.items[c.lossy - 1].up) --c.lossy;
                if(c.lossy == 0) { c.how = 0; c.lossy = SIZE_MAX; }    // the name would be lost
            }
            if(c.ws && cx.chance(1, 3)) c.mid_handshake = true; }
        any_ws |= c.ws;
        if(reuse && cx.flip()) c.after = earlier;
        if(!c.mid_handshake) ++earlier;
        // a receiver may read past an HTTP message, so no close frame may follow it at once
        if(c.ws && c.vanish == SIZE_MAX && (c.items.back().kind == REQUEST || c.items.back().kind == RESPONSE)) c.client_closes = !c.items.back().up;
    }
    cx.note([&]
    {
        std::string s = std::string(sel ? "one selector thread" : "a thread per connection") + (reuse ? ", socket objects are used again" : "") + ", listening on " + (ver == 0 ? "any" : ver == 1 ? "IPv4" : "IPv6");
        for(auto &c : conns)
        {
            s += std::string("\n  client ") + num(c.id) + (c.ws ? " (WebSocket" : " (TCP") + (c.v6 ? ", IPv6)" : ")") + (c.mid_handshake ? " vanishes in the handshake" : "") + (c.after ? " after " + snum(c.after) + " others" : "") + (c.source ? " from 127.0.0." + snum(c.source) : "") + ":";
            for(size_t a = 0; a < c.items.size(); ++a) s += (a == c.vanish ? std::string(" vanishes(") + num((uint64_t)c.how) + ")" : std::string()) + " " + c.items[a].str();
        }
        return s;
    });
    Shared sh;
    sh.reuse = reuse;
    std::vector<std::thread> servers, clients;
    if(sel) servers.emplace_back([&] { try { serve_selector(l[0], conns, sh); } catch(const std::exception &e) { sh.fail(std::string("server: ") + e.what()); } });
    else servers.emplace_back([&] { try { serve_threads(*l[0], false, conns, sh); } catch(const std::exception &e) { sh.fail(std::string("server: ") + e.what()); } });
    if(any_ws) servers.emplace_back([&] { try { serve_threads(*l[1], true, conns, sh); } catch(const std::exception &e) { sh.fail(std::string("server: ") + e.what()); } });
    for(auto &c : conns) clients.emplace_back([&] { try { client(c, port[c.ws], sh); } catch(const std::exception &e) { sh.fail("client " + num(c.id) + ": " + e.what()); } });
    for(auto &t : clients) t.join();
    // every connection that got as far as its name is served to its end
    int want = 0;
    for(auto &c : conns) if(!c.mid_handshake) ++want;
    for(int a = 0; a < 12000 && sh.served < want; ++a) { { std::lock_guard<std::mutex> g(sh.m); if(!sh.error.empty()) break; } usleep(a < 200 ? 100 : 2000); }
    int served = sh.served;
    sh.stop = true;
    for(int a = 0; a < (any_ws ? 2 : 1); ++a)
    {   // wake the accepting threads
        int fd = ::socket(six[a] ? AF_INET6 : AF_INET, SOCK_STREAM, 0);
        sockaddr_in x = {}; x.sin_family = AF_INET; x.sin_port = htons((uint16_t)atoi(port[a].c_str())); x.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        sockaddr_in6 y = {}; y.sin6_family = AF_INET6; y.sin6_port = x.sin_port; y.sin6_addr = in6addr_loopback;
        int r = six[a] ? ::connect(fd, (sockaddr *)&y, sizeof y) : ::connect(fd, (sockaddr *)&x, sizeof x);
        if(r) l[a]->shutdown();
        rst(fd);
        __real_close(fd);
    }
    for(auto &t : servers) t.join();
    VP_CHECK(cx, sh.error.empty(), "exchange", sh.error);
    VP_CHECK(cx, served == want, "unserved", "only " + snum(served) + " of " + snum(want) + " connections were served");
    if(sh.reused) cx.label("a socket object accepts again");
    if(any_vanish) cx.label("a client vanishes");
    if(any_ws) cx.label("WebSocket connections");
    cx.label(sel ? "selector server" : "threaded server");
    if(k > 1) cx.nontrivial();
}

Property vp::the_property = {"C26", prop,
    "a case runs 1-11 concurrent clients against a TCP and a WebSocket listener (thread per connection or one selector thread; IPv4, IPv6 or both) through real loopback connections, each with its own script of 1-7 messages of all kinds, sizes and directions, some vanishing by close, reset or mid-message; non-trivial: at least two connections",
    42000, 252000, 60, 8, false, nullptr, 0, 0, 20, 1, 60};
