// C21: the WebSocket handshake admits exactly conforming peers and loses no data.
#include <frnetlib/WebSocket.h>
#include "wsref.hpp"
#include "refs.hpp"
#include "httpgen.hpp"
using namespace vp;
using Sock = fr::WebSocket<FakeSocket>;

struct F { int op; bool fin; std::string data; };
static std::vector<F> frames(Case &cx, bool masked, std::string &bytes)
{
    std::vector<F> v;
    size_t n = cx.draw(4);
    for(size_t a = 0; a < n; ++a)
    {
        F f{cx.pick({1, 2, 9, 8}), cx.flip(), cx.chance(1, 6) ? cx.blob(cx.draw(9000)) : cx.bytes(30)};
        bytes += ws::encode(f.op, f.fin, masked, cx.blob(4), f.data);
        v.push_back(f);
    }
    return v;
}

// strict reader of the request text
struct Req { std::string line; std::map<std::string, std::string> h; bool ok = false; std::string rest; };
static Req read_head(const std::string &t)
{
    Req r;
    size_t end = t.find("\r\n\r\n");
    if(end == std::string::npos) return r;
    r.rest = t.substr(end + 4);
    std::string head = t.substr(0, end + 2);
    size_t p = 0;
    bool first = true;
    while(p < head.size())
    {
        size_t e = head.find("\r\n", p);
        std::string l = head.substr(p, e - p);
        p = e + 2;
        if(first) { r.line = l; first = false; continue; }
        size_t c = l.find(": ");
        if(c == std::string::npos) return r;
        std::string n = hg::lower(l.substr(0, c));
        if(r.h.count(n)) return r;
        r.h[n] = l.substr(c + 2);
    }
    r.ok = true;
    return r;
}
static bool has_token(const std::string &v, const std::string &t)
{
    std::string cur;
    for(char c : hg::lower(v) + ",") { if(c == ',') { if(cur == t) return true; cur.clear(); } else if(c != ' ') cur += c; }
    return false;
}

static std::vector<Ev> events(Case &cx, size_t total)
{   // a blocking socket: would-block can only be seen once something arrived, if at all
    auto ev = gen_events(cx, total, false);
    return ev;
}

static void check_frames(Case &cx, Sock &s, bool from_client, const std::vector<F> &fs, const std::string &ctx)
{
    for(size_t a = 0; a < fs.size(); ++a)
    {
        fr::ClientWebFrame cf; fr::ServerWebFrame sf;
        fr::WebFrame &f = from_client ? (fr::WebFrame &)sf : cf;
        Status st;
        do st = s.receive(f); while(st == Status::WouldBlock && s.own.in_i < s.own.in_ev.size());
        VP_CHECK(cx, st == Status::Success, "lost-frame", "frame " + num(a + 1) + " of " + num(fs.size()) + " after the handshake was received with status " + status_name(st) + ctx);
        VP_CHECK(cx, (int)f.get_opcode() == fs[a].op && f.is_final() == fs[a].fin && f.get_payload() == fs[a].data, "frame", "frame " + num(a + 1) + " after the handshake differs" + ctx);
    }
}

static void check_disconnect(Case &cx, Sock &s, bool client)
{
    s.own.out.clear();
    s.own.out_ev.clear(); s.own.out_i = 0; s.own.out_left = 0;
    s.own.on_send = nullptr;
    int closes = s.own.closes;
    s.disconnect();
    VP_CHECK(cx, !s.connected() && s.own.closes == closes + 1, "disconnect", "disconnect left the socket connected");
    ws::Frame r; size_t at = 0;
    VP_CHECK(cx, ws::decode(s.own.out, at, r) == 1 && at == s.own.out.size(), "close-frame", "disconnecting sent " + num(s.own.out.size()) + " bytes that are not exactly one frame: " + vp::show(s.own.out));
    VP_CHECK(cx, r.op == 8 && r.fin, "close-frame", "the frame sent when disconnecting has opcode " + snum(r.op));
    VP_CHECK(cx, r.masked == client, "close-mask", std::string("the close frame sent by the ") + (client ? "client is not masked" : "server is masked"));
    s.disconnect();
    VP_CHECK(cx, s.own.out.size() == at && s.own.io_after_close == 0, "close-twice", "disconnecting again sent something");
}

// the object may have been the other end of (or the same end of, or refused by) an earlier connection
static void earlier_use(Case &cx, Sock &s)
{
    if(!cx.chance(1, 4)) return;
    bool accepted = cx.flip(), conforming = !cx.chance(1, 4);
    s.own = Wire();
    s.own.cx = &cx;
    s.own.is_connected = false;
    if(accepted)
    {
        s.own.in = "GET / HTTP/1.1\r\nHost: x\r\nConnection: Upgrade\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nUpgrade: " + std::string(conforming ? "websocket" : "h2c") + "\r\n\r\n";
        s.own.in_ev = {{s.own.in.size(), Status::Success}};
        int32_t fd = 999;
        try { s.set_descriptor(&fd); } catch(const std::runtime_error &) { }
    }
    else
    {
        s.own.on_send = [&](Wire &w)
        {
            Req r = read_head(w.out);
            if(!r.ok || !w.in.empty()) return;
            w.in = "HTTP/1.1 101 \r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: " + (conforming ? ref::ws_accept(r.h["sec-websocket-key"]) : "none") + "\r\n\r\n";
            w.in_ev = {{w.in.size(), Status::Success}};
        };
        (void)s.connect("earlier", "1", "/earlier", {"earlier"}, std::chrono::seconds(1));
    }
    VP_CHECK(cx, s.connected() == conforming, "earlier", std::string("an earlier, ") + (conforming ? "conforming" : "non-conforming") + " peer was " + (conforming ? "refused" : "accepted"));
    if(cx.flip()) s.disconnect();   // or the connection was lost
    s.own = Wire();
    s.own.is_connected = false;
    cx.label(accepted ? "object used as a server before" : "object used as a client before");
    cx.note([&] { return std::string("the object was used as a ") + (accepted ? "server" : "client") + " before" + (conforming ? "" : ", with a peer it refused"); });
}

static void client(Case &cx)
{
    Sock s;
    earlier_use(cx, s);
    s.own.cx = &cx;
    s.own.is_connected = false;
    std::string path = hg::path(cx), host = "h" + cx.text("abc.-019", 0, 10), port = num(cx.draw(65536));
    std::vector<std::string> protos;
    size_t np = cx.draw(4);
    for(size_t a = 0; a < np; ++a) protos.push_back(cx.text("abcxyz019.-", 1, 8));
    unsigned variant = (unsigned)cx.weighted({8, 3, 4, 1, 2, 1, 1});
    bool good = variant == 0;
    Status broken = cx.pick({Status::Disconnected, Status::ReceiveError, Status::Timeout, Status::SSLError});
    std::vector<F> fs;
    std::string key, response;
    bool asked = false;
    if(variant == 6) s.own.connect_status = cx.pick({Status::NoRouteToHost, Status::AddressLookupFailure, Status::SSLError});
    if(variant == 5) { s.own.out_ev = gen_events(cx, 1 + cx.draw(60), false); s.own.out_end = cx.pick({Status::SendError, Status::Timeout, Status::SSLError}); }
    else s.own.out_ev = gen_events(cx, 400, true);
    s.own.on_send = [&](Wire &w)
    {
        if(asked) return;
        Req r = read_head(w.out);
        if(!r.ok) return;
        asked = true;
        key = r.h["sec-websocket-key"];
        std::string accept = ref::ws_accept(key);
        int status = 101;
        std::string text;
        switch(variant)
        {
            case 1: do status = cx.pick({200, 100, 102, 400, 403, 404, 426, 500, 301, 201, 110, 1010, 10}); while(status == 101); break;
            case 2:
                switch(cx.draw(8))
                {
                    case 0: accept = ""; break;
                    case 1: { size_t at = cx.draw(27); char c = accept[at]; accept[at] = c == 'A' ? 'B' : 'A'; break; }
                    case 2: { std::string was = accept; accept = cx.flip() ? hg::lower(accept) : accept + "="; if(accept == was) accept += "x"; break; }
                    case 3: accept.resize(cx.draw(accept.size())); break;
                    case 4: accept = ref::ws_accept(""); break;
                    case 5: accept = key; break;
                    case 6: accept = ref::base64(ref::sha1(key)); break;
                    default: accept = ref::ws_accept(key + "x"); break;
                }
                break;
            default: break;
        }
        text = "HTTP/1.1 " + num(status) + cx.pick<const char *>({" Switching Protocols", "", " OK", " "}) + "\r\n";
        std::vector<std::string> h = {hg::recase(cx, "Upgrade") + ": websocket", hg::recase(cx, "Connection") + ": Upgrade"};
        if(!accept.empty() || cx.flip()) h.push_back(hg::recase(cx, "Sec-WebSocket-Accept") + ":" + std::string(cx.draw(3), ' ') + accept);
        size_t extra = cx.draw(3);
        for(size_t a = 0; a < extra; ++a) h.push_back("X" + hg::header_name(cx) + ": " + hg::header_value(cx));
        if(!protos.empty() && cx.flip()) h.push_back("Sec-WebSocket-Protocol: " + protos[0]);
        for(size_t a = h.size(); a > 1; --a) std::swap(h[a - 1], h[cx.draw(a)]);
        for(auto &x : h) text += x + "\r\n";
        text += "\r\n";
        if(variant == 4) { text.resize(cx.draw(text.size())); }
        else if(variant == 3) text = cx.bytes(40);
        else if(good || cx.flip()) fs = frames(cx, false, text);
        response = text;
        w.in = text;
        w.in_ev = events(cx, text.size());
        if(variant >= 3) w.in_ev.push_back({0, broken});
        w.in_end = broken;
    };
    s.own.in_end = broken;
    bool plain = cx.chance(1, 6);
    if(plain) { path = "/"; protos.clear(); }
    Status st = plain ? s.connect(host, port, std::chrono::seconds(1)) : s.connect(host, port, path, protos, std::chrono::seconds(1));
    std::string ctx = "; the server answered " + vp::show(response, 600);
    cx.note([&] { return "client to " + host + ":" + port + path + ": " + vp::show(s.own.out, 300) + ctx + " " + show_events(s.own.in_ev) + " -> " + status_name(st); });
    VP_CHECK(cx, s.own.connects == 1 && s.own.connect_address == host && s.own.connect_port == port, "connect-args", "another address was connected to");
    if(variant == 6)
    {
        VP_CHECK(cx, st == s.own.connect_status && !s.connected() && s.own.out.empty(), "connect-failure", std::string("when the connection fails with ") + status_name(s.own.connect_status) + " connect reports " + status_name(st));
        cx.label("no connection");
        return;
    }
    if(variant != 5)
    {
        VP_CHECK(cx, asked, "request", "no complete request was sent: " + vp::show(s.own.out, 500));
        Req r = read_head(s.own.out);
        VP_CHECK(cx, r.line == "GET " + path + " HTTP/1.1", "request-line", "the request line is " + vp::show(r.line) + " for path " + vp::show(path));
        VP_CHECK(cx, hg::lower(r.h["upgrade"]) == "websocket" && has_token(r.h["connection"], "upgrade") && r.h["sec-websocket-version"] == "13", "request-headers", "upgrade, connection or version missing in " + vp::show(s.own.out, 500));
        VP_CHECK(cx, r.h["host"] == host + ":" + port, "host", "the host header is " + vp::show(r.h["host"]) + " instead of " + host + ":" + port);
        std::string pj;
        for(auto &p : protos) pj += (pj.empty() ? "" : ", ") + p;
        VP_CHECK(cx, r.h["sec-websocket-protocol"] == pj && r.h.count("sec-websocket-protocol") + 0 <= 1, "protocols", "the subprotocols are " + vp::show(r.h["sec-websocket-protocol"]) + " instead of " + vp::show(pj));
        std::string raw;
        bool b64 = ref::unbase64(key, raw);
        VP_CHECK(cx, b64 && raw.size() == 16, "key", "the key " + vp::show(key) + " is not the base64 form of 16 bytes");
        VP_CHECK(cx, !good || r.rest.empty(), "request-rest", "bytes follow the request");
    }
    if(good)
    {
        VP_CHECK(cx, st == Status::Success, "refused", std::string("connecting to a conforming server returned ") + status_name(st) + ctx);
        VP_CHECK(cx, s.connected(), "unconnected", "not connected after success");
        check_frames(cx, s, false, fs, ctx);
        check_disconnect(cx, s, true);
        cx.nontrivial();
        cx.label("conforming server");
    }
    else
    {
        VP_CHECK(cx, st != Status::Success, "accepted", std::string("connecting succeeded") + ctx);
        VP_CHECK(cx, !s.connected(), "still-connected", std::string("after the failed handshake (") + status_name(st) + ") the socket is still connected" + ctx);
        VP_CHECK(cx, s.own.closes == 1, "closes", "the connection was closed " + snum(s.own.closes) + " times");
        cx.nontrivial();
        cx.label(variant == 5 ? "request not sent" : variant == 4 ? "truncated answer" : variant == 3 ? "garbage" : variant == 2 ? "wrong accept value" : "wrong status");
    }
}

static void server(Case &cx)
{
    Sock s;
    earlier_use(cx, s);
    s.own.cx = &cx;
    s.own.is_connected = false;
    unsigned variant = (unsigned)cx.weighted({8, 2, 3, 2, 1});
    bool good = variant == 0;
    std::string key = cx.flip() ? ref::base64(cx.blob(16)) : "dGhlIHNhbXBsZSBub25jZQ==";
    std::string method = "GET", upgrade = cx.pick<const char *>({"websocket", "WebSocket", "WEBSOCKET", "websocket"});
    if(variant == 1) method = cx.pick<const char *>({"POST", "PUT", "DELETE", "PATCH"});
    if(variant == 2) upgrade = cx.pick<const char *>({"", "h2c", "web", "websockets", "websocket2", "xwebsocket", "TLS/1.0", "-"});
    std::string text = method + " " + hg::path(cx) + " HTTP/1.1\r\n";
    std::vector<std::string> h = {"Host: x", hg::recase(cx, "Connection") + ": " + cx.pick<const char *>({"Upgrade", "keep-alive, Upgrade"}), hg::recase(cx, "Sec-WebSocket-Version") + ": 13", hg::recase(cx, "Sec-WebSocket-Key") + ":" + std::string(cx.draw(3), ' ') + key};
    if(upgrade != "-") h.push_back(hg::recase(cx, "Upgrade") + ":" + std::string(cx.draw(3), ' ') + upgrade);
    size_t extra = cx.draw(3);
    for(size_t a = 0; a < extra; ++a) h.push_back("X" + hg::header_name(cx) + ": " + hg::header_value(cx));
    for(size_t a = h.size(); a > 1; --a) std::swap(h[a - 1], h[cx.draw(a)]);
    const char *nl = cx.chance(1, 6) ? "\n" : "\r\n";
    for(auto &x : h) text += x + nl;
    text += nl;
    std::vector<F> fs;
    if(variant == 3) text.resize(cx.draw(text.size()));
    else if(variant == 4) text = cx.bytes(60);
    else fs = frames(cx, true, text);
    s.own.in = text;
    s.own.in_ev = events(cx, text.size());
    s.own.in_end = cx.pick({Status::Disconnected, Status::ReceiveError, Status::Timeout});
    s.own.out_ev = gen_events(cx, 150, true);
    cx.note([&] { return "server: the client sends " + vp::show(text, 600) + " " + show_events(s.own.in_ev); });
    int32_t fd = 1000;
    bool threw = false;
    try { s.set_descriptor(&fd); } catch(const std::runtime_error &) { threw = true; }
    std::string ctx = "; the client sent " + vp::show(text, 600);
    if(good)
    {
        VP_CHECK(cx, !threw && s.connected(), "refused", "a conforming client was refused" + ctx);
        Req r = read_head(s.own.out);
        VP_CHECK(cx, r.ok && r.rest.empty(), "response", "the answer is not one HTTP header: " + vp::show(s.own.out, 400));
        VP_CHECK(cx, r.line.compare(0, 13, "HTTP/1.1 101 ") == 0, "response-status", "the answer begins with " + vp::show(r.line));
        VP_CHECK(cx, hg::lower(r.h["upgrade"]) == "websocket" && has_token(r.h["connection"], "upgrade"), "response-headers", "upgrade or connection header missing in " + vp::show(s.own.out, 400));
        VP_CHECK(cx, r.h["sec-websocket-accept"] == ref::ws_accept(key), "accept", "the accept value for key " + key + " is " + r.h["sec-websocket-accept"]);
        check_frames(cx, s, true, fs, ctx);
        check_disconnect(cx, s, false);
        cx.label("conforming client");
    }
    else
    {
        VP_CHECK(cx, threw, "accepted", "a non-conforming client was accepted" + ctx);
        VP_CHECK(cx, s.own.out.find(" 101 ") == std::string::npos, "switched", "a non-conforming client was answered with 101" + ctx);
        VP_CHECK(cx, !s.connected(), "still-connected", "the refused client is still connected" + ctx);
        cx.label("non-conforming client");
    }
    cx.nontrivial();
}

static void pair(Case &cx)
{   // the library's own client against its own server
    Sock c, v;
    earlier_use(cx, c);
    earlier_use(cx, v);
    c.own.cx = v.own.cx = &cx;
    c.own.is_connected = v.own.is_connected = false;
    std::string tail;
    auto fs = frames(cx, false, tail);
    bool done = false;
    c.own.on_send = [&](Wire &w)
    {
        if(done || w.out.find("\r\n\r\n") == std::string::npos) return;
        done = true;
        v.own.in = w.out;
        v.own.in_ev = events(cx, v.own.in.size());
        int32_t fd = 1000;
        try { v.set_descriptor(&fd); } catch(const std::runtime_error &e) { cx.fail("own-client", std::string("the server refused the library's own client: ") + e.what()); }
        w.in = v.own.out + tail;
        w.in_ev = events(cx, w.in.size());
    };
    Status st = c.connect("host", "80", "/" + cx.text(hg::PATHC, 0, 5), {}, std::chrono::seconds(1));
    VP_CHECK(cx, st == Status::Success, "own-server", std::string("connecting to the library's own server returned ") + status_name(st));
    check_frames(cx, c, false, fs, "");
    // and data flows to the server
    c.own.on_send = nullptr;
    c.own.out.clear();
    fr::ClientWebFrame f;
    std::string d = cx.bytes(50);
    f.set_payload(d);
    VP_CHECK(cx, c.send(f) == Status::Success, "send", "sending after the handshake failed");
    v.own.in += c.own.out;
    v.own.in_ev = {{v.own.in.size(), Status::Success}}; v.own.in_i = 0; v.own.in_left = 0;
    fr::ServerWebFrame g;
    VP_CHECK(cx, v.receive(g) == Status::Success && g.get_payload() == d, "data", "the first frame after the handshake was not received");
    cx.nontrivial();
    cx.label("client and server of the library");
}

static void prop(Case &cx)
{
    cx.reset_steps(2000000);
    switch(cx.weighted({5, 5, 1})) { case 0: client(cx); break; case 1: server(cx); break; default: pair(cx); }
}

Property vp::the_property = {"C21", prop,
    "a case runs a WebSocket client against a scripted server, a WebSocket server against a scripted client, or one against the other, with conforming and deviating answers (status, accept value, method, upgrade, truncation, garbage, send failures), frames following the handshake in the same stream and a generated segmentation; the objects may have been used for an earlier connection, at either end; non-trivial: a connection was made and the handshake was judged",
    1200000, 7200000};
