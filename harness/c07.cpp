// C07: receive results never lie about interrupted or partial messages.
#include <frnetlib/Packet.h>
#include <frnetlib/WebFrame.h>
#include "wsref.hpp"
#include "httpgen.hpp"
using namespace vp;

static std::string be32(size_t n) { std::string s; for(int a = 24; a >= 0; a -= 8) s += (char)(n >> a); return s; }

static void prop(Case &cx)
{
    cx.reset_steps(20000000);
    size_t kind = cx.draw(6);
    static const char *const K[] = {"exact read", "packet", "frame to the server", "frame to the client", "HTTP request", "HTTP response"};
    std::string text, payload;
    hg::Msg m;
    bool http = kind >= 4;
    switch(kind)
    {
        case 0: text = payload = cx.bytes(cx.chance(1, 10) ? 20000 : 40); break;
        case 1: payload = cx.chance(1, 8) ? cx.blob(cx.draw(20000)) : cx.bytes(40); text = be32(payload.size()) + payload; break;
        case 2: case 3:
            payload = cx.chance(1, 3) ? cx.blob(cx.pick({125, 126, 127, 300, 65535, 65536})) : cx.bytes(40);
            text = ws::encode(cx.pick({1, 2, 0, 8, 9, 10}), cx.flip(), kind == 2, cx.blob(4), payload);
            break;
        case 4: m = hg::gen(cx, false, false); text = m.text; break;
        default:
            if(cx.chance(1, 3))
            {
                m.response = true; m.chunked = true;
                text = "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n";
                size_t n = cx.draw(4);
                for(size_t a = 0; a < n; ++a) { std::string b = "x" + cx.bytes(20); char h[16]; snprintf(h, sizeof h, "%zx\r\n", b.size()); text += h + b + "\r\n"; m.body += b; }
                text += "0\r\n\r\n";
            }
            else { m = hg::gen(cx, true, false); text = m.text; }
    }
    // how much arrives before the stream breaks
    size_t k = cx.weighted({3, 2, 1, 1}) == 0 ? cx.draw(text.size() + 1) : 0;
    switch(cx.draw(5))
    {
        case 0: k = text.size(); break;
        case 1: k = 0; break;
        case 2: k = text.empty() ? 0 : std::min<size_t>(text.size() - 1, 1 + cx.draw(20)); break;
        case 3: k = text.size() - std::min<size_t>(text.size(), cx.draw(6)); break;
        default: k = cx.draw(text.size() + 1);
    }
    bool blocking = cx.flip();
    Status fault = cx.pick({Status::Disconnected, Status::ReceiveError, Status::Timeout, Status::SSLError, Status::Error});
    FakeSocket s;
    s.own.cx = &cx;
    s.blocking = blocking;
    s.set_max_receive_size(cx.flip() ? 0 : 0xFFFFFFFF);
    s.own.in = text.substr(0, k);
    s.own.in_ev = gen_events(cx, k, true);
    s.own.in_ev.push_back({0, fault});
    s.own.in_end = Status::Disconnected;
    cx.note([&] { return std::string(K[kind]) + " of " + num(text.size()) + " bytes, " + num(k) + " arrive, then " + status_name(fault) + " " + show_events(s.own.in_ev) + (http ? " " + vp::show(text, 300) : ""); });

    fr::Packet p("old content");
    fr::ServerWebFrame sf; fr::ClientWebFrame cf;
    fr::HttpRequest rq; fr::HttpResponse rs;
    std::string buf(text.size() + 1, '~');
    auto recv = [&]() -> Status
    {
        switch(kind)
        {
            case 0: return s.receive_all(&buf[0], text.size());
            case 1: return s.receive(p);
            case 2: return s.receive(sf);
            case 3: return s.receive(cf);
            case 4: return s.receive(rq);
            default: return s.receive(rs);
        }
    };
    Status st;
    while(true)
    {
        size_t i = s.own.in_i;
        st = recv();
        if(st == Status::WouldBlock)
        {
            VP_CHECK(cx, s.own.in_pos == 0, "would-block-consumed", std::string("would-block was reported after ") + num(s.own.in_pos) + " of " + num(text.size()) + " bytes of a " + K[kind] + " had been consumed");
            VP_CHECK(cx, s.own.in_i == i + 1, "would-block-extra", "would-block was reported after asking the socket " + num(s.own.in_i - i) + " times");
            cx.label("would-block before the message");
            continue;
        }
        break;
    }
    size_t got = s.own.in_pos;
    std::string what = std::string(K[kind]) + " of " + num(text.size()) + " bytes, of which " + num(k) + " arrived before " + status_name(fault) + ",";
    if(k >= text.size())
    {
        VP_CHECK(cx, st == Status::Success, "complete", what + " was reported as " + status_name(st) + (http ? ": " + vp::show(text, 400) : ""));
        VP_CHECK(cx, got == text.size(), "consumed", what + " consumed " + num(got) + " bytes");
        switch(kind)
        {
            case 0: VP_CHECK(cx, buf == text + "~", "content", what + " delivered other bytes"); break;
            case 1:
            {
                std::string c(p.size(), '\0');
                if(p.size()) p.extract_raw(&c[0], c.size());
                VP_CHECK(cx, c == payload, "content", what + " delivered other bytes");
                break;
            }
            case 2: VP_CHECK(cx, sf.get_payload() == payload, "content", what + " delivered other bytes"); break;
            case 3: VP_CHECK(cx, cf.get_payload() == payload, "content", what + " delivered other bytes"); break;
            case 4: VP_CHECK(cx, rq.get_body() == m.body, "content", what + " delivered another body"); break;
            default: VP_CHECK(cx, rs.get_body() == m.body, "content", what + " delivered another body");
        }
        cx.label("complete");
        if(s.own.in_ev.size() > 2) cx.nontrivial();
        return;
    }
    VP_CHECK(cx, st != Status::Success, "false-success", what + " was reported as received");
    if(k == 0)
    {
        VP_CHECK(cx, st == fault, "first-failure", what + " was reported as " + status_name(st));
        cx.label("failure before the first byte");
    }
    else
    {
        VP_CHECK(cx, st == Status::Disconnected || (st == fault && fault != Status::Timeout), "partial-failure", what + " was reported as " + status_name(st) + (http ? ": " + vp::show(text, 400) : ""));
        cx.label("failure inside the message");
        cx.nontrivial();
    }
    VP_CHECK(cx, got == k, "retry", what + " was given up on after " + num(got) + " bytes");
}

Property vp::the_property = {"C07", prop,
    "a case delivers a generated prefix of an exact-length read, packet, WebSocket frame, HTTP request or response (plain or chunked) in generated segments with would-blocks, then a failure (disconnection, receive error, timeout, TLS error), and compares the reported status with the one the prefix length implies; non-trivial: the failure falls inside the message, or the complete message came in several events",
    2500000, 15000000};
