// C09: hostile byte streams cannot crash or wedge the message receivers.
// (built with a header limit of 600 and a body limit of 2000 bytes)
#include <frnetlib/Packet.h>
#include <frnetlib/WebFrame.h>
#include "wsref.hpp"
#include "httpgen.hpp"
#include "memtrack.hpp"
using namespace vp;
static const size_t HL = MAX_HTTP_HEADER_SIZE, BL = MAX_HTTP_BODY_SIZE;
static std::string be32(size_t n) { std::string s; for(int a = 24; a >= 0; a -= 8) s += (char)(n >> a); return s; }

static void mutate(Case &cx, std::string &t)
{
    size_t muts = cx.draw(4);
    for(size_t a = 0; a < muts; ++a)
    {
        if(t.empty()) t = std::string(1, '\0');
        size_t at = cx.draw(t.size());
        switch(cx.draw(7))
        {
            case 0: t[at] = (char)cx.draw(256); break;
            case 1: t.erase(at, 1 + cx.draw(4)); break;
            case 2: t.insert(at, cx.pick<const char *>({"\r\n", "\n", "\r", "\r\n\r\n", ":", " ", "-1\r\n", "ffffffffffffffff\r\n", "content-length: 18446744073709551615\r\n", "Transfer-Encoding: chunked\r\n", "0\r\n\r\n", "content-length: -5\r\n", "?", "&="})); break;
            case 3: t.insert(at, std::string(1 + cx.draw(8), cx.flip() ? '\xff' : '\0')); break;
            case 4: t.insert(at, t.substr(cx.draw(t.size()), 1 + cx.draw(40))); break;
            case 5: t.resize(at); break;
            default: t.insert(at, cx.bytes(12)); break;
        }
    }
}

// what a well-behaved receiver makes of HTTP bytes; only used where that is unambiguous
struct Ref { bool unclear = false, header = false, length = false, chunked = false, bad_length = false, complete = false, malformed = false; std::string body; };
static Ref http_ref(const std::string &t, bool response)
{
    Ref r;
    std::vector<std::string> lines;
    size_t p = 0;
    while(true)
    {
        size_t e = t.find('\n', p);
        if(e == std::string::npos) return r;
        std::string l = t.substr(p, e - p);
        if(!l.empty() && l.back() == '\r') l.pop_back();
        p = e + 1;
        if(l.empty() && !lines.empty()) break;
        lines.push_back(l);
    }
    r.header = true;
    bool first_length = true;
    for(size_t a = 1; a < lines.size(); ++a)
    {
        size_t c = lines[a].find(':');
        if(c == std::string::npos) continue;
        std::string n = hg::lower(lines[a].substr(0, c)), v = lines[a].substr(c + 1);
        while(!v.empty() && v[0] == ' ') v.erase(0, 1);
        if(n == "content-length" || n == "transfer-encoding") for(unsigned char ch : v) if(ch < 32 || ch > 126) r.unclear = true;
        if(n == "content-length" && first_length)
        {
            first_length = false; r.length = true;
            if(v.empty() || v.find_first_not_of("0123456789") != std::string::npos || v.size() > 15) { r.bad_length = true; continue; }
            r.body = v;
        }
        if(n == "transfer-encoding" && response)
        {
            std::string cur;
            for(char ch : hg::lower(v) + ",") { if(ch == ',') { if(cur == "chunked") r.chunked = true; cur.clear(); } else if(ch != ' ') cur += ch; }
        }
    }
    std::string rest = t.substr(p);
    if(r.chunked)
    {
        r.body.clear();
        size_t q = 0;
        while(true)
        {
            size_t e = rest.find("\r\n", q);
            if(e == std::string::npos) return r;
            std::string l = rest.substr(q, e - q);
            size_t d = 0;
            while(d < l.size() && isxdigit((unsigned char)l[d])) ++d;
            if(d == 0 || (d < l.size() && l[d] != ';' && l[d] != ' ' && l[d] != '\t')) { r.malformed = true; return r; }
            size_t z = 0;
            while(z + 1 < d && l[z] == '0') ++z;
            if(d - z > 12) { r.malformed = true; return r; }
            size_t n = std::stoull(l.substr(z, d - z), nullptr, 16);
            if(rest.size() - (e + 2) < n + 2) return r;
            if(n == 0) { r.complete = true; return r; }
            r.body += rest.substr(e + 2, n);
            q = e + 2 + n + 2;
        }
    }
    if(r.length && !r.bad_length)
    {
        size_t n = std::stoull(r.body);
        r.body.clear();
        if(rest.size() >= n) { r.complete = true; r.body = rest.substr(0, n); }
    }
    return r;
}

static void http(Case &cx)
{
    bool response = cx.flip();
    std::string t;
    switch(cx.weighted({4, 2, 2, 1}))
    {
        case 0: t = hg::gen(cx, response, false).text; mutate(cx, t); break;
        case 1:
        {
            response = true;
            t = "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n";
            size_t n = cx.draw(5);
            for(size_t a = 0; a < n; ++a)
            {
                std::string b = cx.bytes(40);
                char h[40];
                if(cx.chance(1, 5)) snprintf(h, sizeof h, "%llx\r\n", (unsigned long long)cx.integer(64)); else snprintf(h, sizeof h, "%zx\r\n", b.size());
                t += h + b + "\r\n";
            }
            if(cx.flip()) t += "0\r\n\r\n";
            mutate(cx, t);
            break;
        }
        case 2:
        {   // endless things
            size_t n = 3000 + cx.draw(cx.chance(1, 10) ? 100000 : 12000);
            std::string unit;
            if(response)
                t = cx.pick<const char *>({"HTTP", "HTTP/1.1 200 OK\r\n", "HTTP/1.1 200 OK\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Length: 4000000000\r\n\r\n", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n5;"});
            else
                t = cx.pick<const char *>({"GET ", "GET /?", "GET / HTTP/1.1\r\n", "POST / HTTP/1.1\r\nContent-Length: 4000000000\r\n\r\n", "POST / HTTP/1.1\r\nContent-Length: 1900\r\n\r\n"});
            unit = cx.pick<const char *>({"a", "\r", "\n", "a=b&", "&", "=", "X: y\r\n", "\r\n ", ":", "1\r\na\r\n", "0", "00\r", "?", "\0", "1\r\n", "%", "Transfer-Encoding: chunked\r\n"});
            if(unit.empty()) unit = std::string(1, '\0');
            while(t.size() < n) t += unit;
            cx.label("endless stream");
            break;
        }
        default: t = (cx.flip() ? (response ? "HTTP" : "GET ") : "") + cx.bytes(200); break;
    }
    std::unique_ptr<fr::Http> h;
    if(response) h = std::make_unique<fr::HttpResponse>(); else h = std::make_unique<fr::HttpRequest>();
    FakeSocket s;
    s.own.cx = &cx;
    s.own.in = t;
    s.own.in_ev = gen_events(cx, t.size(), true);
    s.own.in_end = cx.pick({Status::Disconnected, Status::ReceiveError});
    cx.note([&] { return (response ? "response " : "request ") + vp::show(t, 600) + " " + show_events(s.own.in_ev); });
    cx.reset_steps(s.own.in_ev.size() + t.size() + 100);
    Status st;
    Mem::start();
    try { do st = s.receive(*h); while(st == Status::WouldBlock && s.own.in_pos == 0); }
    catch(const Failure &) { Mem::stop(); throw; }
    catch(const std::exception &e) { Mem::stop(); cx.fail("exception", std::string("receiving ") + vp::show(t, 700) + " threw " + e.what()); }
    int64_t peak = Mem::stop();
    // header limit + body limit + one receive buffer, with containers for the header's fields
    VP_CHECK(cx, peak <= 4 * (int64_t)(HL + BL + 4096) + 200 * (int64_t)HL, "memory", "receiving " + num(t.size()) + " bytes of HTTP allocated " + snum(peak) + " bytes");
    VP_CHECK(cx, st != Status::NotEnoughData && st != Status::WouldBlock && st != Status::Unknown, "status", std::string("receive returned ") + status_name(st) + " for " + vp::show(t, 600));
    cx.label(std::string("http ") + status_name(st));
    if(st == Status::Success)
    {
        std::string seen = t.substr(0, s.own.in_pos);
        Ref r = http_ref(seen, response);
        if(r.unclear) return;
        VP_CHECK(cx, r.header, "incomplete-header", "success without the end of the header: " + vp::show(seen, 700));
        VP_CHECK(cx, !(r.chunked && r.malformed), "malformed-chunk", "success for malformed chunks: " + vp::show(seen, 700));
        if(r.chunked || (r.length && !r.bad_length))
        {
            VP_CHECK(cx, r.complete, "incomplete", "success for an incomplete message: " + vp::show(seen, 700));
            VP_CHECK(cx, h->get_body() == r.body, "body", "the body is " + vp::show(h->get_body(), 300) + " instead of " + vp::show(r.body, 300) + " for " + vp::show(seen, 600));
        }
        VP_CHECK(cx, h->get_body().size() <= BL, "limit", "a body of " + num(h->get_body().size()) + " bytes was accepted");
        cx.nontrivial();
    }
    else if(st != Status::Disconnected) cx.nontrivial();
    else
    {   // all of it was wanted, so it must be an incomplete message
        Ref r = http_ref(t, response);
        VP_CHECK(cx, !r.complete || r.unclear || r.body.size() > BL, "missed", "a complete message was not recognised: " + vp::show(t, 700));
    }
}

static void framed(Case &cx)
{
    bool packet = cx.flip(), server = cx.flip();
    uint32_t L = cx.pick<uint32_t>({1, 100, 5000, 70000, 125, 65535, 3});
    std::string t;
    size_t n = cx.draw(5);
    for(size_t a = 0; a < n; ++a)
    {
        std::string d = cx.chance(1, 6) ? cx.blob(cx.draw(L + 20)) : cx.bytes(30);
        if(packet) t += be32(cx.chance(1, 8) ? cx.integer(32) : d.size()) + d;
        else t += ws::encode((int)cx.draw(16), cx.flip(), cx.chance(1, 10) ? !server : server, cx.blob(4), d, cx.chance(1, 6) ? 8 : cx.chance(1, 6) ? (d.size() < 65536 ? 2 : 8) : 0);
    }
    if(cx.flip()) mutate(cx, t);
    if(cx.chance(1, 5)) t += cx.bytes(60);
    if(!packet && cx.chance(1, 6))
    {
        t += cx.pick<const char *>({"\x82\xff\xff\xff\xff\xff\xff\xff\xff\xff", "\x82\x7f\x80", "\x82\xfe\xff\xff", "\x01\xff"});
        t += cx.bytes(20);
    }
    FakeSocket s;
    s.own.cx = &cx;
    s.set_max_receive_size(L);
    s.own.in = t;
    s.own.in_ev = gen_events(cx, t.size(), true);
    s.own.in_end = cx.pick({Status::Disconnected, Status::ReceiveError});
    cx.note([&] { return std::string(packet ? "packets " : server ? "frames to the server " : "frames to the client ") + "limit " + num(L) + ": " + vp::show(t, 500) + " " + show_events(s.own.in_ev); });
    cx.reset_steps(s.own.in_ev.size() + t.size() + 1000);
    fr::Packet p; fr::ServerWebFrame sf; fr::ClientWebFrame cf;
    fr::WebFrame &f = server ? (fr::WebFrame &)sf : cf;
    size_t pos = 0, good = 0;
    while(true)
    {
        Status st;
        Mem::start();
        try { st = packet ? s.receive(p) : s.receive(f); }
        catch(const Failure &) { Mem::stop(); throw; }
        catch(const std::exception &e) { Mem::stop(); cx.fail("exception", std::string("receiving ") + vp::show(t.substr(pos), 400) + " threw " + e.what()); }
        int64_t peak = Mem::stop();
        VP_CHECK(cx, peak <= 2 * (int64_t)L + 4096, "memory", "with limit " + num(L) + " receiving allocated " + snum(peak) + " bytes");
        if(st == Status::WouldBlock && s.own.in_pos == pos) continue;
        std::string want; uint64_t need; bool complete, over, badmask = false;
        size_t at = pos;
        ws::Frame r;
        if(packet)
        {
            need = t.size() - pos < 4 ? 0 : ((uint64_t)(unsigned char)t[pos] << 24 | (unsigned)(unsigned char)t[pos + 1] << 16 | (unsigned)(unsigned char)t[pos + 2] << 8 | (unsigned char)t[pos + 3]);
            complete = t.size() - pos >= 4 && t.size() - pos - 4 >= need;
            over = t.size() - pos >= 4 && need > L;
            if(complete) { want = t.substr(pos + 4, need); at = pos + 4 + need; }
        }
        else
        {
            complete = ws::decode(t, at, r) == 1;
            badmask = t.size() - pos >= 2 && r.masked != server;
            over = r.header && r.len > L;
            want = r.data;
        }
        std::string left = vp::show(t.substr(pos), 300);
        if(st == Status::Success)
        {
            VP_CHECK(cx, complete && !over && !badmask, "invented", std::string("success for ") + (badmask ? "a frame with the wrong masking" : over ? "a message beyond the limit" : "an incomplete message") + ": " + left);
            std::string got;
            if(packet) { got.resize(p.size()); if(!got.empty()) p.extract_raw(&got[0], got.size()); } else got = f.get_payload();
            VP_CHECK(cx, got == want, "content", "received " + vp::show(got) + " instead of " + vp::show(want) + " from " + left);
            if(!packet) VP_CHECK(cx, (int)f.get_opcode() == r.op && f.is_final() == r.fin, "meta", "opcode or final bit differ for " + left);
            VP_CHECK(cx, s.own.in_pos == at, "boundary", "consumed " + num(s.own.in_pos - pos) + " bytes instead of " + num(at - pos) + " of " + left);
            pos = at;
            ++good;
            continue;
        }
        VP_CHECK(cx, !(complete && !over && !badmask && r.rsv == 0 && (packet || r.minimal) && (packet || r.op <= 2 || (r.op >= 8 && r.op <= 10))), "refused", std::string("a valid message was refused with ") + status_name(st) + ": " + left);
        VP_CHECK(cx, st != Status::WouldBlock && st != Status::Timeout && st != Status::Unknown, "status", std::string("receive returned ") + status_name(st));
        cx.label(std::string(packet ? "packet " : "frame ") + status_name(st));
        if(good || st != Status::Disconnected) cx.nontrivial();
        break;
    }
}

static void prop(Case &cx)
{
    if(cx.flip()) http(cx); else framed(cx);
}

Property vp::the_property = {"C09", prop,
    "a case receives mutated, oversized, endless or arbitrary byte streams as packets, WebSocket frames (either role) or HTTP messages (limits reduced to 600/2000 bytes) over a generated segmentation until a failure, comparing every success with independent decoders and bounding steps and heap use; non-trivial: a message was received or refused for its content",
    1750000, 10500000};
