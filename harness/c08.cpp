// C08: receive limits are enforced exactly.
// (built with a header limit of 600 and a body limit of 2000 bytes)
#include <frnetlib/Packet.h>
#include <frnetlib/WebFrame.h>
#include "wsref.hpp"
#include "httpgen.hpp"
#include "memtrack.hpp"
using namespace vp;
static const size_t HL = MAX_HTTP_HEADER_SIZE, BL = MAX_HTTP_BODY_SIZE;

static std::string be(uint64_t n, int bytes) { std::string s; for(int a = bytes * 8 - 8; a >= 0; a -= 8) s += (char)(n >> a); return s; }

static uint32_t limit(Case &cx)
{
    switch(cx.weighted({3, 3, 2, 1}))
    {
        case 0: return (uint32_t)cx.draw(300);
        case 1: { static const uint32_t L[] = {0, 1, 125, 126, 127, 255, 256, 4092, 4096, 65534, 65535, 65536, 65537, 100000}; return L[cx.draw(14)]; }
        case 2: return (uint32_t)cx.integer(32);
        default: return 0xFFFFFFFFu - (uint32_t)cx.draw(5);
    }
}

static void framed(Case &cx)
{
    bool packet = cx.flip();
    bool server = cx.flip();    // receiving frames as the server: masked
    uint32_t L = limit(cx);
    uint64_t maxlen = packet ? 0xFFFFFFFFull : ~0ull;
    uint64_t n;
    switch(cx.weighted({5, 2, 3}))
    {
        case 0: { int64_t d = cx.pick<int64_t>({0, 1, -1, 2, -2, 100}); n = (uint64_t)((int64_t)L + d); if((int64_t)L + d < 0) n = 0; break; }
        case 1: n = cx.draw(400); break;
        default:
            n = cx.pick<uint64_t>({0x10000, 0xFFFFFFFF, 0x100000000ull, 0x100000001ull, 0x80000000, 0x7FFFFFFF, 1ull << 63, ~0ull, ~0ull - 3, 1ull << 40, 0x100000000ull + L});
    }
    n = std::min(n, maxlen);
    bool fits = L == 0 || n <= L;
    if(fits && n > 300000) { n = cx.draw(300); fits = L == 0 || n <= L; if(!fits) n = L; fits = true; }
    std::string in;
    size_t header;
    std::string key = cx.blob(4), payload;
    if(packet) in = be(n, 4);
    else
    {
        in = std::string(1, (char)0x82);
        char m = server ? (char)0x80 : 0;
        if(n <= 125) in += (char)(m | (char)n);
        else if(n <= 65535) in += (char)(m | 126), in += be(n, 2);
        else in += (char)(m | 127), in += be(n, 8);
        if(server) in += key;
    }
    header = in.size();
    if(fits)
    {
        payload = cx.blob((size_t)n);
        if(packet || !server) in += payload;
        else for(size_t a = 0; a < payload.size(); ++a) in += (char)(payload[a] ^ key[a & 3]);
    }
    else in += cx.blob(1 + cx.draw(5000));
    FakeSocket s;
    s.own.cx = &cx;
    s.blocking = cx.flip();
    s.set_max_receive_size(L);
    VP_CHECK(cx, s.get_max_receive_size() == L, "getter", "the limit set to " + num(L) + " reads back as " + num(s.get_max_receive_size()));
    s.own.in = in;
    s.own.in_ev = gen_events(cx, in.size(), !s.blocking);
    cx.note([&] { return std::string(packet ? "packet" : server ? "frame to the server" : "frame to the client") + " announcing " + num(n) + " bytes, limit " + num(L) + " " + show_events(s.own.in_ev); });
    fr::Packet p; fr::ServerWebFrame sf; fr::ClientWebFrame cf;
    Status st;
    Mem::start();
    try { do st = packet ? s.receive(p) : server ? s.receive(sf) : s.receive(cf); while(st == Status::WouldBlock && s.own.in_pos == 0 && s.own.in_i < s.own.in_ev.size()); }
    catch(const std::exception &e) { Mem::stop(); cx.fail("exception", "receiving a message of " + num(n) + " bytes with limit " + num(L) + " threw " + e.what()); }
    int64_t peak = Mem::stop();
    std::string what = std::string(packet ? "a packet" : "a frame") + " of " + num(n) + " bytes with limit " + num(L);
    if(fits)
    {
        VP_CHECK(cx, st == Status::Success, "refused", what + " was refused with " + status_name(st));
        std::string got;
        if(packet) { got.resize(p.size()); if(!got.empty()) p.extract_raw(&got[0], got.size()); }
        else got = server ? sf.get_payload() : cf.get_payload();
        VP_CHECK(cx, got == payload, "content", what + " arrived damaged");
        cx.label("within the limit");
    }
    else
    {
        VP_CHECK(cx, st == Status::MaxPacketSizeExceeded, "accepted", what + " gave " + status_name(st));
        VP_CHECK(cx, s.own.in_pos <= header, "read-payload", what + " was refused only after reading " + num(s.own.in_pos - header) + " bytes of it");
        VP_CHECK(cx, peak < 4096, "buffered", what + " was refused after allocating " + snum(peak) + " bytes");
        cx.label("beyond the limit");
    }
    if(L && (n + 2 >= L && n <= (uint64_t)L + 2)) cx.nontrivial();
}

static Status deliver(Case &cx, fr::Http &h, const std::string &t, size_t *consumed)
{
    if(cx.flip())
    {
        FakeSocket s;
        s.own.cx = &cx;
        s.own.in = t;
        s.own.in_ev = gen_events(cx, t.size(), true);
        // the peer waits for an answer
        s.own.in_end = Status::Timeout;
        Status st;
        do st = s.receive(h); while(st == Status::WouldBlock && s.own.in_pos == 0 && s.own.in_i < s.own.in_ev.size());
        *consumed = s.own.in_pos;
        return st == Status::Disconnected ? Status::NotEnoughData : st;   // gave up waiting inside the message
    }
    auto sp = cx.flip() ? cx.splits(t.size()) : std::vector<size_t>{t.size()};
    return hg::feed(cx, h, t, sp, consumed);
}

static void http(Case &cx)
{
    bool response = cx.flip();
    std::unique_ptr<fr::Http> h;
    if(response) h = std::make_unique<fr::HttpResponse>(); else h = std::make_unique<fr::HttpRequest>();
    int method = (int)cx.draw(5);
    std::string t = response ? "HTTP/1.1 200 OK" : std::string(hg::METHODS[method]) + " /" + cx.text(hg::PATHC, 0, 20) + " HTTP/1.1";
    unsigned eol = (unsigned)cx.draw(3);
    auto nl = [&] { return eol == 0 ? "\r\n" : eol == 1 ? "\n" : cx.flip() ? "\r\n" : "\n"; };
    size_t consumed = 0;
    if(cx.flip())
    {   // header size: the bytes before the line end that begins the empty line
        size_t want = (size_t)((int64_t)HL + (cx.flip() ? cx.range(-3, 6) : cx.range(-300, 800)));
        size_t body = cx.draw(3) ? 0 : 1 + cx.draw(30);
        bool never = cx.chance(1, 4);
        if(body) t += nl() + std::string("Content-Length: ") + num(body);
        while(t.size() < want)
        {
            size_t left = want - t.size();
            if(left < 8 || (!cx.flip() && t.size() > 60))
            {
                if(t.find('\n') == std::string::npos && !response) { t += nl(); if(t.size() >= want) break; t += std::string("X: ").substr(0, want - t.size()); }
                if(t.size() < want) t += std::string(want - t.size(), 'v');
                break;
            }
            t += nl() + std::string("H") + num(t.size() % 97) + ": ";
            size_t len = std::min(want - std::min(want, t.size()), cx.draw(120));
            t += std::string(len, 'w');
        }
        size_t header = t.size();
        std::string text = t;
        if(never) { text += std::string(4 + cx.draw(1000), 'n'); cx.label("header without an end"); }
        else { text += nl(); text += nl(); text += std::string(body, 'b'); }
        bool over = header > HL || (never && text.size() > HL + 4);
        cx.note([&] { return std::string(never ? "unfinished " : "") + "header of " + num(header) + " bytes (limit " + num(HL) + ") " + vp::show(text, 100); });
        int64_t before = 0; (void)before;
        Status st = deliver(cx, *h, text, &consumed);
        std::string what = (never ? "an unfinished header of " + num(text.size()) : "a header of " + num(header)) + " bytes with limit " + num(HL) + " gave " + status_name(st) + ": " + vp::show(text, 700);
        if(over) VP_CHECK(cx, st == Status::HttpHeaderTooBig, "header-limit", what);
        else if(never) VP_CHECK(cx, st == Status::NotEnoughData || st == Status::HttpHeaderTooBig, "header-verdict", what);
        else VP_CHECK(cx, st == Status::Success, "header-refused", what);
        VP_CHECK(cx, !over || consumed <= HL + 8 || consumed <= text.size(), "header-late", what);
        if(header + 6 >= HL && header <= HL + 6) cx.nontrivial();
        cx.label(over ? "header too big" : "header fits");
        return;
    }
    size_t n = (size_t)((int64_t)BL + (cx.flip() ? cx.range(-3, 6) : cx.range(-400, 3000)));
    std::string body(n, 'b'), text;
    bool chunk = response && cx.flip();
    if(!chunk)
    {
        text = t + nl() + "Content-Length: " + num(n) + nl() + "X: y" + nl() + nl();
        size_t head = text.size();
        text += body;
        (void)head;
    }
    else
    {
        text = t + "\r\nTransfer-Encoding: chunked\r\n\r\n";
        size_t left = n;
        while(left)
        {
            size_t c = cx.flip() ? left : std::min<size_t>(left, 1 + cx.draw(900));
            char l[20]; snprintf(l, sizeof l, "%zx\r\n", c);
            text += l + std::string(c, 'b') + "\r\n";
            left -= c;
        }
        text += "0\r\n\r\n";
    }
    bool over = n > BL;
    cx.note([&] { return std::string(chunk ? "chunked" : "plain") + " body of " + num(n) + " bytes (limit " + num(BL) + ")"; });
    Status st = deliver(cx, *h, text, &consumed);
    std::string what = std::string(chunk ? "a chunked" : "a") + " body of " + num(n) + " bytes with limit " + num(BL) + " gave " + status_name(st);
    if(over) VP_CHECK(cx, st == Status::HttpBodyTooBig, "body-limit", what);
    else
    {
        VP_CHECK(cx, st == Status::Success, "body-refused", what);
        VP_CHECK(cx, h->get_body() == body, "body", what + " but another body");
    }
    if(n + 6 >= BL && n <= BL + 6) cx.nontrivial();
    cx.label(over ? "body too big" : "body fits");
}

static void prop(Case &cx)
{
    cx.reset_steps(20000000);
    if(cx.flip()) http(cx); else framed(cx);
}

Property vp::the_property = {"C08", prop,
    "a case receives a packet or frame whose announced size is generated around the configured limit (or huge, up to 2^64-1), or an HTTP message whose header or body (plain or chunked) has a size generated around the built-in limits (reduced to 600/2000 bytes), over a generated segmentation, and compares verdict, content, bytes read and memory used; non-trivial: the size is within a few bytes of the limit",
    3000000, 18000000};
