// C15: malformed HTTP input is refused, and refused as early as it is recognisable.
#include "httpgen.hpp"
using namespace vp;
using namespace hg;

// 0: prefix of something valid, 1: starts with a method, 2: neither
static int request_start(const std::string &s)
{
    for(auto m : METHODS) if(s.compare(0, strlen(m), m) == 0) return 1;
    for(auto m : METHODS) if(s.size() < strlen(m) && std::string(m).compare(0, s.size(), s) == 0) return 0;
    return 2;
}

static void starts(Case &cx)
{
    bool response = cx.flip();
    std::string s;
    if(response)
    {
        s = "HTTP/1.1 200 OK\r\n";
        s = s.substr(0, cx.draw(8)) + (cx.chance(1, 6) ? "" : cx.bytes(12));
    }
    else
    {
        s = METHODS[cx.draw(5)];
        s = s.substr(0, cx.draw(s.size() + 1));
        switch(cx.draw(4)) { case 0: break; case 1: s += (char)cx.draw(256); break; case 2: s += cx.bytes(8); break; default: s = cx.text("GETPOSUDLACHgetpos ", 1, 8); }
    }
    if(s.find('\n') != std::string::npos) s = s.substr(0, s.find('\n'));
    if(s.empty()) s = "G";
    cx.note([&] { return (response ? "response start " : "request start ") + vp::show(s); });
    bool whole = cx.chance(1, 4);
    auto want = [&](const std::string &p) {
        if(response) return p.size() >= 4 && p.compare(0, 4, "HTTP") != 0 ? Status::ParseError : Status::NotEnoughData;
        return request_start(p) == 2 ? Status::ParseError : Status::NotEnoughData;
    };
    auto run = [&](Http &h) {
        if(whole) { Status st = parse(cx, h, s); VP_CHECK(cx, st == want(s), "start", vp::show(s) + " gives " + status_name(st) + " instead of " + status_name(want(s))); return; }
        auto pieces = cx.flip() ? std::vector<size_t>(s.size(), 1) : cx.splits(s.size());
        std::string p;
        for(size_t n : pieces)
        {
            std::string x = s.substr(p.size(), n);
            p += x;
            Status st = parse(cx, h, x);
            VP_CHECK(cx, st == want(p), "early", "after " + vp::show(p) + " the verdict is " + status_name(st) + " instead of " + status_name(want(p)));
            if(st != Status::NotEnoughData) { cx.nontrivial(); break; }
        }
    };
    if(response) { fr::HttpResponse h; run(h); } else { fr::HttpRequest h; run(h); }
}

static void broken(Case &cx)
{
    bool response = cx.flip();
    Msg m = gen(cx, response, false);
    const char *nl = cx.flip() ? "\r\n" : "\n";
    std::string line, hdr;
    bool bad_len = false;
    static const std::vector<const char *> nums = {"-1", "-0", "+5x", "abc", "", "0x10", "1e3x", "five", "99999999999999999999999999", "18446744073709551616", "-18446744073709551615", "1,2,", " ", "--5", ".5", "_", "12abc", "5 5"};
    if(response)
    {
        bad_len = cx.flip();
        static const std::vector<const char *> lines = {"HTTP/1.1", "HTTP", "HTTP/1.1 abc OK", "HTTP/1.1 OK 200", "HTTP/1.1 -200 OK", "HTTP/1.1 99999999999 OK", "HTTP/1.1 99999999999999999999999999 OK", "HTTP/1.1 ", "HTTP/1.1  200 OK", "HTTP/1.1 x200", "HTTP/1.0\t200 OK", "HTTP/1.1 .200", "HTTP200"};
        line = bad_len ? "HTTP/1.1 200 OK" : cx.pick(lines);
    }
    else
    {
        bad_len = cx.flip();
        std::string me = METHODS[cx.draw(5)];
        switch(bad_len ? 0 : 1 + cx.draw(6))
        {
            case 0: line = me + " / HTTP/1.1"; break;
            case 1: line = me; break;
            case 2: line = me + " "; break;
            case 3: line = me + " HTTP/1.1"; break;
            case 4: line = me + " " + cx.text(PATHC, 0, 8); if(line.find("HTTP") != std::string::npos) line = me + " /x"; break;
            case 5: line = me + " nopath"; break;
            default: line = me.substr(0, 1 + cx.draw(me.size() - 1)) + " / HTTP/1.1"; break; // a bare prefix of a method
        }
    }
    hdr = line + nl;
    std::string extra = "A: b" + std::string(nl);
    if(cx.flip()) hdr += extra;
    if(bad_len) hdr += recase(cx, "Content-Length") + ": " + cx.pick(nums) + nl;
    if(cx.flip()) hdr += "C: d" + std::string(nl);
    hdr += nl;
    std::string t = hdr + (cx.flip() ? cx.bytes(30) : "");
    cx.note([&] { return vp::show(t); });
    auto run = [&](Http &h) {
        const char *how = "";
        Status st = deliver(cx, h, t, SIZE_MAX, &how, true);
        VP_CHECK(cx, st == Status::ParseError, "broken", std::string("(") + how + ") gives " + status_name(st) + " instead of ParseError: " + vp::show(t));
    };
    if(response) { fr::HttpResponse h; run(h); } else { fr::HttpRequest h; run(h); }
    cx.nontrivial();
    cx.label(bad_len ? "bad content length" : "bad first line");
}

// a message cut short is never complete
static void incomplete(Case &cx)
{
    bool response = cx.flip();
    Msg m = gen(cx, response, false);
    size_t cut = cx.flip() ? cx.draw(m.text.size()) : m.text.size() - 1 - cx.draw(std::min<size_t>(m.text.size(), 12));
    if(!m.has_length && cut >= m.header_end) cut = m.header_end - 1;
    std::string t = m.text.substr(0, cut);
    // a bare LF line end makes "\n\r" + "\n" end the header early
    cx.note([&] { return vp::show(t); });
    auto run = [&](Http &h) {
        const char *how = "";
        Status st = deliver(cx, h, t, SIZE_MAX, &how, true);
        bool sock = !strcmp(how, "through a socket");
        VP_CHECK(cx, st == Status::NotEnoughData || (sock && st == Status::Disconnected), "incomplete", std::string("a cut message (") + how + ") gives " + status_name(st) + ": " + vp::show(t, 600));
    };
    if(t.empty()) return;
    if(response) { fr::HttpResponse h; run(h); } else { fr::HttpRequest h; run(h); }
    if(cut > 8) cx.nontrivial();
    cx.label("cut message");
}

// anything at all: no exception, no crash
static void anything(Case &cx)
{
    std::string t;
    bool response = cx.flip();
    if(cx.flip()) t = response ? "HTTP/1.1 " : std::string(METHODS[cx.draw(5)]) + " ";
    size_t n = cx.draw(12);
    for(size_t a = 0; a < n; ++a)
        switch(cx.draw(5))
        {
            case 0: t += cx.bytes(20); break;
            case 1: t += cx.pick<const char *>({"\r\n", "\n", "\r\n\r\n", "\n\n", " ", ":", "/", "?", "=", "&", "HTTP", "HTTP/1.1", "content-length:", "transfer-encoding: chunked\r\n", "0\r\n\r\n", "\r", "POST ", "200"}); break;
            case 2: t += num(cx.integer(64)); break;
            case 3: t += cx.dict_string(30); break;
            default: t += (char)cx.draw(256);
        }
    if(t.empty()) t = "\r";
    cx.note([&] { return vp::show(t); });
    auto run = [&](Http &h) {
        const char *how = "";
        Status st = deliver(cx, h, t, 0, &how, true);
        bool ok = st == Status::Success || st == Status::NotEnoughData || st == Status::ParseError || st == Status::HttpHeaderTooBig || st == Status::HttpBodyTooBig || st == Status::Disconnected || st == Status::WouldBlock;
        VP_CHECK(cx, ok, "status", std::string("an odd verdict: ") + status_name(st));
        (void)h.construct("host");
        cx.label(std::string("arbitrary input: ") + status_name(st));
    };
    if(response) { fr::HttpResponse h; run(h); } else { fr::HttpRequest h; run(h); }
}

static void prop(Case &cx)
{
    switch(cx.weighted({4, 4, 3, 3}))
    {
        case 0: starts(cx); break;
        case 1: broken(cx); break;
        case 2: incomplete(cx); break;
        default: anything(cx);
    }
}

Property vp::the_property = {"C15", prop,
    "a case is a (near-)valid start fed in pieces with the verdict after each piece predicted, a message with an unusable request line, status code or content length, a message cut short, or an arbitrary string; non-trivial: the start deviates over several pieces, a broken header, or a cut after more than 8 bytes",
    4000000, 24000000};
