// C13: chunked response bodies are decoded exactly.
#include "httpgen.hpp"
using namespace vp;
using namespace hg;

static std::string size_line(Case &cx, size_t n)
{
    char b[40];
    snprintf(b, sizeof b, cx.flip() ? "%zx" : "%zX", n);
    std::string s(b);
    if(cx.chance(1, 6)) s.insert(0, 1 + cx.draw(6), '0');
    if(cx.chance(1, 8)) s += cx.pick<const char *>({";name=value", ";x", " ;q=\"1\"", ";5"});
    return s;
}

static void prop(Case &cx)
{
    std::string head = cx.flip() ? "HTTP/1.1 200 OK\r\n" : "HTTP/1.1 200 \r\nServer: x\r\n";
    std::string te;
    switch(cx.weighted({4, 2, 2, 1, 1}))
    {
        case 0: te = recase(cx, "transfer-encoding") + ": " + recase(cx, "chunked") + "\r\n"; break;
        case 1: te = "Transfer-Encoding: " + std::string(cx.pick<const char *>({"gzip, ", "deflate,", "identity , ", "foo, gzip, ", "compress,gzip,"})) + recase(cx, "chunked") + "\r\n"; break;
        case 2: te = "Transfer-Encoding: gzip\r\nTransfer-Encoding: " + recase(cx, "chunked") + "\r\n"; break;
        case 3: te = "Transfer-Encoding:" + recase(cx, "chunked") + "\r\n"; break;
        default: te = "transfer-encoding:   chunked\r\nContent-Type: text/plain\r\n"; break;
    }
    head += te;
    if(cx.flip()) head += "X: y\r\n";
    head += "\r\n";
    size_t n = cx.weighted({2, 3, 6}) ? cx.draw(cx.chance(1, 20) ? 60 : 8) : 0;
    size_t bad = cx.chance(1, 4) ? cx.draw(n + 1) : SIZE_MAX;   // which size line is malformed
    std::string t = head, body;
    bool malformed = false;
    size_t bad_end = 0;
    for(size_t a = 0; a <= n; ++a)
    {
        if(a == bad)
        {
            std::string l = cx.pick<const char *>({"", "x", "-1", "-0", "+5", "g", "0x5", " ", "  5", "5g", "FFFFFFFFFFFFFFFF", "fffffffffffffffff", "10000000000000000", "123456789012345678901234567890", "7FFFFFFFFFFFFFFF", "FFFFFFFFFFFFFFFC", "FFFFFFFD", "80000000", "\t5", ";", ";5", "chunk", "5-", "\xff", "_1"});
            if(cx.chance(1, 4)) { l = cx.text("ghxyz-+ .:_\t", 1, 1) + cx.text("0123456789abcdef", 0, 5); }
            t += l + "\r\n";
            bad_end = t.size();
            t += cx.bytes(40) + "\r\n0\r\n\r\n";
            malformed = true;
            cx.note([&] { return "malformed size " + vp::show(l); });
            break;
        }
        if(a == n) { t += (cx.chance(1, 6) ? "000" : cx.chance(1, 10) ? "0;last" : "0") + std::string("\r\n\r\n"); break; }
        std::string p;
        switch(cx.weighted({4, 3, 1}))
        {
            case 0: p = cx.bytes(cx.chance(1, 20) ? 70000 : 60); break;
            case 1: p = cx.pick<const char *>({"0\r\n\r\n", "\r\n", "\r\n0\r\n\r\n", "5\r\nhello\r\n", "\r", "\n", "0", "\r\n\r\n", "ff\r\n"}); break;
            default: p = std::string(cx.pick({10, 15, 16, 17, 255, 256, 4095, 4096, 4097}), 'z');
        }
        if(p.empty()) p = "\r\n";
        t += size_line(cx, p.size()) + "\r\n" + p + "\r\n";
        body += p;
    }
    size_t need = t.size();
    bool truncate = !malformed && cx.chance(1, 5);
    if(truncate) t.resize(head.size() + cx.draw(t.size() - head.size()));
    else if(!malformed && cx.chance(1, 4)) t += cx.flip() ? "HTTP/1.1 200 OK\r\n\r\n" : cx.bytes(30);
    cx.note([&] { return vp::show(t, 900); });
    fr::HttpResponse h;
    const char *how = "";
    Status st = deliver(cx, h, t, malformed ? SIZE_MAX : need, &how, true);
    if(malformed)
    {
        VP_CHECK(cx, st == Status::ParseError || st == Status::HttpBodyTooBig, "malformed", std::string("a malformed chunk size (") + how + ") gives " + status_name(st) + ": " + vp::show(t.substr(0, bad_end), 600));
        cx.label("malformed size");
        cx.nontrivial();
        return;
    }
    if(truncate)
    {
        bool ok = st == Status::NotEnoughData || (!strcmp(how, "through a socket") && st == Status::Disconnected);
        VP_CHECK(cx, ok, "truncated", std::string("an incomplete message (") + how + ") gives " + status_name(st) + ": " + vp::show(t, 600));
        return;
    }
    VP_CHECK(cx, st == Status::Success, "refused", std::string("parsing (") + how + ") returned " + status_name(st) + " for " + vp::show(t, 900));
    VP_CHECK(cx, h.get_body() == body, "body", std::string("the body (") + how + ") is " + vp::show(h.get_body()) + " instead of " + vp::show(body) + ": " + vp::show(t, 900));
    VP_CHECK(cx, (int)h.get_status() == 200, "status", "the status is wrong");
    if(n >= 2) cx.nontrivial();
    cx.label(n == 0 ? "no chunks" : n == 1 ? "one chunk" : "several chunks");
}

Property vp::the_property = {"C13", prop,
    "a case is a chunked response with 0-59 chunks (sizes at hexadecimal and buffer boundaries, payloads that look like chunk syntax, extensions, leading zeros, any letter case, several codings), complete, truncated, followed by more data or with one malformed or absurd chunk size, delivered whole, in pieces or through a socket; non-trivial: at least two chunks or a malformed size",
    3000000, 18000000};
