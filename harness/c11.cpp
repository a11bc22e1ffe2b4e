// C11: a constructed HTTP response parses back to the same response.
#include "httpgen.hpp"
using namespace vp;
using namespace hg;

static void prop(Case &cx)
{
    Msg m;
    m.response = true;
    m.v10 = cx.chance(1, 3);
    m.status = cx.flip() ? (int)cx.range(100, 599) : cx.pick({200, 201, 202, 203, 204, 205, 206, 226, 300, 301, 302, 303, 304, 305, 307, 308, 400, 401, 402, 403, 404, 418, 451, 500, 503, 511, 598, 599, 100, 101});
    std::set<std::string> seen;
    size_t n = cx.draw(6);
    for(size_t a = 0; a < n; ++a) { std::string nm = header_name(cx); if(seen.insert(lower(nm)).second) m.headers.push_back({nm, header_value(cx)}); }
    bool conn = cx.chance(1, 4), type = cx.chance(1, 4), len = cx.chance(1, 8);
    if(!cx.chance(1, 5)) m.body = gen_body(cx, true);
    if(conn) m.headers.push_back({recase(cx, "connection"), "close"});
    if(type) m.headers.push_back({recase(cx, "content-type"), "image/png"});
    if(len) m.headers.push_back({recase(cx, "content-length"), num(m.body.size())});
    fr::HttpResponse r;
    if(m.status != 200 || cx.flip()) r.set_status((Http::RequestStatus)m.status);
    if(m.v10 || cx.flip()) r.set_version(m.v10 ? Http::RequestVersion::V1 : Http::RequestVersion::V1_1);
    for(auto &x : m.headers) r.header(recase(cx, x.first)) = x.second;
    if(cx.chance(1, 5)) r.set_body("old");
    r.set_body(m.body);
    std::string t;
    if(cx.flip())
    {
        FakeSocket s;
        s.own.cx = &cx;
        s.own.out_ev = gen_events(cx, 300, true);
        Status st = s.send(r);
        VP_CHECK(cx, st == Status::Success, "send", std::string("sending returned ") + status_name(st));
        t = s.own.out;
    }
    else t = r.construct("host");
    m.text = t;
    cx.note([&] { return vp::show(t, 700); });
    // strict reader
    auto bad = [&](const std::string &why) { cx.fail("form", why + ": " + vp::show(t, 700)); };
    size_t eoh = t.find("\r\n\r\n");
    if(eoh == std::string::npos) bad("no empty line");
    std::vector<std::string> lines;
    for(size_t at = 0; at <= eoh;) { size_t e = t.find("\r\n", at); lines.push_back(t.substr(at, e - at)); at = e + 2; }
    std::string sl = std::string(m.v10 ? "HTTP/1.0 " : "HTTP/1.1 ") + num((unsigned)m.status);
    if(lines[0].compare(0, sl.size() + 1, sl + " ") && lines[0] != sl) bad("wrong status line");
    std::map<std::string, std::vector<std::string>> hs;
    for(size_t a = 1; a < lines.size(); ++a)
    {
        if(lines[a].find('\n') != std::string::npos || lines[a].find('\r') != std::string::npos) bad("a bare line end");
        size_t c = lines[a].find(": ");
        if(c == std::string::npos || c == 0) bad("a malformed header line " + vp::show(lines[a]));
        hs[lower(lines[a].substr(0, c))].push_back(lines[a].substr(c + 2));
    }
    for(auto &h : hs) if(h.second.size() > 1) bad("header " + h.first + " appears more than once");
    if(!hs.count("connection") || !hs.count("content-type")) bad("connection or content type is missing");
    if(conn && hs["connection"][0] != "close") bad("the connection header was replaced");
    if(type && hs["content-type"][0] != "image/png") bad("the content type was replaced");
    for(auto &x : m.headers) if(!hs.count(lower(x.first)) || hs[lower(x.first)][0] != x.second) bad("header " + x.first + " is missing or altered");
    size_t extra = hs.size() - m.headers.size();
    if(extra != (size_t)!conn + !type + (!len && hs.count("content-length"))) bad("unexpected headers were added");
    if(t.substr(eoh + 4) != m.body) bad("what follows is not the body");
    if(!m.body.empty() && (!hs.count("content-length") || hs["content-length"][0] != num(m.body.size()))) bad("wrong content length");
    if(m.body.empty() && hs.count("content-length") && hs["content-length"][0] != "0") bad("wrong content length");
    fr::HttpResponse p;
    const char *how = "";
    bool surplus = cx.chance(1, 6) && !m.body.empty();
    Status st = deliver(cx, p, surplus ? t + "HTTP/1.1 200 OK\r\n" : t, t.size(), &how, surplus);
    VP_CHECK(cx, st == Status::Success, "refused", std::string("parsing it (") + how + ") returned " + status_name(st) + " for " + vp::show(t, 700));
    expect(cx, p, m, how);
    VP_CHECK(cx, r.construct("host") == t, "again", "constructing again gives another text");
    if(m.headers.size() >= 2 && !m.body.empty()) cx.nontrivial();
    cx.label(how);
}

Property vp::the_property = {"C11", prop,
    "a case builds a response from generated status, version, headers and body, checks the constructed text with a strict reader and parses it back whole, in pieces or through a socket; non-trivial: at least two headers and a body",
    2500000, 15000000};
