// C10: a constructed HTTP request parses back to the same request.
#include "httpgen.hpp"
using namespace vp;
using namespace hg;

// strict reader of the constructed text
static void well_formed(Case &cx, const std::string &t, const Msg &m, const std::string &host, bool host_set, bool conn_set)
{
    auto bad = [&](const std::string &why) { cx.fail("form", why + ": " + vp::show(t, 700)); };
    size_t eoh = t.find("\r\n\r\n");
    if(eoh == std::string::npos) bad("no empty line");
    std::vector<std::string> lines;
    for(size_t at = 0; at <= eoh;)
    {
        size_t e = t.find("\r\n", at);
        lines.push_back(t.substr(at, e - at));
        at = e + 2;
    }
    for(auto &l : lines) if(l.find('\n') != std::string::npos || l.find('\r') != std::string::npos) bad("a line contains a bare line end");
    std::string rl = lines[0];
    std::string target = m.path;
    std::string me = METHODS[m.method];
    if(rl.compare(0, me.size() + 1, me + " ")) bad("the request line does not begin with " + me);
    std::string ver = m.v10 ? " HTTP/1.0" : " HTTP/1.1";
    if(rl.size() < me.size() + ver.size() + 1 || rl.compare(rl.size() - ver.size(), ver.size(), ver)) bad("the request line does not end with" + ver);
    target = rl.substr(me.size() + 1, rl.size() - me.size() - 1 - ver.size());
    if(target.find(' ') != std::string::npos) bad("a space in the target");
    if(target.compare(0, m.path.size(), m.path)) bad("the target is not the path");
    std::string q = target.substr(m.path.size());
    std::multiset<std::string> want, got;
    for(auto &x : m.get) want.insert(lower(x.name) + "=" + x.value);
    if(m.get.empty() ? !q.empty() : q.empty() || q[0] != '?') bad("wrong query");
    if(!q.empty()) for(size_t at = 1; at <= q.size();) { size_t e = std::min(q.find('&', at), q.size()); got.insert(q.substr(at, e - at)); at = e + 1; }
    if(want != got) bad("the query is not the GET variables");
    int hosts = 0, conns = 0, lens = 0;
    std::string hostv, len;
    for(size_t a = 1; a < lines.size(); ++a)
    {
        size_t c = lines[a].find(": ");
        if(c == std::string::npos || c == 0) bad("a malformed header line " + vp::show(lines[a]));
        std::string n = lower(lines[a].substr(0, c)), v = lines[a].substr(c + 2);
        if(n == "host") { ++hosts; hostv = v; }
        if(n == "connection") ++conns;
        if(n == "content-length") { ++lens; len = v; }
    }
    if(hosts != 1 || conns != 1) bad("not exactly one host and connection header");
    if(!host_set && hostv != host) bad("the host header is not the given host");
    (void)conn_set;
    size_t follow = t.size() - eoh - 4;
    if(lens > 1) bad("several content lengths");
    if(follow && lens != 1) bad("a body without content length");
    if(lens && len != num(follow)) bad("the content length is not the number of bytes that follow");
}

static void prop(Case &cx)
{
    Msg m;
    m.method = (int)cx.draw(5);
    m.v10 = cx.chance(1, 3);
    m.path = path(cx);
    m.get = args(cx, 5, false);
    for(auto &x : m.get) if(cx.chance(1, 5)) { x.value = Http::url_encode(cx.bytes(40)); }
    std::set<std::string> seen;
    size_t n = cx.draw(6);
    for(size_t a = 0; a < n; ++a) { std::string nm = header_name(cx); if(seen.insert(lower(nm)).second) m.headers.push_back({nm, header_value(cx)}); }
    bool host_set = cx.chance(1, 4), conn_set = cx.chance(1, 4);
    if(host_set) m.headers.push_back({recase(cx, "host"), "my.host:80"});
    if(conn_set) m.headers.push_back({recase(cx, "connection"), "close"});
    if(m.method == 1 && cx.flip())
    {
        m.form = true;
        m.post = args(cx, 5, false);
        for(auto &x : m.post) if(cx.chance(1, 5)) { x.value = Http::url_encode(cx.bytes(40)); }
        if(m.post.empty()) m.form = false;
    }
    else if(!cx.chance(1, 4)) m.body = gen_body(cx, true);
    // build it
    fr::HttpRequest r;
    if(!(m.method == 0 && cx.flip())) r.set_type((Http::RequestType)m.method);
    if(cx.flip()) { r.set_uri("/first/choice"); r.set_body("old"); }
    if(m.path.size() > 1 && m.path[1] != '/' && cx.flip()) r.set_uri(m.path.substr(1)); else r.set_uri(m.path);
    if(m.v10 || cx.flip()) r.set_version(m.v10 ? Http::RequestVersion::V1 : Http::RequestVersion::V1_1);
    for(auto &x : m.get) r.get(recase(cx, x.name)) = x.value;
    for(auto &x : m.post) r.post(recase(cx, x.name)) = x.value;
    for(auto &x : m.headers) r.header(recase(cx, x.first)) = x.second;
    r.set_body(m.body);
    std::string host = "h" + cx.text("abc.:[]019", 0, 12);
    bool via_socket = cx.flip();
    std::string t;
    if(via_socket)
    {
        FakeSocket s;
        s.own.cx = &cx;
        s.set_remote_address(host);
        s.own.out_ev = gen_events(cx, 300, true);
        Status st = s.send(r);
        VP_CHECK(cx, st == Status::Success, "send", std::string("sending returned ") + status_name(st));
        t = s.own.out;
    }
    else t = r.construct(host);
    m.text = t;
    cx.note([&] { return vp::show(t, 700); });
    well_formed(cx, t, m, host, host_set, conn_set);
    if(!host_set) m.headers.push_back({"host", host});
    fr::HttpRequest p;
    const char *how = "";
    bool surplus = cx.chance(1, 6) && (m.form || !m.body.empty());
    Status st = deliver(cx, p, surplus ? t + "GET / HTTP/1.1\r\n" : t, t.size(), &how, surplus);
    VP_CHECK(cx, st == Status::Success, "refused", std::string("parsing it (") + how + ") returned " + status_name(st) + " for " + vp::show(t, 700));
    expect(cx, p, m, how, !m.form);
    // constructing does not consume the request
    VP_CHECK(cx, r.construct(host) == t, "again", "constructing again gives another text");
    if(m.headers.size() >= 2 && (!m.body.empty() || !m.get.empty() || m.form)) cx.nontrivial();
    if(m.form) cx.label("POST variables");
    cx.label(how);
}

Property vp::the_property = {"C10", prop,
    "a case builds a request from generated method, path, version, GET variables, headers and POST variables or body, checks the constructed text with a strict reader and parses it back whole, in pieces or through a socket; non-trivial: two headers and a body, GET or POST variables",
    1250000, 7500000};
