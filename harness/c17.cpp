// C17: URLs are split into their components correctly and recompose.
#include <frnetlib/URL.h>
#include <memory>
#include "vp.hpp"
using namespace vp;
using fr::URL;

struct Parts { URL::Scheme scheme = URL::Unknown; std::string scheme_text, host, port, path, query, fragment; bool has_scheme = false, has_port = false, has_query = false, has_fragment = false, host_given = false; };

static std::string show(const URL &u)
{
    return "{scheme " + num(u.get_scheme()) + " host " + show(u.get_host()) + " port " + show(u.get_port()) + " path " + show(u.get_path()) + " query " + show(u.get_query()) + " fragment " + show(u.get_fragment()) + "}";
}

static const char *const HOST = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789.-_";
static const char *const PATH = "abcXYZ019/._-~!$&'()*+,;=:@%/";
static const char *const QUERY = "abcXYZ019/?._-~!$&'()*+,;=:@%?/&=";
static const char *const FRAG = "abcXYZ019/?._-~!$&'()*+,;=:@%?/#";

static std::string part(Case &cx, const char *alpha, size_t min)
{
    std::string s = cx.text(alpha, min, cx.chance(1, 30) ? 3000 : 12);
    if(cx.chance(1, 5)) s.insert(cx.draw(s.size() + 1), cx.pick<const char *>({"://", "http://", ":80", "//", ":", "/a:b", "ftp://x:1/"}));
    return s;
}

static URL::Scheme known(const std::string &t)
{
    std::string l;
    for(char c : t) l += (char)tolower(c);
    if(l == "http") return URL::HTTP;
    if(l == "https") return URL::HTTPS;
    if(l == "ftp") return URL::FTP;
    if(l == "mailto") return URL::MAILTO;
    if(l == "irc") return URL::IRC;
    if(l == "sftp") return URL::SFTP;
    return URL::Unknown;
}

static const char *default_port(URL::Scheme s)
{
    switch(s) { case URL::HTTP: return "80"; case URL::HTTPS: return "443"; case URL::FTP: return "21"; case URL::SFTP: return "22"; case URL::IRC: return "6697"; default: return ""; }
}

static Parts gen(Case &cx)
{
    Parts p;
    p.has_scheme = cx.flip();
    p.host_given = p.has_scheme ? !cx.chance(1, 12) : !cx.chance(1, 5);
    if(p.has_scheme)
    {
        p.scheme_text = cx.chance(1, 5) ? cx.text("abcdfhimopst", 1, 6) : std::string(cx.pick<const char *>({"http", "https", "ftp", "mailto", "irc", "sftp", "ws", "file", "gopher", "unknown", "httpss", "htt", "ircs"}));
        for(auto &c : p.scheme_text) if(cx.chance(1, 5)) c = (char)toupper(c);
    }
    p.scheme = p.has_scheme ? known(p.scheme_text) : URL::Unknown;
    if(p.host_given)
    {
        p.host = cx.text(HOST, 1, cx.chance(1, 30) ? 2000 : 10);
        p.has_port = cx.flip();
    }
    if(p.has_port) p.port = cx.flip() ? cx.text("0123456789", 1, 5) : num(cx.draw(65536));
    bool has_path = cx.flip();
    p.has_query = cx.flip();
    p.has_fragment = cx.flip();
    if(!p.has_scheme)
    {   // a bare word is a path, not a host: needs something behind it
        if(p.host_given && !p.has_port && !has_path && !p.has_query && !p.has_fragment) has_path = true;
    }
    if(has_path) p.path = "/" + part(cx, PATH, 0);
    // without a scheme or host a leading // would start the path: still a path here
    if(p.has_query) p.query = part(cx, QUERY, 0);
    if(p.has_fragment) p.fragment = part(cx, FRAG, 0);
    return p;
}

static std::string text(const Parts &p)
{
    std::string s;
    if(p.has_scheme) s += p.scheme_text + "://";
    s += p.host;
    if(p.has_port) s += ":" + p.port;
    s += p.path;
    if(p.has_query) s += "?" + p.query;
    if(p.has_fragment) s += "#" + p.fragment;
    return s;
}

static void expect(Case &cx, const URL &u, const Parts &p, const std::string &s)
{
    auto want_port = p.has_port ? p.port : std::string(default_port(p.scheme));
    auto is = [&](const char *what, const std::string &got, const std::string &want) {
        VP_CHECK(cx, got == want, what, std::string("the ") + what + " of " + show(s) + " is " + show(got) + " instead of " + show(want));
    };
    VP_CHECK(cx, u.get_scheme() == p.scheme, "scheme", "the scheme of " + show(s) + " is " + num(u.get_scheme()) + " instead of " + num(p.scheme));
    is("host", u.get_host(), p.host);
    is("port", u.get_port(), want_port);
    is("path", u.get_path(), p.path);
    is("query", u.get_query(), p.query);
    is("fragment", u.get_fragment(), p.fragment);
}

static std::string junk(Case &cx)
{
    std::string s;
    size_t n = cx.size(16);
    for(size_t a = 0; a < n; ++a)
        switch(cx.weighted({5, 3, 1, 1, 1}))
        {
            case 0: s += "/:?#@[]%.\0 \n"[cx.draw(12)]; break;
            case 1: s += cx.pick<const char *>({"http", "h", "a.b", "80", "sftp", "x=1"}); break;
            case 2: s += "://"; break;
            case 3: s += cx.bytes(20); break;
            default: s += (char)cx.draw(256);
        }
    return s;
}

static void check_compose(Case &cx, const URL &u)
{
    std::string uri = u.get_path() + (u.get_query().empty() ? "" : "?" + u.get_query()) + (u.get_fragment().empty() ? "" : "#" + u.get_fragment());
    VP_CHECK(cx, u.get_uri() == uri, "uri", "the uri of " + show(u) + " is " + show(u.get_uri()));
    // composing is unambiguous with a host that is recognisable as one
    if(u.get_host().empty()) return;
    if(u.get_scheme() == URL::Unknown && u.get_port().empty() && uri.empty()) return;
    std::string full = u.get_url();
    std::string want = (u.get_scheme() == URL::Unknown ? "" : URL::scheme_to_string(u.get_scheme()) + "://") + u.get_host() + (u.get_port().empty() ? "" : ":" + u.get_port()) + uri;
    VP_CHECK(cx, full == want, "url", "the url of " + show(u) + " is " + show(full) + " instead of " + show(want));
    if(u.get_port().empty() && *default_port(u.get_scheme())) return;
    URL v(full);
    VP_CHECK(cx, v == u && show(v) == show(u), "recompose", show(u) + " composes to " + show(full) + ", which parses to " + show(v));
}

static void prop(Case &cx)
{
    auto u = std::make_unique<URL>();
    VP_CHECK(cx, u->get_scheme() == URL::Unknown && *u == URL() && u->get_url().empty(), "fresh", "a fresh URL is " + show(*u));
    size_t n = 1 + cx.draw(3);
    for(size_t a = 0; a < n; ++a)
    {
        switch(cx.weighted({6, 2, 2}))
        {
            case 0:
            {
                Parts p = gen(cx);
                std::string s = text(p);
                cx.note([&] { return "parse " + show(s); });
                if(cx.flip()) u->parse(s); else { u = std::make_unique<URL>(s); }
                expect(cx, *u, p, s);
                check_compose(cx, *u);
                int opt = p.has_scheme + p.has_port + p.has_query + p.has_fragment + !p.path.empty() + p.host_given;
                if(opt >= 3 || a) cx.nontrivial();
                if(p.query.find_first_of("/:?") != std::string::npos || p.fragment.find_first_of("/:?#") != std::string::npos || p.path.find(':') != std::string::npos) cx.label("delimiters in later components");
                break;
            }
            case 1:
            {   // anything: no crash, and the same as from a fresh object
                std::string s = junk(cx);
                cx.note([&] { return "parse " + show(s); });
                std::string exact(s);
                exact.shrink_to_fit();
                u->parse(exact);
                URL fresh(exact);
                VP_CHECK(cx, show(*u) == show(fresh) && *u == fresh, "state", "parsing " + show(s) + " gave " + show(*u) + " in a used object and " + show(fresh) + " in a fresh one");
                (void)u->get_url(); (void)u->get_uri();
                cx.label("arbitrary string");
                break;
            }
            default:
            {   // setters, then compose
                Parts p = gen(cx);
                URL v;
                v.set_scheme(p.scheme); v.set_host(p.host); v.set_port(p.port); v.set_path(p.path); v.set_query(p.query); v.set_fragment(p.fragment);
                p.has_port = true;
                expect(cx, v, p, "(set component by component)");
                check_compose(cx, v);
                // changing one component leaves the others
                URL w(v);
                VP_CHECK(cx, w == v, "copy", "a copy differs");
                size_t which = cx.draw(5);
                std::string x = cx.text("abc019", 1, 5);
                switch(which) { case 0: w.set_host(x); p.host = x; break; case 1: w.set_port(x); p.port = x; break; case 2: w.set_path("/" + x); p.path = "/" + x; break; case 3: w.set_query(x); p.query = x; break; default: w.set_fragment(x); p.fragment = x; }
                expect(cx, w, p, "(after changing one component)");
                bool same = v.get_host() == w.get_host() && v.get_port() == w.get_port() && v.get_path() == w.get_path() && v.get_query() == w.get_query() && v.get_fragment() == w.get_fragment();
                VP_CHECK(cx, (w == v) == same, "equality", show(v) + (same ? " != " : " == ") + show(w));
                cx.label("setters");
            }
        }
    }
}

Property vp::the_property = {"C17", prop,
    "a case parses 1-3 URLs, assembled from independently generated components (any subset, delimiters in later components, any scheme case) or arbitrary strings, into new or reused objects, or sets components one by one, and recomposes; non-trivial: at least three components present or a reused object",
    5600000, 33600000};
