// C14: HTTP messages from other implementations are understood.
#include "httpgen.hpp"
using namespace vp;
using namespace hg;

static void prop(Case &cx)
{
    bool response = cx.flip();
    Msg m = gen(cx, response);
    bool nolen_post = false;
    if(!response && m.method == 1 && !m.has_length && cx.flip())
    {   // a form without an announced length, arriving with its header
        nolen_post = true;
        m.form = true;
        m.post = args(cx, 4, true);
        m.body = join(m.post);
        if(cx.flip()) m.body += cx.pick<const char *>({"\r\n\r\n", "\r\n", "\n\n"});
        m.text += m.body;
    }
    std::string text = m.text;
    if(m.has_length && cx.chance(1, 3)) { text += cx.flip() ? "GET / HTTP/1.1\r\n\r\n" : cx.bytes(40); cx.label("followed by more data"); }
    cx.note([&] { return vp::show(text, 600); });
    auto check = [&](Http &h) {
        const char *how = "in one piece";
        Status st = nolen_post ? parse(cx, h, text) : deliver(cx, h, text, m.text.size(), &how, true);
        VP_CHECK(cx, st == Status::Success, "refused", std::string("parsing (") + how + ") returned " + status_name(st) + " for " + vp::show(text, 600));
        expect(cx, h, m, how, m.has_length || (m.text.size() == text.size() && m.body.empty()) || nolen_post);
    };
    if(response) { fr::HttpResponse h; check(h); }
    else { fr::HttpRequest h; check(h); }
    if(m.headers.size() >= 2 && (!m.body.empty() || !m.get.empty())) cx.nontrivial();
    if(m.form) cx.label("form");
    if(m.text.find("\r\n") == std::string::npos) cx.label("bare LF only");
}

Property vp::the_property = {"C14", prop,
    "a case is a request or response from an independent grammar (any method, path, query with flags, version, status, reason, header set with duplicates and odd letter case, CRLF/LF/mixed line ends, optional spaces, form or arbitrary body with announced length, surplus data), delivered whole, in pieces or through a socket; non-trivial: at least two headers and a body or query",
    3000000, 18000000};
