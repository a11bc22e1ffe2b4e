// C12: HTTP parsing does not depend on how the bytes were split.
// (built with a header limit of 600 and a body limit of 2000 bytes)
#include "httpgen.hpp"
using namespace vp;
using namespace hg;

struct Seen
{
    Status st = Status::Unknown;
    std::vector<std::string> fields;
    bool length = false, chunked = false;
};

static std::vector<std::string> names(const std::string &text)
{   // everything that might be a name
    std::set<std::string> n;
    std::string cur;
    for(char c : text) { if(c == '\n' || c == '\r' || c == ':' || c == '=' || c == '&' || c == '?' || c == ' ') { if(!cur.empty() && cur.size() < 200) n.insert(cur); cur.clear(); } else cur += c; }
    // a form body may begin or end anywhere
    std::vector<std::string> v(n.begin(), n.end());
    if(v.size() > 60) v.resize(60);
    v.push_back("content-length"); v.push_back("transfer-encoding"); v.push_back("");
    return v;
}

static bool is_chunked(const std::string &value)
{
    std::string cur;
    for(char c : lower(value) + ",")
    {
        if(c == ',') { if(cur == "chunked") return true; cur.clear(); }
        else if(c != ' ') cur += c;
    }
    return false;
}

static void snap(Seen &s, Http &h, const std::vector<std::string> &nm, bool response)
{
    s.length = h.header_exists("content-length");
    s.chunked = response && h.header_exists("transfer-encoding") && is_chunked(h.header("transfer-encoding"));
    s.fields.push_back("status " + snum((int)h.get_status()));
    s.fields.push_back("method " + snum((int)h.get_type()));
    s.fields.push_back("version " + snum((int)h.get_version()));
    s.fields.push_back("path " + h.get_uri());
    for(auto &n : nm)
    {
        if(h.header_exists(n)) s.fields.push_back("header " + n + ": " + h.header(n));
        if(h.get_exists(n)) s.fields.push_back("get " + n + "=" + h.get(n));
    }
    if(s.length || s.chunked)
    {
        for(auto &n : nm) if(h.post_exists(n)) s.fields.push_back("post " + n + "=" + h.post(n));
        s.fields.push_back("body " + h.get_body());
    }
}

static std::string chunked(Case &cx)
{
    std::string t = "HTTP/1.1 200 OK\r\nTransfer-Encoding: " + recase(cx, "chunked") + "\r\n\r\n";
    size_t n = cx.draw(6);
    for(size_t a = 0; a < n; ++a)
    {
        std::string b = cx.bytes(cx.chance(1, 6) ? 2100 : 30);
        if(b.empty()) continue;
        char h[32];
        snprintf(h, sizeof h, cx.flip() ? "%zx" : "%zX", b.size());
        t += std::string(h) + (cx.chance(1, 8) ? ";x=y" : "") + "\r\n" + b + "\r\n";
    }
    if(!cx.chance(1, 5)) t += "0\r\n\r\n";
    return t;
}

static std::string input(Case &cx, bool response)
{
    std::string t;
    switch(cx.weighted({5, response ? 3u : 0u, 1, 2}))
    {
        case 0: t = gen(cx, response, false).text; break;
        case 1: t = chunked(cx); break;
        case 2: t = cx.bytes(100); break;
        default:
        {   // around the header limit
            t = response ? "HTTP/1.1 200 OK\r\n" : "GET / HTTP/1.1\r\n";
            const char *nl = cx.flip() ? "\r\n" : "\n";
            size_t body = cx.draw(3) ? 0 : cx.draw(5);
            if(body) t += "Content-Length: " + num(body) + nl;
            size_t want = (size_t)(600 + cx.range(-8, 8));
            t += "X: " + std::string(want - t.size() - 3, 'a') + nl + (cx.chance(1, 5) ? "" : nl) + std::string(body, 'b');
            cx.label("around the header limit");
        }
    }
    if(cx.chance(1, 8))
    {   // around the body limit
        size_t n = (size_t)(2000 + cx.range(-3, 3));
        t = std::string(response ? "HTTP/1.1 200 OK" : "POST / HTTP/1.1") + "\r\nContent-Length: " + num(n) + "\r\n\r\n" + std::string(n + (size_t)cx.range(-2, 4), 'a');
        cx.label("around the body limit");
    }
    size_t muts = cx.chance(1, 2) ? 0 : 1 + cx.draw(3);
    for(size_t a = 0; a < muts; ++a)
    {
        if(t.empty()) t = "\n";
        size_t at = cx.draw(t.size());
        switch(cx.draw(7))
        {
            case 0: t[at] = (char)cx.draw(256); break;
            case 1: t.erase(at, 1 + cx.draw(4)); break;
            case 2: t.insert(at, cx.pick<const char *>({"\r\n", "\n", "\r", "\n\n", "\r\n\r\n", ":", " ", "?", "&", "=", "HTTP", "0", ";", "content-length: 3\r\n", "Transfer-Encoding: chunked\r\n"})); break;
            case 3: t.insert(at, cx.dict_string(30)); break;
            case 4: t.insert(at, t.substr(cx.draw(t.size()), 1 + cx.draw(30))); break;
            case 5: t.resize(at); break;
            default: t.insert(at, 1, "\r\n\0 9fF-"[cx.draw(8)]); break;
        }
    }
    if(cx.chance(1, 4)) t += cx.flip() ? "\r\n\r\n" : cx.bytes(60);
    return t;
}

static void prop(Case &cx)
{
    bool response = cx.flip();
    std::string t = input(cx, response);
    cx.note([&] { return (response ? "response " : "request ") + vp::show(t, 900); });
    auto nm = names(t);
    auto make = [&]() -> std::unique_ptr<Http> { if(response) return std::make_unique<fr::HttpResponse>(); return std::make_unique<fr::HttpRequest>(); };
    Seen whole;
    {
        auto h = make();
        whole.st = t.empty() ? Status::NotEnoughData : parse(cx, *h, t);
        snap(whole, *h, nm, response);
    }
    size_t rounds = 1 + cx.draw(3);
    for(size_t r = 0; r < rounds; ++r)
    {
        auto pieces = cx.splits(t.size());
        auto h = make();
        Seen s;
        size_t fed = 0;
        s.st = feed(cx, *h, t, pieces, &fed);
        snap(s, *h, nm, response);
        cx.note([&] { std::string p = "pieces"; for(size_t a = 0; a < pieces.size() && a < 40; ++a) p += " " + num(pieces[a]); return p + " -> " + status_name(s.st); });
        bool nolength = !s.length && !s.chunked;
        // without an announced length a message ends with its header, and what came along is its body
        if(nolength && (s.st == Status::Success) && whole.st == Status::HttpBodyTooBig) continue;
        VP_CHECK(cx, s.st == whole.st, "verdict", std::string("in one piece: ") + status_name(whole.st) + ", in pieces: " + status_name(s.st) + " after " + num(fed) + " of " + num(t.size()) + " bytes: " + vp::show(t, 900));
        if(s.st == Status::Success)
        {
            VP_CHECK(cx, s.fields.size() == whole.fields.size(), "fields", "in pieces " + num(s.fields.size()) + " fields, in one piece " + num(whole.fields.size()) + ": " + vp::show(t, 900));
            for(size_t a = 0; a < s.fields.size(); ++a) VP_CHECK(cx, s.fields[a] == whole.fields[a], "field", "in pieces " + vp::show(s.fields[a]) + ", in one piece " + vp::show(whole.fields[a]) + ": " + vp::show(t, 900));
            // more data after the end of a complete message does not change it
            if(!nolength)
            {
                std::string more = t + cx.bytes(30) + "\r\n0\r\n\r\n";
                auto g = make();
                Seen x;
                x.st = parse(cx, *g, more);
                snap(x, *g, nm, response);
                VP_CHECK(cx, x.st == Status::Success && x.fields == s.fields, "surplus", std::string("with more data behind it the message parses to ") + status_name(x.st) + " or other fields: " + vp::show(more, 900));
            }
            if(pieces.size() > 1) cx.nontrivial();
        }
        else if(s.st != Status::NotEnoughData && pieces.size() > 1) cx.nontrivial();
    }
    cx.label(status_name(whole.st));
}

Property vp::the_property = {"C12", prop,
    "a case is a valid, chunked, limit-sized, mutated or arbitrary byte string parsed in one piece and in 1-3 generated segmentations (limits reduced to 600/2000 bytes), comparing verdicts, every field and the effect of surplus data; non-trivial: a verdict other than not-enough-data reached over more than one piece",
    1000000, 6000000};
