// Independent generator and renderer of HTTP messages, and feeding helpers.
#pragma once
#include <map>
#include <set>
#include <frnetlib/HttpRequest.h>
#include <frnetlib/HttpResponse.h>
#include "fakesock.hpp"

namespace hg
{
using namespace vp;
using fr::Http;
using Pairs = std::vector<std::pair<std::string, std::string>>;

static const char *const TOKEN = "abcdefgxyzABCXYZ0123456789-_.!#$%&'*+^`|~";
static const char *const NAME = "abcxyzABCXYZ019_.%+-[]~";
static const char *const VALUE = "abcXYZ019_.%+-~/:@!$'()*,;=?[]";
static const char *const PATHC = "abcXYZ019/._-~!$'()*+,;=:@%&";
static const char *const PRINT = " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~";

inline std::string lower(std::string s) { for(auto &c : s) if(c >= 'A' && c <= 'Z') c += 32; return s; }
inline std::string recase(Case &cx, std::string s) { if(s.size() < 60) for(auto &c : s) { if(cx.flip()) continue; if(c >= 'a' && c <= 'z') c -= 32; else if(c >= 'A' && c <= 'Z') c += 32; } return s; }

inline std::string header_value(Case &cx)
{
    std::string v = cx.chance(1, 8) ? cx.pick<const char *>({"HTTP/1.1", "a: b", "x=1&y=2", "0", "chunked", "?a=b", "Mon, 25 Sep 2017 13:51:56 GMT", "keep-alive", "[]{}\"", "5\\r\\n"}) : cx.text(PRINT, 0, cx.chance(1, 40) ? 2000 : 20);
    while(!v.empty() && v.front() == ' ') v.erase(0, 1);
    while(!v.empty() && v.back() == ' ') v.pop_back();
    // blanks and bytes beyond ASCII inside a value
    if(cx.chance(1, 10)) { if(v.empty()) v = "x"; v.insert(1 + cx.draw(v.size()), cx.pick<const char *>({"\t.", " \t -", "\xc3\xa9", "\xff", "\x80\x81", "\xe2\x82\xac"})); }
    return v;
}

inline std::string header_name(Case &cx)
{
    static const std::set<std::string> special = {"content-length", "transfer-encoding", "connection", "host", "content-type"};
    std::string n = cx.chance(1, 6) ? cx.pick<const char *>({"X-A", "Server", "content-lengthy", "Content", "Cookie", "Upgrade", "GET", "HTTP", "x-content-length", "Length", "contentlength", "transfer", "encoding"}) : cx.text(TOKEN, 1, cx.chance(1, 40) ? 300 : 8);
    if(special.count(lower(n))) n += "x";
    return n;
}

inline std::string path(Case &cx)
{
    std::string p = "/" + cx.text(PATHC, 0, cx.chance(1, 40) ? 3000 : 12);
    if(cx.chance(1, 6)) p.insert(1 + cx.draw(p.size()), cx.pick<const char *>({"HTTP", "/HTTP/1.0", "HTTP/1.1", "//", "GET", "index.html", "%20"}));
    return p;
}

// distinct (ignoring case) names with values; a value of nullptr-like "\1" marks a flag
struct Arg { std::string name, value; bool flag; };
inline std::vector<Arg> args(Case &cx, size_t max, bool flags, bool empties = true)
{
    std::vector<Arg> v;
    std::set<std::string> seen;
    size_t n = cx.draw(max + 1);
    for(size_t a = 0; a < n; ++a)
    {
        Arg x;
        x.name = cx.text(NAME, 1, 8);
        x.value = cx.text(VALUE, empties ? 0 : 1, cx.chance(1, 40) ? 1500 : 10);
        if(cx.chance(1, 12)) x.value += cx.pick<const char *>({"HTTP/1.1", "HTTP", "/", "?", "=", "a=b", "HTTP/1.0"});
        x.flag = flags && cx.chance(1, 5);
        if(x.flag) x.value.clear();
        if(seen.insert(lower(x.name)).second) v.push_back(x);
    }
    return v;
}
inline std::string join(const std::vector<Arg> &v)
{
    std::string s;
    for(auto &x : v) { if(!s.empty()) s += "&"; s += x.name; if(!x.flag) s += "=" + x.value; }
    return s;
}

static const char *const METHODS[5] = {"GET", "POST", "PUT", "DELETE", "PATCH"};

// what a message means
struct Msg
{
    bool response = false;
    int method = 0;
    int status = 200;
    bool v10 = false;
    std::string path = "/";
    std::vector<Arg> get, post;
    Pairs headers;               // as written; first occurrence of a name counts
    std::string body;
    bool has_length = false, chunked = false, form = false;
    std::string text;            // rendered
    size_t header_end = 0;       // offset of the first body byte
};

inline std::string show(const Msg &m) { return vp::show(m.text, 400); }

// text form of a message as some other implementation might write it
inline void render(Case &cx, Msg &m, const std::string &reason, bool plain = false)
{
    unsigned eol = plain ? 0 : (unsigned)cx.weighted({4, 3, 3});
    auto nl = [&] { return eol == 0 ? "\r\n" : eol == 1 ? "\n" : cx.flip() ? "\r\n" : "\n"; };
    std::string t;
    if(m.response)
    {
        t = std::string(m.v10 ? "HTTP/1.0 " : "HTTP/1.1 ") + std::to_string(m.status) + reason + nl();
    }
    else
    {
        t = std::string(METHODS[m.method]) + " " + m.path;
        if(!m.get.empty()) t += "?" + join(m.get);
        else if(!plain && cx.chance(1, 12)) t += "?";
        t += std::string(m.v10 ? " HTTP/1.0" : " HTTP/1.1") + nl();
    }
    for(auto &h : m.headers)
    {
        t += h.first + ":";
        size_t sp = plain ? 1 : cx.pick({1, 1, 0, 2, 5});
        if(h.second.empty() && !plain) sp = cx.draw(3);
        t += std::string(sp, ' ');
        if(!plain && cx.chance(1, 12)) t += cx.pick<const char *>({"\t", "\t\t", " \t", "\t "});
        t += h.second;
        if(!plain && cx.chance(1, 12)) t += cx.pick<const char *>({" ", "  ", "\t", " \t", "\t  "});
        t += nl();
    }
    t += nl();
    m.header_end = t.size();
    m.text = t + m.body;
}

inline void gen_headers(Case &cx, Msg &m)
{
    size_t n = cx.draw(6);
    for(size_t a = 0; a < n; ++a)
    {
        if(!m.headers.empty() && cx.chance(1, 6)) m.headers.push_back({recase(cx, m.headers[cx.draw(m.headers.size())].first), header_value(cx)});
        else m.headers.push_back({header_name(cx), header_value(cx)});
    }
}

inline std::string gen_body(Case &cx, bool big) { return cx.bytes(big && cx.chance(1, 30) ? 120000 : 300); }

// a well-formed message whose length is announced, or that has no body
inline Msg gen(Case &cx, bool response, bool big = true)
{
    Msg m;
    m.response = response;
    m.v10 = cx.chance(1, 3);
    std::string reason;
    gen_headers(cx, m);
    if(response)
    {
        m.status = cx.flip() ? (int)cx.range(100, 599) : cx.pick({200, 101, 204, 301, 404, 500, 418, 226, 599});
        switch(cx.draw(5)) { case 0: reason = ""; break; case 1: reason = " "; break; case 2: reason = " OK"; break; case 3: reason = " " + cx.text("abc ", 0, 6) + ":" + cx.text("abc ", 0, 3); break; default: reason = " " + cx.text(PRINT, 0, 20); }
        if(!cx.chance(1, 4)) { m.has_length = true; m.body = cx.chance(1, 5) ? "" : gen_body(cx, big); }
    }
    else
    {
        m.method = (int)cx.draw(5);
        m.path = path(cx);
        m.get = args(cx, 4, true);
        if(m.method == 1 && cx.flip())
        {
            m.form = true;
            m.post = args(cx, 4, true);
            m.body = join(m.post);
            m.has_length = true;
            if(cx.chance(1, 4)) m.body += cx.pick<const char *>({"\r\n", "\r\n\r\n", "\n", "\n\n"});
        }
        else if(cx.flip()) { m.has_length = true; m.body = cx.chance(1, 5) ? "" : gen_body(cx, big); }
    }
    if(m.has_length)
    {
        std::string v = std::to_string(m.body.size());
        if(cx.chance(1, 8)) v = std::string(1 + cx.draw(3), '0') + v;
        m.headers.insert(m.headers.begin() + (long)cx.draw(m.headers.size() + 1), {recase(cx, "Content-Length"), v});
    }
    if(cx.flip()) m.headers.insert(m.headers.begin() + (long)cx.draw(m.headers.size() + 1), {recase(cx, "Host"), "h" + cx.text("abc.:019", 0, 8)});
    render(cx, m, reason);
    return m;
}

// the parsed message must mean m
inline void expect(Case &cx, Http &h, const Msg &m, const char *how, bool check_body = true)
{
    std::string ctx = std::string(" (") + how + ") of " + show(m);
    if(m.response) VP_CHECK(cx, (int)h.get_status() == m.status, "status", "the status code is " + snum((int)h.get_status()) + " instead of " + snum(m.status) + ctx);
    else
    {
        VP_CHECK(cx, (int)h.get_type() == m.method, "method", "the method is " + snum((int)h.get_type()) + " instead of " + snum(m.method) + ctx);
        VP_CHECK(cx, h.get_uri() == m.path, "path", "the path is " + vp::show(h.get_uri()) + " instead of " + vp::show(m.path) + ctx);
        for(auto &x : m.get)
        {
            std::string n = recase(cx, x.name);
            if(!x.flag) VP_CHECK(cx, h.get_exists(n), "get-missing", "the GET variable " + vp::show(n) + " is missing" + ctx);
            if(h.get_exists(n)) VP_CHECK(cx, h.get(n) == x.value, "get-value", "the GET variable " + vp::show(n) + " is " + vp::show(h.get(n)) + " instead of " + vp::show(x.value) + ctx);
        }
        if(m.form)
            for(auto &x : m.post)
            {
                std::string n = recase(cx, x.name);
                if(!x.flag) VP_CHECK(cx, h.post_exists(n), "post-missing", "the POST variable " + vp::show(n) + " is missing" + ctx);
                if(h.post_exists(n)) VP_CHECK(cx, h.post(n) == x.value, "post-value", "the POST variable " + vp::show(n) + " is " + vp::show(h.post(n)) + " instead of " + vp::show(x.value) + ctx);
            }
    }
    VP_CHECK(cx, (h.get_version() == Http::RequestVersion::V1) == m.v10 && (h.get_version() == Http::RequestVersion::V1_1) == !m.v10, "version", "the version is wrong" + ctx);
    std::set<std::string> seen;
    for(auto &x : m.headers)
    {
        if(!seen.insert(lower(x.first)).second) continue;
        std::string n = recase(cx, x.first);
        VP_CHECK(cx, h.header_exists(n), "header-missing", "the header " + vp::show(n) + " is missing" + ctx);
        VP_CHECK(cx, h.header(n) == x.second, "header-value", "the header " + vp::show(n) + " is " + vp::show(h.header(n)) + " instead of " + vp::show(x.second) + ctx);
    }
    // absent names
    for(int a = 0; a < 2; ++a)
    {
        std::string n = cx.chance(1, 3) && !m.headers.empty() ? m.headers[cx.draw(m.headers.size())].first + "q" : "q" + cx.text(NAME, 0, 5);
        bool here = seen.count(lower(n));
        VP_CHECK(cx, h.header_exists(n) == here, "header-invented", "the header " + vp::show(n) + (here ? " is missing" : " exists") + ctx);
        bool g = false, p = false;
        for(auto &x : m.get) g |= lower(x.name) == lower(n);
        for(auto &x : m.post) p |= lower(x.name) == lower(n);
        if(!g) VP_CHECK(cx, !h.get_exists(n), "get-invented", "the GET variable " + vp::show(n) + " exists" + ctx);
        if(!p && (m.form || m.method != 1)) VP_CHECK(cx, !h.post_exists(n), "post-invented", "the POST variable " + vp::show(n) + " exists" + ctx);
    }
    // text before a colon that is no header name: of the first line, of the body, or with the start of a value
    size_t at = m.text.find(':', cx.flip() ? 0 : cx.draw(m.text.size()));
    if(at != std::string::npos && at > 0)
    {
        size_t from = m.text.find_last_of("\r\n", at - 1);
        from = from == std::string::npos ? 0 : from + 1;
        std::string n = m.text.substr(from, std::min<size_t>(at - from, 60));
        // (constructed messages also carry headers that are not in m.headers)
        std::set<std::string> names;
        for(size_t p = m.text.find('\n'); p != std::string::npos && p + 1 < m.text.size();)
        {
            size_t e = m.text.find('\n', p + 1);
            std::string l = m.text.substr(p + 1, e == std::string::npos ? e : e - p - 1);
            if(l.empty() || l == "\r") break;
            names.insert(lower(l.substr(0, l.find(':'))));
            p = e;
        }
        if(!n.empty() && !names.count(lower(n))) VP_CHECK(cx, !h.header_exists(n), "header-invented", "the header " + vp::show(n) + " exists" + ctx);
    }
    if(check_body) VP_CHECK(cx, h.get_body() == m.body, "body", "the body is " + vp::show(h.get_body()) + " instead of " + vp::show(m.body) + ctx);
}

inline Status parse(Case &cx, Http &h, const std::string &piece)
{
    std::string exact(piece);
    exact.shrink_to_fit();
    try { return h.parse(exact.data(), exact.size()); }
    catch(const Failure &) { throw; }
    catch(const std::exception &e) { cx.fail("exception", std::string("parse threw ") + e.what() + " on " + vp::show(piece)); }
}

// feeds text in the given pieces until a verdict; returns it and how many bytes had been fed
inline Status feed(Case &cx, Http &h, const std::string &text, const std::vector<size_t> &pieces, size_t *fed = nullptr)
{
    size_t at = 0;
    Status st = Status::NotEnoughData;
    for(size_t n : pieces)
    {
        st = parse(cx, h, text.substr(at, n));
        at += n;
        if(st != Status::NotEnoughData) break;
    }
    if(fed) *fed = at;
    return st;
}

// Delivers text to the message in a generated way: whole, in pieces or through a socket.
// The message is complete after `need` bytes; a verdict before that fails the case.
inline Status deliver(Case &cx, Http &h, const std::string &text, size_t need, const char **how, bool may_surplus)
{
    size_t mode = cx.weighted({2, 4, 4});
    if(mode == 2)
    {
        *how = "through a socket";
        FakeSocket s;
        s.own.cx = &cx;
        s.own.in = text;
        s.own.in_ev = gen_events(cx, text.size(), true);
        Status st;
        size_t tries = 0;
        do st = s.receive(h); while(st == Status::WouldBlock && ++tries < 5000);   // nothing arrived yet
        VP_CHECK(cx, st != Status::Success || s.own.in_pos >= need, "early", "success was reported after " + num(s.own.in_pos) + " of " + num(need) + " bytes of " + vp::show(text, 400));
        return st;
    }
    std::vector<size_t> pieces = mode == 0 ? std::vector<size_t>{text.size()} : cx.splits(text.size());
    *how = mode == 0 ? "in one piece" : "in pieces";
    size_t fed = 0;
    Status st = feed(cx, h, text, pieces, &fed);
    VP_CHECK(cx, st != Status::Success || fed >= need, "early", "success was reported after " + num(fed) + " of " + num(need) + " bytes of " + vp::show(text, 400));
    (void)may_surplus;
    return st;
}
}
