// C16: URL encoding is reversible and decoding is total.
#include <frnetlib/Http.h>
#include "vp.hpp"
using namespace vp;
using fr::Http;

static int hexv(unsigned char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }

static std::string ref_decode(const std::string &s)
{
    std::string o;
    for(size_t a = 0; a < s.size(); ++a)
    {
        if(s[a] == '%' && a + 2 < s.size() && hexv(s[a + 1]) >= 0 && hexv(s[a + 2]) >= 0) { o += (char)(hexv(s[a + 1]) * 16 + hexv(s[a + 2])); a += 2; }
        else if(s[a] == '+') o += ' ';
        else o += s[a];
    }
    return o;
}

static bool unreserved(unsigned char c) { return isalnum(c) || (c && strchr("-_.!~*'()", c)); }

static void check_encode(Case &cx, const std::string &in)
{
    std::string e = Http::url_encode(in);
    for(size_t a = 0; a < e.size(); ++a)
    {
        unsigned char c = e[a];
        if(unreserved(c) || c == '+') continue;
        bool esc = c == '%' && a + 2 < e.size() && strchr("0123456789ABCDEF", e[a + 1]) && e[a + 1] && strchr("0123456789ABCDEF", e[a + 2]) && e[a + 2];
        VP_CHECK(cx, esc, "alphabet", "encoding " + show(in) + " gave " + show(e) + ", which has something else than unreserved characters, + and upper-case escapes");
        a += 2;
    }
    for(size_t a = 0, b = 0; a < in.size(); ++a)   // spaces become plus signs, and nothing else does
    {
        VP_CHECK(cx, b < e.size(), "short", "encoding " + show(in) + " gave " + show(e));
        if(in[a] == ' ') VP_CHECK(cx, e[b] == '+', "space", "a space was not encoded as + in " + show(e));
        if(e[b] == '+') VP_CHECK(cx, in[a] == ' ', "plus", "a + in the encoding is not a space: " + show(in) + " gave " + show(e));
        b += e[b] == '%' ? 3 : 1;
    }
    VP_CHECK(cx, ref_decode(e) == in, "encode", "encoding " + show(in) + " gave " + show(e) + ", which means " + show(ref_decode(e)));
    std::string d = Http::url_decode(e);
    VP_CHECK(cx, d == in, "round-trip", "decoding the encoding " + show(e) + " gave " + show(d) + " instead of " + show(in));
}

static void prop(Case &cx)
{
    std::string in;
    if(cx.flip())
    {
        in = cx.bytes(cx.chance(1, 20) ? 20000 : 200);
        cx.note([&] { return "encode " + show(in); });
        check_encode(cx, in);
        bool esc = false;
        for(unsigned char c : in) esc |= !isalnum(c);
        if(esc) cx.nontrivial();
        return;
    }
    // text with good, bad, truncated and nested escapes
    size_t n = cx.size(30);
    bool special = false;
    for(size_t a = 0; a < n; ++a)
        switch(cx.weighted({4, 4, 3, 2, 2, 2, 2}))
        {
            case 0: in += (char)cx.draw(256); break;
            case 1: in += '%'; in += cx.pick({'0', '4', '9', 'a', 'f', 'A', 'F', 'c', '2', '7', '8'}); in += "0123456789abcdefABCDEF"[cx.draw(22)]; special = true; break;
            case 2: in += '%'; special = true; break;
            case 3: in += '+'; break;
            case 4: in += '%'; in += (char)cx.draw(256); special = true; break;
            case 5: in += '%'; in += (char)cx.draw(256); in += (char)cx.draw(256); special = true; break;
            default: in += "/:@GgXx` \0%"[cx.draw(11)]; break;
        }
    if(cx.chance(1, 4)) in += cx.bytes(40);
    if(cx.chance(1, 4)) in += cx.flip() ? "%" : "%4";
    cx.note([&] { return "decode " + show(in); });
    std::string exact(in);
    exact.shrink_to_fit();
    std::string d = Http::url_decode(exact), want = ref_decode(in);
    VP_CHECK(cx, d == want, "decode", "decoding " + show(in) + " gave " + show(d) + " instead of " + show(want));
    if(special) cx.nontrivial();
    check_encode(cx, in);
    check_encode(cx, d);
}

Property vp::the_property = {"C16", prop,
    "a case encodes and decodes arbitrary bytes, or decodes text made of good, lower-case, malformed, nested and truncated escapes, against an independent decoder; non-trivial: a byte that needs escaping or an escape-like sequence",
    10000000, 60000000};
