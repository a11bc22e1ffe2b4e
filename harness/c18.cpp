// C18: MIME types depend only on the file extension.
#include <frnetlib/Http.h>
#include <map>
#include "vp.hpp"
using namespace vp;
using fr::Http;

static const std::vector<std::pair<std::string, std::string>> table = {
#include "mimetypes.inc"
};
static const std::map<std::string, std::string> &by_ext() { static std::map<std::string, std::string> m(table.begin(), table.end()); return m; }

static std::string prefix(Case &cx)
{
    switch(cx.weighted({2, 3, 3, 2, 2, 1, 1}))
    {
        case 0: return "";
        case 1: return cx.text("abcxyz019_-", 0, 10);
        case 2: return cx.text("ab/.\\- ", 0, 12);
        case 3: return table[cx.draw(table.size())].first + ".";
        case 4: return "/srv/www/" + cx.text("abc./", 0, 8) + "." + table[cx.draw(table.size())].first;
        case 5: return cx.bytes(40);
        default: return cx.text("abcdef./", 300, 3000);
    }
}

static void look(Case &cx, const std::string &name, const std::string &ext)
{
    auto it = by_ext().find(ext);
    const char *dflt = "application/octet-stream";
    std::string want = it == by_ext().end() ? dflt : it->second;
    const std::string &got = Http::get_mimetype(name);
    cx.note([&] { return show(name) + " -> " + got; });
    VP_CHECK(cx, got == want, it == by_ext().end() ? "unknown-extension" : "known-extension", "the type of " + show(name) + " is " + show(got) + " instead of " + show(want));
}

static void prop(Case &cx)
{
    size_t n = 1 + cx.draw(8);
    for(size_t a = 0; a < n; ++a)
    {
        const std::string *ext = nullptr;
        std::string other, name;
        switch(cx.weighted({6, 2, 2, 2}))
        {
            case 0: ext = &table[cx.draw(table.size())].first; cx.nontrivial(); break;
            case 1: // close to a registered one
            {
                other = table[cx.draw(table.size())].first;
                size_t at = cx.draw(other.size());
                switch(cx.draw(5)) { case 0: other[at] = (char)toupper(other[at]); break; case 1: other.erase(at, 1); break; case 2: other.insert(at, 1, (char)('a' + cx.draw(26))); break; case 3: other += (char)cx.draw(128); break; default: other[at] = (char)cx.draw(256); }
                break;
            }
            case 2: other = cx.text("abcdefghijklmnopqrstuvwxyz0123456789", 0, 6); break;
            default: other = cx.bytes(30); break;
        }
        if(!ext)
        {
            auto d = other.rfind('.');
            if(d != std::string::npos) other.erase(0, d + 1);
            ext = &other;
        }
        bool bare = cx.chance(1, 4);
        name = bare ? *ext : prefix(cx) + "." + *ext;
        look(cx, name, *ext);
    }
    if(cx.chance(1, 200)) // everything, after whatever was looked up before
    {
        cx.label("whole table");
        for(auto &t : table) { VP_CHECK(cx, Http::get_mimetype("x." + t.first) == t.second, "known-extension", "the type of ." + t.first + " is " + Http::get_mimetype("x." + t.first) + " instead of " + t.second); }
    }
}

Property vp::the_property = {"C18", prop,
    "a case is 1-8 lookups of registered extensions, near misses and arbitrary strings behind arbitrary prefixes, bare or dotted, compared with the registered table, sometimes followed by the whole table; non-trivial: a registered extension is looked up",
    6400000, 38400000};
