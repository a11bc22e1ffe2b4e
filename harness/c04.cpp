// C04: cursor, size and remaining-byte accounting, against a string-and-position model.
#include "ptypes.hpp"
#include "fakesock.hpp"
using namespace vp;

static void prop(Case &cx)
{
    auto p = std::make_unique<fr::Packet>();
    std::string m;      // model content
    size_t pos = 0;     // model cursor
    auto check = [&](const char *after) {
        VP_CHECK(cx, p->size() == m.size(), "size", std::string("after ") + after + ": size is " + num(p->size()) + ", expected " + num(m.size()));
        VP_CHECK(cx, p->get_cursor() == pos, "cursor", std::string("after ") + after + ": cursor is " + num(p->get_cursor()) + ", expected " + num(pos));
        VP_CHECK(cx, p->get_bytes_remaining() == m.size() - pos, "remaining", std::string("after ") + after + ": " + num(p->get_bytes_remaining()) + " bytes remaining, expected " + num(m.size() - pos));
    };
    check("construction");
    size_t n = 1 + cx.size(40);
    int kinds = 0;
    for(size_t a = 0; a < n; ++a)
    {
        const char *what = "";
        size_t op = cx.weighted({5, 3, 4, 3, 4, 1, 1, 1, 1, 1, 1, 1});
        kinds |= 1 << op;
        switch(op)
        {
            case 0: { auto it = pt::gen_item(cx, 0); it->write(*p); size_t b = m.size(); it->enc(m); if(!it->canonical()) { std::string w = wire_of(*p, cx); m.replace(b, std::string::npos, w.substr(4 + b)); } what = "adding a value"; cx.note([&] { return "add " + it->str(); }); break; }
            case 1: { std::string b = cx.bytes(200); p->add_raw(b.data(), b.size()); m += b; what = "add_raw"; cx.note([&] { return "add_raw " + show(b, 20); }); break; }
            case 2: // typed scalar read
            {
                unsigned w = 1u << cx.draw(4);
                uint64_t got = 0;
                bool threw = false;
                try
                {
                    switch(w) { case 1: { uint8_t v; *p >> v; got = v; break; } case 2: { uint16_t v; *p >> v; got = v; break; } case 4: { uint32_t v; *p >> v; got = v; break; } default: { uint64_t v; *p >> v; got = v; break; } }
                }
                catch(const std::out_of_range &) { threw = true; }
                cx.note([&] { return "read u" + num(8 * w); });
                bool shortage = m.size() - pos < w;
                VP_CHECK(cx, threw == shortage, "read", "reading " + num(w) + " bytes with " + num(m.size() - pos) + " left " + (threw ? "threw" : "did not throw"));
                if(!threw)
                {
                    pt::Reader r(m, pos);
                    uint64_t want = r.be(w);
                    VP_CHECK(cx, got == want, "read-value", "read " + num(got) + " at " + num(pos) + ", expected " + num(want));
                    pos = r.pos;
                }
                what = "a read";
                break;
            }
            case 3:
            {
                size_t at = cx.chance(1, 4) ? (size_t)cx.integer(64) : cx.size(m.size() + 6);
                if(at == 0 && cx.flip()) p->set_cursor(); else p->set_cursor(at);
                pos = std::min(at, m.size());
                what = "set_cursor";
                cx.note([&] { return "set_cursor " + num(at); });
                break;
            }
            case 4:
            {
                int64_t d;
                switch(cx.draw(4)) { case 0: d = cx.range(-10, 10); break; case 1: d = (int64_t)cx.integer(64); break; case 2: d = cx.flip() ? -(int64_t)pos + cx.range(-5, 5) : (int64_t)(m.size() - pos) + cx.range(-5, 5); break; default: d = cx.flip() ? INT64_MIN + (int64_t)cx.draw(8) : INT64_MAX - (int64_t)cx.draw(8); }
                p->seek_cursor((ssize_t)d);
                __int128 np = (__int128)pos + d;
                pos = np < 0 ? 0 : np > (__int128)m.size() ? m.size() : (size_t)np;
                what = "seek_cursor";
                cx.note([&] { return "seek_cursor " + snum(d); });
                break;
            }
            case 5: p->clear(); m.clear(); pos = 0; what = "clear"; cx.note([&] { return std::string("clear"); }); break;
            case 6: { size_t r = cx.size(100000); p->reserve(r); what = "reserve"; cx.note([&] { return "reserve " + num(r); }); break; }
            case 7: { auto q = std::make_unique<fr::Packet>(*p); p->clear(); p = std::move(q); what = "copying"; cx.note([&] { return std::string("copy"); }); break; }
            case 8: { fr::Packet q; q << std::string("junk"); q = *p; VP_CHECK(cx, q.size() == p->size() && q.get_cursor() == p->get_cursor(), "copy", "a copy differs in size or cursor"); p = std::make_unique<fr::Packet>(std::move(q)); what = "copy and move"; cx.note([&] { return std::string("copy+move"); }); break; }
            case 9: { std::string w = wire_of(*p, cx); VP_CHECK(cx, w.size() == m.size() + 4 && w.compare(4, std::string::npos, m) == 0, "content", "the bytes sent are not the bytes added"); what = "sending"; cx.note([&] { return std::string("send"); }); break; }
            case 10:
            {   // whole content through the cursor
                size_t keep = pos;
                p->set_cursor(0);
                std::string got(m.size(), 0);
                p->extract_raw(&got[0], got.size());
                VP_CHECK(cx, got == m, "content", "content is " + show(got) + ", expected " + show(m));
                p->set_cursor(keep);
                what = "re-reading everything";
                break;
            }
            default:
            {   // receiving a frame replaces everything
                FakeSocket s;
                s.own.cx = &cx;
                std::string c = cx.bytes(80), h;
                pt::put(h, c.size(), 4);
                s.own.in = h + c; s.own.in_ev = {{s.own.in.size(), Status::Success}};
                p->clear();
                Status st = s.receive(*p);
                VP_CHECK(cx, st == Status::Success, "receive", "receive returned " + status_name(st));
                m = c; pos = 0;
                what = "clear and receive";
                cx.note([&] { return "receive " + show(c, 20); });
                break;
            }
        }
        check(what);
    }
    p->set_cursor(0);
    pos = 0;
    std::string got(m.size(), 0);
    p->extract_raw(&got[0], got.size());
    VP_CHECK(cx, got == m, "content", "content is " + show(got) + ", expected " + show(m));
    if(__builtin_popcount(kinds) >= 4) cx.nontrivial();
}

Property vp::the_property = {"C04", prop,
    "a case is a history of 1-41 operations (add, raw add, read, absolute and relative seeks with extreme offsets, clear, reserve, copy, move, send, receive) checked step by step against a model; non-trivial: at least four different kinds of operation",
    4000000, 24000000};
