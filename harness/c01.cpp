// C01: packets give back exactly the typed values that were put in.
#include "ptypes.hpp"
#include "fakesock.hpp"
using namespace vp;

static void prop(Case &cx)
{
    std::vector<std::unique_ptr<pt::Item>> items;
    std::unique_ptr<fr::Packet> p;
    bool variadic = false;
    if(cx.chance(1, 5))
    {
        auto g = cx.pick(pt::group_kinds())(cx);
        p.reset(g.construct());
        cx.note([&] { return "constructor(" + g.name + ")"; });
        for(auto &i : g.items) items.push_back(std::move(i));
        variadic = true;
    }
    else p.reset(new fr::Packet());
    if(cx.chance(1, 6)) { size_t n = cx.size(5000); p->reserve(n); cx.note([&] { return "reserve " + num(n); }); }
    size_t n = 1 + cx.size(cx.chance(1, 20) ? 60 : 8);
    bool containers = false;
    std::string kinds;
    for(size_t a = 0; a < n; ++a)
    {
        if(cx.chance(1, 8))
        {
            auto g = cx.pick(pt::group_kinds())(cx);
            g.add(*p);
            cx.note([&] { return "add(" + g.name + ")"; });
            for(auto &i : g.items) items.push_back(std::move(i));
            variadic = true;
            continue;
        }
        const bool big = cx.chance(1, 1500);
        if(big) cx.label("many elements");
        auto it = big ? pt::gen_big(cx) : pt::gen_item(cx, n > 10 ? 1 : 2);
        bool one_add = cx.chance(1, 10);
        it->write(*p);
        (void)one_add;
        cx.note([&] { return it->str(); });
        items.push_back(std::move(it));
    }
    // optionally across a socket
    fr::Packet received;
    fr::Packet *r = p.get();
    size_t how = cx.draw(4);
    if(how == 1)
    {
        std::string w = wire_of(*p, cx);
        FakeSocket s;
        s.own.cx = &cx; s.own.in = w; s.own.in_ev = gen_events(cx, w.size(), true);
        cx.reset_steps(s.own.in_ev.size() * 4 + w.size() + 1000);
        Status st;
        do { cx.steps(); st = s.receive(received); } while(st == Status::WouldBlock);
        VP_CHECK(cx, st == Status::Success, "receive", "receiving the packet returned " + status_name(st));
        r = &received;
        cx.label("via socket");
        cx.note([&] { return std::string("sent over a socket"); });
    }
    else if(how == 2) { received = *p; r = &received; cx.label("copied"); }
    else if(how == 3) { received = std::move(*p); r = &received; cx.label("moved"); }
    for(size_t a = 0; a < items.size(); ++a)
    {
        auto &it = items[a];
        std::string got;
        bool ok;
        try { ok = it->read(*r, got); }
        catch(const std::exception &e) { cx.fail("read-throws", "reading item " + num(a) + " (" + it->str() + ") threw: " + e.what()); }
        VP_CHECK(cx, ok, "value", "item " + num(a) + " was written as " + it->str() + " and read back as " + got);
        if(it->kind().find('<') != std::string::npos) containers = true;
    }
    VP_CHECK(cx, r->get_bytes_remaining() == 0, "left-over", "after reading everything back, " + num(r->get_bytes_remaining()) + " bytes remain");
    if(containers) cx.label("containers");
    if(variadic) cx.label("variadic");
    if(items.size() >= 2) cx.nontrivial();
}

Property vp::the_property = {"C01", prop,
    "a case is a sequence of 1-60 typed values drawn from 60 types of the packet grammar (occasionally with up to 131073 elements or 16 MB; scalars, strings, raw, nested containers to depth 4, packables, ranges, variadic groups), written, optionally copied/moved/sent over a segmented scripted socket, and read back; non-trivial: at least two values",
    600000, 4000000};
