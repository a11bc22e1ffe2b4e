// C02: the canonical wire format, against an independent codec in both directions.
#include "ptypes.hpp"
#include "fakesock.hpp"
using namespace vp;

static void prop(Case &cx)
{
    std::vector<std::unique_ptr<pt::Item>> items;
    size_t n = cx.size(cx.chance(1, 20) ? 60 : 8);
    fr::Packet p;
    bool canonical = true;
    std::string ref;
    for(size_t a = 0; a < n; ++a)
    {
        if(cx.chance(1, 8))
        {
            auto g = cx.pick(pt::group_kinds())(cx);
            g.add(p);
            for(auto &i : g.items) { i->enc(ref); canonical = canonical && i->canonical(); cx.note([&] { return i->str(); }); items.push_back(std::move(i)); }
            continue;
        }
        auto it = pt::gen_item(cx, n > 10 ? 1 : 2);
        it->write(p);
        it->enc(ref);
        canonical = canonical && it->canonical();
        cx.note([&] { return it->str(); });
        items.push_back(std::move(it));
        VP_CHECK(cx, p.size() == ref.size(), "size", "after adding " + items.back()->str() + " the packet reports " + num(p.size()) + " bytes, the format has " + num(ref.size()));
    }
    VP_CHECK(cx, p.size() == ref.size(), "size", "the packet reports " + num(p.size()) + " bytes, the format has " + num(ref.size()));
    // encode direction
    std::string w = wire_of(p, cx);
    VP_CHECK(cx, w.size() == ref.size() + 4, "frame-length", "the frame on the wire has " + num(w.size()) + " bytes instead of 4+" + num(ref.size()));
    std::string hdr;
    pt::put(hdr, ref.size(), 4);
    VP_CHECK(cx, w.compare(0, 4, hdr) == 0, "header", "the frame header is " + show(w.substr(0, 4)) + ", expected " + show(hdr));
    std::string payload = w.substr(4);
    if(canonical)
        VP_CHECK(cx, payload == ref, "payload", "the payload is " + show(payload, 200) + ", the format prescribes " + show(ref, 200));
    else
    {
        cx.label("unordered");
        pt::Reader r(payload);
        for(auto &i : items)
        {
            bool ok = false;
            try { ok = i->match(r); } catch(const pt::Short &) {}
            VP_CHECK(cx, ok, "payload", "an independent decoder does not find " + i->str() + " in the payload");
        }
        VP_CHECK(cx, r.pos == payload.size(), "payload", "the payload holds extra bytes");
    }
    // decode direction: a frame built by the independent encoder
    FakeSocket s;
    s.own.cx = &cx; s.own.in = hdr + ref; s.own.in_ev = {{s.own.in.size(), Status::Success}};
    fr::Packet q;
    Status st = s.receive(q);
    VP_CHECK(cx, st == Status::Success, "receive", "receiving an independently encoded frame returned " + status_name(st));
    VP_CHECK(cx, q.size() == ref.size(), "received-size", "a received frame of " + num(ref.size()) + " payload bytes reports size " + num(q.size()));
    for(auto &i : items)
    {
        std::string got;
        bool ok;
        try { ok = i->read(q, got); } catch(const std::exception &e) { cx.fail("decode", "reading " + i->str() + " from an independently encoded frame threw " + e.what()); }
        VP_CHECK(cx, ok, "decode", "an independently encoded " + i->str() + " was read as " + got);
    }
    if(items.size() >= 2) { cx.nontrivial(); cx.label("multi"); }
    if(ref.size() > 65535) cx.label(">64K");
    if(!n) cx.label("empty");
}

Property vp::the_property = {"C02", prop,
    "a case is a sequence of 0-60 typed values from the packet grammar; the sent frame is compared with an independent encoder (independent decoder where unordered maps occur), and an independently encoded frame is received and read; non-trivial: at least two values",
    800000, 4800000};
