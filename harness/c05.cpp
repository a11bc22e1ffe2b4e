// C05: framed packets arrive whole, in order and unchanged over any segmentation.
#include <frnetlib/Packet.h>
#include "fakesock.hpp"
using namespace vp;

static std::string be32(size_t n) { std::string s; for(int a = 24; a >= 0; a -= 8) s += (char)(n >> a); return s; }

static std::string content(Case &cx)
{
    if(cx.chance(1, 5000)) return cx.blob((1 << 24) - 8 + cx.draw(12));     // where 24 bits end, with and without the length
    switch(cx.weighted({6, 2, 2, 1}))
    {
        case 0: return cx.bytes(60);
        case 1: { static const size_t S[] = {0, 1, 4, 255, 256, 4091, 4092, 4095, 4096, 4097, 8192, 65535, 65536}; return cx.blob(S[cx.draw(13)]); }
        case 2: // looks like packet framing
            { std::string s = be32(cx.draw(6)) + cx.bytes(8); return s; }
        default: return cx.blob(cx.chance(1, 10) ? cx.draw(300000) : cx.draw(20000));
    }
}

static std::string rest_of(fr::Packet &p)
{
    std::string s(p.get_bytes_remaining(), '\0');
    if(!s.empty()) p.extract_raw(&s[0], s.size());
    return s;
}

static void prop(Case &cx)
{
    cx.reset_steps(20000000);
    size_t n = 1 + cx.draw(5);
    std::vector<std::string> msgs;
    std::string want;
    FakeSocket tx;
    tx.own.cx = &cx;
    tx.blocking = cx.flip();
    bool interesting = n > 1;
    // sending
    for(size_t a = 0; a < n; ++a)
    {
        std::string c = content(cx);
        fr::Packet p;
        size_t cut = c.empty() ? 0 : cx.draw(c.size() + 1);
        p.add_raw(c.data(), cut);
        if(c.size() > cut) p.add_raw(c.data() + cut, c.size() - cut);
        size_t seek = cx.draw(c.size() + 1);
        p.set_cursor(seek);
        size_t times = 1 + cx.chance(1, 4) + cx.chance(1, 8);
        for(size_t t = 0; t < times; ++t)
        {
            tx.own.out_ev = gen_events(cx, c.size() + 4, true);
            tx.own.out_i = 0; tx.own.out_left = 0;
            if(tx.own.out_ev.size() > 1) interesting = true;
            Status st = cx.flip() ? tx.send(p) : p.send(&tx);
            VP_CHECK(cx, st == Status::Success, "send-status", "sending " + num(c.size()) + " bytes with short writes and would-blocks returned " + status_name(st));
            msgs.push_back(c);
            want += be32(c.size()) + c;
            cx.note([&] { return "send " + num(c.size()) + " bytes " + vp::show(c, 30) + " " + show_events(tx.own.out_ev); });
            VP_CHECK(cx, tx.own.out == want, "wire", "after sending packet " + num(msgs.size()) + " of " + num(c.size()) + " bytes the wire carries " + num(tx.own.out.size()) + " bytes instead of the " + num(want.size()) + " expected, or other ones");
        }
        // the packet is as before
        VP_CHECK(cx, p.size() == c.size() && p.get_cursor() == seek, "sent-state", "sending moved the cursor or changed the size");
        p.set_cursor(0);
        VP_CHECK(cx, rest_of(p) == c, "sent-content", "sending changed the packet's content");
    }
    // receiving: events per message, so that quiet spells between messages can be told apart
    FakeSocket rx;
    rx.own.cx = &cx;
    rx.blocking = cx.flip();
    rx.own.in = want;
    Status quiet = rx.blocking ? Status::Timeout : Status::WouldBlock;
    unsigned shape = (unsigned)cx.weighted({3, 3, 1});
    if(shape == 0) rx.own.in_ev = gen_events(cx, want.size(), true);    // segments may span messages
    else for(auto &m : msgs)
    {
        size_t q = cx.draw(3);
        for(size_t a = 0; a < q; ++a) rx.own.in_ev.push_back({0, quiet});
        auto ev = gen_events(cx, m.size() + 4, shape == 1);
        if(!ev.empty() && ev[0].n == 0) ev.erase(ev.begin());
        rx.own.in_ev.insert(rx.own.in_ev.end(), ev.begin(), ev.end());
    }
    if(rx.own.in_ev.size() > 1) interesting = true;
    cx.note([&] { return "receive " + show_events(rx.own.in_ev); });
    fr::Packet reused("junk", (uint32_t)7, std::string(cx.draw(200), 'j'));
    reused.set_cursor(cx.draw(reused.size() + 1));
    bool reuse = cx.flip();
    size_t pos = 0;
    for(size_t a = 0; a < msgs.size(); ++a)
    {
        fr::Packet fresh;
        fr::Packet &p = reuse ? reused : fresh;
        size_t quiets = 0;
        while(true)
        {
            Status st = cx.flip() ? rx.receive(p) : p.receive(&rx);
            if(st == Status::WouldBlock || st == Status::Timeout)
            {
                VP_CHECK(cx, rx.own.in_pos == pos, "consumed", std::string(status_name(st)) + " was reported after consuming " + num(rx.own.in_pos - pos) + " bytes of packet " + num(a + 1));
                VP_CHECK(cx, ++quiets <= rx.own.in_ev.size() + 1, "stuck", "receiving packet " + num(a + 1) + " reports " + status_name(st) + " for ever");
                cx.label("quiet receive");
                continue;
            }
            VP_CHECK(cx, st == Status::Success, "receive-status", "receiving packet " + num(a + 1) + " of " + num(msgs[a].size()) + " bytes returned " + status_name(st));
            break;
        }
        pos += msgs[a].size() + 4;
        VP_CHECK(cx, rx.own.in_pos == pos, "boundary", "after packet " + num(a + 1) + " the stream is at " + num(rx.own.in_pos) + " instead of " + num(pos));
        VP_CHECK(cx, p.size() == msgs[a].size(), "size", "packet " + num(a + 1) + " of " + num(msgs[a].size()) + " bytes was received with size " + num(p.size()));
        VP_CHECK(cx, p.get_cursor() == 0 && p.get_bytes_remaining() == p.size(), "cursor", "the received packet is not positioned at its start");
        // use part of it, as programs do
        if(cx.flip())
        {
            std::string got = rest_of(p);
            VP_CHECK(cx, got == msgs[a], "content", "packet " + num(a + 1) + " was received as " + vp::show(got) + " instead of " + vp::show(msgs[a]));
            if(cx.flip()) p << (uint32_t)5;
        }
        else
        {
            size_t k = cx.draw(msgs[a].size() + 1);
            std::string part(k, '\0');
            if(k) p.extract_raw(&part[0], k);
            VP_CHECK(cx, part == msgs[a].substr(0, k), "content", "the first " + num(k) + " bytes of packet " + num(a + 1) + " differ");
            std::string tail = rest_of(p);
            VP_CHECK(cx, tail == msgs[a].substr(k), "content", "the bytes after " + num(k) + " of packet " + num(a + 1) + " differ");
            p.set_cursor(k);
        }
    }
    // nothing left: the end of the stream
    fr::Packet last;
    rx.own.in_end = cx.pick({Status::Disconnected, quiet});
    Status st = Status::Unknown;
    for(size_t a = 0; a < rx.own.in_ev.size() + 2; ++a) { st = rx.receive(last); if(rx.own.in_i >= rx.own.in_ev.size()) break; }
    st = rx.receive(last);
    VP_CHECK(cx, st == rx.own.in_end, "end", std::string("at the end of the stream receiving returned ") + status_name(st) + " instead of " + status_name(rx.own.in_end));
    if(interesting) cx.nontrivial();
    cx.label(reuse ? "reused packet" : "fresh packets");
}

Property vp::the_property = {"C05", prop,
    "a case sends 1-5 packets of generated content (some more than once) through a scripted socket with short writes and would-blocks, compares the wire bytes with the expected framing, and receives them over another generated segmentation with would-blocks or timeouts, into fresh or used packets; non-trivial: several packets or more than one segment",
    600000, 3600000};
