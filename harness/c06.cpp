// C06: WebSocket frames are RFC 6455 on the wire and survive any segmentation.
#include <frnetlib/WebFrame.h>
#include "wsref.hpp"
using namespace vp;

static std::string payload(Case &cx)
{
    if(cx.chance(1, 5000)) return cx.blob((1 << 24) - 8 + cx.draw(16));     // where 24 bits end
    switch(cx.weighted({5, 4, 1}))
    {
        case 0: return cx.bytes(40);
        case 1: { static const size_t S[] = {124, 125, 126, 127, 128, 255, 256, 4094, 4095, 4096, 65534, 65535, 65536, 65537, 70000}; return cx.blob(S[cx.draw(15)]); }
        default: return cx.blob(cx.draw(cx.chance(1, 10) ? 300000 : 5000));
    }
}
static fr::WebFrame::Opcode opcode(Case &cx)
{
    using O = fr::WebFrame::Opcode;
    return cx.pick({O::Text, O::Binary, O::Continuation, O::Ping, O::Pong, O::Disconnect});
}
// what RFC 6455 calls the opcode a program names
static int rfc(fr::WebFrame::Opcode o)
{
    using O = fr::WebFrame::Opcode;
    if(o == O::Continuation) return 0x0;
    if(o == O::Text) return 0x1;
    if(o == O::Binary) return 0x2;
    if(o == O::Disconnect) return 0x8;
    if(o == O::Ping) return 0x9;
    if(o == O::Pong) return 0xA;
    return -1;
}
static std::unique_ptr<fr::WebFrame> frame(bool client) { if(client) return std::make_unique<fr::ClientWebFrame>(); return std::make_unique<fr::ServerWebFrame>(); }

struct Sent { int op; bool fin; std::string data; fr::WebFrame::Opcode name; };
static Sent message(Case &cx) { auto o = opcode(cx); bool fin = !cx.chance(1, 3); return Sent{rfc(o), fin, payload(cx), o}; }

static void prop(Case &cx)
{
    cx.reset_steps(20000000);
    bool client = cx.flip();
    size_t n = 1 + cx.draw(4);
    std::vector<Sent> sent;
    FakeSocket tx;
    tx.own.cx = &cx;
    std::string stream;
    bool interesting = n > 1;
    auto f = frame(client);
    for(size_t a = 0; a < n; ++a)
    {
        if(cx.flip()) f = frame(client);
        Sent s = message(cx);
        f->set_opcode(s.name);
        f->set_final(s.fin);
        f->set_payload(s.data);
        size_t times = 1 + cx.chance(1, 3) + cx.chance(1, 8);
        for(size_t t = 0; t < times; ++t)
        {
            tx.own.out.clear();
            tx.own.out_ev = gen_events(cx, s.data.size() + 2, true);
            tx.own.out_i = 0; tx.own.out_left = 0;
            Status st = cx.flip() ? tx.send(*f) : f->send(&tx);
            cx.note([&] { return std::string(client ? "client" : "server") + " sends opcode " + snum(s.op) + (s.fin ? " final " : " ") + num(s.data.size()) + " bytes " + show_events(tx.own.out_ev); });
            VP_CHECK(cx, st == Status::Success, "send-status", std::string("sending returned ") + status_name(st));
            ws::Frame r;
            size_t at = 0;
            int res = ws::decode(tx.own.out, at, r);
            VP_CHECK(cx, res == 1 && at == tx.own.out.size(), "wire", "a frame of " + num(s.data.size()) + " bytes was put on the wire as " + num(tx.own.out.size()) + " bytes that are not one frame: " + vp::show(tx.own.out, 40));
            VP_CHECK(cx, r.rsv == 0, "rsv", "reserved bits are set");
            VP_CHECK(cx, r.fin == s.fin, "fin", std::string("the final bit on the wire is ") + (r.fin ? "set" : "clear"));
            VP_CHECK(cx, r.op == s.op, "opcode", "opcode " + snum(s.op) + " is " + snum(r.op) + " on the wire");
            VP_CHECK(cx, r.masked == client, "mask", (client ? "a client frame is not masked" : "a server frame is masked"));
            VP_CHECK(cx, r.minimal, "length-form", "the length " + num(s.data.size()) + " is not in minimal form");
            VP_CHECK(cx, r.data == s.data, "payload", "the " + num(t + 1) + ". sending of the frame carries other data: " + vp::show(r.data, 40) + " instead of " + vp::show(s.data, 40));
            VP_CHECK(cx, f->get_payload() == s.data && f->get_opcode() == s.name && f->is_final() == s.fin, "changed", "sending changed the frame object");
            stream += tx.own.out;
            sent.push_back(s);
        }
        if(cx.chance(1, 3))
        {   // a frame from another implementation, with a key of its own
            Sent o = message(cx);
            std::string key = cx.pick<std::string>({std::string(4, '\0'), "\xff\xff\xff\xff", "\x80\x01\x7f\xfe", "abcd"});
            if(cx.flip()) key = cx.blob(4);
            stream += ws::encode(o.op, o.fin, client, key, o.data);
            sent.push_back(o);
        }
    }
    // a frame with the wrong masking may end the stream
    bool wrong = cx.chance(1, 4);
    size_t good = stream.size();
    if(wrong) stream += ws::encode(rfc(opcode(cx)), true, !client, "wxyz", payload(cx));
    FakeSocket rx;
    rx.own.cx = &cx;
    rx.blocking = false;
    rx.own.in = stream;
    rx.own.in_ev = gen_events(cx, stream.size(), true);
    if(rx.own.in_ev.size() > 1) interesting = true;
    cx.note([&] { return "receive " + show_events(rx.own.in_ev); });
    bool reuse = cx.flip();
    auto g = frame(!client);
    g->set_payload("before");
    g->set_final(false);
    size_t pos = 0;
    auto recv = [&](const std::string &what)
    {
        while(true)
        {
            size_t i = rx.own.in_i;
            Status st = cx.flip() ? rx.receive(*g) : g->receive(&rx);
            if(st == Status::WouldBlock)
            {
                VP_CHECK(cx, rx.own.in_pos == pos, "consumed", "would-block was reported after consuming " + num(rx.own.in_pos - pos) + " bytes of " + what);
                VP_CHECK(cx, rx.own.in_i != i, "stuck", "receiving " + what + " reports would-block although data is there");
                continue;
            }
            return st;
        }
    };
    for(size_t a = 0; a < sent.size(); ++a)
    {
        if(!reuse) g = frame(!client);
        std::string what = "frame " + num(a + 1) + " of " + num(sent[a].data.size()) + " bytes";
        Status st = recv(what);
        VP_CHECK(cx, st == Status::Success, "receive-status", "receiving " + what + " returned " + status_name(st));
        VP_CHECK(cx, g->get_opcode() == sent[a].name && g->is_final() == sent[a].fin, "meta", what + " has opcode " + snum((int)g->get_opcode()) + " final " + snum(g->is_final()) + " instead of " + snum(sent[a].op) + " " + snum(sent[a].fin));
        std::string got = g->get_payload();
        VP_CHECK(cx, got == sent[a].data, "received", what + " was received as " + num(got.size()) + " bytes " + vp::show(got, 40) + " instead of " + vp::show(sent[a].data, 40));
        ws::Frame r; size_t at = pos;
        ws::decode(stream, at, r);
        VP_CHECK(cx, rx.own.in_pos == at, "boundary", "after " + what + " the stream is at " + num(rx.own.in_pos) + " instead of " + num(at));
        pos = at;
    }
    if(wrong)
    {
        VP_CHECK(cx, pos == good, "boundary", "not at the last frame");
        Status st = recv("the frame with the wrong masking");
        VP_CHECK(cx, st != Status::Success && st != Status::Timeout, "mask-rule", std::string("a frame violating the masking rule was received with status ") + status_name(st));
        cx.label("wrong masking");
    }
    if(interesting) cx.nontrivial();
    cx.label(client ? "client to server" : "server to client");
}

Property vp::the_property = {"C06", prop,
    "a case sends 1-4 generated frames (opcode, final bit, payload around the length-form boundaries) one or more times in either role with short writes, decodes the wire with an independent RFC 6455 codec, adds frames of an independent encoder, and receives the stream in the opposite role over a generated segmentation with would-blocks, possibly ending in a frame violating the masking rule; non-trivial: several frames or more than one segment",
    180000, 1080000};
