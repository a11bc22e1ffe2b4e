// C03: extraction never reads outside the received bytes.
#include "ptypes.hpp"
#include "fakesock.hpp"
#include "memtrack.hpp"
using namespace vp;
using pt::C;
using pt::Reader;
using pt::Short;

struct St { Case &cx; fr::Packet &p; const std::string &c; size_t pos; bool threw = false; size_t hits = 0; };

template<typename T> void rd(St &s)
{
    Case &cx = s.cx;
    T want{}; bool shortage = false;
    Reader r(s.c, s.pos);
    try { want = C<T>::dec(r); } catch(const Short &) { shortage = true; }
    T got{};
    bool threw = false;
    Mem::start();
    try { s.p >> got; }
    catch(const std::out_of_range &) { threw = true; }
    catch(const std::exception &e) { Mem::stop(); cx.fail("exception", "reading " + C<T>::name() + " at " + num(s.pos) + " of " + num(s.c.size()) + " threw " + e.what() + " instead of out_of_range"); }
    int64_t peak = Mem::stop();
    cx.note([&] { return "read " + C<T>::name() + " at " + num(s.pos) + (shortage ? " (short)" : " = " + C<T>::str(want)); });
    VP_CHECK(cx, peak <= (int64_t)(s.c.size() * 200 + 8192), "memory", "reading " + C<T>::name() + " from a packet of " + num(s.c.size()) + " bytes allocated " + snum(peak) + " bytes");
    VP_CHECK(cx, threw == shortage, threw ? "throws" : "over-read", "reading " + C<T>::name() + " at " + num(s.pos) + " of " + num(s.c.size()) + (threw ? " threw although the bytes are there" : " did not throw although the bytes are missing"));
    size_t cur = s.p.get_cursor();
    VP_CHECK(cx, cur <= s.c.size(), "cursor", "the cursor is at " + num(cur) + " of " + num(s.c.size()));
    if(!threw)
    {
        VP_CHECK(cx, C<T>::eq(got, want), "value", "reading " + C<T>::name() + " at " + num(s.pos) + " gave " + C<T>::str(got) + ", the bytes say " + C<T>::str(want));
        VP_CHECK(cx, cur == r.pos, "cursor", "after reading " + C<T>::name() + " at " + num(s.pos) + " the cursor is " + num(cur) + " instead of " + num(r.pos));
        ++s.hits;
    }
    else { s.threw = true; cx.label("short read"); }
    s.pos = cur;
}

static void rd_view(St &s)
{
    Case &cx = s.cx;
    Reader r(s.c, s.pos);
    std::string want; bool shortage = false;
    try { want = C<std::string>::dec(r); } catch(const Short &) { shortage = true; }
    std::string_view got; bool threw = false;
    try { s.p >> got; } catch(const std::out_of_range &) { threw = true; }
    VP_CHECK(cx, threw == shortage, "view", "reading a string_view at " + num(s.pos) + " of " + num(s.c.size()) + (threw ? " threw" : " did not throw"));
    if(!threw) VP_CHECK(cx, got == want, "value", "string_view content differs");
    s.pos = s.p.get_cursor();
    VP_CHECK(cx, s.pos <= s.c.size(), "cursor", "cursor out of range");
    if(!threw) VP_CHECK(cx, s.pos == r.pos, "cursor", "cursor after string_view");
    s.threw |= threw;
}

static void rd_raw(St &s)
{
    Case &cx = s.cx;
    size_t remaining = s.c.size() - s.pos;
    size_t n;
    switch(cx.draw(5))
    {
        case 0: n = cx.size(40); break;
        case 1: n = remaining; break;
        case 2: n = remaining + 1 + cx.draw(8); break;
        case 3: n = (size_t)cx.integer(64); break;
        default: n = SIZE_MAX - cx.draw(300); break;
    }
    cx.note([&] { return "extract_raw " + num(n) + " at " + num(s.pos); });
    std::string buf(std::min(n, remaining) + 16, '#');
    bool threw = false;
    try { s.p.extract_raw(&buf[0], n); } catch(const std::out_of_range &) { threw = true; }
    bool shortage = n > remaining;
    VP_CHECK(cx, threw == shortage, "raw", "extract_raw(" + num(n) + ") with " + num(remaining) + " bytes left " + (threw ? "threw" : "did not throw"));
    if(!threw)
    {
        VP_CHECK(cx, buf.compare(0, n, s.c, s.pos, n) == 0 && buf.compare(n, 16, std::string(16, '#')) == 0, "raw-value", "extract_raw delivered wrong bytes");
        s.pos += n;
    }
    else { VP_CHECK(cx, buf == std::string(buf.size(), '#'), "raw-written", "a failed extract_raw wrote into the destination"); s.threw = true; }
    VP_CHECK(cx, s.p.get_cursor() == s.pos, "cursor", "cursor after extract_raw is " + num(s.p.get_cursor()) + " instead of " + num(s.pos));
}

static void assert_op(St &s)
{
    Case &cx = s.cx;
    size_t remaining = s.c.size() - s.pos;
    size_t n = cx.flip() ? (size_t)cx.integer(64) : remaining + cx.draw(3);
    bool threw = false;
    try { s.p.assert_bytes_remaining(n); } catch(const std::out_of_range &) { threw = true; }
    VP_CHECK(cx, threw == (n > remaining), "assert", "assert_bytes_remaining(" + num(n) + ") with " + num(remaining) + " left " + (threw ? "threw" : "did not throw"));
}

static void seek(St &s)
{
    Case &cx = s.cx;
    if(cx.flip())
    {
        size_t at = cx.flip() ? (size_t)cx.integer(64) : cx.size(s.c.size() + 4);
        s.p.set_cursor(at);
        s.pos = std::min(at, s.c.size());
        cx.note([&] { return "set_cursor " + num(at); });
    }
    else
    {
        int64_t d = cx.flip() ? (int64_t)cx.integer(64) : cx.range(-20, 20);
        s.p.seek_cursor((ssize_t)d);
        __int128 np = (__int128)s.pos + d;
        s.pos = np < 0 ? 0 : np > (__int128)s.c.size() ? s.c.size() : (size_t)np;
        cx.note([&] { return "seek_cursor " + snum(d); });
    }
    VP_CHECK(cx, s.p.get_cursor() == s.pos, "seek", "after a seek the cursor is " + num(s.p.get_cursor()) + " instead of " + num(s.pos));
}

using Op = void (*)(St &);
static const std::vector<Op> ops = {
    rd<uint8_t>, rd<bool>, rd<uint16_t>, rd<uint32_t>, rd<uint64_t>, rd<int16_t>, rd<int32_t>, rd<int64_t>, rd<float>, rd<double>, rd<std::string>, rd<std::string>, rd_view, rd_raw, rd_raw, seek, seek, assert_op,
    rd<pt::EC16>, rd<pt::ECi32>, rd<pt::Person>,
    rd<std::vector<uint8_t>>, rd<std::vector<bool>>, rd<std::vector<uint16_t>>, rd<std::vector<int64_t>>, rd<std::vector<double>>, rd<std::vector<std::string>>, rd<std::vector<std::vector<uint32_t>>>, rd<std::vector<std::vector<std::vector<bool>>>>,
    rd<std::vector<std::pair<uint8_t, std::string>>>, rd<std::vector<pt::Person>>, rd<std::vector<std::map<uint16_t, bool>>>,
    rd<std::map<std::string, uint32_t>>, rd<std::map<uint8_t, std::vector<uint16_t>>>, rd<std::map<bool, uint8_t>>, rd<std::unordered_map<uint8_t, uint8_t>>, rd<std::unordered_map<std::string, std::vector<uint16_t>>>,
    rd<std::pair<std::string, uint64_t>>, rd<std::pair<std::vector<bool>, float>>,
};

static void prop(Case &cx)
{
    // content: a mix of encoded values, lying lengths and plain bytes
    std::string c;
    size_t parts = cx.draw(7);
    for(size_t a = 0; a < parts; ++a)
        switch(cx.weighted({3, 4, 3, 2}))
        {
            case 0: c += cx.bytes(cx.chance(1, 10) ? 3000 : 24); break;
            case 1: pt::gen_item(cx, 0)->enc(c); break;
            case 2: // a length or count close to what follows, or far away
            {
                size_t follow = cx.size(60);
                uint32_t n = cx.flip() ? (uint32_t)(follow + cx.range(-3, 3)) : (uint32_t)cx.integer(32);
                pt::put(c, n, 4);
                c += cx.blob(follow);
                break;
            }
            default: pt::put(c, cx.draw(6), 4); break;
        }
    fr::Packet p;
    if(cx.flip()) p.add_raw(c.data(), c.size());
    else
    {
        FakeSocket s;
        s.own.cx = &cx;
        std::string h; pt::put(h, c.size(), 4);
        s.own.in = h + c; s.own.in_ev = {{s.own.in.size(), Status::Success}};
        Status st = s.receive(p);
        VP_CHECK(cx, st == Status::Success, "receive", "receive returned " + status_name(st));
    }
    cx.note([&] { return "content " + show(c); });
    St s{cx, p, c, 0};
    size_t n = 1 + cx.draw(24);
    for(size_t a = 0; a < n; ++a)
    {
        ops[cx.draw(ops.size())](s);
        VP_CHECK(cx, p.get_bytes_remaining() == c.size() - s.pos, "remaining", "bytes remaining is " + num(p.get_bytes_remaining()) + ", expected " + num(c.size() - s.pos));
        VP_CHECK(cx, p.size() == c.size(), "size", "reading changed the packet size");
    }
    if(s.threw && s.hits) cx.nontrivial();
    if(s.hits > 3) cx.label(">3 successful reads");
}

Property vp::the_property = {"C03", prop,
    "a case is packet content mixing encoded values, lying lengths and plain bytes, and 1-24 typed reads, raw reads, seeks and space assertions with arbitrary arguments, each compared with an independent decoder; non-trivial: at least one read past the end and one successful read",
    1200000, 8000000};
