// C20: SHA-1 digests match FIPS 180 for every input.
#include <frnetlib/Sha1.h>
#include <mbedtls/sha1.h>
#include <thread>
#include "vp.hpp"
#include "refs.hpp"
using namespace vp;

static const unsigned RARE = 4000000;
// The bit count no longer fits 32 bits. Only mbedtls is fast enough as a reference here.
static void huge(Case &cx)
{
    size_t n = ((size_t)1 << 29) + (cx.flip() ? (size_t)cx.draw(1 << 20) : (size_t)cx.draw(130));
    std::string in(n, (char)cx.draw(256));
    for(size_t a = 0; a < 8; ++a) { uint64_t r = cx.draw(n); in[r] = (char)(r >> 3); }
    unsigned char m[20];
    mbedtls_sha1_ret((const unsigned char *)in.data(), in.size(), m);
    std::string got = fr::Sha1::sha1_digest(in), want((char *)m, 20);
    cx.note([&] { return num(n) + " bytes, mostly alike"; });
    VP_CHECK(cx, got == want, "digest", "the digest of " + num(n) + " bytes is " + ref::hex(got) + " instead of " + ref::hex(want));
    cx.label("over 512 MiB");
    cx.nontrivial();
}

static void prop(Case &cx)
{
    if(cx.chance(1, RARE)) { huge(cx); return; }
    size_t n = 1 + cx.draw(3);
    std::vector<std::string> in, want;
    for(size_t a = 0; a < n; ++a)
    {
        in.push_back(cx.bytes(cx.chance(1, 40) ? 300000 : cx.flip() ? 140 : 1100));
        want.push_back(ref::sha1(in.back()));
        unsigned char m[20];
        mbedtls_sha1_ret((const unsigned char *)in.back().data(), in.back().size(), m);
        VP_CHECK(cx, want.back() == std::string((char *)m, 20), "oracle", "the two reference digests disagree");
        cx.note([&] { return show(in.back()); });
        if(in.back().size() >= 56) cx.nontrivial();
        if(in.back().size() % 64 >= 55) cx.label("padding spills into another block");
    }
    for(size_t a = 0; a < n; ++a)
    {
        std::string got = fr::Sha1::sha1_digest(in[a]);
        VP_CHECK(cx, got == want[a], "digest", "the digest of " + show(in[a]) + " is " + ref::hex(got) + " instead of " + ref::hex(want[a]));
    }
    if(cx.chance(1, 300))
    {   // at the same time
        std::vector<std::string> got(n);
        std::vector<std::thread> t;
        for(size_t a = 0; a < n; ++a) t.emplace_back([&, a] { for(int k = 0; k < 3; ++k) got[a] = fr::Sha1::sha1_digest(in[a]); });
        for(auto &x : t) x.join();
        for(size_t a = 0; a < n; ++a) VP_CHECK(cx, got[a] == want[a], "concurrent", "a digest computed while others ran is wrong");
        cx.label("concurrent");
    }
}

Property vp::the_property = {"C20", prop,
    "a case digests 1-3 byte strings (lengths biased to block and padding boundaries, up to 300000, and two of over 512 MiB), sometimes concurrently, against an independent implementation and mbedtls; non-trivial: at least 56 bytes (more than one block after padding)",
    300000, 4000000, 90, 8, false, nullptr, 0, 0, 3, 3, 60, {{RARE - 1, 0}, {RARE - 1, 1}}};
