// C19: Base64 encoding follows RFC 4648 for every input.
#include <frnetlib/Base64.h>
#include "vp.hpp"
#include "refs.hpp"
using namespace vp;

static void prop(Case &cx)
{
    std::string in = cx.bytes(cx.chance(1, 20) ? 100000 : 300);
    in.shrink_to_fit();
    cx.note([&] { return show(in); });
    std::string got = fr::Base64::encode(in), want = ref::base64(in);
    VP_CHECK(cx, got == want, "encoding", "the encoding of " + show(in) + " is " + show(got) + " instead of " + show(want));
    std::string back;
    VP_CHECK(cx, ref::unbase64(got, back) && back == in, "decodes", "the encoding of " + show(in) + " does not decode to it");
    cx.label("length mod 3 = " + num(in.size() % 3));
    if(in.size() >= 3) cx.nontrivial();
    std::string again = fr::Base64::encode(in);
    VP_CHECK(cx, again == got, "repeat", "encoding twice gave different results");
}

Property vp::the_property = {"C19", prop,
    "a case encodes a byte string (any content, boundary-biased lengths 0-100000) and compares with an independent RFC 4648 encoder and decoder; non-trivial: at least three bytes",
    10000000, 60000000};
