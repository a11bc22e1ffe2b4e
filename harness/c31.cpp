// C31: protocol names and symbolic values convert consistently.
#include <frnetlib/Http.h>
#include <frnetlib/HttpResponse.h>
#include <frnetlib/URL.h>
#include <map>
#include "vp.hpp"
#include "fakesock.hpp"
using namespace vp;
using fr::Http;
using fr::URL;

static const std::vector<std::string> methods = {"GET", "POST", "PUT", "DELETE", "PATCH"};
static const std::vector<std::pair<std::string, Http::TransferEncoding>> codings = {{"chunked", Http::TransferEncoding::Chunked}, {"compress", Http::TransferEncoding::Compress}, {"deflate", Http::TransferEncoding::Deflate}, {"gzip", Http::TransferEncoding::Gzip}, {"identity", Http::TransferEncoding::Identity}, {"none", Http::TransferEncoding::None}};
static const std::vector<std::pair<std::string, URL::Scheme>> schemes = {{"http", URL::HTTP}, {"https", URL::HTTPS}, {"ftp", URL::FTP}, {"mailto", URL::MAILTO}, {"irc", URL::IRC}, {"sftp", URL::SFTP}, {"unknown", URL::Unknown}};

// the registered status codes
struct StatusCode { const char *name; Http::RequestStatus v; unsigned code; };
#define ST(n, c) {#n, Http::RequestStatus::n, c}
static const std::vector<StatusCode> statuses = {ST(Continue, 100), ST(SwitchingProtocols, 101), ST(Ok, 200), ST(Created, 201), ST(Accepted, 202), ST(NonAuthorativeInformation, 203), ST(NoContent, 204), ST(ResetContent, 205), ST(PartialContent, 206), ST(IMUsed, 226), ST(MultipleChoices, 300), ST(MovedPermanently, 301), ST(Found, 302), ST(SeeOther, 303), ST(NotModified, 304), ST(UseProxy, 305), ST(TemporaryRedirect, 307), ST(PermanentRedirect, 308), ST(BadRequest, 400), ST(Unauthorised, 401), ST(PaymentRequired, 402), ST(Forbidden, 403), ST(NotFound, 404), ST(MethodNotAllowed, 405), ST(NotAcceptable, 406), ST(ProxyAuthenticationRequired, 407), ST(RequestTimeout, 408), ST(Conflict, 409), ST(Gone, 410), ST(LengthRequired, 411), ST(PreconditionFailed, 412), ST(RequestEntityTooLarge, 413), ST(RequestURITooLong, 414), ST(UnsupportedMediaType, 415), ST(RequestedRangeNotSatisfiable, 416), ST(ExpectationFailed, 417), ST(ImATeapot, 418), ST(UnprocessableEntity, 422), ST(UpgradeRequired, 426), ST(PreconditionRequired, 428), ST(TooManyRequests, 429), ST(RequestHeaderFieldTooLarge, 431), ST(UnvailableForLegalReasons, 451), ST(InternalServerError, 500), ST(NotImplemented, 501), ST(BadGateway, 502), ST(ServiceUnavailable, 503), ST(GatewayTimeout, 504), ST(HTTPVersionNotSupported, 505), ST(VariantAlsoNegotiates, 506), ST(NotExtended, 510), ST(NetworkAuthenticationRequired, 511), ST(NetworkReadTimeoutError, 598), ST(NetworkConnectTimeoutError, 599)};

static std::string lower(std::string s) { for(auto &c : s) c = (char)tolower((unsigned char)c); return s; }

// a string equal to, or near, one of the names
static std::string near(Case &cx, const std::string &name, bool &is_name)
{
    std::string s = name;
    is_name = false;
    switch(cx.weighted({4, 2, 2, 2, 2, 1, 1}))
    {
        case 0: for(auto &c : s) if(cx.flip()) c = (char)toupper(c); is_name = true; break;
        case 1: s.erase(cx.draw(s.size()), 1); break;
        case 2: s.insert(cx.draw(s.size() + 1), 1, (char)cx.draw(256)); break;
        case 3: s[cx.draw(s.size())] = (char)cx.draw(256); break;
        case 4: s = s.substr(0, cx.draw(s.size())); break;
        case 5: s = cx.bytes(20); break;
        default: s += cx.text(" \tabc-;,", 1, 4);
    }
    return s;
}

static void method_case(Case &cx)
{
    std::string s;
    switch(cx.weighted({3, 3, 3, 2, 2}))
    {
        case 0: { s = methods[cx.draw(5)]; s = s.substr(0, cx.draw(s.size() + 1)); break; }
        case 1: s = methods[cx.draw(5)] + cx.bytes(12); break;
        case 2: { s = methods[cx.draw(5)]; s = s.substr(0, cx.draw(s.size() + 1)); s += (char)cx.draw(256); if(cx.flip()) s += cx.bytes(6); break; }
        case 3: s = cx.text("GETPOSUDLACH", 0, 7); break;
        default: s = cx.bytes(12);
    }
    auto want = Http::RequestType::Unknown;
    for(size_t a = 0; a < methods.size(); ++a) if(s.size() < methods[a].size() && methods[a].compare(0, s.size(), s) == 0) want = Http::RequestType::Partial;
    for(size_t a = 0; a < methods.size(); ++a) if(s.compare(0, methods[a].size(), methods[a]) == 0) want = (Http::RequestType)a;
    auto got = Http::string_to_request_type(s);
    cx.note([&] { return "method " + show(s) + " -> " + num((int)got); });
    VP_CHECK(cx, got == want, "method", "the method of " + show(s) + " is " + num((int)got) + " instead of " + num((int)want));
    if(want != Http::RequestType::Unknown) cx.nontrivial();
}

static void prop(Case &cx)
{
    switch(cx.weighted({60, 40, 40, 10, 8, 2}))
    {
        case 0: method_case(cx); break;
        case 1:
        {
            bool is;
            std::string s = near(cx, cx.pick(codings).first, is);
            auto want = Http::TransferEncoding::None;
            for(auto &c : codings) if(lower(s) == c.first) want = c.second;
            auto got = Http::string_to_transfer_encoding(s);
            cx.note([&] { return "coding " + show(s) + " -> " + num((int)got); });
            VP_CHECK(cx, got == want, "coding", "the transfer coding of " + show(s) + " is " + num((int)got) + " instead of " + num((int)want));
            if(is) cx.nontrivial();
            break;
        }
        case 2:
        {
            bool is;
            std::string s = near(cx, cx.pick(schemes).first, is);
            auto want = URL::Unknown;
            for(auto &c : schemes) if(lower(s) == c.first) want = c.second;
            auto got = URL::string_to_scheme(s);
            cx.note([&] { return "scheme " + show(s) + " -> " + num((int)got); });
            VP_CHECK(cx, got == want, "scheme", "the scheme of " + show(s) + " is " + num((int)got) + " instead of " + num((int)want));
            if(is) cx.nontrivial();
            break;
        }
        case 3:
        {   // values to names and back
            size_t a = cx.draw(18);
            if(a < 5)
            {
                std::string n = Http::request_type_to_string((Http::RequestType)a);
                VP_CHECK(cx, n == methods[a] && Http::string_to_request_type(n) == (Http::RequestType)a, "method-name", "method " + num(a) + " is called " + show(n));
                cx.nontrivial();
            }
            else if(a < 8)
            {
                auto t = (Http::RequestType)a;
                std::string n = Http::request_type_to_string(t);
                VP_CHECK(cx, Http::string_to_request_type(n) == Http::RequestType::Unknown, "method-name", "the name " + show(n) + " of no method is recognised as one");
            }
            else if(a - 8 < schemes.size())
            {
                auto &s = schemes[a - 8];
                std::string n = URL::scheme_to_string(s.second);
                VP_CHECK(cx, n == s.first && URL::string_to_scheme(n) == s.second, "scheme-name", "scheme " + num(s.second) + " is called " + show(n) + " instead of " + s.first);
                cx.nontrivial();
            }
            break;
        }
        case 5:
        {   // HTTP statuses go by their registered codes, in both directions
            auto &st = cx.pick(statuses);
            fr::HttpResponse r, q;
            r.set_status(st.v);
            std::string t = r.construct("h");
            std::string want = " " + num(st.code) + " ";
            VP_CHECK(cx, t.compare(0, 5, "HTTP/") == 0 && t.substr(8, 5) == want, "status-code", std::string("status ") + st.name + " is sent as " + show(t.substr(0, 20)));
            std::string in = "HTTP/1.1 " + num(st.code) + " x\r\n\r\n";
            VP_CHECK(cx, q.parse(in.data(), in.size()) == Status::Success && q.get_status() == st.v, "status-code", "status " + num(st.code) + " is not understood as " + st.name);
            cx.nontrivial();
            break;
        }
        default:
        {   // status descriptions: distinct, whatever errno says
            int e = (int)cx.draw(140);
            std::map<std::string, int> seen;
            for(int a = 1; a <= 21; ++a)
            {
                errno = e;
                std::string d = fr::Socket::status_to_string((Status)a);
                VP_CHECK(cx, !d.empty(), "status-empty", std::string("the description of ") + status_name((Status)a) + " is empty");
                VP_CHECK(cx, !seen.count(d), "status-same", std::string(status_name((Status)a)) + " and " + status_name((Status)seen[d]) + " are both described as " + show(d));
                VP_CHECK(cx, d != fr::Socket::status_to_string(Status::Unknown), "status-unknown", std::string(status_name((Status)a)) + " is described like Unknown");
                seen[d] = a;
            }
            cx.nontrivial();
        }
    }
}

Property vp::the_property = {"C31", prop,
    "a case converts one string at or near a protocol name (prefixes, extensions, one-byte edits, any letter case, arbitrary bytes) or one enumerator, and compares with the table of names; non-trivial: the string is a name, or a prefix of a method, or an enumerator is converted",
    12000000, 72000000};
