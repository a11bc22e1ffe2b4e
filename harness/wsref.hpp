// An independent RFC 6455 frame codec.
#pragma once
#include "fakesock.hpp"
#include <memory>
namespace ws
{
struct Frame { bool fin = false, masked = false, minimal = true; int rsv = 0, op = 0; uint64_t len = 0; std::string key, data; size_t header = 0; };

// 1: decoded, 0: incomplete (header fields known so far are set)
inline int decode(const std::string &s, size_t &pos, Frame &f)
{
    auto at = [&](size_t i) { return (unsigned char)s[i]; };
    size_t p = pos;
    f = Frame();
    if(s.size() - p < 2) return 0;
    f.fin = at(p) & 0x80; f.rsv = (at(p) >> 4) & 7; f.op = at(p) & 15;
    f.masked = at(p + 1) & 0x80;
    f.len = at(p + 1) & 0x7f;
    p += 2;
    size_t ext = f.len == 126 ? 2 : f.len == 127 ? 8 : 0;
    if(s.size() - p < ext) { f.header = 0; return 0; }
    if(ext)
    {
        f.len = 0;
        for(size_t a = 0; a < ext; ++a) f.len = f.len << 8 | at(p + a);
        f.minimal = ext == 2 ? f.len > 125 : f.len > 65535;
        p += ext;
    }
    f.header = p - pos;
    if(f.masked) { if(s.size() - p < 4) return 0; f.key = s.substr(p, 4); p += 4; }
    if(s.size() - p < f.len) return 0;
    f.data = s.substr(p, f.len);
    if(f.masked) for(size_t a = 0; a < f.data.size(); ++a) f.data[a] ^= f.key[a & 3];
    pos = p + f.len;
    return 1;
}

inline std::string encode(int op, bool fin, bool mask, const std::string &key, const std::string &data, unsigned form = 0)
{
    std::string s;
    s += (char)((fin ? 0x80 : 0) | op);
    uint64_t n = data.size();
    if(form == 0) form = n <= 125 ? 1 : n <= 65535 ? 2 : 8;
    char m = mask ? (char)0x80 : 0;
    if(form == 1) s += (char)(m | (char)n);
    else
    {
        s += (char)(m | (form == 2 ? 126 : 127));
        for(int a = (int)form * 8 - 8; a >= 0; a -= 8) s += (char)(n >> a);
    }
    if(mask) s += key;
    for(size_t a = 0; a < n; ++a) s += mask ? (char)(data[a] ^ key[a & 3]) : data[a];
    return s;
}
}
