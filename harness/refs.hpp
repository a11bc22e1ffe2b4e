// Small independent reference implementations.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
namespace ref
{
inline std::string hex(const std::string &s) { std::string o; for(unsigned char c : s) { o += "0123456789abcdef"[c >> 4]; o += "0123456789abcdef"[c & 15]; } return o; }

inline std::string base64(const std::string &in)
{   // bit by bit
    static const char *t = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string out;
    uint32_t acc = 0; int bits = 0;
    for(unsigned char c : in) { acc = (acc << 8 | c) & 0xffffff; bits += 8; while(bits >= 6) { bits -= 6; out += t[acc >> bits & 63]; } }
    if(bits) out += t[acc << (6 - bits) & 63];
    while(out.size() % 4) out += '=';
    return out;
}

inline bool unbase64(const std::string &in, std::string &out)
{   // strict: padded, canonical
    out.clear();
    if(in.size() % 4) return false;
    uint32_t acc = 0; int bits = 0;
    size_t pad = 0;
    for(size_t a = 0; a < in.size(); ++a)
    {
        unsigned char c = in[a];
        int v = c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' ? 62 : c == '/' ? 63 : -1;
        if(c == '=') { if(a + 2 < in.size() || ++pad > 2) return false; continue; }
        if(v < 0 || pad) return false;
        acc = (acc << 6 | v) & 0xffff; bits += 6;
        if(bits >= 8) { bits -= 8; out += (char)(acc >> bits & 255); }
    }
    return (acc & ((1u << bits) - 1)) == 0;
}

inline std::string sha1(const std::string &in)
{
    uint32_t h[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0};
    std::string m = in;
    m += (char)0x80;
    while(m.size() % 64 != 56) m += (char)0;
    uint64_t bits = (uint64_t)in.size() * 8;
    for(int a = 7; a >= 0; --a) m += (char)(bits >> (8 * a));
    auto rol = [](uint32_t x, int n) { return x << n | x >> (32 - n); };
    for(size_t o = 0; o < m.size(); o += 64)
    {
        uint32_t w[80];
        for(int t = 0; t < 16; ++t) w[t] = (uint32_t)(unsigned char)m[o + 4 * t] << 24 | (uint32_t)(unsigned char)m[o + 4 * t + 1] << 16 | (uint32_t)(unsigned char)m[o + 4 * t + 2] << 8 | (unsigned char)m[o + 4 * t + 3];
        for(int t = 16; t < 80; ++t) w[t] = rol(w[t - 3] ^ w[t - 8] ^ w[t - 14] ^ w[t - 16], 1);
        uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
        for(int t = 0; t < 80; ++t)
        {
            uint32_t f, k;
            if(t < 20) f = (b & c) | (~b & d), k = 0x5A827999;
            else if(t < 40) f = b ^ c ^ d, k = 0x6ED9EBA1;
            else if(t < 60) f = (b & c) | (b & d) | (c & d), k = 0x8F1BBCDC;
            else f = b ^ c ^ d, k = 0xCA62C1D6;
            uint32_t x = rol(a, 5) + f + e + k + w[t];
            e = d; d = c; c = rol(b, 30); b = a; a = x;
        }
        h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
    }
    std::string out;
    for(uint32_t x : h) for(int s = 24; s >= 0; s -= 8) out += (char)(x >> s);
    return out;
}

inline std::string ws_accept(const std::string &key) { return base64(sha1(key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11")); }
}
