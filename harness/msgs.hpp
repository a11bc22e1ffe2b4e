// Messages of every kind, generated up front and exchanged between threads
// without touching the Case (used by the checks with real connections).
#pragma once
#include <atomic>
#include <chrono>
#include <memory>
#include <mutex>
#include <thread>
#include <frnetlib/TcpSocket.h>
#include <frnetlib/TcpListener.h>
#include <frnetlib/Packet.h>
#include <frnetlib/HttpRequest.h>
#include <frnetlib/HttpResponse.h>
#include <frnetlib/WebFrame.h>
#include <frnetlib/WebSocket.h>
#include "fakesock.hpp"
#include "sys.hpp"

namespace msgs
{
using namespace vp;
using fr::Http;
enum Kind { RAW, PACKET, REQUEST, RESPONSE, FRAME };
static const char *const KIND[] = {"raw data", "packet", "HTTP request", "HTTP response", "WebSocket frame"};
struct Item
{
    Kind kind = RAW;
    bool up = true;             // sent by the client
    std::string data;
    uint64_t seed = 0;
    size_t pieces = 1;          // raw data: how many sends
    unsigned pause = 0;         // microseconds before sending
    std::string str() const { return std::string(up ? ">" : "<") + KIND[kind] + " of " + num(data.size()); }
};

inline Item gen_item(Case &cx, bool allow_frames, size_t big)
{
    Item it;
    it.kind = (Kind)cx.weighted({4, 4, 2, 2, allow_frames ? 4u : 0u});
    it.up = it.kind == REQUEST ? true : it.kind == RESPONSE ? false : !cx.flip();
    size_t len;
    switch(cx.weighted({6, 3, 1}))
    {
        case 0: len = cx.draw(200); break;
        case 1: len = cx.pick<size_t>({0, 1, 125, 126, 127, 4095, 4096, 4097, 8192, 65535, 65536, 65537, 16384, 16385}) % (big + 1); break;
        default: len = cx.draw(big + 1);
    }
    if(it.kind == RAW && len == 0) len = 1;
    it.data = cx.blob(len);
    it.seed = cx.draw(1 << 20);
    it.pieces = it.kind == RAW ? 1 + cx.draw(4) : 1;
    it.pause = cx.chance(1, 4) ? (unsigned)cx.draw(300) : 0;
    return it;
}

// A valid script: an HTTP message is followed by one in the other direction,
// since a receiver may read past the end of it.
inline std::vector<Item> gen_script(Case &cx, size_t max, bool frames, size_t big)
{
    std::vector<Item> v;
    size_t n = 1 + cx.draw(max);
    for(size_t a = 0; a < n; ++a)
    {
        Item it = gen_item(cx, frames, big);
        if(!v.empty() && (v.back().kind == REQUEST || v.back().kind == RESPONSE) && v.back().up == it.up)
        {
            if(it.kind == REQUEST) it.kind = RESPONSE;
            else if(it.kind == RESPONSE) it.kind = REQUEST;
            it.up = !it.up;
        }
        v.push_back(std::move(it));
    }
    return v;
}

inline fr::Socket::Status send_all(fr::Socket &s, const char *p, size_t n)
{
    size_t sent = 0;
    auto limit = std::chrono::steady_clock::now() + std::chrono::seconds(20);
    while(true)
    {
        auto st = s.send_raw(p, n, sent);
        if(st != fr::Socket::Status::WouldBlock) return st;
        if(std::chrono::steady_clock::now() > limit) return fr::Socket::Status::Timeout;
        pollfd f = {s.get_socket_descriptor(), POLLOUT, 0};
        __real_poll(&f, 1, 50);
    }
}

inline fr::Socket::Status recv_all(fr::Socket &s, char *p, size_t n, size_t &got)
{
    got = 0;
    auto limit = std::chrono::steady_clock::now() + std::chrono::seconds(20);
    while(got < n)
    {
        size_t r = 0;
        auto st = s.receive_raw(p + got, n - got, r);
        got += r;
        if(st == fr::Socket::Status::WouldBlock)
        {
            if(std::chrono::steady_clock::now() > limit) return fr::Socket::Status::Timeout;
            pollfd f = {s.get_socket_descriptor(), POLLIN, 0};
            __real_poll(&f, 1, 5);
            continue;
        }
        if(st != fr::Socket::Status::Success) return st;
        if(r == 0) return fr::Socket::Status::Unknown;
    }
    return fr::Socket::Status::Success;
}

inline void fill(fr::Packet &p, const Item &it)
{
    std::vector<uint32_t> v;
    for(uint64_t a = 0; a < it.seed % 7; ++a) v.push_back((uint32_t)(it.seed * 2654435761u * (a + 1)));
    p << it.seed << v << it.data << (int16_t)it.seed << (it.seed % 3 == 0);
}

inline fr::Socket::Status send_item(fr::Socket &s, const Item &it, bool client)
{
    if(it.pause) usleep(it.pause);
    switch(it.kind)
    {
        case RAW:
        {
            size_t at = 0;
            for(size_t a = 0; a < it.pieces; ++a)
            {
                size_t n = a + 1 == it.pieces ? it.data.size() - at : it.data.size() / it.pieces;
                auto st = send_all(s, it.data.data() + at, n);
                if(st != fr::Socket::Status::Success) return st;
                at += n;
                if(it.seed & 1) std::this_thread::yield();
            }
            return fr::Socket::Status::Success;
        }
        case PACKET: { fr::Packet p; fill(p, it); return s.send(p); }
        case REQUEST:
        {
            fr::HttpRequest r;
            r.set_type((Http::RequestType)(1 + it.seed % 3));   // never GET, so that any body is fine
            r.set_uri("/m" + num(it.seed));
            r.header("X-Seed") = num(it.seed);
            r.get("k") = num(it.seed);
            if(!it.data.empty()) r.set_body(it.data);
            return s.send(r);
        }
        case RESPONSE:
        {
            fr::HttpResponse r;
            r.set_status((Http::RequestStatus)(200 + it.seed % 300));
            r.header("X-Seed") = num(it.seed);
            r.set_body(it.data);
            return s.send(r);
        }
        default:
        {
            fr::ClientWebFrame c; fr::ServerWebFrame v;
            fr::WebFrame &f = client ? (fr::WebFrame &)c : v;
            f.set_opcode(it.seed % 3 == 0 ? fr::WebFrame::Opcode::Text : it.seed % 3 == 1 ? fr::WebFrame::Opcode::Binary : fr::WebFrame::Opcode::Continuation);
            f.set_final(it.seed & 4);
            f.set_payload(it.data);
            return s.send(f);
        }
    }
}

inline std::string diff(const std::string &got, const std::string &want)
{
    if(got.size() != want.size()) return num(got.size()) + " bytes instead of " + num(want.size());
    for(size_t a = 0; a < got.size(); ++a) if(got[a] != want[a]) return "byte " + num(a) + " of " + num(want.size()) + " differs";
    return "";
}

// empty if the item arrived unchanged
inline std::string recv_item(fr::Socket &s, const Item &it, bool client, fr::Socket::Status &st)
{
    auto bad = [&](const std::string &w) { return "a " + it.str() + " bytes: " + w; };
    switch(it.kind)
    {
        case RAW:
        {
            std::string got(it.data.size(), '\1'); size_t n = 0;
            st = recv_all(s, &got[0], got.size(), n);
            if(st != fr::Socket::Status::Success) return bad(std::string("receiving returned ") + status_name(st) + " after " + num(n) + " bytes");
            std::string d = diff(got, it.data);
            return d.empty() ? "" : bad(d);
        }
        case PACKET:
        {
            fr::Packet p("old");
            st = s.receive(p);
            if(st != fr::Socket::Status::Success) return bad(std::string("receiving returned ") + status_name(st));
            uint64_t seed = 0; std::vector<uint32_t> v; std::string d; int16_t i = 0; bool b = false;
            try { p >> seed >> v >> d >> i >> b; } catch(const std::exception &e) { return bad(std::string("unpacking threw ") + e.what()); }
            if(d != it.data) return bad(diff(d, it.data));
            if(seed != it.seed || v.size() != it.seed % 7 || i != (int16_t)it.seed || b != (it.seed % 3 == 0)) return bad("a field differs");
            for(uint64_t a = 0; a < v.size(); ++a) if(v[a] != (uint32_t)(it.seed * 2654435761u * (a + 1))) return bad("an element differs");
            return "";
        }
        case REQUEST:
        case RESPONSE:
        {
            fr::HttpRequest q; fr::HttpResponse r;
            Http &h = it.kind == REQUEST ? (Http &)q : r;
            do st = s.receive(h); while(st == fr::Socket::Status::WouldBlock);
            if(st != fr::Socket::Status::Success) return bad(std::string("receiving returned ") + status_name(st));
            if(h.get_body() != it.data) return bad("body: " + diff(h.get_body(), it.data));
            if(h.header("x-seed") != num(it.seed)) return bad("a header differs");
            if(it.kind == REQUEST) { if(h.get_type() != (Http::RequestType)(1 + it.seed % 3) || h.get_uri() != "/m" + num(it.seed) || h.get("k") != num(it.seed)) return bad("the request line differs"); }
            else if((uint64_t)h.get_status() != 200 + it.seed % 300) return bad("the status differs");
            return "";
        }
        default:
        {
            fr::ClientWebFrame c; fr::ServerWebFrame v;
            fr::WebFrame &f = client ? (fr::WebFrame &)c : v;
            do st = s.receive(f); while(st == fr::Socket::Status::WouldBlock);
            if(st != fr::Socket::Status::Success) return bad(std::string("receiving returned ") + status_name(st));
            std::string d = diff(f.get_payload(), it.data);
            if(!d.empty()) return bad(d);
            auto op = it.seed % 3 == 0 ? fr::WebFrame::Opcode::Text : it.seed % 3 == 1 ? fr::WebFrame::Opcode::Binary : fr::WebFrame::Opcode::Continuation;
            if(f.get_opcode() != op || f.is_final() != (bool)(it.seed & 4)) return bad("opcode or final flag differ");
            return "";
        }
    }
}
}
