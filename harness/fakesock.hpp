// A scripted fr::Socket: the harness decides how the byte stream is segmented
// and where would-block, timeout, disconnection and errors happen.
#pragma once
#include <chrono>
#include <string>
#include <vector>
#include <frnetlib/NetworkEncoding.h>
#include <frnetlib/Socket.h>
#include <frnetlib/Sendable.h>
#include "vp.hpp"

namespace vp
{
using Status = fr::Socket::Status;

inline const char *status_name(Status s)
{
    switch(s)
    {
#define S(x) case Status::x: return #x;
        S(Unknown) S(Success) S(ListenFailed) S(BindFailed) S(Disconnected) S(Error) S(WouldBlock) S(ConnectionFailed) S(HandshakeFailed) S(VerificationFailed)
        S(MaxPacketSizeExceeded) S(NotEnoughData) S(ParseError) S(HttpHeaderTooBig) S(HttpBodyTooBig) S(AddressLookupFailure) S(SendError) S(ReceiveError)
        S(AcceptError) S(SSLError) S(NoRouteToHost) S(Timeout)
#undef S
    }
    return "(unknown status value)";
}

struct Ev { size_t n; Status st; };  // n > 0: up to n bytes pass; n == 0: return st

// One direction of a scripted stream.
struct Wire
{
    Case *cx = nullptr;
    // inbound
    std::string in; size_t in_pos = 0;
    std::vector<Ev> in_ev; size_t in_i = 0; size_t in_left = 0;
    Status in_end = Status::Disconnected;   // when the events or the data run out
    size_t reads = 0, max_request = 0;
    // outbound
    std::string out;
    std::vector<Ev> out_ev; size_t out_i = 0; size_t out_left = 0;
    Status out_end = Status::Success;       // after the events: accept everything, or this error
    // life
    bool is_connected = true;
    int closes = 0, connects = 0;
    Status connect_status = Status::Success;
    std::string connect_address, connect_port;
    std::function<void(Wire &)> on_send;    // called after bytes were sent
    size_t io_after_close = 0;

    Status read(void *data, size_t size, size_t &received)
    {
        received = 0;
        ++reads;
        if(cx) cx->steps();
        if(!is_connected) { ++io_after_close; return Status::ReceiveError; }
        if(size > max_request) max_request = size;
        if(size == 0) return Status::Success;
        while(true)
        {
            if(in_left == 0)
            {
                if(in_i >= in_ev.size()) return in_end;
                Ev e = in_ev[in_i++];
                if(e.n == 0) return e.st;
                in_left = e.n;
            }
            size_t n = std::min(std::min(in_left, size), in.size() - in_pos);
            if(n == 0) { in_left = 0; continue; }
            memcpy(data, in.data() + in_pos, n);
            in_pos += n; in_left -= n;
            received = n;
            return Status::Success;
        }
    }

    Status write(const char *data, size_t size, size_t &sent)
    {
        if(cx) cx->steps();
        if(!is_connected) { ++io_after_close; return Status::SendError; }
        size_t begin = sent;
        Status st = Status::Success;
        while(sent < size)
        {
            if(out_left == 0)
            {
                if(out_i >= out_ev.size())
                {
                    if(out_end != Status::Success) { st = out_end; break; }
                    out.append(data + sent, size - sent);
                    sent = size;
                    break;
                }
                Ev e = out_ev[out_i++];
                if(e.n == 0) { st = e.st; break; }
                out_left = e.n;
            }
            size_t n = std::min(out_left, size - sent);
            out.append(data + sent, n);
            sent += n; out_left -= n;
        }
        if(sent != begin && on_send) on_send(*this);
        return st;
    }
};

class FakeSocket : public fr::Socket
{
public:
    FakeSocket() : w(&own) {}
    explicit FakeSocket(Wire &x) : w(&x) {}
    ~FakeSocket() override = default;
    Wire own;
    Wire *w;
    bool blocking = true;

    Status connect(const std::string &address, const std::string &port, std::chrono::seconds) override
    {
        ++w->connects; w->connect_address = address; w->connect_port = port;
        if(w->connect_status == Status::Success) { w->is_connected = true; set_remote_address(address + ":" + port); }
        return w->connect_status;
    }
    Status set_blocking(bool b) override { blocking = b; return Status::Success; }
    bool get_blocking() const override { return blocking; }
    Status send_raw(const char *data, size_t size, size_t &sent) override { return w->write(data, size, sent); }
    Status receive_raw(void *data, size_t size, size_t &received) override { return w->read(data, size, received); }
    void set_descriptor(void *d) override { w->is_connected = d != nullptr; }
    bool connected() const override { return w->is_connected; }
    int32_t get_socket_descriptor() const override { return w->is_connected ? 1000 : -1; }
protected:
    void close_socket() override { if(w->is_connected) { w->is_connected = false; ++w->closes; } }
    void reconfigure_socket() override {}
};

// events delivering `total` bytes with generated segmentation and would-blocks
// in between (would-blocks only before a segment if `blocks`)
inline std::vector<Ev> gen_events(Case &cx, size_t total, bool blocks)
{
    std::vector<Ev> ev;
    auto sp = cx.splits(total);
    unsigned rate = blocks ? (unsigned)cx.draw(4) : 0;
    if(sp.size() > 200 && rate) { // keep the number of choices small
        Rng r(cx.draw(1 << 16));
        for(auto n : sp) { while(r.below(4) < rate && r.below(2)) ev.push_back({0, Status::WouldBlock}); ev.push_back({n, Status::Success}); }
        return ev;
    }
    for(auto n : sp)
    {
        if(rate) while(cx.draw(4) >= 4u - rate && ev.size() < 4000) { ev.push_back({0, Status::WouldBlock}); if(!cx.flip()) break; }
        ev.push_back({n, Status::Success});
    }
    return ev;
}

inline std::string show_events(const std::vector<Ev> &ev)
{
    std::string s = "[";
    size_t k = 0;
    for(auto &e : ev) { if(k++ > 40) { s += "..."; break; } s += e.n ? std::to_string(e.n) : std::string(status_name(e.st)); s += " "; }
    return s + "]";
}

// bytes a Sendable puts on the wire
inline std::string wire_of(const fr::Sendable &o, Case &cx)
{
    FakeSocket s;
    s.own.cx = &cx;
    Status st = s.send(o);
    if(st != Status::Success) cx.fail("send-status", std::string("sending over a healthy connection returned ") + status_name(st));
    return s.own.out;
}
}
