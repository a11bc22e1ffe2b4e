// C22: raw socket I/O transfers exactly the requested bytes whatever the kernel does.
#include <csignal>
#include <sys/mman.h>
#include <sys/wait.h>
#include <frnetlib/TcpSocket.h>
#include "fakesock.hpp"
#include "sys.hpp"
using namespace vp;

struct Script : Sys
{
    Case *cx;
    int fd = -1;
    std::vector<Ev> ev; size_t i = 0;   // n > 0: up to n bytes; n == 0: errno in err
    std::vector<int> err;               // parallel to ev
    std::string out;                    // bytes handed to the system
    std::string in; size_t in_pos = 0;
    size_t calls = 0, foreign = 0, interrupts = 0;
    std::string bad;

    ssize_t do_send(int f, const char *b, size_t n)
    {
        cx->steps();
        if(f != fd) { ++foreign; errno = EBADF; return -1; }
        ++calls;
        if(n == 0) return 0;
        size_t k = n;
        if(i < ev.size()) { Ev e = ev[i]; int er = err[i]; ++i; if(e.n == 0) { if(er == EINTR) ++interrupts; errno = er; return -1; } k = std::min(n, e.n); }
        out.append(b, k);
        errno = EBADMSG;    // errno means nothing after success
        return (ssize_t)k;
    }
    ssize_t do_recv(int f, char *b, size_t n)
    {
        cx->steps();
        if(f != fd) { ++foreign; errno = EBADF; return -1; }
        ++calls;
        size_t k = n;
        if(i < ev.size()) { Ev e = ev[i]; int er = err[i]; ++i; if(e.n == 0) { if(er == EINTR) ++interrupts; errno = er; return -1; } k = std::min(n, e.n); }
        else k = 0;
        k = std::min(k, in.size() - in_pos);
        memcpy(b, in.data() + in_pos, k);
        in_pos += k;
        errno = EINTR;
        return (ssize_t)k;
    }
    ssize_t send(int f, const void *b, size_t n, int) override { return do_send(f, (const char *)b, n); }
    ssize_t sendto(int f, const void *b, size_t n, int, const sockaddr *, socklen_t) override { return do_send(f, (const char *)b, n); }
    ssize_t write(int f, const void *b, size_t n) override { return do_send(f, (const char *)b, n); }
    ssize_t sendmsg(int f, const msghdr *m, int) override { return m->msg_iovlen ? do_send(f, (const char *)m->msg_iov[0].iov_base, m->msg_iov[0].iov_len) : 0; }
    ssize_t recv(int f, void *b, size_t n, int) override { return do_recv(f, (char *)b, n); }
    ssize_t recvfrom(int f, void *b, size_t n, int, sockaddr *, socklen_t *) override { return do_recv(f, (char *)b, n); }
    ssize_t read(int f, void *b, size_t n) override { return do_recv(f, (char *)b, n); }
    ssize_t recvmsg(int f, msghdr *m, int) override { return m->msg_iovlen ? do_recv(f, (char *)m->msg_iov[0].iov_base, m->msg_iov[0].iov_len) : 0; }
};

// a kernel that takes and delivers gigabytes without touching them: only where they come from and go to matters
struct Huge : Sys
{
    Case *cx;
    int fd = -1; const char *base = nullptr; uint64_t at = 0, size = 0;
    std::vector<uint64_t> takes; size_t i = 0;      // 0: interrupted
    std::string bad; bool elsewhere = false;
    ssize_t go(int f, const void *b, size_t n)
    {
        cx->steps();
        if((const char *)b < base || (const char *)b >= base + (6ull << 30)) { elsewhere = true; errno = EFAULT; return -1; }   // through a buffer of its own
        if(f != fd || (const char *)b != base + at || n > size - at) { if(bad.empty()) bad = "was asked for " + num(n) + " bytes at offset " + snum((const char *)b - base) + " instead of at most " + num(size - at) + " at " + num(at); errno = EFAULT; return -1; }
        uint64_t k = std::min<uint64_t>(n, 0x7ffff000);         // the most Linux transfers at once
        if(i < takes.size()) { uint64_t w = takes[i++]; if(!w) { errno = EINTR; return -1; } k = std::min(k, w); }
        at += k;
        return (ssize_t)k;
    }
    ssize_t send(int f, const void *b, size_t n, int) override { return go(f, b, n); }
    ssize_t sendto(int f, const void *b, size_t n, int, const sockaddr *, socklen_t) override { return go(f, b, n); }
    ssize_t write(int f, const void *b, size_t n) override { return go(f, b, n); }
    ssize_t sendmsg(int f, const msghdr *m, int) override { return m->msg_iovlen ? go(f, m->msg_iov[0].iov_base, m->msg_iov[0].iov_len) : 0; }
    ssize_t recv(int f, void *b, size_t n, int) override { return go(f, b, n); }
    ssize_t recvfrom(int f, void *b, size_t n, int, sockaddr *, socklen_t *) override { return go(f, b, n); }
    ssize_t read(int f, void *b, size_t n) override { return go(f, b, n); }
    ssize_t recvmsg(int f, msghdr *m, int) override { return m->msg_iovlen ? go(f, m->msg_iov[0].iov_base, m->msg_iov[0].iov_len) : 0; }
};

static void huge(Case &cx, fr::TcpSocket &s, int fd)
{
    const uint64_t MAX = 6ull << 30;
    static char *area = (char *)mmap(nullptr, MAX, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if(area == MAP_FAILED) cx.discard();
    Huge h; h.cx = &cx; h.fd = fd; h.base = area;
    static const uint64_t B[] = {1ull << 31, 1ull << 32, 0x7ffff000, 1ull << 24, 1ull << 20, 5ull << 30};
    auto near = [&] { uint64_t b = B[cx.draw(6)]; return cx.flip() ? b + cx.draw(6) - std::min<uint64_t>(3, b) : b + cx.draw(b / 2); };
    h.size = near();
    for(size_t n = cx.draw(5); n; --n) h.takes.push_back(cx.draw(4) == 0 ? 0 : near());
    int what = (int)cx.draw(3);
    Status st; size_t done = 0; uint64_t from = 0;
    if(what == 0) from = h.at = done = cx.flip() ? 0 : cx.draw(h.size);
    { UseSys u(h); st = what == 0 ? s.send_raw(area, h.size, done) : what == 1 ? s.receive_all(area, h.size) : s.receive_raw(area, h.size, done); }
    const char *name[] = {"sending", "receiving exactly", "receiving up to"};
    std::string ctx = std::string(name[what]) + " " + num(h.size) + " bytes";
    cx.note([&] { return ctx; });
    if(h.elsewhere) cx.discard();
    VP_CHECK(cx, h.bad.empty(), "huge-place", ctx + " from " + num(from) + ": the system " + h.bad);
    VP_CHECK(cx, st == Status::Success, "huge-status", ctx + " returned " + status_name(st));
    if(what == 2) VP_CHECK(cx, h.at > 0 && done == h.at, "huge-count", ctx + " reports " + num(done) + " bytes instead of " + num(h.at));
    else VP_CHECK(cx, h.at == h.size && (what || done == h.size), "huge-count", ctx + " handled " + num(h.at) + " of them");
    cx.label("gigabytes");
    cx.nontrivial();
}

// sending to a peer that is gone is an error, not the end of the process; in a child of its own, where SIGPIPE is not ignored
static void vanished(Case &cx)
{
    bool blocking = cx.flip(); size_t n = 1 + cx.draw(3);
    int pfd[2];
    if(::pipe(pfd)) cx.discard();
    pid_t pid = ::fork();
    if(pid < 0) { ::close(pfd[0]); ::close(pfd[1]); cx.discard(); }
    if(pid == 0)
    {
        signal(SIGPIPE, SIG_DFL);
        int p[2];
        if(::socketpair(AF_UNIX, SOCK_STREAM, 0, p)) _exit(0);
        std::string res;
        {
            fr::TcpSocket s; int32_t fd = p[0]; s.set_descriptor(&fd);
            if(!blocking) s.set_blocking(false);
            ::close(p[1]);
            for(size_t a = 0; a < n; ++a) { size_t sent = 0; Status st = s.send_raw("abc", 3, sent); res += st == Status::SendError && sent == 0 ? "." : std::string("sending to a peer that is gone returned ") + status_name(st) + " with " + num(sent) + " bytes sent"; }
        }
        if(::write(pfd[1], res.data(), res.size()) < 0) _exit(1);
        _exit(0);
    }
    ::close(pfd[1]);
    std::string res; char b[200]; ssize_t k;
    while((k = ::read(pfd[0], b, sizeof b)) > 0) res.append(b, (size_t)k);
    ::close(pfd[0]);
    int st = 0;
    while(::waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    VP_CHECK(cx, !(WIFSIGNALED(st) && WTERMSIG(st) == SIGPIPE), "killed", "sending to a peer that is gone ended the process");
    if(!WIFEXITED(st) || WEXITSTATUS(st)) cx.discard();
    VP_CHECK(cx, res.empty() || res == std::string(n, '.'), "vanished", res);
    cx.label("peer gone");
    cx.nontrivial();
}

static const char *ename(int e) { switch(e) { case EINTR: return "EINTR"; case EAGAIN: return "EAGAIN"; case EPIPE: return "EPIPE"; case ECONNRESET: return "ECONNRESET"; default: return "errno"; } }

static void prop(Case &cx)
{
    cx.reset_steps(1000000);
    static int fds[2] = {-1, -1};
    if(fds[0] < 0) { if(::socketpair(AF_UNIX, SOCK_STREAM, 0, fds) != 0) cx.discard(); }
    Script sc;
    sc.cx = &cx;
    fr::TcpSocket s;
    int32_t fd = dup(fds[0]);
    ::fcntl(fd, F_SETFL, ::fcntl(fd, F_GETFL) & ~O_NONBLOCK);   // shared with the original
    sc.fd = fd;
    s.set_descriptor(&fd);
    if(cx.chance(1, 3000)) { if(cx.chance(1, 4)) vanished(cx); else huge(cx, s, fd); return; }
    bool blocking = cx.flip();
    if(!blocking) { Status st = s.set_blocking(false); VP_CHECK(cx, st == Status::Success, "set-blocking", "could not be made non-blocking"); }
    else if(cx.flip()) { s.set_blocking(false); s.set_blocking(true); }
    Status idle = blocking ? Status::Timeout : Status::WouldBlock;
    int rounds = 1 + (int)cx.draw(3);
    bool interesting = false;
    static const int OTHER[] = {EPIPE, ECONNRESET, ENOBUFS, ENOTCONN, ETIMEDOUT, EIO, ENOMEM, EBADF, EFAULT, ECONNREFUSED, EHOSTUNREACH};
    if(cx.flip())
    {   // sending
        std::string data = cx.chance(1, 6) ? cx.blob(cx.draw(200000)) : cx.bytes(60);
        size_t sent = 0;
        bool whole = true;
        if(cx.chance(1, 4)) { sent = cx.draw(data.size() + 1); whole = false; }     // resuming an earlier send
        size_t start = sent;
        for(int r = 0; r < rounds * 4; ++r)
        {
            sc.ev.clear(); sc.err.clear(); sc.i = 0;
            size_t n = cx.draw(8);
            Status want = Status::Success;
            size_t expect = sent;
            for(size_t a = 0; a < n && want == Status::Success && expect < data.size(); ++a)
                switch(cx.weighted({5, 3, 2, 1}))
                {
                    case 0: { size_t k = cx.flip() ? 1 + cx.draw(20) : 1 + cx.draw(data.size()); sc.ev.push_back({k, Status::Success}); sc.err.push_back(0); expect = std::min(data.size(), expect + k); break; }
                    case 1: sc.ev.push_back({0, Status::Success}); sc.err.push_back(EINTR); break;
                    case 2: sc.ev.push_back({0, Status::Success}); sc.err.push_back(EAGAIN); want = idle; break;
                    default: sc.ev.push_back({0, Status::Success}); sc.err.push_back(OTHER[cx.draw(11)]); want = Status::SendError; break;
                }
            if(want == Status::Success) expect = data.size();
            if(expect == data.size()) want = Status::Success;
            cx.note([&] { std::string t = "send " + num(data.size() - sent) + " of " + num(data.size()) + " bytes: "; for(size_t a = 0; a < sc.ev.size(); ++a) t += sc.ev[a].n ? num(sc.ev[a].n) + " " : std::string(ename(sc.err[a])) + " "; return t + "-> expect " + status_name(want); });
            if(sc.ev.size() > 1) interesting = true;
            size_t was = sent;
            Status st;
            { UseSys u(sc); st = s.send_raw(data.data(), data.size(), sent); }
            std::string ctx = "sending bytes " + num(was) + " to " + num(data.size()) + " on a " + (blocking ? "blocking" : "non-blocking") + " socket";
            VP_CHECK(cx, st == want, "send-status", ctx + " returned " + status_name(st) + " instead of " + status_name(want));
            VP_CHECK(cx, sent == expect, "send-count", ctx + " reports " + num(sent) + " bytes sent instead of " + num(expect));
            VP_CHECK(cx, sc.out == data.substr(start, sent - start), "send-bytes", ctx + " handed other bytes to the system (" + num(sc.out.size()) + " instead of " + num(sent - start) + ")");
            VP_CHECK(cx, sc.foreign == 0, "foreign", "another descriptor was used");
            cx.label(std::string("send ") + status_name(st));
            if(sent == data.size()) break;
        }
        (void)whole;
    }
    else
    {   // receiving
        bool large = cx.chance(1, 100);
        sc.in = large ? cx.blob(60000 + cx.draw(200000)) : cx.chance(1, 6) ? cx.blob(cx.draw(50000)) : cx.bytes(60);
        std::string got;
        for(int r = 0; r < rounds * 4; ++r)
        {
            sc.ev.clear(); sc.err.clear(); sc.i = 0;
            size_t buf = 1 + (large ? cx.draw(300000) : cx.flip() ? cx.draw(16) : cx.draw(8192));
            size_t n = cx.draw(5);
            size_t at = sc.in_pos;
            Status want = Status::Unknown;
            for(size_t a = 0; a < n; ++a) { sc.ev.push_back({0, Status::Success}); sc.err.push_back(EINTR); }
            size_t expect = 0;
            switch(cx.weighted({5, 2, 1, 1}))
            {
                case 0: { size_t k = 1 + cx.draw(buf * 2); sc.ev.push_back({k, Status::Success}); sc.err.push_back(0); expect = std::min(std::min(k, buf), sc.in.size() - at); want = expect ? Status::Success : Status::Disconnected; break; }
                case 1: sc.ev.push_back({0, Status::Success}); sc.err.push_back(EAGAIN); want = idle; break;
                case 2: want = Status::Disconnected; break;
                default: sc.ev.push_back({0, Status::Success}); sc.err.push_back(OTHER[cx.draw(11)]); want = Status::ReceiveError; break;
            }
            std::string b(buf + 8, '~');
            size_t received = cx.flip() ? 0 : 77777;
            cx.note([&] { std::string t = "receive up to " + num(buf) + ": "; for(size_t a = 0; a < sc.ev.size(); ++a) t += sc.ev[a].n ? num(sc.ev[a].n) + " " : std::string(ename(sc.err[a])) + " "; return t + "-> expect " + status_name(want); });
            if(sc.ev.size() > 1) interesting = true;
            Status st;
            { UseSys u(sc); st = s.receive_raw(&b[0], buf, received); }
            std::string ctx = std::string("receiving up to ") + num(buf) + " bytes on a " + (blocking ? "blocking" : "non-blocking") + " socket after " + num(n) + " interruptions";
            VP_CHECK(cx, st == want, "receive-status", ctx + " returned " + status_name(st) + " instead of " + status_name(want));
            VP_CHECK(cx, sc.in_pos == at + expect, "receive-consumed", ctx + " took " + num(sc.in_pos - at) + " bytes from the system instead of " + num(expect));
            if(st == Status::Success) VP_CHECK(cx, received == expect, "receive-count", ctx + " reports " + num(received) + " bytes instead of " + num(expect));
            else VP_CHECK(cx, received == 0, "receive-count", ctx + " failed but reports " + num(received) + " bytes");
            VP_CHECK(cx, b.substr(0, expect) == sc.in.substr(at, expect) && b.substr(buf) == "~~~~~~~~", "receive-bytes", ctx + " delivered other bytes or wrote behind the buffer");
            VP_CHECK(cx, sc.foreign == 0, "foreign", "another descriptor was used");
            cx.label(std::string("receive ") + status_name(st));
            got += b.substr(0, expect);
        }
        VP_CHECK(cx, got == sc.in.substr(0, got.size()), "receive-stream", "the stream was damaged");
        if(cx.flip())
        {   // an exact read on top of it
            size_t at = sc.in_pos, want = cx.draw(sc.in.size() - at + 4);
            sc.ev.clear(); sc.err.clear(); sc.i = 0;
            size_t pieces = cx.draw(6);
            bool first = true;
            for(size_t a = 0; a < pieces; ++a)
                switch(cx.weighted({4, 2, first || blocking ? 0u : 2u}))
                {
                    case 0: sc.ev.push_back({1 + cx.draw(sc.in.size() + 1), Status::Success}); sc.err.push_back(0); first = false; break;
                    case 1: sc.ev.push_back({0, Status::Success}); sc.err.push_back(EINTR); break;
                    default: sc.ev.push_back({0, Status::Success}); sc.err.push_back(EAGAIN); break;
                }
            for(int a = 0; a < 2; ++a) { sc.ev.push_back({sc.in.size() + 10, Status::Success}); sc.err.push_back(0); }
            std::string b(want + 8, '~');
            Status st;
            { UseSys u(sc); st = s.receive_all(&b[0], want); }
            bool there = want <= sc.in.size() - at;
            VP_CHECK(cx, (st == Status::Success) == there, "exact-status", "reading exactly " + num(want) + " of " + num(sc.in.size() - at) + " bytes returned " + status_name(st));
            if(there) VP_CHECK(cx, b == sc.in.substr(at, want) + "~~~~~~~~" && sc.in_pos == at + want, "exact-bytes", "reading exactly " + num(want) + " bytes delivered other ones or consumed " + num(sc.in_pos - at));
            if(want > 1) interesting = true;
        }
    }
    if(interesting) cx.nontrivial();
}

Property vp::the_property = {"C22", prop,
    "a case drives send_raw, receive_raw or receive_all of a TcpSocket against a generated script of system call results (short transfers, EINTR, EAGAIN, end of stream, other errors), resuming sends until done, and compares status, counts and bytes with what the script implies; non-trivial: more than one system call result is involved",
    1750000, 10500000};
