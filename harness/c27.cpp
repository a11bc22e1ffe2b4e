// C27: independent objects can be used from different threads without
// interference. Built with ThreadSanitizer; every case runs in its own process
// so that lazily initialised state is fresh.
#include <atomic>
#include <fstream>
#include <map>
#include <sstream>
#include <sys/wait.h>
#include <frnetlib/Base64.h>
#include <frnetlib/Sha1.h>
#include <frnetlib/SocketSelector.h>
#include <frnetlib/SSLListener.h>
#include <frnetlib/SSLSocket.h>
#include <frnetlib/URL.h>
#include "msgs.hpp"
#include "httpgen.hpp"
#include "ptypes.hpp"
#include "refs.hpp"
#include "wsref.hpp"
using namespace vp;
typedef fr::WebSocket<fr::TcpSocket> Ws;

enum Kind { STRINGS, TABLES, PACKET, FRAME, HTTP_IN, HTTP_OUT, URLS, SELECTOR, SESSION, WEBSOCKET, TLS, KINDS };
static const char *const NAMES[] = {"encoders", "name tables", "packets", "frames", "HTTP parsing", "HTTP building", "URLs", "selector", "TCP session", "WebSocket session", "TLS session"};

static std::string *work;
static pid_t work_pid;
static void write_file(const std::string &n, const std::string &c) { std::ofstream(*work + "/" + n) << c; }
static void init()
{
    if(work_pid == getpid()) return;
    work_pid = getpid();
    work = new std::string(getenv("VP_WORK") ? getenv("VP_WORK") : "/tmp");
    *work += "/c27-" + num((uint64_t)getpid());
    if(::mkdir(work->c_str(), 0700) && errno != EEXIST) _exit(3);
    write_file("crt.pem", mbedtls_test_srv_crt);
    write_file("key.pem", mbedtls_test_srv_key);
}

struct Bad : std::runtime_error { using std::runtime_error::runtime_error; };
static void need(bool ok, const std::string &what) { if(!ok) throw Bad(what); }

static uint16_t port_of(int fd)
{
    sockaddr_in a = {}; socklen_t n = sizeof a;
    need(!::getsockname(fd, (sockaddr *)&a, &n), "getsockname");
    return ntohs(a.sin_port);
}

// one exchange over a real connection; the peer runs in a thread of its own
template<typename Client, typename Server, typename Listener>
static std::string session(Case &cx, Client &c, Server &s, Listener &l, bool ws, size_t big)
{
    auto items = msgs::gen_script(cx, 3, ws, big);
    l.set_inet_version(fr::Socket::IP::v4);
    need(l.listen("0") == Status::Success, "listening failed");
    std::string port = num(port_of(l.get_socket_descriptor()));
    std::string peer_error, from;
    std::thread t([&]
    {
        try
        {
            Status st = l.accept(s);
            if(st != Status::Success) { peer_error = std::string("accepting returned ") + status_name(st); return; }
            from = s.get_remote_address();
            for(auto &it : items)
            {
                if(!it.up) { st = msgs::send_item(s, it, false); if(st != Status::Success) { peer_error = std::string("the server's send returned ") + status_name(st); return; } }
                else { peer_error = msgs::recv_item(s, it, false, st); if(!peer_error.empty()) return; }
            }
        }
        catch(const std::exception &e) { peer_error = e.what(); }
    });
    std::string error;
    try
    {
        Status st = c.connect("127.0.0.1", port, std::chrono::seconds(20));
        if(st != Status::Success) { error = std::string("connecting returned ") + status_name(st); ::shutdown(l.get_socket_descriptor(), SHUT_RDWR); }
        else for(auto &it : items)
        {
            if(it.up) { st = msgs::send_item(c, it, true); if(st != Status::Success) { error = std::string("the client's send returned ") + status_name(st); break; } }
            else { error = msgs::recv_item(c, it, true, st); if(!error.empty()) break; }
        }
    }
    catch(const std::exception &e) { error = e.what(); }
    if(!error.empty() && c.connected()) ::shutdown(c.get_socket_descriptor(), SHUT_RDWR);
    t.join();
    need(error.empty(), error);
    need(peer_error.empty(), peer_error);
    need(from == "127.0.0.1", "the client's address is " + from);
    std::string r = num(items.size()) + c.get_remote_address().substr(0, 10);
    linger lg = {1, 0};     // leaves no TIME_WAIT behind
    ::setsockopt(c.get_socket_descriptor(), SOL_SOCKET, SO_LINGER, &lg, sizeof lg);
    ::setsockopt(s.get_socket_descriptor(), SOL_SOCKET, SO_LINGER, &lg, sizeof lg);
    c.disconnect();
    s.disconnect();
    return r;
}

// what a thread does with its own objects; the result depends on the seed only
static std::string perform(Kind kind, uint64_t seed)
{
    Case cx;
    cx.mode = Mode::Random;
    cx.rng.reseed(seed);
    cx.inner = true;
    std::ostringstream out;
    switch(kind)
    {
        case STRINGS:
            for(int a = 0; a < 3; ++a)
            {
                std::string x = cx.bytes(400);
                std::string b = fr::Base64::encode(x), h = fr::Sha1::sha1_digest(x), u = fr::Http::url_encode(x);
                need(b == ref::base64(x), "wrong Base64");
                need(h == ref::sha1(x), "wrong SHA-1");
                need(fr::Http::url_decode(u) == x, "URL coding does not reverse");
                out << b << h << u << fr::Http::url_decode(x);
            }
            break;
        case TABLES:
            for(int a = 0; a < 12; ++a)
            {
                switch(cx.draw(6))
                {
                    case 0: out << fr::Http::get_mimetype(cx.text("abc/.", 0, 5) + "." + cx.pick<const char *>({"html", "png", "css", "js", "json", "xyz", "qqq", "zip", "txt"})); break;
                    case 1: out << fr::Http::request_type_to_string((fr::Http::RequestType)cx.draw(5)); break;
                    case 2: out << (int)fr::Http::string_to_request_type(cx.pick<const char *>({"GET", "PO", "PUT /", "DELETE", "x", "PATCH"})); break;
                    case 3: { std::string s = cx.pick<const char *>({"gzip", "Chunked", "none", "Deflate", "what", "identity"}); out << (int)fr::Http::string_to_transfer_encoding(s); break; }
                    case 4: out << fr::URL::scheme_to_string((fr::URL::Scheme)cx.draw(6)) << fr::URL::string_to_scheme(cx.pick<const char *>({"http", "HTTPS", "ftp", "nope", "irc"})); break;
                    default: errno = 0; out << fr::Socket::status_to_string((Status)cx.draw(22)); break;
                }
                out << ";";
            }
            break;
        case PACKET:
        {
            std::vector<std::unique_ptr<pt::Item>> items;
            fr::Packet p;
            size_t n = 1 + cx.draw(5);
            bool canonical = true;
            for(size_t a = 0; a < n; ++a) { items.push_back(pt::gen_item(cx, 1)); items.back()->write(p); canonical &= items.back()->canonical(); }
            std::string w = wire_of(p, cx), want;
            for(auto &i : items) i->enc(want);
            if(canonical) need(w.substr(4) == want, "wrong encoding of a packet");
            FakeSocket s;
            s.own.in = w; s.own.in_ev = gen_events(cx, w.size(), true);
            fr::Packet q;
            Status st;
            do st = s.receive(q); while(st == Status::WouldBlock);
            need(st == Status::Success, std::string("receiving a packet returned ") + status_name(st));
            for(auto &i : items) { std::string got; need(i->read(q, got), "read back " + got + " instead of " + i->str()); }
            out << w.size();
            break;
        }
        case FRAME:
            for(int a = 0; a < 3; ++a)
            {
                fr::ClientWebFrame c; fr::ServerWebFrame v;
                bool up = cx.flip();
                fr::WebFrame &f = up ? (fr::WebFrame &)c : v, &g = up ? (fr::WebFrame &)v : c;
                std::string data = cx.bytes(300);
                f.set_payload(data); f.set_opcode(fr::WebFrame::Opcode::Binary); f.set_final(cx.flip());
                std::string w = wire_of(f, cx);
                ws::Frame fr_;
                size_t pos = 0;
                need(ws::decode(w, pos, fr_) == 1 && pos == w.size() && fr_.data == data && fr_.masked == up, "a frame is encoded wrongly");
                FakeSocket s;
                s.own.in = w; s.own.in_ev = gen_events(cx, w.size(), false);
                need(s.receive(g) == Status::Success && g.get_payload() == data, "a frame is received wrongly");
                out << data;
            }
            break;
        case HTTP_IN:
        {
            bool response = cx.flip();
            hg::Msg m = hg::gen(cx, response, false);
            const char *how = "";
            if(response) { fr::HttpResponse h; hg::deliver(cx, h, m.text, 0, &how, false); hg::expect(cx, h, m, how, m.has_length); out << h.get_body() << h.construct(""); }
            else { fr::HttpRequest h; hg::deliver(cx, h, m.text, 0, &how, false); hg::expect(cx, h, m, how, m.has_length && !m.form); out << h.get_body() << h.get_uri(); }
            break;
        }
        case HTTP_OUT:
        {
            fr::HttpRequest q;
            fr::HttpResponse r;
            bool up = cx.flip();
            fr::Http &h = up ? (fr::Http &)q : r;
            h.header("X-" + cx.text("abc", 1, 4)) = cx.text("abcdef", 1, 8);
            h.set_version(cx.flip() ? fr::Http::RequestVersion::V1 : fr::Http::RequestVersion::V1_1);
            std::string body = cx.bytes(200);
            if(up) { h.set_type(fr::Http::RequestType::Put); h.set_uri("/" + cx.text("abc", 0, 9)); h.get("a") = cx.text("xyz", 1, 3); }
            else h.set_status((fr::Http::RequestStatus)(200 + cx.draw(300)));
            h.set_body(body);
            std::string t = h.construct("host");
            fr::HttpRequest q2;
            fr::HttpResponse r2;
            fr::Http &g = up ? (fr::Http &)q2 : r2;
            need(g.parse(t.data(), t.size()) == Status::Success && g.get_body() == body, "a built message does not parse");
            out << t.size() << g.get_uri() << (int)g.get_status();
            break;
        }
        case URLS:
            for(int a = 0; a < 4; ++a)
            {
                fr::URL u(cx.pick<const char *>({"http", "HTTPS", "ftp", "irc", "mailto", "foo"}) + std::string("://h") + cx.text("abc.", 0, 5) + (cx.flip() ? ":8" + num(cx.draw(100)) : "") + "/" + cx.text("abc/", 0, 6) + (cx.flip() ? "?" + cx.text("abc=&", 1, 6) : "") + (cx.flip() ? "#f" : ""));
                out << u.get_scheme() << u.get_host() << u.get_port() << u.get_path() << u.get_query() << u.get_fragment() << u.get_url() << u.get_uri();
            }
            break;
        case SELECTOR:
        {
            fr::SocketSelector sel;
            std::vector<std::shared_ptr<fr::TcpSocket>> s;
            std::vector<int> peer;
            size_t n = 1 + cx.draw(6);
            for(size_t a = 0; a < n; ++a)
            {
                int p[2];
                need(!::socketpair(AF_UNIX, SOCK_STREAM, 0, p), "socketpair");
                int32_t fd = p[0];
                s.push_back(std::make_shared<fr::TcpSocket>());
                s.back()->set_descriptor(&fd);
                peer.push_back(p[1]);
                sel.add(s.back(), s.back().get());
            }
            for(int round = 0; round < 6; ++round)
            {
                std::map<void *, std::string> sent;
                for(size_t a = 0; a < n; ++a) if(cx.flip()) { std::string x = cx.text("abcdef", 1, 9); need(::send(peer[a], x.data(), x.size(), MSG_NOSIGNAL) == (ssize_t)x.size(), "send"); sent[s[a].get()] = x; }
                auto got = sel.wait(std::chrono::milliseconds(0));
                need(got.size() == sent.size(), "a wait returned " + num(got.size()) + " of " + num(sent.size()) + " members");
                for(auto &g : got)
                {
                    need(g.first.get() == g.second && sent.count(g.second), "a wait returned a member that is not ready");
                    char b[32]; size_t r = 0;
                    need(static_cast<fr::TcpSocket &>(*g.first).receive_raw(b, sizeof b, r) == Status::Success && std::string(b, r) == sent[g.second], "received something else");
                }
                out << got.size() << ",";
            }
            for(size_t a = 0; a < n; ++a) { need(sel.remove(s[a]) == s[a].get(), "wrong user data"); ::close(peer[a]); }
            break;
        }
        case SESSION: { fr::TcpSocket c, s; fr::TcpListener l; out << session(cx, c, s, l, false, 3000); break; }
        case WEBSOCKET: { Ws c, s; fr::TcpListener l; out << session(cx, c, s, l, true, 3000); break; }
        default:
        {
            auto cc = std::make_shared<fr::SSLContext>(), sc = std::make_shared<fr::SSLContext>();
            fr::SSLListener l(sc, *work + "/crt.pem", *work + "/key.pem");
            fr::SSLSocket c(cc), s(sc);
            c.verify_certificates(false);
            out << session(cx, c, s, l, false, 3000);
        }
    }
    return out.str();
}

static std::string attempt(Kind k, uint64_t seed)
{
    try { return "=" + perform(k, seed); }
    catch(const Bad &e) { return std::string("\1") + e.what(); }
    catch(const Failure &f) { return "\1" + f.msg; }
    catch(const std::exception &e) { return std::string("\1threw ") + e.what(); }
}

struct Task { Kind kind; uint64_t seed; std::string result; };

static void prop(Case &cx)
{
    init();
    size_t n = 2 + cx.draw(5);
    std::vector<std::vector<Task>> tasks(n);
    // usually all the threads do the same kinds of things
    bool focus = cx.flip();
    Kind fk = (Kind)cx.weighted({3, 3, 3, 3, 3, 3, 3, 3, 3, 2, 1});
    std::string kinds;
    for(auto &t : tasks)
    {
        size_t k = 1 + cx.draw(4);
        for(size_t a = 0; a < k; ++a)
        {
            Kind x = (Kind)cx.weighted({3, 3, 3, 3, 3, 3, 3, 3, 2, 1, cx.thorough ? 1u : 0u});
            if(focus && a == 0) x = fk;
            t.push_back({x, cx.draw(1 << 30), ""});
            cx.label(NAMES[x]);
        }
    }
    cx.note([&] { std::string s; for(auto &t : tasks) { s += "thread:"; for(auto &x : t) s += std::string(" ") + NAMES[x.kind] + "(" + num(x.seed) + ")"; s += "\n  "; } return s; });
    int p[2];
    if(::pipe2(p, O_CLOEXEC)) cx.discard();
    std::string report = *work + "/report";
    ::unlink(report.c_str());
    fflush(nullptr);
    pid_t pid = ::fork();
    if(pid < 0) cx.discard();
    if(pid == 0)
    {
        int fd = ::open(report.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0600);
        if(fd >= 0) { ::dup2(fd, 2); ::close(fd); }
        ::alarm(60);
        std::atomic<size_t> there{0};
        {
            std::vector<std::thread> th;
            for(auto &t : tasks) th.emplace_back([&there, &t, n]
            {
                there.fetch_add(1, std::memory_order_relaxed);
                for(int a = 0; a < 20000 && there.load(std::memory_order_relaxed) < n; ++a) ;
                for(auto &x : t) x.result = attempt(x.kind, x.seed);
            });
            for(auto &t : th) t.join();
        }
        std::string msg;
        for(size_t a = 0; a < n && msg.empty(); ++a)
            for(auto &x : tasks[a])
            {
                std::string alone = attempt(x.kind, x.seed);
                if(x.result == alone && alone[0] != '\1') continue;
                msg = std::string("thread ") + num(a) + " (" + NAMES[x.kind] + "): ";
                if(alone[0] == '\1') msg += "alone: " + alone.substr(1);
                else if(x.result[0] == '\1') msg += "only while others run: " + x.result.substr(1);
                else msg += "the result differs from running alone: " + show(x.result) + " instead of " + show(alone);
                break;
            }
        if(!msg.empty()) { ssize_t r = ::write(p[1], msg.data(), std::min<size_t>(msg.size(), 4000)); (void)r; }
        ::_exit(0);
    }
    ::close(p[1]);
    std::string msg;
    char b[4096];
    for(ssize_t r; (r = ::read(p[0], b, sizeof b)) > 0 || (r < 0 && errno == EINTR);) if(r > 0) msg.append(b, (size_t)r);
    ::close(p[0]);
    int st = 0;
    while(::waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
    if(WIFEXITED(st) && WEXITSTATUS(st) == 66)
    {
        std::ifstream in(report);
        std::string l, text;
        for(int a = 0; a < 40 && std::getline(in, l); ++a) text += l + "\n    ";
        cx.fail("race", "data race:\n    " + text);
    }
    VP_CHECK(cx, !(WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM), "hang", "the threads did not finish");
    VP_CHECK(cx, WIFEXITED(st) && WEXITSTATUS(st) == 0, "crash", "the threads crashed (status " + snum(st) + ")");
    VP_CHECK(cx, msg.empty(), "differs", msg);
    cx.nontrivial();
}

Property vp::the_property = {"C27", prop,
    "a case starts 2-6 threads in a fresh process, each performing 1-4 tasks on objects of its own (encoders, name tables, packets, frames, HTTP parsing and building, URLs, selectors, real TCP, WebSocket and TLS sessions), under ThreadSanitizer, and compares every result with the same task run alone and with independent references; every case is non-trivial",
    10000, 60000, 100, 8, false, nullptr, 0, 0, 8, 1, 30};
