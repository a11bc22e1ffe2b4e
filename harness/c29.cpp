// C29: TLS clients accept exactly the servers they should trust.
#include "msgs.hpp"
#include "tls.hpp"
using namespace vp;

// the names of the scripted hosts have one address, of one family
static bool scripted(const char *h)
{
    size_t n = h ? strlen(h) : 0;
    return (n >= 5 && strcasecmp(h + n - 5, ".test") == 0) || (h && (strcasecmp(h, "alpha") == 0 || strcasecmp(h, "localhost") == 0));
}
// fails one call of the library, or interrupts it
struct Faults : Sys
{
    size_t count = 0, fail_at = SIZE_MAX;
    bool interrupt = false;         // only with EINTR, and only calls that may be interrupted at this point
    std::string failed;
    std::string only;
    void arm(Case &cx, bool eintr, bool server)
    {
        struct Call { const char *name; size_t most; bool client, server, interruptible; };
        static const Call CALLS[] = {{"fcntl", 12, true, true, false}, {"fcntl(F_SETFL)", 3, true, true, false}, {"fcntl(F_SETFL)", 3, true, true, false}, {"read", 14, true, true, true}, {"write", 4, true, true, true}, {"poll", 6, true, false, true}, {"setsockopt", 4, true, true, false},
            {"getsockopt", 2, true, true, false}, {"socket", 1, true, false, false}, {"connect", 1, true, false, false}, {"getaddrinfo", 1, true, false, false}, {"accept", 1, false, true, false},
            {"getpeername", 2, true, true, false}, {"getnameinfo", 2, true, true, false}};
        std::vector<Call> can;
        for(auto &c : CALLS) if((server ? c.server : c.client) && (!eintr || c.interruptible)) can.push_back(c);
        const Call c = can[cx.draw(can.size())];
        count = 0; failed.clear(); interrupt = eintr; only = c.name; fail_at = cx.draw(c.most);
    }
    void disarm() { fail_at = SIZE_MAX; failed.clear(); interrupt = false; }
    bool hard() const { return !failed.empty() && !interrupt; }
    bool hit(const char *name, int err, bool interruptible = false)
    {
        if((interrupt && !interruptible) || fail_at == SIZE_MAX) return false;
        std::string n = name;
        if((n == "recv" ? "read" : n == "send" ? "write" : n) != only) return false;
        if(count++ != fail_at) return false;
        failed = std::string(name) + (interrupt ? " interrupted" : " failing");
        errno = interrupt ? EINTR : err;
        return true;
    }
    int socket(int d, int t, int p) override { return hit("socket", EMFILE) ? -1 : __real_socket(d, t, p); }
    int connect(int fd, const sockaddr *a, socklen_t l) override { return hit("connect", ENETUNREACH) ? -1 : __real_connect(fd, a, l); }
    int accept(int fd, sockaddr *a, socklen_t *l) override { return hit("accept", ECONNABORTED) ? -1 : __real_accept(fd, a, l); }
    int setsockopt(int fd, int lv, int n, const void *v, socklen_t l) override { return hit("setsockopt", ENOPROTOOPT) ? -1 : __real_setsockopt(fd, lv, n, v, l); }
    int getsockopt(int fd, int lv, int n, void *v, socklen_t *l) override { return hit("getsockopt", ENOBUFS) ? -1 : __real_getsockopt(fd, lv, n, v, l); }
    int poll(pollfd *f, nfds_t n, int t) override { return hit("poll", ENOMEM, true) ? -1 : __real_poll(f, n, t); }
    int fcntl(int fd, int cmd, long arg) override { return hit(cmd == F_SETFL ? "fcntl(F_SETFL)" : "fcntl", EIO) ? -1 : __real_fcntl(fd, cmd, arg); }
    int getpeername(int fd, sockaddr *a, socklen_t *l) override { return hit("getpeername", ENOTCONN) ? -1 : __real_getpeername(fd, a, l); }
    int getnameinfo(const sockaddr *a, socklen_t l, char *h, socklen_t hl, char *s, socklen_t sl, int f) override { return hit("getnameinfo", 0) ? EAI_FAIL : __real_getnameinfo(a, l, h, hl, s, sl, f); }
    ssize_t send(int fd, const void *b, size_t n, int f) override { return hit("send", EPIPE, true) ? -1 : __real_send(fd, b, n, f); }
    ssize_t recv(int fd, void *b, size_t n, int f) override { return hit("recv", ECONNRESET, true) ? -1 : __real_recv(fd, b, n, f); }
    ssize_t write(int fd, const void *b, size_t n) override { return hit("write", EPIPE, true) ? -1 : __real_write(fd, b, n); }
    ssize_t read(int fd, void *b, size_t n) override { return hit("read", ECONNRESET, true) ? -1 : __real_read(fd, b, n); }
};
struct Resolver : Faults
{
    int family = AF_INET;
    bool unknown = false;
    bool zero = false;              // the first socket made gets the number 0, which stands for /dev/null otherwise
    int socket(int d, int t, int p) override
    {
        int fd = Faults::socket(d, t, p);
        struct stat st;
        if(!zero || fd < 0 || fstat(0, &st) != 0 || !S_ISCHR(st.st_mode)) return fd;
        ::dup2(fd, 0);
        __real_close(fd);
        return 0;
    }
    static void hold_zero() { int n = ::open("/dev/null", O_RDWR); if(n > 0) { ::dup2(n, 0); ::close(n); } }
    std::map<int, std::string> open_fds()
    {
        if(zero && __real_fcntl(0, F_GETFD, 0) == -1) hold_zero();
        return tls::open_fds();
    }
    int getaddrinfo(const char *h, const char *s, const addrinfo *hi, addrinfo **r) override
    {
        if(hit("getaddrinfo", 0)) return EAI_AGAIN;
        if(!scripted(h)) return __real_getaddrinfo(h, s, hi, r);
        if(unknown || (hi && hi->ai_family != AF_UNSPEC && hi->ai_family != family)) return EAI_NONAME;
        addrinfo want = {};
        want.ai_family = family; want.ai_socktype = SOCK_STREAM; want.ai_flags = AI_NUMERICHOST;
        return __real_getaddrinfo(family == AF_INET ? "127.0.0.1" : "::1", s, &want, r);
    }
};

static std::string lower(std::string s) { for(char &c : s) if(c >= 'A' && c <= 'Z') c = (char)(c + 32); return s; }
static bool name_matches(std::string pattern, std::string host)
{
    pattern = lower(pattern); host = lower(host);
    if(pattern == host) return true;
    if(pattern.compare(0, 2, "*.") != 0) return false;
    size_t dot = host.find('.');
    return dot != std::string::npos && dot > 0 && host.substr(dot) == pattern.substr(1);
}

// the authorities: two roots and their intermediates. Keys: 0,1 roots; 2,3 intermediates; 4 forger; 5.. leaves
struct Pki
{
    std::string root[2], inter[2], root_der[2], forged_root;
    Pki()
    {
        for(size_t a = 0; a < 2; ++a)
        {
            tls::Cert c;
            c.subject = c.issuer = "CN=Root " + num(a) + ",O=vp"; c.subject_key = c.issuer_key = a; c.ca = true; c.serial = 1 + a;
            root[a] = tls::make(c);
            root_der[a] = tls::make(c, true);
            tls::Cert i;
            i.subject = "CN=Intermediate " + num(a) + ",O=vp"; i.subject_key = 2 + a; i.issuer = c.subject; i.issuer_key = a; i.ca = true; i.serial = 10 + a;
            inter[a] = tls::make(i);
        }
    }
};
static Pki &pki() { static std::map<pid_t, Pki *> m; auto &p = m[getpid()]; if(!p) p = new Pki; return *p; }

enum Shape { DIRECT, VIA_SENT, VIA_NOT_SENT, VIA_NO_CA, SELF, FORGED, VIA_FORGED, VIA_EXPIRED, SHAPES };
static const char *const SHAPE[] = {"signed by a root", "signed by an intermediate that is sent", "signed by an intermediate that is not sent", "signed by a certificate that is no authority", "self-signed", "signed by somebody under the root's name", "signed by an intermediate somebody made under the root's name", "signed by an intermediate outside its validity period"};
enum Peer { TLS, CLOSED_PORT, UNKNOWN_NAME, OTHER_FAMILY, GARBAGE, HTTP_REPLY, CLOSES, RESETS, ALERT, PARTIAL, SILENT, PEERS };
static const char *const PEER[] = {"a TLS server", "a closed port", "an unknown name", "a name without address of the IP version chosen", "a peer sending garbage", "a peer sending an HTTP reply", "a peer closing at once", "a peer resetting at once", "a peer sending an alert", "a peer stopping within its hello", "a silent peer"};

static std::string stamp(time_t t) { tm v; gmtime_r(&t, &v); char b[32]; strftime(b, sizeof b, "%Y%m%d%H%M%S", &v); return b; }
struct Validity { std::string from, to; bool now; };
static Validity validity(Case &cx, bool good)
{
    time_t t = time(nullptr);
    static const long FAR[] = {7200, 86400, 86400 * 40, 86400L * 365 * 5};
    long a = FAR[cx.draw(4)], b = FAR[cx.draw(4)];
    if(good) return {stamp(t - a), stamp(t + b), true};
    if(cx.flip()) return {stamp(t + a), stamp(t + a + b), false};
    return {stamp(t - a - b), stamp(t - a), false};
}

struct Served { std::string chain; size_t key; bool trusted, in_time, named; std::string desc, self; };

static void prop(Case &cx)
{
    Pki &p = pki();
    tls::context(1);
    Resolver net;
    if(cx.chance(1, 6)) { net.zero = true; net.hold_zero(); cx.label("descriptor 0 handed out"); cx.note([] { return "sockets get descriptor 0"; }); }
    auto baseline = net.open_fds();
    auto ctx = std::make_shared<fr::SSLContext>();
    bool trust[2] = {false, false}, trust_inter[2] = {false, false};
    std::vector<std::string> trusted_self;
    auto client = std::make_unique<fr::SSLSocket>(ctx);
    bool verify = true;
    size_t attempts = 1 + cx.draw(4), accepted = 0, refused = 0, serial = 100;
    auto trace = [&](const std::string &s) { cx.note([&] { return s; }); };

    auto load = [&](Case &cx)
    {
        size_t n = cx.weighted({3, 1}) + 1;
        std::string what, blob;
        bool der = cx.chance(1, 4);
        for(size_t a = 0; a < (der ? 1 : n); ++a)
        {
            size_t r = cx.draw(2);
            if(!der && cx.chance(1, 8)) { blob += p.inter[r]; trust_inter[r] = true; what += " intermediate " + num(r); }
            else { blob += der ? p.root_der[r] : p.root[r]; trust[r] = true; what += " root " + num(r); }
        }
        bool file = cx.flip();
        trace(std::string("loading") + what + (der ? " as DER" : "") + (file ? " from a file" : " from memory"));
        bool ok = file ? ctx->load_ca_certs_from_file(tls::save("ca.crt", blob)) : ctx->load_ca_certs_from_memory(blob);
        VP_CHECK(cx, ok, "load", std::string("loading") + what + (der ? " as DER" : " as PEM") + (file ? " from a file" : " from memory") + " returned false");
    };
    auto load_bad = [&](Case &cx)
    {
        std::string junk;
        switch(cx.draw(5))
        {
            case 0: junk = cx.bytes(100); break;
            case 1: break;
            case 2: junk = p.root[0].substr(0, 40 + cx.draw(200)); break;
            case 3: junk = p.root_der[0].substr(0, 1 + cx.draw(p.root_der[0].size() - 1)); break;
            default: junk = "-----BEGIN CERTIFICATE-----\nnonsense\n-----END CERTIFICATE-----\n"; break;
        }
        trace("loading " + show(junk, 60));
        bool missing = cx.chance(1, 4);
        if(missing) VP_CHECK(cx, !ctx->load_ca_certs_from_file(tls::dir() + "/no-such-file"), "load-missing", "loading a file that does not exist returned true");
        else VP_CHECK(cx, !ctx->load_ca_certs_from_memory(junk), "load-junk", "loading " + show(junk) + " returned true");
    };

    static const char *const HOST[] = {"a.test", "b.test", "a.b.test", "x.a.b.test", "127.0.0.1", "alpha", "localhost", "::1"};
    auto serve = [&](Case &cx, const std::string &host)
    {
        Served s;
        size_t r = cx.draw(2);
        Shape shape = (Shape)cx.weighted({8, 5, 2, 2, 3, 2, 2, 2});
        tls::Cert leaf;
        leaf.serial = ++serial;
        leaf.subject_key = s.key = 5 + cx.draw(3);
        Validity v = validity(cx, !cx.chance(1, 6));
        leaf.from = v.from.c_str(); leaf.to = v.to.c_str();
        s.in_time = v.now;
        // names
        std::string other = HOST[cx.draw(4)];
        std::string wild = host.substr(host.find('.') + 1);
        std::string cn = "nobody";
        switch(cx.weighted({5, 3, 2, 2, 2, 2, 2, 2}))
        {
            case 0: cn = host; break;
            case 1: leaf.names = {host}; break;
            case 2: leaf.names = {"*." + wild}; break;
            case 3: leaf.names = {other, "z.test", host, "*.nobody.test"}; break;
            case 4: cn = host; leaf.names = {other}; break;
            case 5: cn = other; break;
            case 6: leaf.names = {"*." + wild.substr(wild.find('.') == std::string::npos ? 0 : wild.find('.') + 1), "a*." + wild}; break;
            default: leaf.names = {host + ".test", "x" + host, wild, host.substr(1), "*." + host}; break;
        }
        if(cx.chance(1, 4)) for(auto &n : leaf.names) for(char &c : n) if(c >= 'a' && c <= 'z' && cx.flip()) c = (char)(c - 32);
        s.named = false;
        if(leaf.names.empty()) s.named = name_matches(cn, host);
        else for(auto &n : leaf.names) s.named |= name_matches(n, host);
        leaf.subject = "CN=" + cn + ",O=leaf";
        std::string rootname = "CN=Root " + num(r) + ",O=vp", intername = "CN=Intermediate " + num(r) + ",O=vp";
        tls::Cert inter;
        inter.subject = intername; inter.subject_key = 2 + r; inter.issuer = rootname; inter.issuer_key = r; inter.ca = true; inter.serial = ++serial;
        Validity iv;
        switch(shape)
        {
            case DIRECT: leaf.issuer = rootname; leaf.issuer_key = r; s.chain = tls::make(leaf); s.trusted = trust[r]; break;
            case VIA_SENT: leaf.issuer = intername; leaf.issuer_key = 2 + r; s.chain = tls::make(leaf) + tls::make(inter); s.trusted = trust[r] || trust_inter[r]; break;
            case VIA_NOT_SENT: leaf.issuer = intername; leaf.issuer_key = 2 + r; s.chain = tls::make(leaf); s.trusted = trust_inter[r]; break;
            case VIA_NO_CA:
                // an ordinary certificate of that authority, used to sign another one
                inter.subject = "CN=mallory.test,O=vp"; inter.subject_key = 4; inter.ca = false;
                leaf.issuer = inter.subject; leaf.issuer_key = 4; s.chain = tls::make(leaf) + tls::make(inter); s.trusted = false; break;
            case SELF: leaf.issuer = leaf.subject; leaf.issuer_key = leaf.subject_key; s.chain = s.self = tls::make(leaf); s.trusted = false; break;
            case FORGED: leaf.issuer = rootname; leaf.issuer_key = 4; s.chain = tls::make(leaf); s.trusted = false; break;
            case VIA_FORGED: inter.issuer_key = 4; inter.subject_key = 3 + r; inter.subject = "CN=New Intermediate,O=vp"; leaf.issuer = inter.subject; leaf.issuer_key = 3 + r; s.chain = tls::make(leaf) + tls::make(inter); s.trusted = false; break;
            default:
                iv = validity(cx, false);
                inter.from = iv.from.c_str(); inter.to = iv.to.c_str();
                inter.subject = "CN=Old Intermediate,O=vp";
                leaf.issuer = inter.subject; leaf.issuer_key = 2 + r; s.chain = tls::make(leaf) + tls::make(inter); s.trusted = false; break;
        }
        s.desc = std::string("certificate ") + SHAPE[shape] + " (" + num(r) + "), for";
        s.desc += " CN " + cn;
        for(auto &n : leaf.names) s.desc += " " + n;
        s.desc += ", valid " + v.from + "-" + v.to;
        if(shape == VIA_EXPIRED) s.desc += " (intermediate " + iv.from + "-" + iv.to + ")";
        return s;
    };

    if(cx.chance(4, 5)) load(cx);
    for(size_t at = 0; at < attempts; ++at)
    {
        if(cx.chance(1, 4)) load(cx);
        if(cx.chance(1, 6)) load_bad(cx);
        if(cx.chance(1, 3)) { verify = !cx.chance(1, 3); client->verify_certificates(verify); trace(std::string("verification ") + (verify ? "on" : "off")); }
        Peer peer = (Peer)cx.weighted({20, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0});
        if(peer == TLS && cx.chance(1, cx.thorough ? 100 : 50)) peer = SILENT;
        std::string host = HOST[cx.weighted({4, 2, 2, 2, 1, 1, 1, 1})];
        bool literal = host == "127.0.0.1" || host == "::1";
        net.family = host == "::1" || (!literal && cx.chance(1, 4)) ? AF_INET6 : AF_INET;
        if(literal && (peer == UNKNOWN_NAME || peer == OTHER_FAMILY)) { host = "a.test"; literal = false; }
        net.unknown = peer == UNKNOWN_NAME;
        fr::Socket::IP own = net.family == AF_INET ? fr::Socket::IP::v4 : fr::Socket::IP::v6, wrong = net.family == AF_INET ? fr::Socket::IP::v6 : fr::Socket::IP::v4;
        client->set_inet_version(peer == OTHER_FAMILY ? wrong : cx.flip() ? own : fr::Socket::IP::any);
        if(cx.chance(1, 6)) for(char &c : host) if(c >= 'a' && c <= 'z' && cx.flip()) c = (char)(c - 32);
        Served s = serve(cx, host);
        if(!s.self.empty() && cx.chance(1, 3)) { VP_CHECK(cx, ctx->load_ca_certs_from_memory(s.self), "load", "loading a self-signed certificate from memory returned false"); s.trusted = true; s.desc += " which is loaded as an authority"; }
        if(peer == OTHER_FAMILY) { verify = false; client->verify_certificates(false); }    // nothing else would stop it
        bool expect = peer == TLS && (!verify || (s.trusted && s.in_time && s.named));
        unsigned bad_clients = peer == TLS && cx.chance(1, 5) ? 1 + (unsigned)cx.draw(2) : 0, late = cx.chance(1, 8) ? (unsigned)cx.draw(20000) : 0;
        std::string junk = cx.chance(1, 3) ? "" : cx.chance(1, 2) ? "GET / HTTP/1.1\r\n\r\n" : cx.bytes(300);
        bool was = client->connected(), bad_setup = cx.chance(1, 8);
        std::string what = std::string(was ? "connecting again" : "connecting") + " to " + host + (net.family == AF_INET6 ? " (IPv6)" : "") + ", " + PEER[peer] + (peer == TLS ? " with a " + s.desc : "") + ", with verification " + (verify ? "on" : "off") + " and root" + (trust[0] ? " 0" : "") + (trust[1] ? " 1" : "") + (trust_inter[0] ? " intermediate 0" : "") + (trust_inter[1] ? " intermediate 1" : "") + " loaded";
        trace(what + (bad_clients ? ", after " + num(bad_clients) + " clients that do not speak TLS" : ""));

        // the peer
        std::string crt = tls::save("srv.crt", s.chain), key = tls::save("srv.key", tls::key(s.key).pem());
        if(bad_setup)
        {   // a listener needs a certificate and a key
            std::string c = crt, k = key;
            (cx.flip() ? c : k) = cx.flip() ? tls::dir() + "/no-such-file" : tls::save("junk", "junk");
            bool threw = false;
            try { fr::SSLListener bad(tls::context(1), c, k); } catch(const std::exception &) { threw = true; }
            VP_CHECK(cx, threw, "bad-listener", "a listener was made from an unusable certificate or key");
        }
        std::unique_ptr<fr::SSLListener> l(new fr::SSLListener(tls::context(1), crt, key));
        l->set_inet_version(own);
        VP_CHECK(cx, l->listen("0") == Status::Success, "listen", "listening failed");
        std::string port = num(tls::port_of(l->get_socket_descriptor()));
        if(bad_setup)
        {   // a port that somebody else has
            int other = __real_socket(net.family, SOCK_STREAM, 0);
            sockaddr_storage a = {}; a.ss_family = (sa_family_t)net.family;
            if(__real_bind(other, (sockaddr *)&a, net.family == AF_INET ? sizeof(sockaddr_in) : sizeof(sockaddr_in6)) || __real_listen(other, 1)) { __real_close(other); cx.discard(); }
            {
                fr::SSLListener second(tls::context(1), crt, key);
                second.set_inet_version(own);
                if(cx.flip()) VP_CHECK(cx, second.listen("0") == Status::Success && second.connected(), "listen", "listening failed");
                Status st = second.listen(num(tls::port_of(other)));
                VP_CHECK(cx, st != Status::Success && !second.connected() && second.get_socket_descriptor() == -1, "busy", std::string("listening on a port that is in use returned ") + status_name(st) + (second.connected() ? " and left the listener connected" : ""));
                if(cx.flip()) VP_CHECK(cx, second.listen("0") == Status::Success && second.connected() && tls::port_of(second.get_socket_descriptor()) > 0, "listen", "listening after a failure failed");
            }
            __real_close(other);
        }
        if(!was && cx.chance(1, 4))
        {
            Status st = client->set_blocking(cx.flip());
            VP_CHECK(cx, st != Status::Success, "unconnected", "setting the blocking mode of an unconnected socket succeeded");
        }
        // faults
        bool fault = peer == TLS && cx.chance(1, expect ? 2 : 5), server_side = fault && cx.chance(1, 3), eintr = fault && cx.flip();
        Faults remote;
        net.disarm();
        if(fault) { if(server_side) remote.arm(cx, eintr, true); else net.arm(cx, eintr, false); }
        int held = -1;
        if(peer == CLOSED_PORT)
        {   // bound, but nobody listens
            l->close_socket();
            held = ::socket(net.family, SOCK_STREAM, 0);
            sockaddr_storage a = {}; a.ss_family = (sa_family_t)net.family;
            if(net.family == AF_INET) ((sockaddr_in *)&a)->sin_addr.s_addr = htonl(INADDR_LOOPBACK); else ((sockaddr_in6 *)&a)->sin6_addr = in6addr_loopback;
            if(__real_bind(held, (sockaddr *)&a, net.family == AF_INET ? sizeof(sockaddr_in) : sizeof(sockaddr_in6))) { __real_close(held); cx.discard(); }
            port = num(tls::port_of(held));
        }
        std::vector<int> raw;
        for(unsigned b = 0; b < bad_clients; ++b)
        {
            int fd = ::socket(net.family, SOCK_STREAM, 0);
            sockaddr_storage a = {}; socklen_t n = sizeof a;
            __real_getsockname(l->get_socket_descriptor(), (sockaddr *)&a, &n);
            if(net.family == AF_INET) ((sockaddr_in *)&a)->sin_addr.s_addr = htonl(INADDR_LOOPBACK); else ((sockaddr_in6 *)&a)->sin6_addr = in6addr_loopback;
            if(__real_connect(fd, (sockaddr *)&a, n)) { __real_close(fd); cx.discard(); }
            if(!junk.empty() && __real_send(fd, junk.data(), junk.size(), MSG_NOSIGNAL) < 0) {}
            ::shutdown(fd, SHUT_WR);
            raw.push_back(fd);
        }
        std::atomic<bool> done{false}, server_gone{false};
        std::string server_error;
        std::thread t;
        if(peer == TLS || peer == OTHER_FAMILY) t = std::thread([&]
        {
            try
            {
                if(late) usleep(late);
                fr::SSLSocket s2(tls::context(2));
                for(unsigned b = 0; b < bad_clients; ++b)
                {
                    Status st = l->accept(s2);
                    if(st == Status::Success || s2.connected() || s2.get_socket_descriptor() != -1) { server_error = std::string("accepting a client that does not speak TLS returned ") + status_name(st) + (s2.connected() ? " and left it connected" : ""); return; }
                }
                Status st;
                { UseSys u(remote); st = l->accept(s2); }
                if(st == Status::Success ? !s2.connected() : s2.connected() || s2.get_socket_descriptor() != -1)
                { server_error = std::string("accepting returned ") + status_name(st) + (s2.connected() ? " and left the socket connected" : " and left the socket unconnected"); return; }
                if(st != Status::Success)
                {
                    if(remote.hard()) { server_gone = true; ::shutdown(l->get_socket_descriptor(), SHUT_RD); return; }
                    if(expect) server_error = std::string("accepting returned ") + status_name(st);
                    else if(s2.connected()) server_error = "a failed accept left the socket connected";
                    return;
                }
                if(!expect) return;     // the client decides, and it is the client's thread that complains
                tls::reset_on_close(s2.get_socket_descriptor());
                s2.set_receive_timeout(10000);
                fr::Packet q;
                std::string d; uint32_t n = 0;
                if((st = s2.receive(q)) != Status::Success) { server_error = std::string("the server's receive returned ") + status_name(st); return; }
                q >> d >> n;
                fr::Packet a; a << (d + " answered") << (n + 1);
                if((st = s2.send(a)) != Status::Success) { server_error = std::string("the server's send returned ") + status_name(st); return; }
                while(!done) { char c; size_t r; if(s2.receive_raw(&c, 1, r) != Status::Timeout) break; }
            }
            catch(const std::exception &e) { server_error = e.what(); }
        });
        else if(peer >= GARBAGE) t = std::thread([&]
        {
            int fd = __real_accept(l->get_socket_descriptor(), nullptr, nullptr);
            if(fd < 0) return;
            std::string out;
            if(peer == GARBAGE) out = junk + std::string(10, '\x42');
            else if(peer == HTTP_REPLY) out = "HTTP/1.1 400 Bad Request\r\nContent-Length: 0\r\n\r\n";
            else if(peer == ALERT) out = std::string("\x15\x03\x03\x00\x02\x02\x28", 7);
            else if(peer == PARTIAL) out = std::string("\x16\x03\x03\x00\x51\x02\x00\x00\x4d\x03\x03", 11);
            if(late) usleep(late);
            if(peer != RESETS && peer != CLOSES) { char b[600]; if(__real_recv(fd, b, sizeof b, 0) < 0) {} }
            if(!out.empty() && __real_send(fd, out.data(), out.size(), MSG_NOSIGNAL) < 0) {}
            if(peer == RESETS) tls::reset_on_close(fd);
            else if(peer != SILENT) ::shutdown(fd, SHUT_WR);
            while(peer == SILENT && !done) usleep(2000);
            __real_close(fd);
        });

        double t0 = tls::now_ms();
        Status st;
        { UseSys u(net); st = client->connect(host, port, std::chrono::seconds(peer == SILENT ? 1 : 10)); }
        double took = tls::now_ms() - t0;
        std::string error, tag = "outcome";
        if(!net.failed.empty()) { what += ", with " + net.failed; cx.label(net.failed.substr(net.failed.find(' ') + 1) + " system call"); trace(net.failed); }
        // a failing call may make it fail, nothing makes it succeed wrongly
        bool excused = expect && st != Status::Success && (net.hard() || (server_side && !eintr));
        if(excused) { expect = false; cx.label("failed system call reported"); }
        bool cut = excused || server_gone || (net.hard() && st != Status::Success);
        if(client->connected()) tls::reset_on_close(client->get_socket_descriptor());
        if((st == Status::Success) != expect)
            error = what + " returned " + status_name(st) + (expect ? "" : " although it must not be accepted");
        else if(client->connected() != expect) { tag = "state"; error = "after " + what + " returned " + status_name(st) + " the socket says it is " + (client->connected() ? "connected" : "unconnected"); }
        else if(!expect && client->get_socket_descriptor() != -1) { tag = "state"; error = "after " + what + " failed the socket has a descriptor"; }
        else if(peer == SILENT && took > 6000) { tag = "timeout"; error = what + " with a timeout of 1 s took " + std::to_string(took) + " ms"; }
        else if(expect)
        {
            ++accepted;
            client->set_receive_timeout(10000);
            tag = "use";
            if(client->get_remote_address() != host + ":" + port) error = "the remote address is reported as " + client->get_remote_address();
            fr::Packet q; q << "hello" << (uint32_t)at;
            if(cx.chance(1, 5))
            {   // a mode that cannot be changed stays
                Faults f;
                f.only = "fcntl(F_SETFL)"; f.fail_at = 0;
                bool mode = cx.flip();
                Status y;
                { UseSys u(f); y = client->set_blocking(mode); }
                bool real = !(__real_fcntl(client->get_socket_descriptor(), F_GETFL) & O_NONBLOCK);
                if(!f.failed.empty() && y == Status::Success) { tag = "mode"; error = "setting the blocking mode succeeded although the system call failed"; }
                else if(client->get_blocking() != real) { tag = "mode"; error = "after a failed change of the blocking mode it is reported wrongly"; }
                if(!real) client->set_blocking(true);
            }
            Status x = error.empty() ? client->send(q) : Status::Success;
            if(!error.empty()) {}
            else if(x != Status::Success) error = std::string("after ") + what + " sending returned " + status_name(x);
            else
            {
                fr::Packet a; std::string d; uint32_t n = 0;
                if((x = client->receive(a)) != Status::Success) error = std::string("after ") + what + " receiving returned " + status_name(x);
                else { a >> d >> n; if(d != "hello answered" || n != at + 1) error = "after " + what + " the answer was not the one sent"; }
            }
        }
        else
        {
            ++refused;
            cx.label(std::string("refused: ") + (peer == TLS ? !s.trusted ? "untrusted" : !s.in_time ? "not valid now" : "other name" : PEER[peer]));
            if(cx.chance(1, 4))
            {
                fr::Packet a("x");
                if(client->send(a) == Status::Success || client->receive(a) == Status::Success) { tag = "use"; error = "after " + what + " failed the socket could be used"; }
            }
        }
        done = true;
        bool remote_hard = server_side && !eintr;
        bool hangup = expect && cx.flip();
        if(hangup || !error.empty()) { if(client->connected()) ::shutdown(client->get_socket_descriptor(), SHUT_RDWR); }
        if((!error.empty() || peer == OTHER_FAMILY || cut || remote_hard) && l && l->connected()) { if(cx.flip()) l->shutdown(); else ::shutdown(l->get_socket_descriptor(), SHUT_RDWR); }
        if(expect && !hangup && error.empty()) { char c = 'e'; size_t n = 0; client->send_raw(&c, 1, n); }  // ends the server's wait, the connection stays
        if(t.joinable()) t.join();
        for(int fd : raw) { tls::reset_on_close(fd); __real_close(fd); }
        if(held >= 0) __real_close(held);
        if(remote.hard() && server_gone && (tag == "use" || tag == "state")) error.clear();      // the server had gone
        if(!remote.failed.empty()) { cx.label("server: " + remote.failed.substr(remote.failed.find(' ') + 1) + " system call"); trace("server: " + remote.failed); }
        if(cut || server_gone) server_error.clear();
        VP_CHECK(cx, error.empty(), tag, error);
        VP_CHECK(cx, server_error.empty(), "server", "after " + what + ": " + server_error);
        l.reset();
        if(hangup && cx.flip()) { client->disconnect(); VP_CHECK(cx, !client->connected(), "disconnect", "still connected after disconnecting"); }
        auto want = baseline;
        if(client->connected()) want[client->get_socket_descriptor()] = "";
        auto now = net.open_fds();
        if(client->connected()) now[client->get_socket_descriptor()] = "";
        std::string d = tls::fd_diff(want, now);
        VP_CHECK(cx, d.empty(), "descriptors", "after " + what + " the open descriptors are off by" + d);
        if(was && !expect) cx.label("failed while connected");
    }
    client.reset();
    std::string d = tls::fd_diff(baseline, net.open_fds());
    VP_CHECK(cx, d.empty(), "descriptors", "after destroying the socket the open descriptors are off by" + d);
    if(accepted) cx.label("accepted");
    if(refused && accepted) cx.label("accepted and refused");
    if(refused) cx.nontrivial();
}

Property vp::the_property = {"C29", prop,
    "a case is 1-4 connection attempts with one TLS socket to real servers with certificates made on the fly (signed by either of two roots, through intermediates, self-signed, forged; exact, wildcard, alternative and wrong names; valid, expired, not yet valid), and to peers that do not speak TLS or cannot be reached, with authorities loaded in between and verification switched on and off; non-trivial: some attempt must fail",
    2500, 30000, 30, 16, false, nullptr, 0, 0, 5, 3, 40};
