// Certificates made on the fly, and helpers for TLS checks.
#pragma once
#include <fstream>
#include <map>
#include <dirent.h>
#include <frnetlib/SSLContext.h>
#include <frnetlib/SSLListener.h>
#include <frnetlib/SSLSocket.h>
#include <mbedtls/x509_crt.h>
#include <mbedtls/pk.h>
#include <mbedtls/ecp.h>
#include <mbedtls/oid.h>
#include "fakesock.hpp"
#include "sys.hpp"

namespace tls
{
using namespace vp;

// a directory of this process's own
inline const std::string &dir()
{
    static std::map<pid_t, std::string> d;
    std::string &s = d[getpid()];
    if(s.empty())
    {
        s = std::string(getenv("VP_WORK") ? getenv("VP_WORK") : "/tmp") + "/tls-" + num((uint64_t)getpid());
        if(::mkdir(s.c_str(), 0700) && errno != EEXIST) throw std::runtime_error("mkdir");
    }
    return s;
}
inline std::string save(const std::string &name, const std::string &content) { std::string p = dir() + "/" + name; std::ofstream(p, std::ios::binary) << content; return p; }

struct Rnd
{
    mbedtls_entropy_context e; mbedtls_ctr_drbg_context d;
    Rnd() { mbedtls_entropy_init(&e); mbedtls_ctr_drbg_init(&d); if(mbedtls_ctr_drbg_seed(&d, mbedtls_entropy_func, &e, nullptr, 0)) throw std::runtime_error("seed"); }
};
inline Rnd &rnd() { static std::map<pid_t, Rnd *> m; auto &r = m[getpid()]; if(!r) r = new Rnd; return *r; }

struct Key
{
    mbedtls_pk_context pk;
    Key()
    {
        mbedtls_pk_init(&pk);
        if(mbedtls_pk_setup(&pk, mbedtls_pk_info_from_type(MBEDTLS_PK_ECKEY)) || mbedtls_ecp_gen_key(MBEDTLS_ECP_DP_SECP256R1, mbedtls_pk_ec(pk), mbedtls_ctr_drbg_random, &rnd().d)) throw std::runtime_error("key");
    }
    std::string pem() { unsigned char b[2000]; if(mbedtls_pk_write_key_pem(&pk, b, sizeof b)) throw std::runtime_error("key pem"); return (char *)b; }
};
// a few keys, made once
inline Key &key(size_t n) { static std::map<std::pair<pid_t, size_t>, Key *> m; auto &k = m[{getpid(), n}]; if(!k) k = new Key; return *k; }

struct Cert
{
    size_t subject_key = 0, issuer_key = 0;
    std::string subject = "CN=x", issuer = "CN=x";
    const char *from = "20200101000000", *to = "20491231235959";
    bool ca = false;
    std::vector<std::string> names;     // subject alternative names (DNS)
    uint64_t serial = 1;
};

inline std::string der_len(size_t n) { return n < 128 ? std::string(1, (char)n) : n < 256 ? std::string("\x81") + (char)n : std::string("\x82") + (char)(n >> 8) + (char)n; }

inline std::string make(const Cert &c, bool der = false)
{
    mbedtls_x509write_cert w;
    mbedtls_x509write_crt_init(&w);
    mbedtls_mpi s;
    mbedtls_mpi_init(&s);
    mbedtls_mpi_lset(&s, (mbedtls_mpi_sint)c.serial);
    int e = 0;
    mbedtls_x509write_crt_set_version(&w, MBEDTLS_X509_CRT_VERSION_3);
    mbedtls_x509write_crt_set_md_alg(&w, MBEDTLS_MD_SHA256);
    mbedtls_x509write_crt_set_subject_key(&w, &key(c.subject_key).pk);
    mbedtls_x509write_crt_set_issuer_key(&w, &key(c.issuer_key).pk);
    e |= mbedtls_x509write_crt_set_serial(&w, &s);
    e |= mbedtls_x509write_crt_set_subject_name(&w, c.subject.c_str());
    e |= mbedtls_x509write_crt_set_issuer_name(&w, c.issuer.c_str());
    e |= mbedtls_x509write_crt_set_validity(&w, c.from, c.to);
    e |= mbedtls_x509write_crt_set_basic_constraints(&w, c.ca, -1);
    if(!c.names.empty())
    {
        std::string v;
        for(auto &n : c.names) v += "\x82" + der_len(n.size()) + n;
        v = "\x30" + der_len(v.size()) + v;
        e |= mbedtls_x509write_crt_set_extension(&w, MBEDTLS_OID_SUBJECT_ALT_NAME, MBEDTLS_OID_SIZE(MBEDTLS_OID_SUBJECT_ALT_NAME), 0, (const unsigned char *)v.data(), v.size());
    }
    std::string out;
    unsigned char b[8000];
    if(der)
    {
        int n = mbedtls_x509write_crt_der(&w, b, sizeof b, mbedtls_ctr_drbg_random, &rnd().d);
        if(n > 0) out.assign((char *)b + sizeof b - n, (size_t)n); else e = 1;
    }
    else if(!e && !(e = mbedtls_x509write_crt_pem(&w, b, sizeof b, mbedtls_ctr_drbg_random, &rnd().d))) out = (char *)b;
    mbedtls_x509write_crt_free(&w);
    mbedtls_mpi_free(&s);
    if(e) throw std::runtime_error("certificate");
    return out;
}

// random number state is expensive to seed, so contexts without authorities are kept; one per role
inline std::shared_ptr<fr::SSLContext> context(int role)
{
    static std::map<std::pair<pid_t, int>, std::shared_ptr<fr::SSLContext>> m;
    auto &c = m[{getpid(), role}];
    if(!c) c = std::make_shared<fr::SSLContext>();
    return c;
}

inline uint16_t port_of(int fd)
{
    sockaddr_storage a = {}; socklen_t n = sizeof a;
    if(__real_getsockname(fd, (sockaddr *)&a, &n)) return 0;
    return ntohs(a.ss_family == AF_INET6 ? ((sockaddr_in6 *)&a)->sin6_port : ((sockaddr_in *)&a)->sin_port);
}

// open descriptors and what they are
inline std::map<int, std::string> open_fds()
{
    std::map<int, std::string> m;
    DIR *d = opendir("/proc/self/fd");
    if(!d) return m;
    while(dirent *e = readdir(d))
    {
        int fd = atoi(e->d_name);
        if(e->d_name[0] == '.' || fd == dirfd(d)) continue;
        char b[200];
        ssize_t n = readlink(("/proc/self/fd/" + std::string(e->d_name)).c_str(), b, sizeof b);
        m[fd] = n > 0 ? std::string(b, (size_t)n) : "?";
    }
    closedir(d);
    return m;
}
inline std::string fd_diff(const std::map<int, std::string> &before, const std::map<int, std::string> &after)
{
    std::string s;
    for(auto &x : after) if(!before.count(x.first) || before.at(x.first) != x.second) s += " +" + num((uint64_t)x.first) + ":" + x.second;
    for(auto &x : before) if(!after.count(x.first)) s += " -" + num((uint64_t)x.first) + ":" + x.second;
    return s;
}
inline void reset_on_close(int fd) { linger lg = {1, 0}; __real_setsockopt(fd, SOL_SOCKET, SO_LINGER, &lg, sizeof lg); }
inline double now_ms() { return std::chrono::duration<double, std::milli>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
}
