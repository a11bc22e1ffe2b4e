// vp: a small property-based testing engine (choice-sequence based, with
// integrated shrinking), used by every check in this directory.
//
// A property is a function over a Case. Everything random comes from
// Case::draw()/raw(); the sequence of drawn choices *is* the test case, so a
// case can be replayed, shrunk (on the sequence) and fed by a coverage-guided
// fuzzer (bytes -> choices). Choice 0 is always the simplest alternative.
#pragma once
#include <cstdint>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <initializer_list>
#include <string>
#include <vector>
#include <utility>
#include <stdexcept>

namespace vp
{
struct Failure { std::string tag, msg; };   // the property is violated
struct Discard {};                          // case outside the domain (rare)
struct Overrun {};                          // case used too many choices

struct Rng
{
    uint64_t s[2];
    explicit Rng(uint64_t seed = 0) { reseed(seed); }
    static uint64_t mix(uint64_t z)
    {
        z += 0x9e3779b97f4a7c15ULL;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    void reseed(uint64_t seed) { s[0] = mix(seed); s[1] = mix(s[0] ^ 0x1234567); if(!s[0] && !s[1]) s[0] = 1; }
    uint64_t next()
    {
        uint64_t a = s[0], b = s[1];
        uint64_t r = a + b;
        s[0] = b;
        a ^= a << 23;
        s[1] = a ^ b ^ (a >> 18) ^ (b >> 5);
        return r;
    }
    uint64_t below(uint64_t n) { return n ? next() % n : next(); }
};

// Literals found in the sources under test (see run.py); used to bias the
// generators towards values the code treats specially.
struct Dict
{
    std::vector<uint64_t> ints, novel_ints;
    std::vector<std::string> strs, novel_strs;
};
Dict &dict();

enum class Mode { Random, Replay, Bytes };

class Case
{
public:
    // -- choices ---------------------------------------------------------
    uint64_t draw(uint64_t n);              // uniform in [0,n); n==0: 64 bits
    template<typename G> uint64_t raw(G gen)// a value produced by gen(rng), recorded as such
    {
        if(mode == Mode::Random && pos >= pre.size())
            return record(gen(rng));
        return draw(0);
    }
    bool chance(unsigned a, unsigned b) { return draw(b) >= b - a; }     // a out of b, false is simplest
    bool flip() { return draw(2) == 1; }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)draw((uint64_t)(hi - lo) + 1); }
    template<typename T> T pick(std::initializer_list<T> l) { return *(l.begin() + draw(l.size())); }
    template<typename T> const T &pick(const std::vector<T> &l) { return l[draw(l.size())]; }
    // weighted index, earlier = simpler
    size_t weighted(std::initializer_list<unsigned> w);

    // -- generators ------------------------------------------------------
    uint64_t integer(unsigned bits);        // boundary-biased integer of that width
    size_t size(size_t max);                // boundary-biased size, mostly small
    std::string bytes(size_t max);          // arbitrary bytes, boundary-biased length
    std::string blob(size_t len);           // len bytes, from few choices (a seed and a pattern)
    std::string text(const char *alphabet, size_t min, size_t max); // over an alphabet
    std::string dict_string(size_t max);    // a literal of the sources (may be empty)
    std::vector<size_t> splits(size_t total); // segment sizes (>0) adding up to total

    // -- reporting -------------------------------------------------------
    void label(const char *l);
    void label(const std::string &l) { label(l.c_str()); }
    void nontrivial() { is_nontrivial = true; }
    bool describing = false;
    template<typename F> void note(F f) { if(describing) notes.push_back(f()); }
    [[noreturn]] void fail(const std::string &tag, const std::string &msg);
    [[noreturn]] void discard() { throw Discard(); }
    void steps(uint64_t n = 1) { if((step_count += n) > step_limit) fail("livelock", "the operation did not finish within " + std::to_string(step_limit) + " I/O steps"); }
    void reset_steps(uint64_t limit) { step_count = 0; step_limit = limit; }

    // -- engine side -----------------------------------------------------
    Mode mode = Mode::Replay;
    Rng rng;
    std::vector<uint64_t> pre, rec;
    size_t pos = 0;
    const uint8_t *data = nullptr; size_t data_len = 0;
    bool is_nontrivial = false;
    std::vector<std::string> notes;
    uint64_t step_count = 0, step_limit = 100000000;
    uint64_t thorough = 0;
    bool inner = false;                     // not the case itself, but a generator made from one of its choices
    uint64_t record(uint64_t v);
};

#define VP_CHECK(cx, cond, tag, msg) do { if(!(cond)) (cx).fail((tag), std::string() + msg); } while(0)

// printable form of bytes, shortened
std::string show(const std::string &s, size_t max = 120);
inline std::string num(uint64_t v) { return std::to_string(v); }
inline std::string snum(int64_t v) { return std::to_string(v); }
uint64_t fnv(const void *d, size_t n, uint64_t h = 1469598103934665603ULL);

struct Property
{
    const char *id;
    void (*fn)(Case &);
    const char *rule;              // how cases are made; what is non-trivial
    uint64_t quick, thorough;      // number of cases
    double hang_s = 30;            // a case running longer is a hang
    unsigned workers = 8;
    bool fork_each = false;        // run each case in its own process
    void (*init)() = nullptr;      // once per worker process
    uint64_t fuzz_quick = 0, fuzz_thorough = 0; // coverage-guided runs per fuzzer process
    int confirm_tries = 3, confirm_hits = 3;    // how a failure is confirmed before it is reported
    double shrink_s = 25;
    std::vector<std::vector<uint64_t>> forced;   // the first cases begin with these choices
};
extern Property the_property;      // defined by the property's file
}
