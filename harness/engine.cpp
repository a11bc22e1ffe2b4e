// The engine behind vp.hpp: random driver with forked workers, crash and hang
// capture, shrinking on the choice sequence, replay files, evidence.
#include "vp.hpp"
#include <algorithm>
#include <array>
#include <atomic>
#include <chrono>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <unordered_map>
#include <cerrno>
#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace vp
{
Dict &dict() { static Dict d; return d; }

uint64_t fnv(const void *d, size_t n, uint64_t h)
{
    auto *p = (const unsigned char *)d;
    for(size_t a = 0; a < n; ++a) h = (h ^ p[a]) * 1099511628211ULL;
    return h;
}

std::string show(const std::string &s, size_t max)
{
    std::string out = "\"";
    size_t n = s.size() > max ? max : s.size();
    char b[8];
    for(size_t a = 0; a < n; ++a)
    {
        unsigned char c = s[a];
        if(c == '\n') out += "\\n"; else if(c == '\r') out += "\\r"; else if(c == '"') out += "\\\"";
        else if(c == '\\') out += "\\\\"; else if(c >= 32 && c < 127) out += (char)c;
        else { snprintf(b, sizeof b, "\\x%02x", c); out += b; }
    }
    out += "\"";
    if(n < s.size()) out += "...(" + std::to_string(s.size()) + " bytes)";
    return out;
}

// ---------------------------------------------------------------- choices
static const size_t MAX_CHOICES = 400000;
// choices of the running case, visible to the parent (for crashes)
struct CaseLog { std::atomic<uint64_t> n; uint64_t v[MAX_CHOICES]; };
static CaseLog *case_log = nullptr;

uint64_t Case::record(uint64_t v)
{
    if(rec.size() >= MAX_CHOICES) throw Overrun();
    if(case_log && !inner) { case_log->v[rec.size()] = v; case_log->n.store(rec.size() + 1, std::memory_order_relaxed); }
    rec.push_back(v);
    ++pos;
    return v;
}

uint64_t Case::draw(uint64_t n)
{
    uint64_t v;
    if(mode == Mode::Bytes)
    {
        unsigned need = 0;
        for(uint64_t m = n ? n - 1 : ~0ULL; m; m >>= 8) ++need;
        v = 0;
        for(unsigned a = 0; a < need; ++a)
            if(data_len) { v |= (uint64_t)*data++ << (8 * a); --data_len; }
        if(n) v %= n;
        return record(v);
    }
    if(pos < pre.size())
    {
        v = pre[pos];
        if(n && v >= n) v %= n;
    }
    else v = mode == Mode::Random ? rng.below(n) : 0;
    return record(v);
}

size_t Case::weighted(std::initializer_list<unsigned> w)
{
    uint64_t total = 0;
    for(auto x : w) total += x;
    uint64_t v = draw(total);
    size_t i = 0;
    for(auto x : w) { if(v < x) return i; v -= x; ++i; }
    return 0;
}

static uint64_t mask_bits(unsigned bits) { return bits >= 64 ? ~0ULL : ((1ULL << bits) - 1); }

uint64_t Case::integer(unsigned bits)
{
    return raw([&](Rng &r) -> uint64_t {
        uint64_t m = mask_bits(bits);
        Dict &d = dict();
        switch(r.below(8))
        {
            case 0: return r.below(16) & m;
            case 1: return (0 - r.below(16)) & m;
            case 2: { uint64_t p = 1ULL << r.below(bits); return (p + r.below(5) - 2) & m; }
            case 3: case 4:
            {
                const auto &v = (!d.novel_ints.empty() && r.below(2)) ? d.novel_ints : d.ints;
                if(!v.empty()) { uint64_t x = v[r.below(v.size())]; return (x + r.below(3) - 1) & m; }
                return r.next() & m;
            }
            case 5: return r.below(256) & m;
            case 6: { uint64_t x = 0; for(int a = 0; a < 8; ++a) x = x << 8 | (r.below(2) ? r.below(2) * 255 : r.below(256)); return x & m; }
            default: return r.next() & m;
        }
    }) & mask_bits(bits);
}

size_t Case::size(size_t max)
{
    if(max == 0) return 0;
    uint64_t v = raw([&](Rng &r) -> uint64_t {
        static const size_t marks[] = {16, 32, 55, 56, 63, 64, 65, 100, 119, 120, 124, 125, 126, 127, 128, 129, 200, 254, 255, 256, 257, 300, 500, 511, 512, 513,
            1000, 1023, 1024, 1025, 1500, 2000, 2048, 4090, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 10000, 16383, 16384, 16385, 32767, 32768, 65530, 65534, 65535, 65536, 65537,
            66000, 70000, 80000, 100000, 131071, 131072, 200000, 262144, 500000, 1000000, 1048576};
        Dict &d = dict();
        switch(r.below(16))
        {
            case 0: return 0;
            case 1: return 1;
            case 2: case 3: case 4: case 5: return r.below(std::min<size_t>(max, 8) + 1);
            case 6: case 7: case 8: case 9: return r.below(std::min<size_t>(max, 40) + 1);
            case 10: case 11: return r.below(std::min<size_t>(max, 300) + 1);
            case 12: case 13:
            {
                size_t n = 0;
                for(auto m : marks) if(m <= max) ++n; else break;
                if(!n) return r.below(max + 1);
                size_t v = marks[r.below(n)];
                size_t j = v + r.below(5) - 2;
                return j <= max ? j : v;
            }
            case 14:
            {
                const auto &v = (!d.novel_ints.empty() && r.below(3)) ? d.novel_ints : d.ints;
                for(int tries = 0; tries < 12 && !v.empty(); ++tries)
                {
                    uint64_t x = v[r.below(v.size())] + r.below(4) - 1;
                    if(x <= max) return x;
                }
                return r.below(max + 1);
            }
            default:
            {   // log-uniform
                unsigned b = 0; while(((uint64_t)1 << b) <= max && b < 63) ++b;
                uint64_t top = (uint64_t)1 << (r.below(b) + 1);
                return r.below(std::min<uint64_t>(top, max) + 1);
            }
        }
    });
    return v > max ? v % (max + 1) : v;
}

std::string Case::blob(size_t len)
{
    if(len == 0) return {};
    if(len <= 24)
    {
        std::string s(len, 0);
        size_t kind = draw(4);
        for(auto &c : s)
            c = (char)raw([&](Rng &r) -> uint64_t {
                switch(kind) { case 0: return 'a' + r.below(26); case 1: return r.below(256); case 2: return r.below(4) ? r.below(256) : 0; default: { static const unsigned char sp[] = {0, 255, 128, 127, '\r', '\n', '%', '&', '=', ':', ' ', '/', '?', '#', '+', '.', '0', 'f', 'F', 'H'}; return sp[r.below(sizeof sp)]; } }
            });
        return s;
    }
    size_t kind = draw(5);
    Rng r(draw(1u << 16));
    std::string s(len, 0);
    switch(kind)
    {
        case 0: for(size_t a = 0; a < len; ++a) s[a] = (char)('a' + a % 26); break;
        case 1: for(auto &c : s) c = (char)r.next(); break;
        case 2: { char c0 = (char)r.next(); for(auto &c : s) c = c0; break; }
        case 3: for(auto &c : s) c = r.below(8) ? (char)r.below(256) : "\r\n\r\n0;&="[r.below(8)]; break;
        default: for(size_t a = 0; a < len; ++a) s[a] = (char)(a * 131 + (a >> 8) * 7 + r.s[0] % 251); break;
    }
    return s;
}

std::string Case::dict_string(size_t max)
{
    // recorded as length + bytes, so that a replay needs no dictionary
    std::string cur;
    uint64_t n = raw([&](Rng &r) -> uint64_t {
        Dict &d = dict();
        const auto &v = (!d.novel_strs.empty() && r.below(2)) ? d.novel_strs : d.strs;
        if(v.empty()) return 0;
        for(int t = 0; t < 8; ++t) { cur = v[r.below(v.size())]; if(cur.size() <= max) return cur.size(); }
        cur.clear();
        return 0;
    });
    if(n > max) n %= max + 1;
    std::string s;
    for(size_t a = 0; a < n; ++a) s += (char)raw([&](Rng &) -> uint64_t { return (unsigned char)(a < cur.size() ? cur[a] : 'a'); });
    return s;
}

std::string Case::bytes(size_t max)
{
    if(chance(1, 12))
    {
        std::string s = dict_string(std::min<size_t>(max, 64));
        if(flip()) s = blob(size(std::min<size_t>(max - s.size(), 20))) + s;
        if(s.size() < max && flip()) s += blob(size(std::min<size_t>(max - s.size(), 20)));
        return s;
    }
    return blob(size(max));
}

std::string Case::text(const char *alphabet, size_t min, size_t max)
{
    size_t n = strlen(alphabet);
    size_t len = min + size(max - min);
    std::string s(len, alphabet[0]);
    if(len <= 40) { for(auto &c : s) c = alphabet[draw(n)]; return s; }
    Rng r(draw(1u << 16));
    for(auto &c : s) c = alphabet[r.below(n)];
    return s;
}

std::vector<size_t> Case::splits(size_t total)
{
    std::vector<size_t> out;
    if(total == 0) return out;
    size_t style = weighted({3, 3, 4, 2, 2});
    size_t left = total;
    auto push = [&](size_t n) { if(n == 0) n = 1; if(n > left) n = left; out.push_back(n); left -= n; };
    switch(style)
    {
        case 0: push(total); break;
        case 1: { size_t at = draw(total) ; if(at) push(at); if(left) push(left); break; }  // one cut
        case 2: // a few random cuts
        {
            size_t k = 1 + draw(6);
            for(size_t a = 0; a < k && left > 1; ++a) push(1 + draw(left));
            if(left) push(left);
            break;
        }
        case 3: // tiny pieces for a while
        {
            size_t k = 1 + draw(64);
            size_t w = 1 + draw(4);
            for(size_t a = 0; a < k && left; ++a) push(1 + draw(w));
            if(left) push(left);
            break;
        }
        default: // fixed chunk size
        {
            size_t c = total <= 4096 ? 1 + draw(16) : total / 256 + 1 + draw(4096);
            while(left) push(c);
        }
    }
    return out;
}

void Case::fail(const std::string &tag, const std::string &msg) { throw Failure{tag, msg}; }

// ---------------------------------------------------------------- shared state
static const size_t NLABEL = 160, NSAMPLE = 12;
struct Label { char name[56]; uint64_t n; };
struct WorkerStat
{
    std::atomic<uint64_t> cur_case;     // index + 1
    std::atomic<uint64_t> beat;
    uint64_t evals, nontrivial, discards, overruns, choices;
    std::atomic<uint64_t> failed_case;  // index + 1, of a Failure
    Label labels[NLABEL];
    uint64_t sample[NSAMPLE]; uint64_t nsample;
    std::atomic<uint64_t> nhash;
};
static WorkerStat *my_stat = nullptr;

void Case::label(const char *l)
{
    if(!my_stat) return;
    for(size_t a = 0; a < NLABEL; ++a)
    {
        auto &x = my_stat->labels[a];
        if(!x.n) { strncpy(x.name, l, sizeof(x.name) - 1); x.n = 1; return; }
        if(!strncmp(x.name, l, sizeof(x.name) - 1)) { ++x.n; return; }
    }
}

template<typename T> static T *shm(size_t count = 1)
{
    void *p = mmap(nullptr, sizeof(T) * count, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if(p == MAP_FAILED) { perror("mmap"); exit(3); }
    return (T *)p;
}

struct Result
{
    int outcome = 0; // 0 ok, 1 failure, 2 crash, 3 hang, 4 discard/overrun
    std::string tag, msg;
    std::vector<uint64_t> choices;
    std::vector<std::string> notes;
    bool nontrivial = false;
};

struct Opts
{
    std::string tier = "quick", evidence, replay_out, replay_in, bytes_in, dictf, errdir, stats_out;
    uint64_t seed = 1, cases = 0;
    double max_s = 0;
    unsigned workers = 0;
    bool thorough() const { return tier == "thorough"; }
} opt;

static double now()
{
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

static uint64_t case_seed(uint64_t idx)
{
    uint64_t h = fnv(the_property.id, strlen(the_property.id));
    return Rng::mix(Rng::mix(opt.seed * 0x9e37 + 77) ^ Rng::mix(h) ^ Rng::mix(idx * 0x10001 + 5));
}

// run one case in this process
static int run_here(Case &cx, Failure &f)
{
    cx.thorough = opt.thorough();
    if(case_log) case_log->n.store(0);
    try { the_property.fn(cx); return 0; }
    catch(const Failure &x) { f = x; return 1; }
    catch(const Discard &) { return 4; }
    catch(const Overrun &) { return 4; }
    catch(const std::exception &e) { f = Failure{"exception", std::string("an unexpected exception escaped: ") + e.what()}; return 1; }
}

struct ForkOut { std::atomic<uint64_t> done; uint64_t nontrivial; uint64_t len; char text[1 << 20]; };
static ForkOut *fork_out = nullptr;

static std::string err_file() { return opt.errdir + "/child.err"; }

static std::string summarize_err()
{
    std::ifstream in(err_file());
    std::string l, out; int n = 0;
    std::string first;
    while(std::getline(in, l))
    {
        if(l.find("ERROR: AddressSanitizer") != std::string::npos || l.find("runtime error") != std::string::npos ||
           l.find("WARNING: ThreadSanitizer") != std::string::npos || l.find("terminate called") != std::string::npos ||
           l.find("what():") != std::string::npos || (l.find("    #") == 0 && l.find("/repo/") != std::string::npos))
        {
            out += l + " | ";
            if(++n > 5) break;
        }
        if(first.empty()) first = l;
    }
    return out.empty() ? first : out;
}

// run one case in a forked child, with a time limit
static Result run_forked(std::function<void(Case &)> setup, bool describe, double limit)
{
    Result res;
    fork_out->done = 0; fork_out->len = 0; fork_out->nontrivial = 0;
    case_log->n = 0;
    fflush(nullptr);
    pid_t pid = fork();
    if(pid == 0)
    {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        setpgid(0, 0);
        int fd = open(err_file().c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        if(fd >= 0) { dup2(fd, 2); if(fd != 2) close(fd); }
        my_stat = nullptr;
        Case cx;
        setup(cx);
        cx.describing = describe;
        Failure f;
        int r = run_here(cx, f);
        std::string t = f.tag + "\n" + f.msg + "\x01";
        for(auto &n : cx.notes) t += n + "\x01";
        if(t.size() > sizeof(fork_out->text) - 1) t.resize(sizeof(fork_out->text) - 1);
        memcpy(fork_out->text, t.data(), t.size());
        fork_out->len = t.size();
        fork_out->nontrivial = cx.is_nontrivial;
        fork_out->done = r + 1;
        _exit(0);
    }
    double start = now();
    int st = 0;
    bool killed = false;
    useconds_t nap = 200;
    while(true)
    {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if(r == pid) break;
        if(now() - start > limit) { kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &st, 0); killed = true; break; }
        usleep(nap);
        if(nap < 20000) nap += nap / 2;
    }
    kill(-pid, SIGKILL);
    res.choices.assign(case_log->v, case_log->v + case_log->n.load());
    if(killed) { res.outcome = 3; res.tag = "hang"; res.msg = "the case did not finish within " + std::to_string((int)limit) + " s"; return res; }
    if(!fork_out->done)
    {
        res.outcome = 2;
        res.tag = "crash";
        res.msg = "the process died (" + std::string(WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st))) + "): " + summarize_err();
        return res;
    }
    std::string t(fork_out->text, fork_out->len);
    res.outcome = (int)fork_out->done.load() - 1;
    res.nontrivial = fork_out->nontrivial;
    size_t p = t.find('\x01');
    std::string head = t.substr(0, p);
    size_t nl = head.find('\n');
    res.tag = head.substr(0, nl); res.msg = nl == std::string::npos ? "" : head.substr(nl + 1);
    while(p != std::string::npos && p + 1 < t.size())
    {
        size_t q = t.find('\x01', p + 1);
        if(q == std::string::npos) break;
        res.notes.push_back(t.substr(p + 1, q - p - 1));
        p = q;
    }
    return res;
}

static Result run_choices(const std::vector<uint64_t> &c, bool describe, double limit)
{
    return run_forked([&](Case &cx) { cx.mode = Mode::Replay; cx.pre = c; }, describe, limit);
}
static Result run_index(uint64_t idx, bool describe, double limit)
{
    return run_forked([&](Case &cx) { cx.mode = Mode::Random; cx.rng.reseed(case_seed(idx)); if(idx < the_property.forced.size()) cx.pre = the_property.forced[idx]; }, describe, limit);
}

static bool bad(const Result &r) { return r.outcome >= 1 && r.outcome <= 3; }

// ---------------------------------------------------------------- shrinking
static std::vector<uint64_t> shrink(std::vector<uint64_t> best, const std::string &tag, double budget)
{
    double end = now() + budget;
    double limit = tag == "hang" ? the_property.hang_s : the_property.hang_s;
    auto still = [&](const std::vector<uint64_t> &c, std::vector<uint64_t> &got) {
        Result r = run_choices(c, false, limit);
        if(!bad(r) || r.tag != tag) return false;
        got = r.outcome == 3 ? c : r.choices;   // choices actually used
        return true;
    };
    auto better = [](const std::vector<uint64_t> &a, const std::vector<uint64_t> &b) {
        if(a.size() != b.size()) return a.size() < b.size();
        return a < b;
    };
    bool progress = true;
    while(progress && now() < end)
    {
        progress = false;
        // delete blocks
        for(size_t w = std::max<size_t>(best.size() / 2, 1); w >= 1 && now() < end; w /= 2)
        {
            for(size_t i = best.size(); i-- > 0 && now() < end;)
            {
                if(i + w > best.size()) continue;
                auto c = best;
                c.erase(c.begin() + i, c.begin() + i + w);
                std::vector<uint64_t> g;
                if(still(c, g) && better(g, best)) { best = g; progress = true; }
                if(w > 8 && i >= w / 2) i -= w / 2;
            }
            if(w == 1) break;
        }
        // zero blocks, then minimise single values
        for(size_t i = 0; i < best.size() && now() < end; ++i)
        {
            if(best[i] == 0) continue;
            std::vector<uint64_t> g;
            auto c = best; c[i] = 0;
            if(still(c, g) && better(g, best)) { best = g; progress = true; continue; }
            uint64_t lo = 0, hi = i < best.size() ? best[i] : 0;
            for(int t = 0; t < 24 && lo + 1 < hi && now() < end; ++t)
            {
                uint64_t mid = lo + (hi - lo) / 2;
                c = best; c[i] = mid;
                if(still(c, g) && better(g, best)) { best = g; progress = true; hi = mid; if(i >= best.size()) break; }
                else lo = mid;
            }
            if(i < best.size() && best[i] > 0)
            {
                c = best; --c[i];
                if(still(c, g) && better(g, best)) { best = g; progress = true; }
            }
        }
    }
    return best;
}

// ---------------------------------------------------------------- replay files
static void write_replay(const std::string &path, const Result &r, uint64_t idx)
{
    std::ofstream o(path);
    o << "vp-replay 1\nproperty " << the_property.id << "\nseed " << opt.seed << "\ncase " << idx << "\ntag " << r.tag << "\nmessage " << show(r.msg, 4000) << "\nchoices " << r.choices.size() << "\n";
    for(auto v : r.choices) o << v << " ";
    o << "\nnotes\n";
    for(auto &n : r.notes) o << n << "\n";
}

static bool read_replay(const std::string &path, std::vector<uint64_t> &c, std::string &tag)
{
    std::ifstream in(path);
    std::string l;
    while(std::getline(in, l))
    {
        if(l.compare(0, 4, "tag ") == 0) tag = l.substr(4);
        if(l.compare(0, 8, "choices ") == 0)
        {
            size_t n = std::stoul(l.substr(8));
            for(size_t a = 0; a < n; ++a) { uint64_t v; if(!(in >> v)) return false; c.push_back(v); }
            return true;
        }
    }
    return false;
}

static void load_dict()
{
    std::ifstream in(opt.dictf);
    std::string l;
    auto unhex = [](const std::string &h) { std::string s; for(size_t a = 0; a + 1 < h.size(); a += 2) s += (char)std::stoi(h.substr(a, 2), nullptr, 16); return s; };
    while(std::getline(in, l))
    {
        if(l.size() < 3) continue;
        std::string v = l.substr(2);
        switch(l[0])
        {
            case 'i': dict().ints.push_back(std::stoull(v)); break;
            case 'I': dict().novel_ints.push_back(std::stoull(v)); break;
            case 's': dict().strs.push_back(unhex(v)); break;
            case 'S': dict().novel_strs.push_back(unhex(v)); break;
        }
    }
}

static std::string jstr(const std::string &s)
{
    std::string o = "\"";
    char b[8];
    for(unsigned char c : s)
    {
        if(c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if(c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o + "\"";
}

static const size_t MAXHASH = 1u << 21;

// A failing case was found: confirm, shrink, confirm again (3 times), write the replay.
// Returns true if it is confirmed.
static bool confirm_and_report(Result first, uint64_t idx, std::string &line)
{
    double limit = the_property.hang_s;
    // a failure must reproduce from its choices
    int hits = 0;
    const int tries = first.outcome == 3 ? 2 : the_property.confirm_tries;
    const int need = first.outcome == 3 ? 2 : the_property.confirm_hits;
    Result last = first;
    int runs = 0;
    while(runs < tries && hits < need)
    {
        ++runs;
        Result r = run_choices(first.choices, false, limit);
        if(bad(r)) { ++hits; last = r; if(last.choices.empty()) last.choices = first.choices; }
    }
    fprintf(stderr, "case %llu: %s: %s (reproduced %d/%d)\n", (unsigned long long)idx, first.tag.c_str(), first.msg.substr(0, 600).c_str(), hits, runs);
    if(hits < need) return false;
    std::string tag = last.tag;
    auto best = (first.outcome == 3 || hits < runs) ? first.choices : shrink(last.choices, tag, the_property.shrink_s);
    Result fin;
    hits = 0;
    for(int a = 0; a < tries && hits < need; ++a) { Result r = run_choices(best, true, limit); if(bad(r)) { ++hits; fin = r; } }
    if(hits < need)
    {   // the shrunk case is not stable: report the original one
        best = first.choices;
        fin = last;
        for(int a = 0; a < tries; ++a) { Result r = run_choices(best, true, limit); if(bad(r)) { fin = r; break; } }
    }
    if(fin.choices.empty()) fin.choices = best;
    write_replay(opt.replay_out, fin, idx);
    line = fin.tag + ": " + fin.msg;
    return true;
}

static int explore()
{
    Property &P = the_property;
    uint64_t total = opt.cases ? opt.cases : (opt.thorough() ? P.thorough : P.quick);
    unsigned W = opt.workers ? opt.workers : P.workers;
    double max_s = opt.max_s > 0 ? opt.max_s : (opt.thorough() ? 600 : 150);
    auto *stats = shm<WorkerStat>(W);
    std::vector<uint64_t *> hashes;
    for(unsigned w = 0; w < W; ++w) hashes.push_back(shm<uint64_t>(MAXHASH));
    double start = now();
    fflush(nullptr);

    auto spawn = [&](unsigned w, uint64_t first) -> pid_t {
        pid_t pid = fork();
        if(pid) return pid;
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        setpgid(0, 0);
        std::string ef = opt.errdir + "/worker" + std::to_string(w) + ".err";
        int fd = open(ef.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
        if(fd >= 0) { dup2(fd, 2); if(fd != 2) close(fd); }
        case_log = nullptr;
        my_stat = &stats[w];
        auto &S = stats[w];
        if(P.init) P.init();
        for(uint64_t i = first; i < total; i += W)
        {
            S.cur_case = i + 1; ++S.beat;
            Case cx;
            cx.mode = Mode::Random;
            cx.rng.reseed(case_seed(i));
            if(i < P.forced.size()) cx.pre = P.forced[i];
            Failure f;
            int r = run_here(cx, f);
            ++S.evals;
            S.choices += cx.rec.size();
            if(r == 4) { ++S.discards; continue; }
            if(cx.is_nontrivial)
            {
                ++S.nontrivial;
                uint64_t h = fnv(cx.rec.data(), cx.rec.size() * 8);
                uint64_t n = S.nhash.load();
                if(n < MAXHASH) { hashes[w][n] = h; S.nhash = n + 1; }
                if(S.nsample < NSAMPLE && (S.nsample < 3 || i * NSAMPLE / total >= S.nsample)) S.sample[S.nsample++] = i;
            }
            if(r == 1) { dprintf(2, "case %llu: %s: %s\n", (unsigned long long)i, f.tag.c_str(), f.msg.substr(0, 600).c_str()); S.failed_case = i + 1; break; }
            if(now() - start > max_s) break;
        }
        S.cur_case = 0;
        fflush(nullptr);
        _exit(0);
    };

    std::vector<pid_t> pid(W);
    std::vector<uint64_t> beat(W, 0);
    std::vector<double> since(W, now());
    for(unsigned w = 0; w < W; ++w) pid[w] = spawn(w, w);
    unsigned live = W;
    struct Bad { uint64_t idx; int kind; };
    std::vector<Bad> bads;
    unsigned crashes = 0;
    uint64_t unconfirmed = 0;
    bool violated = false;
    std::string line;
    auto kill_all = [&] { for(unsigned w = 0; w < W; ++w) if(pid[w] > 0) { kill(-pid[w], SIGKILL); kill(pid[w], SIGKILL); waitpid(pid[w], nullptr, 0); pid[w] = 0; --live; } };
    // Returns true when the failure is confirmed
    auto handle = [&](uint64_t idx, int kind) -> bool {
        Result r = run_index(idx, false, P.hang_s);
        if(!bad(r))
        {   // not reproduced at once: give it a few more chances
            for(int a = 0; a < 4 && !bad(r); ++a) r = run_index(idx, false, P.hang_s);
        }
        if(bad(r) && confirm_and_report(r, idx, line)) return true;
        fprintf(stderr, "unconfirmed failure (kind %d) in case %llu\n", kind, (unsigned long long)idx);
        ++unconfirmed;
        return false;
    };
    while(live && !violated)
    {
        bool any = false;
        for(unsigned w = 0; w < W && !violated; ++w)
        {
            if(pid[w] <= 0) continue;
            int st;
            pid_t r = waitpid(pid[w], &st, WNOHANG);
            auto &S = stats[w];
            if(r == pid[w])
            {
                any = true;
                kill(-pid[w], SIGKILL);
                pid[w] = 0; --live;
                uint64_t idx = 0; int kind = 0;
                if(S.failed_case) { idx = S.failed_case - 1; kind = 1; S.failed_case = 0; }
                else if(!(WIFEXITED(st) && WEXITSTATUS(st) == 0) && S.cur_case) { idx = S.cur_case - 1; kind = 2; ++crashes; }
                else if(!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { fprintf(stderr, "worker %u died outside a case (status %d)\n", w, st); ++crashes; if(crashes > 50) { kill_all(); return 3; } }
                if(kind)
                {
                    if(handle(idx, kind)) { violated = true; kill_all(); break; }
                    if(now() - start < max_s && idx + W < total && unconfirmed < 40) { pid[w] = spawn(w, idx + W); ++live; since[w] = now(); }
                }
                continue;
            }
            if(S.beat != beat[w]) { beat[w] = S.beat; since[w] = now(); }
            else if(S.cur_case && now() - since[w] > P.hang_s)
            {
                uint64_t idx = S.cur_case - 1;
                kill(-pid[w], SIGKILL); kill(pid[w], SIGKILL); waitpid(pid[w], nullptr, 0);
                pid[w] = 0; --live;
                if(handle(idx, 3)) { violated = true; kill_all(); break; }
                if(now() - start < max_s && idx + W < total && unconfirmed < 40) { pid[w] = spawn(w, idx + W); ++live; since[w] = now(); }
            }
        }
        if(!any) usleep(3000);
    }

    // evidence
    uint64_t evals = 0, nt = 0, disc = 0, choices = 0;
    std::map<std::string, uint64_t> labels;
    std::vector<uint64_t> samp;
    std::vector<uint64_t> all;
    for(unsigned w = 0; w < W; ++w)
    {
        auto &S = stats[w];
        evals += S.evals; nt += S.nontrivial; disc += S.discards; choices += S.choices;
        for(auto &l : S.labels) if(l.n) labels[l.name] += l.n;
        for(uint64_t a = 0; a < S.nsample; ++a) samp.push_back(S.sample[a]);
        all.insert(all.end(), hashes[w], hashes[w] + S.nhash.load());
    }
    std::sort(all.begin(), all.end());
    uint64_t distinct = std::unique(all.begin(), all.end()) - all.begin();
    std::vector<std::string> samples;
    for(size_t a = 0; a < samp.size() && samples.size() < 8; a += std::max<size_t>(1, samp.size() / 8))
    {
        Result r = run_index(samp[a], true, P.hang_s);
        std::string t = "case " + std::to_string(samp[a]) + ": ";
        for(auto &n : r.notes) { t += n + "; "; if(t.size() > 1500) break; }
        if(t.size() > 1600) t.resize(1600);
        samples.push_back(t);
    }
    if(!opt.stats_out.empty())
    {
        std::ofstream o(opt.stats_out);
        o << "{\"evaluations\":" << evals << ",\"distinct_nontrivial\":" << distinct << ",\"nontrivial\":" << nt << ",\"discarded\":" << disc << ",\"choices_drawn\":" << choices
          << ",\"planned\":" << total << ",\"unconfirmed\":" << unconfirmed << ",\"search_s\":" << (now() - start) << ",\"rule\":" << jstr(P.rule) << ",\"labels\":{";
        bool f = true;
        for(auto &l : labels) { o << (f ? "" : ",") << jstr(l.first) << ":" << l.second; f = false; }
        o << "},\"samples\":[";
        f = true;
        for(auto &s : samples) { o << (f ? "" : ",") << jstr(s); f = false; }
        o << "]}\n";
    }
    fprintf(stderr, "%s: %llu cases, %llu distinct non-trivial, %llu discarded, %.1f s\n", P.id, (unsigned long long)evals, (unsigned long long)distinct, (unsigned long long)disc, now() - start);
    if(violated) { printf("FAILED %s\n", line.substr(0, 1500).c_str()); return 1; }
    if(evals == 0) return 3;
    return 0;
}

int engine_main(int argc, char **argv)
{
    for(int a = 1; a < argc; ++a)
    {
        std::string k = argv[a];
        auto val = [&]() -> std::string { return a + 1 < argc ? argv[++a] : ""; };
        if(k == "--tier") opt.tier = val();
        else if(k == "--seed") opt.seed = std::stoull(val());
        else if(k == "--cases") opt.cases = std::stoull(val());
        else if(k == "--max-s") opt.max_s = std::stod(val());
        else if(k == "--workers") opt.workers = std::stoul(val());
        else if(k == "--stats") opt.stats_out = val();
        else if(k == "--replay-out") opt.replay_out = val();
        else if(k == "--replay") opt.replay_in = val();
        else if(k == "--bytes") opt.bytes_in = val();
        else if(k == "--dict") opt.dictf = val();
        else if(k == "--errdir") opt.errdir = val();
        else if(k == "--info")
        {
            printf("{\"quick\":%llu,\"thorough\":%llu,\"fuzz_quick\":%llu,\"fuzz_thorough\":%llu}\n", (unsigned long long)the_property.quick, (unsigned long long)the_property.thorough, (unsigned long long)the_property.fuzz_quick, (unsigned long long)the_property.fuzz_thorough);
            return 0;
        }
    }
    signal(SIGPIPE, SIG_IGN);
    if(opt.errdir.empty()) { char t[] = "/tmp/vp.XXXXXX"; opt.errdir = mkdtemp(t); }
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    load_dict();
    case_log = shm<CaseLog>();
    fork_out = shm<ForkOut>();
    if(!opt.replay_in.empty())
    {
        std::vector<uint64_t> c; std::string tag;
        if(!read_replay(opt.replay_in, c, tag)) { fprintf(stderr, "cannot read %s\n", opt.replay_in.c_str()); return 3; }
        int hits = 0; Result r;
        for(int a = 0; a < 3; ++a) { r = run_choices(c, true, the_property.hang_s); if(bad(r)) ++hits; }
        for(auto &n : r.notes) printf("  %s\n", n.c_str());
        printf("replay: %d/3 %s %s\n", hits, r.tag.c_str(), r.msg.c_str());
        return hits ? 1 : 0;
    }
    if(!opt.bytes_in.empty())
    {   // an input found by the coverage-guided fuzzer
        std::ifstream in(opt.bytes_in, std::ios::binary);
        std::string d((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
        Result r = run_forked([&](Case &cx) { cx.mode = Mode::Bytes; cx.data = (const uint8_t *)d.data(); cx.data_len = d.size(); }, false, the_property.hang_s);
        std::string line;
        if(bad(r) && confirm_and_report(r, 0, line)) { printf("FAILED %s\n", line.substr(0, 1500).c_str()); return 1; }
        return 0;
    }
    return explore();
}
}

#ifdef VP_FUZZ
extern "C" int LLVMFuzzerInitialize(int *, char ***)
{
    signal(SIGPIPE, SIG_IGN);
    if(getenv("VP_DICT")) { vp::opt.dictf = getenv("VP_DICT"); vp::load_dict(); }
    if(vp::the_property.init) vp::the_property.init();
    return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size)
{
    vp::Case cx;
    cx.mode = vp::Mode::Bytes;
    cx.data = data; cx.data_len = size;
    vp::Failure f;
    if(vp::run_here(cx, f) == 1)
    {
        fprintf(stderr, "FUZZ-FAILURE %s: %s\n", f.tag.c_str(), f.msg.c_str());
        abort();
    }
    return 0;
}
#else
int main(int argc, char **argv) { return vp::engine_main(argc, argv); }
#endif
