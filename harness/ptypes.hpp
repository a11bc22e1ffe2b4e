// The type grammar of fr::Packet: generators, an independent reference codec
// and type-erased items for every supported type.
#pragma once
#include <deque>
#include <list>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <string_view>
#include <unordered_map>
#include <tuple>
#include <vector>
#include <frnetlib/Packet.h>
#include <frnetlib/Packetable.h>
#include "vp.hpp"

namespace pt
{
using vp::Case;

struct Short : std::runtime_error { Short() : std::runtime_error("short") {} };
struct Reader   // independent decoder
{
    const std::string &s; size_t pos; size_t work = 0;
    explicit Reader(const std::string &s_, size_t p = 0) : s(s_), pos(p) {}
    uint64_t be(unsigned n)
    {
        if(s.size() - pos < n) throw Short();
        uint64_t v = 0;
        for(unsigned a = 0; a < n; ++a) v = v << 8 | (unsigned char)s[pos + a];
        pos += n;
        return v;
    }
    std::string take(size_t n) { if(s.size() - pos < n) throw Short(); pos += n; return s.substr(pos - n, n); }
};
inline void put(std::string &o, uint64_t v, unsigned n) { for(unsigned a = n; a-- > 0;) o += (char)(v >> (8 * a)); }

enum E8 : uint8_t { E8_A = 0, E8_B = 1, E8_Z = 255 };
enum class EC16 : uint16_t { A = 0, Z = 65535 };
enum class EC32 : uint32_t { A = 0, Z = 0xFFFFFFFFu };
enum class ECi32 : int32_t { A = 0, N = -1 };
enum class ECi8 : int8_t { A = 0, N = -1 };
enum class ECi16 : int16_t { A = 0, N = -1 };

template<typename T, typename = void> struct C;

template<typename T> struct Int
{
    static T gen(Case &cx, int) { return (T)cx.integer(sizeof(T) * 8); }
    static void enc(std::string &o, T v) { put(o, (uint64_t)v, sizeof(T)); }
    static T dec(Reader &r) { return (T)r.be(sizeof(T)); }
    static bool eq(T a, T b) { return a == b; }
    static std::string str(T v) { return std::to_string((std::conditional_t<std::is_signed<T>::value, int64_t, uint64_t>)v); }
    static constexpr bool unordered = false;
};
template<> struct C<uint8_t> : Int<uint8_t> { static std::string name() { return "u8"; } };
template<> struct C<uint16_t> : Int<uint16_t> { static std::string name() { return "u16"; } };
template<> struct C<uint32_t> : Int<uint32_t> { static std::string name() { return "u32"; } };
template<> struct C<uint64_t> : Int<uint64_t> { static std::string name() { return "u64"; } };
template<> struct C<int16_t> : Int<int16_t> { static std::string name() { return "i16"; } };
template<> struct C<int32_t> : Int<int32_t> { static std::string name() { return "i32"; } };
template<> struct C<int64_t> : Int<int64_t> { static std::string name() { return "i64"; } };
template<> struct C<bool>
{
    static std::string name() { return "bool"; }
    static bool gen(Case &cx, int) { return cx.flip(); }
    static void enc(std::string &o, bool v) { o += (char)(v ? 1 : 0); }
    static bool dec(Reader &r) { return r.be(1) != 0; }
    static bool eq(bool a, bool b) { return a == b; }
    static std::string str(bool v) { return v ? "true" : "false"; }
    static constexpr bool unordered = false;
};
template<typename F, typename U> struct Flt
{
    static F gen(Case &cx, int)
    {
        U u;
        switch(cx.draw(4))
        {
            case 0: { F f = (F)cx.range(-1000, 1000) / (F)(1 + cx.draw(16)); memcpy(&u, &f, sizeof u); break; }
            case 1: u = (U)cx.integer(sizeof(U) * 8); break;
            case 2:
            {
                F l[] = {(F)0, (F)-0.0, std::numeric_limits<F>::infinity(), -std::numeric_limits<F>::infinity(), std::numeric_limits<F>::quiet_NaN(), std::numeric_limits<F>::denorm_min(), std::numeric_limits<F>::max(), std::numeric_limits<F>::min(), std::numeric_limits<F>::lowest()};
                F f = l[cx.draw(9)];
                memcpy(&u, &f, sizeof u);
                break;
            }
            default: u = (U)cx.draw(0); break;
        }
        F f; memcpy(&f, &u, sizeof f);
        return f;
    }
    static U bits(F f) { U u; memcpy(&u, &f, sizeof u); return u; }
    static void enc(std::string &o, F v) { put(o, bits(v), sizeof(U)); }
    static F dec(Reader &r) { U u = (U)r.be(sizeof(U)); F f; memcpy(&f, &u, sizeof f); return f; }
    static bool eq(F a, F b) { return bits(a) == bits(b); }
    static std::string str(F v) { char b[64]; snprintf(b, sizeof b, "%g(0x%llx)", (double)v, (unsigned long long)bits(v)); return b; }
    static constexpr bool unordered = false;
};
template<> struct C<float> : Flt<float, uint32_t> { static std::string name() { return "float"; } };
template<> struct C<double> : Flt<double, uint64_t> { static std::string name() { return "double"; } };
template<typename T> struct C<T, std::enable_if_t<std::is_enum<T>::value>>
{
    using U = std::underlying_type_t<T>;
    static std::string name() { return std::string("enum") + (std::is_signed<U>::value ? "i" : "u") + std::to_string(sizeof(U) * 8); }
    static T gen(Case &cx, int) { return (T)(U)cx.integer(sizeof(U) * 8); }
    static void enc(std::string &o, T v) { put(o, (uint32_t)(U)v, 4); }
    static T dec(Reader &r) { return (T)(U)(uint32_t)r.be(4); }
    static bool eq(T a, T b) { return (U)a == (U)b; }
    static std::string str(T v) { return "E" + std::to_string((int64_t)(U)v); }
    static constexpr bool unordered = false;
};
template<> struct C<std::string>
{
    static std::string name() { return "string"; }
    static std::string gen(Case &cx, int depth)
    {
        if(depth > 1 && cx.chance(1, 60000)) return cx.blob((1 << 24) - 6 + cx.draw(12));
        return cx.bytes(depth > 0 ? 70000 : 60);
    }
    static void enc(std::string &o, const std::string &v) { put(o, v.size(), 4); o += v; }
    static std::string dec(Reader &r) { uint32_t n = (uint32_t)r.be(4); return r.take(n); }
    static bool eq(const std::string &a, const std::string &b) { return a == b; }
    static std::string str(const std::string &v) { return vp::show(v, 40); }
    static constexpr bool unordered = false;
};
// how many elements where 16 bits end (0: an ordinary count)
inline size_t many(Case &cx, int depth) { return depth > 1 && cx.chance(1, 20000) ? 65530 + cx.draw(12) : 0; }
inline size_t elems(Case &cx, int depth) { return cx.size(depth > 1 ? 300 : depth > 0 ? 12 : 4); }
template<typename T> struct C<std::vector<T>>
{
    static std::string name() { return "vector<" + C<T>::name() + ">"; }
    static std::vector<T> gen(Case &cx, int depth)
    {
        std::vector<T> v;
        if(size_t big = many(cx, depth))
        {   // a few different ones, again and again
            size_t d = 1 + cx.draw(4);
            for(size_t a = 0; a < d; ++a) v.push_back(C<T>::gen(cx, 0));
            while(v.size() < big) v.push_back(T(v[v.size() - d]));
            return v;
        }
        size_t n = elems(cx, depth);
        for(size_t a = 0; a < n; ++a) v.push_back(C<T>::gen(cx, n > 12 ? 0 : depth - 1));
        return v;
    }
    static void enc(std::string &o, const std::vector<T> &v) { put(o, v.size(), 4); for(size_t a = 0; a < v.size(); ++a) C<T>::enc(o, v[a]); }
    static std::vector<T> dec(Reader &r)
    {
        uint32_t n = (uint32_t)r.be(4);
        std::vector<T> v;
        for(uint32_t a = 0; a < n; ++a) v.push_back(C<T>::dec(r));
        return v;
    }
    static bool eq(const std::vector<T> &a, const std::vector<T> &b)
    {
        if(a.size() != b.size()) return false;
        for(size_t i = 0; i < a.size(); ++i) if(!C<T>::eq(a[i], b[i])) return false;
        return true;
    }
    static std::string str(const std::vector<T> &v)
    {
        std::string s = "[";
        for(size_t a = 0; a < v.size(); ++a) { if(a > 8) { s += "...x" + std::to_string(v.size()); break; } s += C<T>::str(v[a]) + ","; }
        return s + "]";
    }
    static constexpr bool unordered = C<T>::unordered;
};
template<typename A, typename B> struct C<std::pair<A, B>>
{
    static std::string name() { return "pair<" + C<A>::name() + "," + C<B>::name() + ">"; }
    static std::pair<A, B> gen(Case &cx, int depth) { auto a = C<A>::gen(cx, depth - 1); auto b = C<B>::gen(cx, depth - 1); return {std::move(a), std::move(b)}; }
    static void enc(std::string &o, const std::pair<A, B> &v) { C<A>::enc(o, v.first); C<B>::enc(o, v.second); }
    static std::pair<A, B> dec(Reader &r) { auto a = C<A>::dec(r); auto b = C<B>::dec(r); return {std::move(a), std::move(b)}; }
    static bool eq(const std::pair<A, B> &a, const std::pair<A, B> &b) { return C<A>::eq(a.first, b.first) && C<B>::eq(a.second, b.second); }
    static std::string str(const std::pair<A, B> &v) { return "<" + C<A>::str(v.first) + "," + C<B>::str(v.second) + ">"; }
    static constexpr bool unordered = C<A>::unordered || C<B>::unordered;
};
template<typename M, typename A, typename B, bool U> struct MapC
{
    static M gen(Case &cx, int depth)
    {
        M m;
        if constexpr(std::is_integral_v<A> && sizeof(A) >= 4)
            if(size_t big = many(cx, depth))
            {
                B d[] = {C<B>::gen(cx, 0), C<B>::gen(cx, 0), C<B>::gen(cx, 0)};
                A k = (A)cx.draw(1000);
                for(size_t a = 0; a < big; ++a) m.emplace((A)(k + (A)a * 7), d[a % 3]);
                return m;
            }
        size_t n = elems(cx, depth > 1 ? 1 : depth);
        for(size_t a = 0; a < n; ++a) { auto k = C<A>::gen(cx, 0); auto v = C<B>::gen(cx, depth - 1); m.emplace(std::move(k), std::move(v)); }
        return m;
    }
    static void enc(std::string &o, const M &m) { put(o, m.size(), 4); for(auto &p : m) { C<A>::enc(o, p.first); C<B>::enc(o, p.second); } }
    static M dec(Reader &r)
    {
        uint32_t n = (uint32_t)r.be(4);
        M m;
        for(uint32_t a = 0; a < n; ++a) { auto k = C<A>::dec(r); auto v = C<B>::dec(r); m.emplace(std::move(k), std::move(v)); }
        return m;
    }
    static bool eq(const M &a, const M &b)
    {
        if(a.size() != b.size()) return false;
        for(auto &p : a) { auto i = b.find(p.first); if(i == b.end() || !C<B>::eq(p.second, i->second)) return false; }
        return true;
    }
    static std::string str(const M &m)
    {
        std::string s = "{"; size_t a = 0;
        for(auto &p : m) { if(a++ > 6) { s += "...x" + std::to_string(m.size()); break; } s += C<A>::str(p.first) + ":" + C<B>::str(p.second) + ","; }
        return s + "}";
    }
    static constexpr bool unordered = U || C<B>::unordered;
};
template<typename A, typename B> struct C<std::map<A, B>> : MapC<std::map<A, B>, A, B, false> { static std::string name() { return "map<" + C<A>::name() + "," + C<B>::name() + ">"; } };
template<typename A, typename B> struct C<std::unordered_map<A, B>> : MapC<std::unordered_map<A, B>, A, B, true> { static std::string name() { return "umap<" + C<A>::name() + "," + C<B>::name() + ">"; } };

// a user-defined packable object
struct Person : public fr::Packetable
{
    std::string name; uint16_t age = 0; std::vector<int32_t> scores; bool flag = false; double weight = 0;
    void pack(fr::Packet &o) const override { o << name << age << scores << flag << weight; }
    void unpack(fr::Packet &i) override { i >> name >> age >> scores >> flag >> weight; }
};
template<> struct C<Person>
{
    static std::string name() { return "packable"; }
    static Person gen(Case &cx, int) { Person p; p.name = C<std::string>::gen(cx, 0); p.age = C<uint16_t>::gen(cx, 0); p.scores = C<std::vector<int32_t>>::gen(cx, 0); p.flag = cx.flip(); p.weight = C<double>::gen(cx, 0); return p; }
    static void enc(std::string &o, const Person &p) { C<std::string>::enc(o, p.name); C<uint16_t>::enc(o, p.age); C<std::vector<int32_t>>::enc(o, p.scores); C<bool>::enc(o, p.flag); C<double>::enc(o, p.weight); }
    static Person dec(Reader &r) { Person p; p.name = C<std::string>::dec(r); p.age = C<uint16_t>::dec(r); p.scores = C<std::vector<int32_t>>::dec(r); p.flag = C<bool>::dec(r); p.weight = C<double>::dec(r); return p; }
    static bool eq(const Person &a, const Person &b) { return a.name == b.name && a.age == b.age && a.scores == b.scores && a.flag == b.flag && C<double>::eq(a.weight, b.weight); }
    static std::string str(const Person &p) { return "Person(" + vp::show(p.name, 20) + "," + std::to_string(p.age) + "," + C<std::vector<int32_t>>::str(p.scores) + ")"; }
    static constexpr bool unordered = false;
};

// one value to write and read back, type-erased
struct Item
{
    virtual ~Item() = default;
    virtual std::string kind() const = 0;
    virtual void write(fr::Packet &p) const = 0;
    virtual void enc(std::string &o) const = 0;             // reference encoding
    virtual bool canonical() const { return true; }         // is the encoding unique (no unordered maps)
    virtual bool match(Reader &r) const = 0;                // decode by reference, compare
    virtual bool read(fr::Packet &p, std::string &got) const = 0; // read with the library, compare
    virtual std::string str() const = 0;
};
template<typename T> struct ItemT : Item
{
    T v; T junk;  // junk: what the destination held before
    bool use_junk;
    ItemT(Case &cx, int depth) : v(C<T>::gen(cx, depth)), junk(), use_junk(cx.chance(1, 4)) { if(use_junk) junk = C<T>::gen(cx, 0); }
    explicit ItemT(T x) : v(std::move(x)), junk(), use_junk(false) {}
    std::string kind() const override { return C<T>::name(); }
    void write(fr::Packet &p) const override { p << v; }
    void enc(std::string &o) const override { C<T>::enc(o, v); }
    bool canonical() const override { return !C<T>::unordered; }
    bool match(Reader &r) const override { return C<T>::eq(C<T>::dec(r), v); }
    bool read(fr::Packet &p, std::string &got) const override
    {
        T x = junk;
        p >> x;
        got = C<T>::str(x);
        return C<T>::eq(x, v);
    }
    std::string str() const override { return C<T>::name() + "=" + C<T>::str(v); }
};
inline size_t span(Case &cx, size_t usual) { return cx.chance(1, 300) ? 70000 : usual; }
struct ItemCStr : Item
{
    std::string v;
    explicit ItemCStr(Case &cx) : v(cx.bytes(span(cx, 300))) { for(auto &c : v) if(!c) c = '0'; }
    std::string kind() const override { return "cstring"; }
    void write(fr::Packet &p) const override { p << v.c_str(); }
    void enc(std::string &o) const override { C<std::string>::enc(o, v); }
    bool match(Reader &r) const override { return C<std::string>::dec(r) == v; }
    bool read(fr::Packet &p, std::string &got) const override { std::string x; p >> x; got = vp::show(x, 40); return x == v; }
    std::string str() const override { return "cstring=" + vp::show(v, 40); }
};
struct ItemView : Item
{
    std::string v; bool as_view_w, as_view_r;
    explicit ItemView(Case &cx) : v(cx.bytes(span(cx, 400))), as_view_w(!cx.flip()), as_view_r(!cx.flip()) {}
    std::string kind() const override { return "string_view"; }
    void write(fr::Packet &p) const override { if(as_view_w) p << std::string_view(v); else p << v; }
    void enc(std::string &o) const override { C<std::string>::enc(o, v); }
    bool match(Reader &r) const override { return C<std::string>::dec(r) == v; }
    bool read(fr::Packet &p, std::string &got) const override
    {
        if(as_view_r) { std::string_view x; p >> x; got = vp::show(std::string(x), 40); return x == v; }
        std::string x; p >> x; got = vp::show(x, 40); return x == v;
    }
    std::string str() const override { return "string_view=" + vp::show(v, 40); }
};
struct ItemRaw : Item
{
    std::string v;
    explicit ItemRaw(Case &cx) : v(cx.bytes(span(cx, 5000))) {}
    std::string kind() const override { return "raw"; }
    void write(fr::Packet &p) const override { p.add_raw(v.data(), v.size()); }
    void enc(std::string &o) const override { o += v; }
    bool match(Reader &r) const override { return r.take(v.size()) == v; }
    bool read(fr::Packet &p, std::string &got) const override
    {
        std::string x(v.size() + 1, '#');
        p.extract_raw(&x[0], v.size());
        if(x.back() != '#') { got = "(wrote past the requested size)"; return false; }
        x.pop_back();
        got = vp::show(x, 40);
        return x == v;
    }
    std::string str() const override { return "raw=" + vp::show(v, 40); }
};
struct ItemBoolRef : Item    // into one element of a vector<bool>
{
    bool v; std::vector<bool> around; size_t at;
    explicit ItemBoolRef(Case &cx) : v(cx.flip()) { size_t n = 1 + cx.size(70); for(size_t a = 0; a < n; ++a) around.push_back(cx.flip()); at = cx.draw(n); }
    std::string kind() const override { return "bool element"; }
    void write(fr::Packet &p) const override { p << v; }
    void enc(std::string &o) const override { C<bool>::enc(o, v); }
    bool match(Reader &r) const override { return C<bool>::dec(r) == v; }
    bool read(fr::Packet &p, std::string &got) const override
    {
        std::vector<bool> x = around, want = around;
        want[at] = v;
        auto ref = x[at];
        p >> ref;
        got = C<std::vector<bool>>::str(x);
        return x == want;
    }
    std::string str() const override { return "bool=" + C<bool>::str(v) + " into element " + std::to_string(at) + " of " + C<std::vector<bool>>::str(around); }
};
template<typename Cont> struct ItemRange : Item
{
    using T = typename Cont::value_type;
    std::vector<T> src; Cont cont;
    explicit ItemRange(Case &cx) : src(C<std::vector<T>>::gen(cx, 1)), cont(src.begin(), src.end()) { src.assign(cont.begin(), cont.end()); }
    std::string kind() const override { return "range<" + C<T>::name() + ">"; }
    void write(fr::Packet &p) const override { p.add_range(cont.begin(), cont.end()); }
    void enc(std::string &o) const override { C<std::vector<T>>::enc(o, src); }
    bool match(Reader &r) const override { return C<std::vector<T>>::eq(C<std::vector<T>>::dec(r), src); }
    bool read(fr::Packet &p, std::string &got) const override { std::vector<T> x; p >> x; got = C<std::vector<T>>::str(x); return C<std::vector<T>>::eq(x, src); }
    std::string str() const override { return kind() + "=" + C<std::vector<T>>::str(src); }
};

// the concrete types of the grammar that are instantiated
using S = std::string;
template<typename T> std::unique_ptr<Item> mk(Case &cx, int d) { return std::unique_ptr<Item>(new ItemT<T>(cx, d)); }
template<typename T> std::unique_ptr<Item> mk1(Case &cx, int) { return std::unique_ptr<Item>(new T(cx)); }
using Mk = std::unique_ptr<Item> (*)(Case &, int);
inline const std::vector<Mk> &scalar_kinds()
{
    static const std::vector<Mk> k = {mk<uint32_t>, mk<bool>, mk<uint8_t>, mk<uint16_t>, mk<uint64_t>, mk<int16_t>, mk<int32_t>, mk<int64_t>, mk<float>, mk<double>,
        mk<S>, mk1<ItemBoolRef>, mk1<ItemCStr>, mk1<ItemView>, mk1<ItemRaw>, mk<E8>, mk<EC16>, mk<EC32>, mk<ECi32>, mk<ECi8>, mk<ECi16>};
    return k;
}
template<typename A, typename B> using UM = std::unordered_map<A, B>;
template<typename A> using V = std::vector<A>;
template<typename A, typename B> using M = std::map<A, B>;
template<typename A, typename B> using P = std::pair<A, B>;
inline const std::vector<Mk> &container_kinds()
{
    static const std::vector<Mk> k = {
        mk<V<uint32_t>>, mk<V<bool>>, mk<V<uint8_t>>, mk<V<uint16_t>>, mk<V<uint64_t>>, mk<V<int16_t>>, mk<V<int32_t>>, mk<V<int64_t>>, mk<V<float>>, mk<V<double>>, mk<V<S>>, mk<V<EC16>>, mk<V<Person>>,
        mk<P<uint8_t, uint64_t>>, mk<P<S, bool>>, mk<P<double, S>>, mk<P<P<int16_t, S>, V<float>>>,
        mk<M<S, uint32_t>>, mk<M<int32_t, V<S>>>, mk<M<uint16_t, M<S, V<bool>>>>, mk<M<uint64_t, double>>, mk<M<bool, S>>, mk<M<S, Person>>, mk<M<P<int32_t, S>, uint8_t>>,
        mk<UM<S, double>>, mk<UM<uint64_t, P<S, V<float>>>>, mk<UM<int32_t, S>>, mk<UM<uint8_t, V<V<int64_t>>>>, mk<UM<S, UM<S, int16_t>>>,
        mk<V<V<uint16_t>>>, mk<V<V<V<S>>>>, mk<V<V<bool>>>, mk<V<P<uint8_t, S>>>, mk<V<M<S, int64_t>>>, mk<V<UM<uint32_t, bool>>>, mk<M<S, V<M<uint8_t, V<double>>>>>,
        mk<Person>, mk1<ItemRange<std::list<uint16_t>>>, mk1<ItemRange<std::deque<S>>>, mk1<ItemRange<std::vector<int64_t>>>, mk1<ItemRange<std::set<uint32_t>>>};
    return k;
}
inline std::unique_ptr<Item> gen_item(Case &cx, int depth = 2)
{
    bool cont = cx.draw(2) == 1;
    return cont ? cx.pick(container_kinds())(cx, depth) : cx.pick(scalar_kinds())(cx, depth);
}
// a value with very many elements or bytes, whose content is derived from one number
template<typename T> T derived(uint64_t h) { return (T)(h >> 20); }
template<> inline S derived<S>(uint64_t h) { return S((h >> 20) % 4, (char)(h >> 30)); }
template<typename T> std::unique_ptr<Item> mkbig_vec(uint64_t seed, size_t n)
{
    std::vector<T> v(n);
    for(size_t a = 0; a < n; ++a) v[a] = derived<T>((seed + a) * 0x9E3779B97F4A7C15ULL);
    return std::unique_ptr<Item>(new ItemT<std::vector<T>>(std::move(v)));
}
template<typename Mp> std::unique_ptr<Item> mkbig_map(uint64_t seed, size_t n)
{
    Mp m;
    for(size_t a = 0; a < n; ++a) m[(typename Mp::key_type)(seed + a * 3)] = derived<typename Mp::mapped_type>((seed + a) * 0x9E3779B97F4A7C15ULL);
    return std::unique_ptr<Item>(new ItemT<Mp>(std::move(m)));
}
inline std::unique_ptr<Item> mkbig_str(uint64_t seed, size_t n)
{
    S s(n, '\0');
    for(size_t a = 0; a < n; ++a) s[a] = (char)((seed + a) * 0x9E3779B97F4A7C15ULL >> 40);
    return std::unique_ptr<Item>(new ItemT<S>(std::move(s)));
}
inline std::unique_ptr<Item> gen_big(Case &cx)
{
    static const size_t sizes[] = {255, 256, 257, 32767, 32768, 65535, 65536, 65537, 70000, 131072, 131073};
    size_t n = sizes[cx.draw(sizeof sizes / sizeof *sizes)];
    uint64_t seed = cx.draw(1 << 20);
    switch(cx.draw(9))
    {
        case 0: return mkbig_vec<uint8_t>(seed, n);
        case 1: return mkbig_vec<bool>(seed, n);
        case 2: return mkbig_vec<uint16_t>(seed, n);
        case 3: return mkbig_vec<int64_t>(seed, n);
        case 4: return mkbig_vec<S>(seed, n);
        case 5: return mkbig_map<std::map<uint32_t, uint8_t>>(seed, n);
        case 6: return mkbig_map<std::unordered_map<uint64_t, int16_t>>(seed, n);
        case 7: return mkbig_str(seed, n);
        default: return mkbig_str(seed, cx.chance(1, 8) ? ((size_t)1 << 24) + n % 3 : n);
    }
}
// values added through the variadic interfaces (constructor or add)
struct Group { std::vector<std::unique_ptr<Item>> items; std::function<void(fr::Packet &)> add; std::function<fr::Packet *()> construct; std::string name; };
template<typename... T> Group mkgroup(Case &cx)
{
    Group g;
    auto tup = std::make_shared<std::tuple<T...>>(C<T>::gen(cx, 0)...);
    std::apply([&](auto &...x) { (g.items.push_back(std::unique_ptr<Item>(new ItemT<std::decay_t<decltype(x)>>(x))), ...); }, *tup);
    g.add = [tup](fr::Packet &p) { std::apply([&](auto &...x) { p.add(x...); }, *tup); };
    g.construct = [tup] { return std::apply([&](auto &...x) { return new fr::Packet(x...); }, *tup); };
    ((g.name += C<T>::name() + ","), ...);
    return g;
}
using MkG = Group (*)(Case &);
inline const std::vector<MkG> &group_kinds()
{
    static const std::vector<MkG> k = {mkgroup<uint32_t>, mkgroup<S>, mkgroup<uint8_t, S>, mkgroup<S, S, S>, mkgroup<bool, double, int64_t, V<uint16_t>>, mkgroup<int16_t, M<S, uint32_t>, float>,
        mkgroup<Person, uint16_t>, mkgroup<EC16, E8, uint64_t, int32_t, S, bool>, mkgroup<V<bool>, P<uint8_t, uint64_t>>, mkgroup<V<V<uint16_t>>, S, uint32_t>};
    return k;
}
}
