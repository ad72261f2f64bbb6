// Independent executable specification of the binary format (reference encoder and decoder). Used to look for concrete failing
// inputs; it never decides a property on its own.  usage: binary_harness PROPERTY SEED SECONDS [CASE ITERATION]
#include <binary/reflector.h>
#include <binary/reflector-chronoutilities.h>
#include <binary/serializable.h>
#include <any>
#include <array>
#include <bit>
#include <chrono>
#include <cmath>
#include <cstring>
#include <deque>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include "gen.h"
using namespace ReflectiveRapidJSON;
namespace BR = BinaryReflector;

enum class Ei : int { A = -1, B = 0, C = 7 };
enum class Eu8 : std::uint8_t { A, B, C = 255 };
enum class Ei16 : std::int16_t { A = INT16_MIN, B = 3 };
enum class Eu64 : std::uint64_t { A, B = ~0ull };
enum class Eb : bool { No, Yes };

// records in the style of the generated code
struct Inner : BinarySerializable<Inner> { // unversioned: takes the version of the outer record
    int foo = 1;
    std::string bar = "dflt"; // as of version 3
    std::uint16_t old = 7; // until version 2
    bool operator==(const Inner &o) const { return foo == o.foo && bar == o.bar && old == o.old; }
    bool operator<(const Inner &o) const { return std::tie(foo, bar, old) < std::tie(o.foo, o.bar, o.old); }
};
struct Outer : BinarySerializable<Outer, 3> {
    Inner in;
    double d = 2.5;
    std::uint32_t c = 8, e = 9; // until version 2, as of version 3
    std::uint64_t g = 10; // as of version 4
    std::vector<Inner> ins;
    std::shared_ptr<std::string> p;
};
struct Top : BinarySerializable<Top, 0x123456789> {
    Outer o;
    int x = 0;
};
struct Ghost { // an object which is never looked at, so that it can have any address
};
struct NodeI;
struct Node : BinarySerializable<Node> {
    std::uint8_t id = 0;
    std::shared_ptr<Node> next, other;
    std::shared_ptr<int> num;
};

namespace ReflectiveRapidJSON::BinaryReflector {
template <> inline void writeCustomType<Inner>(BinarySerializer &s, const Inner &o, BinaryVersion version)
{
    using V = Versioning<BinarySerializable<Inner>>;
    if constexpr (V::enabled) s.writeVariableLengthUIntBE(V::applyDefault(version));
    s.write(o.foo, version);
    if (version >= 3) s.write(o.bar, version);
    if (version <= 2) s.write(o.old, version);
}
template <> inline BinaryVersion readCustomType<Inner>(BinaryDeserializer &s, Inner &o, BinaryVersion version)
{
    using V = Versioning<BinarySerializable<Inner>>;
    if constexpr (V::enabled) V::assertVersion(version = s.readVariableLengthUIntBE(), "Inner");
    s.read(o.foo, version);
    if (version >= 3) s.read(o.bar, version);
    if (version <= 2) s.read(o.old, version);
    return version;
}
template <> inline void writeCustomType<Outer>(BinarySerializer &s, const Outer &o, BinaryVersion version)
{
    using V = Versioning<BinarySerializable<Outer, 3>>;
    if constexpr (V::enabled) s.writeVariableLengthUIntBE(V::applyDefault(version));
    s.write(o.in, version);
    s.write(o.d, version);
    if (version <= 2) s.write(o.c, version);
    if (version >= 3) s.write(o.e, version);
    if (version >= 4) s.write(o.g, version);
    s.write(o.ins, version);
    s.write(o.p, version);
}
template <> inline BinaryVersion readCustomType<Outer>(BinaryDeserializer &s, Outer &o, BinaryVersion version)
{
    using V = Versioning<BinarySerializable<Outer, 3>>;
    if constexpr (V::enabled) V::assertVersion(version = s.readVariableLengthUIntBE(), "Outer");
    s.read(o.in, version);
    s.read(o.d, version);
    if (version <= 2) s.read(o.c, version);
    if (version >= 3) s.read(o.e, version);
    if (version >= 4) s.read(o.g, version);
    s.read(o.ins, version);
    s.read(o.p, version);
    return version;
}
template <> inline void writeCustomType<Top>(BinarySerializer &s, const Top &o, BinaryVersion version)
{
    using V = Versioning<BinarySerializable<Top, 0x123456789>>;
    if constexpr (V::enabled) s.writeVariableLengthUIntBE(V::applyDefault(version));
    s.write(o.o, 2);
    s.write(o.x, version);
}
template <> inline BinaryVersion readCustomType<Top>(BinaryDeserializer &s, Top &o, BinaryVersion version)
{
    using V = Versioning<BinarySerializable<Top, 0x123456789>>;
    if constexpr (V::enabled) V::assertVersion(version = s.readVariableLengthUIntBE(), "Top");
    s.read(o.o, 2);
    s.read(o.x, version);
    return version;
}
template <> inline void writeCustomType<Ghost>(BinarySerializer &, const Ghost &, BinaryVersion) {}
template <> inline BinaryVersion readCustomType<Ghost>(BinaryDeserializer &, Ghost &, BinaryVersion v) { return v; }
template <> inline void writeCustomType<Node>(BinarySerializer &s, const Node &o, BinaryVersion version)
{
    s.write(o.id, version);
    s.write(o.next, version);
    s.write(o.other, version);
    s.write(o.num, version);
}
template <> inline BinaryVersion readCustomType<Node>(BinaryDeserializer &s, Node &o, BinaryVersion version)
{
    s.read(o.id, version);
    s.read(o.next, version);
    s.read(o.other, version);
    s.read(o.num, version);
    return version;
}
}

namespace S {
struct W {
    std::string out;
    std::set<std::uint64_t> known;
    void be(std::uint64_t v, int n) { while (n--) out += static_cast<char>(v >> (8 * n)); }
    void vlq(std::uint64_t v)
    {
        int n = 1;
        while (n < 8 && v >= 1ull << (7 * n)) ++n;
        be(v | 1ull << (7 * n), n);
    }
};
struct Bad { std::string what; };
struct R {
    const std::string &in;
    std::size_t p = 0;
    std::map<std::uint64_t, std::any> known;
    std::uint64_t be(int n)
    {
        if (p + n > in.size()) throw Bad{ "end" };
        std::uint64_t v = 0;
        while (n--) v = v << 8 | static_cast<unsigned char>(in[p++]);
        return v;
    }
    std::uint64_t vlq()
    {
        if (p >= in.size()) throw Bad{ "end" };
        auto c = static_cast<unsigned char>(in[p]);
        if (!c) throw Bad{ "conversion" };
        int n = std::countl_zero(c) + 1;
        return be(n) & ((1ull << (7 * n)) - 1);
    }
    std::uint64_t count() // counts leading to huge allocations are not tried
    {
        auto n = vlq();
        if (n > 100000) throw Bad{ "huge" };
        return n;
    }
};
// X<T>: enc, dec, gen, eq (content, with pointers compared by what they point to), put (pointers seen, for identity)
template <class T> struct X;
template <class T> void enc(const T &v, W &w, std::uint64_t ver = 0) { X<T>::enc(v, w, ver); }
template <class T> void dec(T &v, R &r, std::uint64_t ver = 0) { X<T>::dec(v, r, ver); }
template <class T> T gen(Rng &r, int d = 2) { return X<T>::gen(r, d); }
using Same = std::map<const void *, const void *>; // identity of shared objects: one-to-one
template <class T> bool eq(const T &a, const T &b, Same &m, Same &n) { return X<T>::eq(a, b, m, n); }

template <class T> concept Int = std::is_integral_v<T> && !std::is_same_v<T, bool>;
template <Int T> struct X<T> {
    static void enc(T v, W &w, std::uint64_t) { w.be(static_cast<std::uint64_t>(v), sizeof(T)); }
    static void dec(T &v, R &r, std::uint64_t) { v = static_cast<T>(r.be(sizeof(T))); }
    static T gen(Rng &r, int) { return static_cast<T>(genI64(r)); }
    static bool eq(T a, T b, Same &, Same &) { return a == b; }
};
template <> struct X<bool> {
    static void enc(bool v, W &w, std::uint64_t) { w.be(v, 1); }
    static void dec(bool &v, R &r, std::uint64_t) { v = r.be(1) != 0; }
    static bool gen(Rng &r, int) { return r.coin(); }
    static bool eq(bool a, bool b, Same &, Same &) { return a == b; }
};
template <class T> concept Flt = std::is_floating_point_v<T>;
template <Flt T> struct X<T> {
    using U = std::conditional_t<sizeof(T) == 4, std::uint32_t, std::uint64_t>;
    static void enc(T v, W &w, std::uint64_t) { w.be(std::bit_cast<U>(v), sizeof(T)); }
    static void dec(T &v, R &r, std::uint64_t) { v = std::bit_cast<T>(static_cast<U>(r.be(sizeof(T)))); }
    static T gen(Rng &r, int) { auto d = genDbl(r); return r(30) ? static_cast<T>(std::abs(d) > 3e38 ? d / 1e280 : d) : std::numeric_limits<T>::infinity(); }
    static bool eq(T a, T b, Same &, Same &) { return std::bit_cast<U>(a) == std::bit_cast<U>(b) || (a != a && b != b); }
};
template <class T> concept Enum = std::is_enum_v<T>;
template <Enum T> struct X<T> {
    using U = std::underlying_type_t<T>;
    static void enc(T v, W &w, std::uint64_t) { S::enc(static_cast<U>(v), w); }
    static void dec(T &v, R &r, std::uint64_t) { U u{}; S::dec(u, r); v = static_cast<T>(u); }
    static T gen(Rng &r, int d) { return static_cast<T>(S::gen<U>(r, d)); }
    static bool eq(T a, T b, Same &, Same &) { return a == b; }
};
template <> struct X<std::string> {
    static void enc(const std::string &v, W &w, std::uint64_t) { w.vlq(v.size()); w.out += v; }
    static void dec(std::string &v, R &r, std::uint64_t)
    {
        auto n = r.count();
        if (n > r.in.size() - r.p) throw Bad{ "end" };
        v = r.in.substr(r.p, n);
        r.p += n;
    }
    static std::string gen(Rng &r, int) { return genStr(r); }
    static bool eq(const std::string &a, const std::string &b, Same &, Same &) { return a == b; }
};
template <class T> concept Chrono = std::is_same_v<T, CppUtilities::DateTime> || std::is_same_v<T, CppUtilities::TimeSpan>;
template <Chrono T> struct X<T> {
    using U = std::remove_cvref_t<decltype(std::declval<const T &>().totalTicks())>;
    static void enc(const T &v, W &w, std::uint64_t) { S::enc<U>(v.totalTicks(), w); }
    static void dec(T &v, R &r, std::uint64_t) { U u{}; S::dec(u, r); v = T(u); }
    static T gen(Rng &r, int d) { return T(S::gen<U>(r, d)); }
    static bool eq(const T &a, const T &b, Same &, Same &) { return a.totalTicks() == b.totalTicks(); }
};
template <class A, class B> struct X<std::pair<A, B>> {
    using T = std::pair<A, B>;
    static void enc(const T &v, W &w, std::uint64_t) { S::enc<std::remove_const_t<A>>(v.first, w); S::enc<B>(v.second, w); }
    static void dec(T &v, R &r, std::uint64_t) { S::dec(v.first, r); S::dec(v.second, r); }
    static T gen(Rng &r, int d) { auto a = S::gen<A>(r, d); return T(std::move(a), S::gen<B>(r, d)); }
    static bool eq(const T &a, const T &b, Same &m, Same &n) { return S::eq<std::remove_const_t<A>>(a.first, b.first, m, n) && S::eq<B>(a.second, b.second, m, n); }
};
template <class T> concept Opt = Traits::IsSpecializingAnyOf<T, std::optional, std::unique_ptr>::value;
template <class T> struct El { using type = typename T::element_type; };
template <class T> struct El<std::optional<T>> { using type = T; };
template <Opt T> struct X<T> {
    using E = typename El<T>::type;
    static T make(E &&e) { if constexpr (Traits::IsSpecializationOf<T, std::optional>::value) return T(std::move(e)); else return std::make_unique<E>(std::move(e)); }
    static void enc(const T &v, W &w, std::uint64_t) { w.be(v ? 1 : 0, 1); if (v) S::enc<E>(*v, w); }
    static void dec(T &v, R &r, std::uint64_t)
    {
        if (!r.be(1)) { v.reset(); return; }
        E e{};
        S::dec<E>(e, r);
        v = make(std::move(e));
    }
    static T gen(Rng &r, int d) { return r(4) ? make(S::gen<E>(r, d)) : T(); }
    static bool eq(const T &a, const T &b, Same &m, Same &n) { return !a == !b && (!a || S::eq<E>(*a, *b, m, n)); }
};
template <class T> concept Sptr = Traits::IsSpecializationOf<T, std::shared_ptr>::value;
template <class T> std::vector<std::shared_ptr<T>> &poolOf() { static std::vector<std::shared_ptr<T>> p; return p; }
template <Sptr T> struct X<T> {
    using E = typename T::element_type;
    static void enc(const T &v, W &w, std::uint64_t)
    {
        if (!v) return w.be(0, 1);
        auto id = reinterpret_cast<std::uint64_t>(v.get());
        bool again = w.known.count(id), big = id >= 0x80000000000000;
        w.be((again ? 2 : 1) | (big ? 4 : 0), 1);
        if (big) w.be(id, 8); else w.vlq(id);
        if (!again) { w.known.insert(id); S::enc<E>(*v, w); }
    }
    static void dec(T &v, R &r, std::uint64_t)
    {
        auto mode = r.be(1);
        if (!mode) { v.reset(); return; }
        auto id = mode & 4 ? r.be(8) : r.vlq();
        if ((mode & 3) == 1) {
            v = std::make_shared<E>();
            r.known[id] = v;
            S::dec<E>(*v, r);
            return;
        }
        auto i = r.known.find(id);
        auto *p = i == r.known.end() ? nullptr : std::any_cast<T>(&i->second);
        if (!p) throw Bad{ "conversion" };
        v = *p;
    }
    static T gen(Rng &r, int d)
    {
        if (!r(5)) return T();
        auto &pool = poolOf<E>();
        if (!pool.empty() && r.coin()) {
            const T &p = pool[r(pool.size())];
            return r.coin() ? p : r.coin() ? T(p.get(), [](E *) {}) : T(std::shared_ptr<void>(), p.get()); // same object, but a reference count of its own (or none)
        }
        T t;
        if constexpr (std::is_same_v<E, Ghost>) {
            static const std::uint64_t at[] = { 1, 127, 0x7fffffffffffff, 0x80000000000000, 0x80000000000001, 0xffffffffffffff, 0x100000000000000, 0x100000000000001, ~0ull, 0x8000000000000000 };
            t = T(std::shared_ptr<void>(), reinterpret_cast<Ghost *>(r.coin() ? at[r(std::size(at))] : (r.e() >> r(64)) | 1));
        } else t = std::make_shared<E>(S::gen<E>(r, d - 1));
        pool.push_back(t);
        return t;
    }
    static bool eq(const T &a, const T &b, Same &m, Same &n)
    {
        if (!a || !b) return !a == !b;
        auto i = m.emplace(a.get(), b.get());
        auto j = n.emplace(b.get(), a.get());
        if (i.second != j.second) return false;
        if (!i.second) return i.first->second == b.get() && j.first->second == a.get();
        return S::eq<E>(*a, *b, m, n);
    }
};
template <> struct X<Ghost> {
    static void enc(const Ghost &, W &, std::uint64_t) {}
    static void dec(Ghost &, R &, std::uint64_t) {}
    static bool eq(const Ghost &, const Ghost &, Same &, Same &) { return true; }
};
template <> struct X<std::monostate> {
    static void enc(std::monostate, W &, std::uint64_t) {}
    static void dec(std::monostate &, R &, std::uint64_t) {}
    static std::monostate gen(Rng &, int) { return {}; }
    static bool eq(std::monostate, std::monostate, Same &, Same &) { return true; }
};
template <class... A> struct X<std::variant<A...>> {
    using T = std::variant<A...>;
    static void enc(const T &v, W &w, std::uint64_t) { w.be(v.index(), 1); std::visit([&](const auto &x) { S::enc(x, w); }, v); }
    template <std::size_t I> static void at(T &v, R &r, std::size_t i)
    {
        if constexpr (I < sizeof...(A)) {
            if (i != I) return at<I + 1>(v, r, i);
            std::variant_alternative_t<I, T> x{};
            S::dec(x, r);
            v.template emplace<I>(std::move(x));
        } else throw Bad{ "conversion" };
    }
    static void dec(T &v, R &r, std::uint64_t) { at<0>(v, r, r.be(1)); }
    template <std::size_t I> static T mk(Rng &r, int d, std::size_t i)
    {
        if constexpr (I + 1 < sizeof...(A)) if (i != I) return mk<I + 1>(r, d, i);
        return T(std::in_place_index<I>, S::gen<std::variant_alternative_t<I, T>>(r, d - 1));
    }
    static T gen(Rng &r, int d) { return mk<0>(r, d, r(sizeof...(A))); }
    template <std::size_t I> static bool same(const T &a, const T &b, Same &m, Same &n)
    {
        if constexpr (I < sizeof...(A)) return a.index() == I ? S::eq(std::get<I>(a), std::get<I>(b), m, n) : same<I + 1>(a, b, m, n);
        else return true;
    }
    static bool eq(const T &a, const T &b, Same &m, Same &n) { return a.index() == b.index() && same<0>(a, b, m, n); }
};
template <class T> concept Map = requires { typename T::mapped_type; };
template <class T> concept SeqT = Traits::IsSpecializingAnyOf<T, std::vector, std::list, std::deque>::value;
template <class T> concept SetT = !Map<T> && requires { typename T::key_type; };
template <class T> constexpr bool hashed = requires { typename T::hasher; };
template <SeqT T> struct X<T> {
    using E = typename T::value_type;
    static void enc(const T &v, W &w, std::uint64_t) { w.vlq(v.size()); for (const auto &e : v) S::enc<E>(e, w); }
    static void dec(T &v, R &r, std::uint64_t)
    {
        auto n = r.count();
        v.clear();
        for (; n; --n) { E e{}; S::dec<E>(e, r); v.push_back(std::move(e)); }
    }
    static T gen(Rng &r, int d) { T t; for (auto n = genSize(r, d); n; --n) t.push_back(S::gen<E>(r, d - 1)); return t; }
    static bool eq(const T &a, const T &b, Same &m, Same &n)
    {
        return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin(), [&](const E &x, const E &y) { return S::eq<E>(x, y, m, n); });
    }
};
template <class T> requires SetT<T> || Map<T> struct X<T> {
    using V = typename T::value_type;
    template <class P> struct Mut { using type = P; };
    template <class A, class B> struct Mut<std::pair<const A, B>> { using type = std::pair<A, B>; };
    using E = typename Mut<V>::type;
    static void enc(const T &v, W &w, std::uint64_t) { w.vlq(v.size()); for (const auto &e : v) X<V>::enc(e, w, 0); }
    static void dec(T &v, R &r, std::uint64_t)
    {
        auto n = r.count();
        v.clear();
        for (; n; --n) { E e{}; S::dec<E>(e, r); v.insert(std::move(e)); }
    }
    static T gen(Rng &r, int d) { T t; for (auto n = genSize(r, d); n; --n) t.insert(S::gen<E>(r, d - 1)); return t; }
    static bool eq(const T &a, const T &b, Same &m, Same &n)
    {
        if (a.size() != b.size()) return false;
        if constexpr (hashed<T>) return a == b;
        else return std::equal(a.begin(), a.end(), b.begin(), [&](const V &x, const V &y) { return X<V>::eq(x, y, m, n); });
    }
};
template <> struct X<Inner> {
    static void enc(const Inner &o, W &w, std::uint64_t v) { S::enc(o.foo, w); if (v >= 3) S::enc(o.bar, w); if (v <= 2) S::enc(o.old, w); }
    static void dec(Inner &o, R &r, std::uint64_t v) { S::dec(o.foo, r); if (v >= 3) S::dec(o.bar, r); if (v <= 2) S::dec(o.old, r); }
    static Inner gen(Rng &r, int d) { Inner o; o.foo = S::gen<int>(r, d); o.bar = genStr(r); o.old = S::gen<std::uint16_t>(r, d); return o; }
    static bool eq(const Inner &a, const Inner &b, Same &, Same &) { return a == b; }
};
template <> struct X<Outer> {
    static void enc(const Outer &o, W &w, std::uint64_t v)
    {
        if (!v) v = 3;
        w.vlq(v);
        S::enc(o.in, w, v);
        S::enc(o.d, w);
        if (v <= 2) S::enc(o.c, w);
        if (v >= 3) S::enc(o.e, w);
        if (v >= 4) S::enc(o.g, w);
        S::enc(o.ins, w); // version not handed on to the elements: known finding
        S::enc(o.p, w);
    }
    static void dec(Outer &o, R &r, std::uint64_t v)
    {
        v = r.vlq();
        if (v > 3) throw Bad{ "version " + std::to_string(v) + " 3 Outer" };
        S::dec(o.in, r, v);
        S::dec(o.d, r);
        if (v <= 2) S::dec(o.c, r);
        if (v >= 3) S::dec(o.e, r);
        if (v >= 4) S::dec(o.g, r);
        S::dec(o.ins, r);
        S::dec(o.p, r);
    }
    static Outer gen(Rng &r, int d)
    {
        Outer o;
        o.in = S::gen<Inner>(r, d); o.d = S::gen<double>(r, d); o.c = S::gen<std::uint32_t>(r, d); o.e = S::gen<std::uint32_t>(r, d); o.g = S::gen<std::uint64_t>(r, d);
        o.ins = S::gen<std::vector<Inner>>(r, d); o.p = S::gen<std::shared_ptr<std::string>>(r, d);
        return o;
    }
    static bool eq(const Outer &a, const Outer &b, Same &m, Same &n)
    {
        return a.in == b.in && S::eq(a.d, b.d, m, n) && a.c == b.c && a.e == b.e && a.g == b.g && a.ins == b.ins && S::eq(a.p, b.p, m, n);
    }
};
template <> struct X<Top> {
    static void enc(const Top &o, W &w, std::uint64_t v) { w.vlq(v ? v : 0x123456789); S::enc(o.o, w, 2); S::enc(o.x, w); }
    static void dec(Top &o, R &r, std::uint64_t)
    {
        auto v = r.vlq();
        if (v > 0x123456789) throw Bad{ "version " + std::to_string(v) + " 4886718345 Top" };
        S::dec(o.o, r, 2);
        S::dec(o.x, r);
    }
    static Top gen(Rng &r, int d) { Top t; t.o = S::gen<Outer>(r, d); t.x = S::gen<int>(r, d); return t; }
    static bool eq(const Top &a, const Top &b, Same &m, Same &n) { return a.x == b.x && S::eq(a.o, b.o, m, n); }
};
template <> struct X<Node> {
    static void enc(const Node &o, W &w, std::uint64_t) { S::enc(o.id, w); S::enc(o.next, w); S::enc(o.other, w); S::enc(o.num, w); }
    static void dec(Node &o, R &r, std::uint64_t) { S::dec(o.id, r); S::dec(o.next, r); S::dec(o.other, r); S::dec(o.num, r); }
    static Node gen(Rng &r, int d)
    {
        Node n;
        n.id = S::gen<std::uint8_t>(r, d);
        if (d > -3) n.next = S::gen<std::shared_ptr<Node>>(r, d - 1), n.other = S::gen<std::shared_ptr<Node>>(r, d - 1);
        n.num = S::gen<std::shared_ptr<int>>(r, d);
        return n;
    }
    static bool eq(const Node &a, const Node &b, Same &m, Same &n)
    {
        return a.id == b.id && S::eq(a.next, b.next, m, n) && S::eq(a.other, b.other, m, n) && S::eq(a.num, b.num, m, n);
    }
};

std::string hex(const std::string &s)
{
    std::string o;
    char b[4];
    for (unsigned char c : s.substr(0, 400)) std::snprintf(b, 4, "%02x ", c), o += b;
    return o + (s.size() > 400 ? "..." : "");
}
template <class T> bool gated() { return std::strstr(__PRETTY_FUNCTION__, "Inner") || std::strstr(__PRETTY_FUNCTION__, "Outer"); }
template <class T> constexpr bool isRec = requires { T::qualifiedName; };
template <class T> constexpr bool ghostly = false;
template <> constexpr bool ghostly<std::vector<std::shared_ptr<Ghost>>> = true;
template <class T> bool equal(const T &a, const T &b) { Same m, n; return eq<T>(a, b, m, n); }

// break cycles so that nothing leaks
void unlink() { for (auto &n : poolOf<Node>()) n->next.reset(), n->other.reset(); }
void clear() { unlink(); poolOf<Node>().clear(); poolOf<int>().clear(); poolOf<std::string>().clear(); poolOf<Ghost>().clear(); }

/// Writes several values with one serializer, reads them back with one deserializer into used objects.
template <class T> std::string tryWrite(Rng &r)
{
    clear();
    std::deque<T> vs;
    auto n = 1 + r(3);
    for (std::size_t i = 0; i != n; ++i) vs.push_back(gen<T>(r));
    for (auto &p : poolOf<Node>()) if (!r(3)) p->next = poolOf<Node>()[r(poolOf<Node>().size())]; // cycles
    std::stringstream s(std::ios::in | std::ios::out | std::ios::binary);
    s.exceptions(std::ios::failbit | std::ios::badbit);
    W w;
    std::vector<std::size_t> ends;
    try {
        BR::BinarySerializer ser(&s);
        for (auto &v : vs) {
            if constexpr (isRec<T>) ser.write(v, 0); else ser.write(v);
            ends.push_back(s.str().size());
        }
    } catch (const std::exception &e) {
        return std::string("writing threw ") + e.what();
    }
    for (auto &v : vs) enc<T>(v, w);
    if (s.str() != w.out) return "bytes written: " + hex(s.str()) + " expected: " + hex(w.out);
    if constexpr (ghostly<T>) return {}; // ids of 2^56 and more can be written, reading them is covered by tryRead
    s.write("\xa5", 1);
    try {
        BR::BinaryDeserializer des(&s);
        R ref{ w.out };
        Same m1, m2;
        for (std::size_t i = 0; i != n; ++i) {
            T t{};
            if (r.coin()) { std::stringstream o; o.exceptions(std::ios::failbit | std::ios::badbit); auto other = gen<T>(r); BR::BinarySerializer(&o).write(other); BR::BinaryDeserializer(&o).read(t); }
            T e{}; // members which are not part of the version keep their value
            if constexpr (isRec<T>) e = t;
            des.read(t);
            dec<T>(e, ref);
            if (!equal(t, e)) return "value " + std::to_string(i) + " of " + hex(s.str()) + " is not restored";
            if (!isRec<T> && !gated<T>() && !eq<T>(vs[i], t, m1, m2)) return "value " + std::to_string(i) + " of " + hex(s.str()) + " is not restored (identity of shared objects)";
            if (s.tellg() != std::streamoff(ends[i])) return "reading value " + std::to_string(i) + " of " + hex(s.str()) + " consumes up to " + std::to_string(s.tellg());
            if constexpr (std::is_same_v<T, std::vector<std::shared_ptr<Node>>>) { for (auto &x : t) if (x) poolOf<Node>().push_back(x); }
        }
        if (s.get() != 0xa5) return "byte behind the values is gone";
    } catch (const std::exception &e) {
        return std::string("reading ") + hex(s.str()) + " threw " + e.what();
    }
    return {};
}

/// Reads mutated encodings.
template <class T> std::string tryRead(Rng &r)
{
    clear();
    W w;
    auto v = gen<T>(r), v2 = gen<T>(r);
    enc<T>(v, w);
    enc<T>(v2, w);
    auto in = w.out;
    if (!in.empty()) for (auto k = r(4); k; --k) {
        static const unsigned char pool[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 0x40, 0x7f, 0x80, 0x81, 0x82, 0x83, 0xfe, 0xff };
        switch (r(4)) {
        case 0: in[r(in.size())] = static_cast<char>(r.coin() ? pool[r(std::size(pool))] : r(256)); break;
        case 1: in.resize(r(in.size() + 1)); break;
        case 2: in.insert(r(in.size() + 1), 1, static_cast<char>(pool[r(std::size(pool))])); break;
        default: if (!in.empty()) in.erase(r(in.size()), 1);
        }
        if (in.empty()) break;
    }
    std::stringstream s(in, std::ios::in | std::ios::binary);
    s.exceptions(std::ios::failbit | std::ios::badbit);
    BR::BinaryDeserializer des(&s);
    R ref{ in };
    for (int i = 0; i != 2; ++i) {
        T t{}, e{};
        std::string want, got;
        auto before = ref.p;
        try { dec<T>(e, ref); } catch (const Bad &b) { want = b.what; }
        if (want == "huge") return {};
        try { des.read(t); }
        catch (const CppUtilities::ConversionException &) { got = "conversion"; }
        catch (const BinaryVersionNotSupported &x) { got = "version " + std::to_string(x.presentVersion) + " " + std::to_string(x.maxVersion) + " " + x.record; }
        catch (const std::ios_base::failure &) { got = "end"; }
        catch (const std::bad_alloc &) { got = "end"; }
        catch (const std::length_error &) { got = "end"; }
        catch (const std::exception &x) { got = std::string("exception ") + x.what(); }
        if (want != got && !(want == "end" && got == "conversion") && !(want == "conversion" && got == "end"))
            return "reading " + hex(in) + " at " + std::to_string(before) + " gives " + (got.empty() ? "a value" : got) + ", expected " + (want.empty() ? "a value" : want);
        if (!want.empty()) return {};
        if (!equal(t, e)) return "reading " + hex(in) + " at " + std::to_string(before) + " gives a wrong value";
        if (ref.p < in.size() && s.tellg() != std::streamoff(ref.p)) return "reading " + hex(in) + " consumes up to " + std::to_string(s.tellg()) + ", expected " + std::to_string(ref.p);
    }
    return {};
}

/// Versions: toBinary/restoreFromBinary/fromBinary with every requested version.
template <class T> std::string tryVersion(Rng &r)
{
    clear();
    auto v = gen<T>(r);
    std::uint64_t ver = r.coin() ? 0 : r(6);
    std::stringstream s(std::ios::in | std::ios::out | std::ios::binary);
    s.exceptions(std::ios::failbit | std::ios::badbit);
    v.toBinary(s, ver);
    W w;
    enc<T>(v, w, ver);
    if (s.str() != w.out) return "toBinary(version " + std::to_string(ver) + ") writes " + hex(s.str()) + " expected: " + hex(w.out);
    T t{}, e{};
    R ref{ w.out };
    std::string want, got;
    std::uint64_t read = 0;
    bool from = r.coin();
    try { dec<T>(e, ref); } catch (const Bad &b) { want = b.what; }
    auto eff = T::version ? (ver ? ver : std::uint64_t(T::version)) : 0;
    try { if (from) { t = T::fromBinary(s); read = eff; } else read = t.restoreFromBinary(s); }
    catch (const BinaryVersionNotSupported &x) { got = "version " + std::to_string(x.presentVersion) + " " + std::to_string(x.maxVersion) + " " + x.record; }
    catch (const std::exception &x) { got = std::string("exception ") + x.what(); }
    if (!T::version && ver) return {}; // the version of unversioned records is not stored
    if (want != got) return "reading version " + std::to_string(ver) + " gives " + (got.empty() ? "a value" : got) + ", expected " + (want.empty() ? "a value" : want);
    if (want.empty() && !equal(t, e)) return "reading version " + std::to_string(ver) + " gives a wrong value: " + hex(s.str());
    if (want.empty() && read != eff) return "reading version " + std::to_string(ver) + " returns version " + std::to_string(read);
    if (!want.empty() && !equal(t, T{})) return "members are touched although version " + std::to_string(ver) + " is not supported";
    return {};
}
template <std::uint64_t N> struct VT : BinarySerializable<VT<N>, N> {};
template <std::uint64_t N> std::string oneVersioning(std::uint64_t v)
{
    using V = Versioning<BinarySerializable<VT<N>, N>>;
    auto a = v;
    if (V::enabled != (N != 0)) return "enabled";
    if (V::applyDefault(a) != (v ? v : N) || a != (v ? v : N)) return "applyDefault";
    if (V::applyDefaultValue(v) != (v ? v : N)) return "applyDefaultValue";
    if (V::isSupported(v) != (v <= N)) return "isSupported";
    try { V::assertVersion(v, "rec"); if (v > N) return "assertVersion accepts"; }
    catch (const BinaryVersionNotSupported &x) { if (v <= N || x.presentVersion != v || x.maxVersion != N || std::strcmp(x.record, "rec")) return "assertVersion rejects"; }
    return {};
}
std::string tryVersioning(Rng &r)
{
    auto v = static_cast<std::uint64_t>(genI64(r)) + r(3);
    for (auto &m : { oneVersioning<0>(v), oneVersioning<1>(v), oneVersioning<3>(v), oneVersioning<0x7fffffff>(v), oneVersioning<0xffffffff>(v), oneVersioning<1ull << 63>(v), oneVersioning<~0ull>(v) })
        if (!m.empty()) return m + " is wrong for version " + std::to_string(v);
    return {};
}
}

struct Case { const char *name; std::string (*write)(Rng &), (*read)(Rng &); };
#define C(...) { #__VA_ARGS__, &S::tryWrite<__VA_ARGS__>, &S::tryRead<__VA_ARGS__> }
static const Case cases[] = {
#if !defined(PART) || PART == 0
    C(bool), C(char), C(std::uint8_t), C(std::int16_t), C(std::uint16_t), C(std::int32_t), C(std::uint32_t), C(std::int64_t), C(std::uint64_t), C(float), C(double), C(std::string),
    C(Ei), C(Eu8), C(Ei16), C(Eu64), C(Eb), C(CppUtilities::DateTime), C(CppUtilities::TimeSpan), C(std::pair<std::string, int>),
    C(std::optional<std::string>), C(std::optional<std::optional<int>>), C(Inner), C(Outer), C(Top),
#endif
#if !defined(PART) || PART == 1
    C(std::vector<int>), C(std::vector<std::string>), C(std::list<std::string>), C(std::deque<double>), C(std::vector<std::vector<std::uint8_t>>), C(std::vector<std::optional<Inner>>),
    C(std::set<int>), C(std::set<std::string>), C(std::multiset<int>), C(std::unordered_set<std::string>), C(std::unordered_multiset<int>), C(std::set<Inner>), C(std::vector<Outer>),
    C(std::vector<std::pair<int, CppUtilities::DateTime>>),
#endif
#if !defined(PART) || PART == 2
    C(std::map<std::string, int>), C(std::unordered_map<std::string, int>), C(std::multimap<int, std::string>), C(std::unordered_multimap<int, int>), C(std::map<int, std::vector<std::string>>),
    C(std::map<std::string, std::variant<int, std::string>>), C(std::variant<int>), C(std::variant<std::monostate, int, std::string>), C(std::variant<std::vector<int>, double, std::monostate, Inner>),
#endif
#if !defined(PART) || PART == 3
    C(std::shared_ptr<int>), C(std::vector<std::shared_ptr<int>>), C(std::vector<std::shared_ptr<std::string>>), C(std::vector<std::shared_ptr<Node>>), C(std::vector<std::shared_ptr<Ghost>>),
    C(std::pair<std::shared_ptr<int>, std::shared_ptr<std::string>>), C(std::map<int, std::shared_ptr<int>>), C(std::variant<std::shared_ptr<int>, std::shared_ptr<std::string>>),
#endif
};
static const Case versions[] = { { "versioning", &S::tryVersioning, nullptr }, { "Inner", &S::tryVersion<Inner>, nullptr }, { "Outer", &S::tryVersion<Outer>, nullptr }, { "Top", &S::tryVersion<Top>, nullptr } };

extern "C" const char *__asan_default_options() { return "allocator_may_return_null=0:detect_leaks=0:max_allocation_size_mb=4096:allocator_may_return_null=1"; }

int main(int, char **argv)
{
    std::string prop = argv[1];
    std::uint64_t seed = std::strtoull(argv[2], nullptr, 10);
    double secs = std::atof(argv[3]);
    const char *onlyCase = argv[4];
    std::uint64_t onlyIter = onlyCase ? std::strtoull(argv[5], nullptr, 10) : 0, n = 0;
    auto start = std::chrono::steady_clock::now();
    std::vector<std::pair<std::string, std::string (*)(Rng &)>> list;
    if (prop == "B05") {
        for (auto &c : versions) list.push_back({ c.name, c.write });
    } else for (auto &c : cases) {
        if (prop == "B03" && !std::strstr(c.name, "shared_ptr") && !std::strstr(c.name, "Outer")) continue;
        if (prop != "B04") list.push_back({ std::string("write ") + c.name, c.write });
        if (prop == "B04" || prop == "B01" || prop == "B03") list.push_back({ std::string("read ") + c.name, c.read });
    }
    for (std::uint64_t iter = 0; !list.empty(); ++iter) {
        for (auto &c : list) {
            if (onlyCase && (c.first != onlyCase || iter != onlyIter)) continue;
            Rng r{ std::mt19937_64(seed * 1000003 + iter * 131 + std::hash<std::string>()(c.first)) };
            std::cout << "CASE " << c.first << ' ' << iter << '\r' << std::flush;
            std::string m = c.second(r);
            ++n;
            if (!m.empty()) {
                std::cout << "\nFAIL property=" << prop << " type=" << c.first << " seed=" << seed << " iteration=" << iter << ": " << m << std::endl;
                return 1;
            }
        }
        if (onlyCase && iter >= onlyIter) break;
        if (std::chrono::duration<double>(std::chrono::steady_clock::now() - start).count() > secs) break;
    }
    std::cout << "\nOK cases=" << n << std::endl;
    return 0;
}
