#include <fstream>
// Independent executable specification of the JSON mapping: S::push/S::pull. Used to look for concrete failing inputs and
// to validate the library models the contracts rely on; it never decides a property on its own.
#pragma once
#include <json/errorformatting.h>
#include <json/reflector.h>
#include <json/reflector-chronoutilities.h>
#include <json/serializable.h>

#include <cmath>
#include <cstring>
#include <deque>
#include <forward_list>
#include <functional>
#include <iostream>
#include <list>
#include <random>
#include <sstream>

#include "gen.h"

namespace RJ = RAPIDJSON_NAMESPACE;
using namespace ReflectiveRapidJSON;
namespace JR = ReflectiveRapidJSON::JsonReflector;
using GV = RJ::GenericValue<RJ::UTF8<char>>;
using Alloc = RJ::Document::AllocatorType;
using Errs = JsonDeserializationErrors;

enum class Ei : int { A = -1, B = 0, C = 7 };
enum class Eu8 : std::uint8_t { A, B, C = 255 };
enum class Ei8 : std::int8_t { A = -128, B = 3 };
enum class Eu64 : std::uint64_t { A, B = ~0ull };
enum class Ei64 : std::int64_t { A = INT64_MIN, B = 5 };
enum EOld { eoA, eoB };

// records in the style of the generated code
struct Inner : JsonSerializable<Inner> {
    int n = 1;
    std::string s = "dflt";
    std::vector<int> l;
    bool operator==(const Inner &o) const { return n == o.n && s == o.s && l == o.l; }
};
struct Outer : JsonSerializable<Outer> {
    double d = 2.5;
    Inner in;
    std::vector<Inner> ins;
    std::map<std::string, Inner> im;
    std::optional<Inner> oi;
    std::uint8_t u8 = 9;
    bool b = true;
};
struct Own { // pushes itself through a value
    int k = 0;
};

namespace S {
struct Err {
    int kind, exp, act;
    std::string record, member;
    bool hasRecord, hasMember;
    std::size_t index;
    bool operator==(const Err &) const = default;
};
struct Fatal {};
struct Log {
    std::vector<Err> errs;
    const char *record = nullptr, *member = nullptr;
    std::size_t index = JsonDeserializationError::noIndex;
    unsigned throwOn = 0;
    void add(int kind, int exp, int act)
    {
        errs.push_back({ kind, exp, act, record ? record : "", member ? member : "", record != nullptr, member != nullptr, index });
        static const unsigned bits[] = { 1, 2, 4, 8, 0x10, 0x20 };
        if (throwOn & bits[kind]) throw Fatal();
    }
};
enum { Mismatch, Size, Conversion, Duplicate, VObject, VIndex };
enum { TNull, TNumber, TBool, TString, TArray, TObject };
inline int typeOf(const GV &v)
{
    return v.IsNull() ? TNull : v.IsNumber() ? TNumber : v.IsBool() ? TBool : v.IsString() ? TString : v.IsArray() ? TArray : TObject;
}

template <class T> struct X; // kind of T: push, pull, gen, eq

template <class T> RJ::Value push(const T &v, Alloc &a) { return X<T>::push(v, a); }
template <class T> void pull(T &t, const GV &v, Log *l) { X<T>::pull(t, v, l); }
template <class T> T gen(Rng &r, int d = 2) { return X<T>::gen(r, d); }
template <class T> bool eq(const T &a, const T &b) { return X<T>::eq(a, b); }

inline void mismatch(Log *l, int exp, const GV &v)
{
    if (l) l->add(Mismatch, exp, typeOf(v));
}
inline RJ::Value str(const std::string &s, Alloc &a) { return RJ::Value(s.data(), static_cast<RJ::SizeType>(s.size()), a); }
template <class T>
concept Num = (std::is_arithmetic_v<T> && !std::is_same_v<T, bool>);
template <Num T> struct X<T> {
    static RJ::Value push(T v, Alloc &)
    {
        RJ::Value r;
        if constexpr (std::is_floating_point_v<T>) r.SetDouble(static_cast<double>(v));
        else if constexpr (std::is_signed_v<T>) r.SetInt64(v);
        else r.SetUint64(v);
        return r;
    }
    static bool convert(const GV &v, T &out)
    {
        if constexpr (std::is_same_v<T, double>) {
            out = v.GetDouble();
            return true;
        } else if constexpr (std::is_same_v<T, float>) {
            double d = v.GetDouble();
            if (std::isfinite(d) && std::abs(d) > 340282346638528859811704183484516925440.0) return false;
            out = static_cast<float>(d);
            return true;
        } else {
            __int128 x;
            if (v.IsInt64()) x = v.GetInt64();
            else if (v.IsUint64()) x = v.GetUint64();
            else {
                double d = std::trunc(v.GetDouble());
                if (!(d > -1e20 && d < 1e20)) return false;
                x = static_cast<__int128>(d);
            }
            if (x < std::numeric_limits<T>::min() || x > std::numeric_limits<T>::max()) return false;
            out = static_cast<T>(x);
            return true;
        }
    }
    static void pull(T &t, const GV &v, Log *l)
    {
        if (!v.IsNumber()) return mismatch(l, TNumber, v);
        T o{};
        if (!convert(v, o)) {
            if (l) l->add(Conversion, TNumber, TNumber);
            return;
        }
        t = o;
    }
    static T gen(Rng &r, int)
    {
        if constexpr (std::is_floating_point_v<T>) return static_cast<T>(std::is_same_v<T, float> ? std::fmod(genDbl(r), 3e38) : genDbl(r));
        else return static_cast<T>(genI64(r));
    }
    static bool eq(T a, T b) { return std::memcmp(&a, &b, sizeof(T)) == 0; }
};
template <> struct X<bool> {
    static RJ::Value push(bool v, Alloc &) { return RJ::Value(v); }
    static void pull(bool &t, const GV &v, Log *l)
    {
        if (!v.IsBool()) return mismatch(l, TBool, v);
        t = v.GetBool();
    }
    static bool gen(Rng &r, int) { return r.coin(); }
    static bool eq(bool a, bool b) { return a == b; }
};
template <class T>
concept Enum = std::is_enum_v<T>;
template <Enum T> struct X<T> {
    using U = std::underlying_type_t<T>;
    static RJ::Value push(T v, Alloc &a) { return X<U>::push(static_cast<U>(v), a); }
    static void pull(T &t, const GV &v, Log *l)
    {
        if (std::is_unsigned_v<U> ? !v.IsUint64() : !v.IsInt64()) return mismatch(l, TNumber, v);
        U u{};
        if (!X<U>::convert(v, u)) {
            if (l) l->add(Conversion, TNumber, TNumber);
            return;
        }
        t = static_cast<T>(u);
    }
    static T gen(Rng &r, int)
    {
        static const T pool[] = { static_cast<T>(0), static_cast<T>(1), static_cast<T>(std::numeric_limits<U>::max()), static_cast<T>(std::numeric_limits<U>::min()) };
        return pool[r(std::is_same_v<T, EOld> ? 2 : 4)];
    }
    static bool eq(T a, T b) { return a == b; }
};
template <> struct X<std::string> {
    static RJ::Value push(const std::string &v, Alloc &a) { return str(v, a); }
    static void pull(std::string &t, const GV &v, Log *l)
    {
        if (!v.IsString()) return mismatch(l, TString, v);
        t.assign(v.GetString(), v.GetStringLength());
    }
    static std::string gen(Rng &r, int) { return genStr(r); }
    static bool eq(const std::string &a, const std::string &b) { return a == b; }
};
template <class T>
concept Chrono = std::is_same_v<T, CppUtilities::DateTime> || std::is_same_v<T, CppUtilities::TimeSpan>;
template <Chrono T> struct X<T> {
    static constexpr bool date = std::is_same_v<T, CppUtilities::DateTime>;
    static std::string text(const T &v)
    {
        if constexpr (date) return v.toIsoString();
        else return v.toString();
    }
    static RJ::Value push(const T &v, Alloc &a) { return str(text(v), a); }
    static void pull(T &t, const GV &v, Log *l)
    {
        if (!v.IsString()) return mismatch(l, TString, v);
        try {
            if constexpr (date) t = T::fromIsoStringGmt(v.GetString());
            else t = T::fromString(v.GetString());
        } catch (const CppUtilities::ConversionException &) {
            if (l) l->add(Conversion, TString, TString);
        }
    }
    static T gen(Rng &r, int)
    {
        if constexpr (date) return CppUtilities::DateTime::fromDateAndTime(1 + static_cast<int>(r(9998)), 1 + static_cast<int>(r(12)), 1 + static_cast<int>(r(28)), static_cast<int>(r(24)), static_cast<int>(r(60)), static_cast<int>(r(60)), static_cast<double>(r(1000)));
        else return CppUtilities::TimeSpan(static_cast<std::int64_t>(r(3) ? r(100000) : r(2000000000)) * 10000000); // whole seconds: the text form of c++utilities is lossy otherwise
    }
    static bool eq(const T &a, const T &b) { return a.totalTicks() == b.totalTicks(); }
};
template <class T>
concept Ptr = Traits::IsSpecializingAnyOf<T, std::unique_ptr, std::shared_ptr, std::optional>::value;
template <Ptr T> struct X<T> {
    using E = std::remove_cvref_t<decltype(*std::declval<T &>())>;
    static T make(E &&e)
    {
        if constexpr (Traits::IsSpecializationOf<T, std::unique_ptr>::value) return std::make_unique<E>(std::move(e));
        else if constexpr (Traits::IsSpecializationOf<T, std::shared_ptr>::value) return std::make_shared<E>(std::move(e));
        else return T(std::move(e));
    }
    static RJ::Value push(const T &v, Alloc &a) { return v ? S::push<E>(*v, a) : RJ::Value(); }
    static void pull(T &t, const GV &v, Log *l)
    {
        if (v.IsNull()) {
            t.reset();
            return;
        }
        t = make(E{});
        S::pull<E>(*t, v, l);
    }
    static T gen(Rng &r, int d) { return r(3) ? make(S::gen<E>(r, d)) : T(); }
    static bool eq(const T &a, const T &b) { return static_cast<bool>(a) == static_cast<bool>(b) && (!a || S::eq<E>(*a, *b)); }
};
template <class... T> struct X<std::tuple<T...>> {
    using U = std::tuple<T...>;
    static RJ::Value push(const U &v, Alloc &a)
    {
        RJ::Value r(RJ::kArrayType);
        std::apply([&](const auto &...e) { (r.PushBack(S::push<std::remove_cvref_t<decltype(e)>>(e, a).Move(), a), ...); }, v);
        return r;
    }
    static void pull(U &t, const GV &v, Log *l)
    {
        if (!v.IsArray()) return mismatch(l, TArray, v);
        if (v.Size() != sizeof...(T)) {
            if (l) l->add(Size, TArray, TArray);
            return;
        }
        RJ::SizeType i = 0;
        std::apply([&](auto &...e) { (S::pull<std::remove_cvref_t<decltype(e)>>(e, v[i++], l), ...); }, t);
    }
    static U gen(Rng &r, int d) { return U{ S::gen<T>(r, d)... }; }
    template <std::size_t... I> static bool e(const U &a, const U &b, std::index_sequence<I...>) { return (S::eq<T>(std::get<I>(a), std::get<I>(b)) && ...); }
    static bool eq(const U &a, const U &b) { return e(a, b, std::index_sequence_for<T...>()); }
};
template <class A, class B> struct X<std::pair<A, B>> {
    using U = std::pair<A, B>;
    static RJ::Value push(const U &v, Alloc &a)
    {
        RJ::Value r(RJ::kArrayType);
        r.PushBack(S::push<A>(v.first, a).Move(), a).PushBack(S::push<B>(v.second, a).Move(), a);
        return r;
    }
    static void pull(U &t, const GV &v, Log *l)
    {
        if (!v.IsArray()) return mismatch(l, TArray, v);
        if (v.Size() != 2) {
            if (l) l->add(Size, TArray, TArray);
            return;
        }
        S::pull<A>(t.first, v[0], l);
        S::pull<B>(t.second, v[1], l);
    }
    static U gen(Rng &r, int d) { return U{ S::gen<A>(r, d), S::gen<B>(r, d) }; }
    static bool eq(const U &a, const U &b) { return S::eq<A>(a.first, b.first) && S::eq<B>(a.second, b.second); }
};
template <> struct X<std::monostate> {
    static RJ::Value push(std::monostate, Alloc &) { return RJ::Value(); }
    static void pull(std::monostate &, const GV &, Log *) {}
    static std::monostate gen(Rng &, int) { return {}; }
    static bool eq(std::monostate, std::monostate) { return true; }
};
template <class... T> struct X<std::variant<T...>> {
    using U = std::variant<T...>;
    static RJ::Value push(const U &v, Alloc &a)
    {
        if (v.valueless_by_exception()) return RJ::Value();
        RJ::Value r(RJ::kObjectType);
        r.AddMember("index", RJ::Value(static_cast<std::uint64_t>(v.index())).Move(), a);
        r.AddMember("data", std::visit([&](const auto &e) { return S::push<std::remove_cvref_t<decltype(e)>>(e, a); }, v).Move(), a);
        return r;
    }
    template <std::size_t... I> static void at(std::size_t n, U &t, const GV &d, Log *l, std::index_sequence<I...>)
    {
        (void)((n == I ? (t.template emplace<I>(std::variant_alternative_t<I, U>{}), S::pull<std::variant_alternative_t<I, U>>(std::get<I>(t), d, l), true) : false) || ...);
    }
    static void pull(U &t, const GV &v, Log *l)
    {
        if (!v.IsObject()) return mismatch(l, TObject, v);
        auto i = v.FindMember("index"), d = v.FindMember("data");
        if (i == v.MemberEnd() || d == v.MemberEnd()) {
            if (l) l->add(VObject, TObject, TObject);
            return;
        }
        if (!i->value.IsUint64() || i->value.GetUint64() >= sizeof...(T)) {
            if (l) l->add(VIndex, TNumber, i->value.IsUint64() ? static_cast<int>(TNumber) : typeOf(i->value));
            return;
        }
        at(i->value.GetUint64(), t, d->value, l, std::index_sequence_for<T...>());
    }
    template <std::size_t... I> static U g(Rng &r, int d, std::size_t n, std::index_sequence<I...>)
    {
        U u;
        ((n == I ? (void)u.template emplace<I>(S::gen<std::variant_alternative_t<I, U>>(r, d)) : (void)0), ...);
        return u;
    }
    static U gen(Rng &r, int d) { return g(r, d, r(sizeof...(T)), std::index_sequence_for<T...>()); }
    template <std::size_t... I> static bool e(const U &a, const U &b, std::index_sequence<I...>)
    {
        return ((a.index() != I || S::eq<std::variant_alternative_t<I, U>>(std::get<I>(a), std::get<I>(b))) && ...);
    }
    static bool eq(const U &a, const U &b) { return a.index() == b.index() && (a.valueless_by_exception() || e(a, b, std::index_sequence_for<T...>())); }
};
template <class T>
concept Seq = Traits::IsSpecializingAnyOf<T, std::vector, std::list, std::deque>::value;
template <class T>
concept SetLike = IsSet<T>::value || IsMultiSet<T>::value;
template <class T>
concept Map = IsMapOrHash<T>::value;
template <class T>
concept MMap = IsMultiMapOrHash<T>::value;
struct Idx { // the array index is part of the context while an item is processed
    Log *l;
    std::size_t old;
    explicit Idx(Log *l) : l(l), old(l ? l->index : 0) {}
    void set(std::size_t i) { if (l) l->index = i; }
    ~Idx() { if (l) l->index = old; }
};
template <Seq T> struct X<T> {
    using E = typename T::value_type;
    static RJ::Value push(const T &v, Alloc &a)
    {
        RJ::Value r(RJ::kArrayType);
        for (const auto &e : v) r.PushBack(S::push<E>(e, a).Move(), a);
        return r;
    }
    static void pull(T &t, const GV &v, Log *l)
    {
        if (!v.IsArray()) return mismatch(l, TArray, v);
        t.clear();
        Idx idx(l);
        for (RJ::SizeType i = 0; i < v.Size(); ++i) {
            idx.set(i);
            E e{};
            S::pull<E>(e, v[i], l);
            t.emplace_back(std::move(e));
        }
    }
    static T gen(Rng &r, int d)
    {
        T t;
        for (auto n = genSize(r, d); n; --n) t.emplace_back(S::gen<E>(r, d - 1));
        return t;
    }
    static bool eq(const T &a, const T &b)
    {
        return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin(), [](const E &x, const E &y) { return S::eq<E>(x, y); });
    }
};
template <SetLike T> struct X<T> {
    using E = typename T::value_type;
    static RJ::Value push(const T &v, Alloc &a)
    {
        RJ::Value r(RJ::kArrayType);
        for (const auto &e : v) r.PushBack(S::push<E>(e, a).Move(), a);
        return r;
    }
    static void pull(T &t, const GV &v, Log *l)
    {
        if (!v.IsArray()) return mismatch(l, TArray, v);
        t.clear();
        Idx idx(l);
        for (RJ::SizeType i = 0; i < v.Size(); ++i) {
            idx.set(i);
            E e{};
            S::pull<E>(e, v[i], l);
            bool dup = IsSet<T>::value && t.find(e) != t.end();
            if (!dup) t.insert(std::move(e));
            else if (l) l->add(Duplicate, TArray, TArray);
        }
    }
    static T gen(Rng &r, int d)
    {
        T t;
        for (auto n = genSize(r, d); n; --n) t.insert(S::gen<E>(r, d - 1));
        return t;
    }
    static bool eq(const T &a, const T &b) { return a == b; }
};
template <Map T> struct X<T> {
    using E = typename T::mapped_type;
    static RJ::Value push(const T &v, Alloc &a)
    {
        RJ::Value r(RJ::kObjectType);
        for (const auto &e : v) r.AddMember(str(e.first, a).Move(), S::push<E>(e.second, a).Move(), a);
        return r;
    }
    static void pull(T &t, const GV &v, Log *l)
    {
        if (!v.IsObject()) return mismatch(l, TObject, v);
        t.clear();
        for (auto m = v.MemberBegin(); m != v.MemberEnd(); ++m) S::pull<E>(t[std::string(m->name.GetString(), m->name.GetStringLength())], m->value, l);
    }
    static T gen(Rng &r, int d)
    {
        T t;
        for (auto n = genSize(r, d); n; --n) t[genStr(r)] = S::gen<E>(r, d - 1);
        return t;
    }
    static bool eq(const T &a, const T &b)
    {
        if (a.size() != b.size()) return false;
        for (const auto &e : a) {
            auto i = b.find(e.first);
            if (i == b.end() || !S::eq<E>(e.second, i->second)) return false;
        }
        return true;
    }
};
template <MMap T> struct X<T> {
    using E = typename T::mapped_type;
    static RJ::Value push(const T &v, Alloc &a)
    {
        RJ::Value r(RJ::kObjectType);
        for (const auto &e : v) {
            auto n = str(e.first, a);
            auto m = r.FindMember(n);
            if (m == r.MemberEnd()) {
                RJ::Value arr(RJ::kArrayType);
                arr.PushBack(S::push<E>(e.second, a).Move(), a);
                r.AddMember(n, arr, a);
            } else
                m->value.PushBack(S::push<E>(e.second, a).Move(), a);
        }
        return r;
    }
    static void pull(T &t, const GV &v, Log *l)
    {
        if (!v.IsObject()) return mismatch(l, TObject, v);
        t.clear();
        for (auto m = v.MemberBegin(); m != v.MemberEnd(); ++m) {
            std::string k(m->name.GetString(), m->name.GetStringLength());
            if (m->value.IsArray())
                for (const auto &e : m->value.GetArray()) S::pull<E>(t.insert({ k, E{} })->second, e, l);
            else
                S::pull<E>(t.insert({ k, E{} })->second, m->value, l);
        }
    }
    static T gen(Rng &r, int d)
    {
        T t;
        for (auto n = d > 0 ? r(6) : 0; n; --n) t.insert({ genStr(r), S::gen<E>(r, d - 1) });
        return t;
    }
    static bool eq(const T &a, const T &b)
    {
        if (a.size() != b.size()) return false;
        for (const auto &e : a) {
            auto x = a.equal_range(e.first), y = b.equal_range(e.first);
            std::vector<const E *> p, q;
            for (; x.first != x.second; ++x.first) p.push_back(&x.first->second);
            for (; y.first != y.second; ++y.first) q.push_back(&y.first->second);
            if (p.size() != q.size()) return false;
            for (auto *i : p) {
                auto f = std::find_if(q.begin(), q.end(), [&](auto *j) { return S::eq<E>(*i, *j); });
                if (f == q.end()) return false;
                q.erase(f);
            }
        }
        return true;
    }
};

// records
template <class T> void member(T &t, const char *name, const GV &obj, Log *l)
{
    auto m = obj.FindMember(name);
    if (m == obj.MemberEnd()) return;
    const char *old = l ? l->member : nullptr;
    if (l) l->member = name;
    S::pull<T>(t, m->value, l);
    if (l) l->member = old;
}
template <class T, class F> void record(const char *name, const GV &v, Log *l, F f)
{
    if (!v.IsObject()) return mismatch(l, TObject, v);
    const char *old = l ? l->record : nullptr;
    if (l) l->record = name;
    f();
    if (l) l->record = old;
}
template <> struct X<Inner> {
    static RJ::Value push(const Inner &v, Alloc &a)
    {
        RJ::Value r(RJ::kObjectType);
        r.AddMember("n", S::push(v.n, a).Move(), a).AddMember("s", S::push(v.s, a).Move(), a).AddMember("l", S::push(v.l, a).Move(), a);
        return r;
    }
    static void pull(Inner &t, const GV &v, Log *l)
    {
        record<Inner>("Inner", v, l, [&] { member(t.n, "n", v, l), member(t.s, "s", v, l), member(t.l, "l", v, l); });
    }
    static Inner gen(Rng &r, int d)
    {
        Inner i;
        i.n = S::gen<int>(r), i.s = genStr(r), i.l = S::gen<std::vector<int>>(r, d);
        return i;
    }
    static bool eq(const Inner &a, const Inner &b) { return a == b; }
};
template <> struct X<Outer> {
    static RJ::Value push(const Outer &v, Alloc &a)
    {
        RJ::Value r(RJ::kObjectType);
        r.AddMember("d", S::push(v.d, a).Move(), a).AddMember("in", S::push(v.in, a).Move(), a).AddMember("ins", S::push(v.ins, a).Move(), a);
        r.AddMember("im", S::push(v.im, a).Move(), a).AddMember("oi", S::push(v.oi, a).Move(), a).AddMember("u8", S::push(v.u8, a).Move(), a).AddMember("b", S::push(v.b, a).Move(), a);
        return r;
    }
    static void pull(Outer &t, const GV &v, Log *l)
    {
        record<Outer>("Outer", v, l, [&] {
            member(t.d, "d", v, l), member(t.in, "in", v, l), member(t.ins, "ins", v, l), member(t.im, "im", v, l), member(t.oi, "oi", v, l), member(t.u8, "u8", v, l), member(t.b, "b", v, l);
        });
    }
    static Outer gen(Rng &r, int d)
    {
        Outer o;
        o.d = genDbl(r), o.in = S::gen<Inner>(r, d), o.ins = S::gen<std::vector<Inner>>(r, d), o.im = S::gen<std::map<std::string, Inner>>(r, d), o.oi = S::gen<std::optional<Inner>>(r, d);
        o.u8 = S::gen<std::uint8_t>(r), o.b = r.coin();
        return o;
    }
    static bool eq(const Outer &a, const Outer &b)
    {
        return S::eq(a.d, b.d) && a.in == b.in && S::eq(a.ins, b.ins) && S::eq(a.im, b.im) && S::eq(a.oi, b.oi) && a.u8 == b.u8 && a.b == b.b;
    }
};
} // namespace S

// reflection code of the records, written as the generator does
namespace ReflectiveRapidJSON {
namespace JsonReflector {
template <> inline void push<Inner>(const Inner &r, RJ::Value::Object &v, Alloc &a)
{
    push(r.n, "n", v, a);
    push(r.s, "s", v, a);
    push(r.l, "l", v, a);
}
template <> inline void pull<Inner>(Inner &r, const GV::ConstObject &v, JsonDeserializationErrors *errors)
{
    const char *previousRecord;
    if (errors) {
        previousRecord = errors->currentRecord;
        errors->currentRecord = "Inner";
    }
    pull(r.n, "n", v, errors);
    pull(r.s, "s", v, errors);
    pull(r.l, "l", v, errors);
    if (errors) {
        errors->currentRecord = previousRecord;
    }
}
template <> inline void push<Outer>(const Outer &r, RJ::Value::Object &v, Alloc &a)
{
    push(r.d, "d", v, a);
    push(r.in, "in", v, a);
    push(r.ins, "ins", v, a);
    push(r.im, "im", v, a);
    push(r.oi, "oi", v, a);
    push(r.u8, "u8", v, a);
    push(r.b, "b", v, a);
}
template <> inline void pull<Outer>(Outer &r, const GV::ConstObject &v, JsonDeserializationErrors *errors)
{
    const char *previousRecord;
    if (errors) {
        previousRecord = errors->currentRecord;
        errors->currentRecord = "Outer";
    }
    pull(r.d, "d", v, errors);
    pull(r.in, "in", v, errors);
    pull(r.ins, "ins", v, errors);
    pull(r.im, "im", v, errors);
    pull(r.oi, "oi", v, errors);
    pull(r.u8, "u8", v, errors);
    pull(r.b, "b", v, errors);
    if (errors) {
        errors->currentRecord = previousRecord;
    }
}
} // namespace JsonReflector
} // namespace ReflectiveRapidJSON
