// Looks for structs, documents and versions for which the Boost.Hana reflectors do not do the same as (de)serializing the declared members
// one by one, by hand. usage: hana_harness PROPERTY SEED SECONDS [CASE ITERATION]
#include <json/reflector-boosthana.h>
#include <json/serializable.h>
#include <binary/reflector-boosthana.h>
#include <binary/serializable.h>
#include <chrono>
#include <cstring>
#include <iostream>
#include <sstream>
#include "gen.h"
using namespace ReflectiveRapidJSON;
namespace RJ = RAPIDJSON_NAMESPACE;
namespace JR = JsonReflector;
namespace BR = BinaryReflector;
using GV = RJ::GenericValue<RJ::UTF8<char>>;
using Alloc = RJ::Document::AllocatorType;

// a member which notes how it is (de)serialized
struct Probe {
    int v = 0;
    bool operator==(const Probe &) const = default;
};
static std::vector<std::pair<const void *, std::uint64_t>> notes;
namespace ReflectiveRapidJSON {
namespace JsonReflector {
template <> void push<Probe>(const Probe &p, RJ::Value &v, Alloc &) { notes.emplace_back(&p, 0); v.SetInt(p.v); }
template <> void pull<Probe>(Probe &p, const GV &v, JsonDeserializationErrors *e)
{
    notes.emplace_back(&p, e != nullptr);
    if (v.IsInt()) p.v = v.GetInt();
    else if (e) e->reportTypeMismatch<int>(v.GetType());
}
}
namespace BinaryReflector {
template <> void writeCustomType<Probe>(BinarySerializer &s, const Probe &p, BinaryVersion v) { notes.emplace_back(&p, v); s.write(p.v); }
template <> BinaryVersion readCustomType<Probe>(BinaryDeserializer &d, Probe &p, BinaryVersion v) { notes.emplace_back(&p, v); d.read(p.v); return v; }
}
}

struct None : JsonSerializable<None>, BinarySerializable<None> { BOOST_HANA_DEFINE_STRUCT(None); };
struct One : JsonSerializable<One>, BinarySerializable<One> { BOOST_HANA_DEFINE_STRUCT(One, (Probe, a)); };
struct Two : JsonSerializable<Two>, BinarySerializable<Two> { BOOST_HANA_DEFINE_STRUCT(Two, (Probe, z), (Probe, a)); };
struct Mixed : JsonSerializable<Mixed>, BinarySerializable<Mixed> {
    BOOST_HANA_DEFINE_STRUCT(Mixed, (int, i), (std::string, text), (Probe, p), (std::vector<int>, list), (Probe, a_rather_long_member_name), (bool, b), (Two, nested), (Probe, q), (int, _under_), (Probe, X9));
};
struct Adapted : JsonSerializable<Adapted>, BinarySerializable<Adapted> {
    Probe three, one;
    std::string two;
};
BOOST_HANA_ADAPT_STRUCT(Adapted, one, two, three);

template <class F> void each(None &, F) {}
template <class F> void each(One &o, F f) { f(o.a, "a"); }
template <class F> void each(Two &o, F f) { f(o.z, "z"); f(o.a, "a"); }
template <class F> void each(Mixed &o, F f) { f(o.i, "i"); f(o.text, "text"); f(o.p, "p"); f(o.list, "list"); f(o.a_rather_long_member_name, "a_rather_long_member_name"); f(o.b, "b"); f(o.nested, "nested"); f(o.q, "q"); f(o._under_, "_under_"); f(o.X9, "X9"); }
template <class F> void each(Adapted &o, F f) { f(o.one, "one"); f(o.two, "two"); f(o.three, "three"); }

static void fill(Rng &r, int &x) { x = static_cast<int>(r.e()); }
static void fill(Rng &r, bool &x) { x = r.coin(); }
static void fill(Rng &r, Probe &x) { x.v = static_cast<int>(r(1000)); }
static void fill(Rng &r, std::string &x) { x = S::genStr(r); }
static void fill(Rng &r, std::vector<int> &x) { x.resize(r(4)); for (auto &i : x) fill(r, i); }
template <class T> void fill(Rng &r, T &o) { each(o, [&](auto &m, auto) { fill(r, m); }); }

static std::string text(RJ::Document &d) { auto b = JR::serializeJsonDocToString(d); return std::string(b.GetString(), b.GetSize()); }
static RJ::Value value(Rng &r, Alloc &a, int d = 2)
{
    RJ::Value v;
    switch (r(d > 0 ? 8 : 6)) {
    case 0: v.SetNull(); break;
    case 1: v.SetBool(r.coin()); break;
    case 2: v.SetInt(static_cast<int>(r(100))); break;
    case 3: v.SetDouble(1.5); break;
    case 4: v.SetString("str", a); break;
    case 5: v.SetInt64(INT64_MIN); break;
    case 6: v.SetArray(); for (auto n = r(3); n; --n) v.PushBack(value(r, a, d - 1), a); break;
    default: v.SetObject(); for (auto n : { "a", "z", "one" }) if (r.coin()) v.AddMember(RJ::Value(n, a), value(r, a, d - 1), a);
    }
    return v;
}
static std::string show(const JsonDeserializationErrors &e)
{
    std::stringstream s;
    for (auto &x : e) s << int(x.kind) << ',' << int(x.expectedType) << ',' << int(x.actualType) << ',' << (x.record ? x.record : "") << ',' << (x.member ? x.member : "") << ',' << x.index << ';';
    s << '|' << (e.currentRecord ? e.currentRecord : "-") << (e.currentMember ? e.currentMember : "-") << e.currentIndex;
    return s.str();
}
template <class T> std::string dump(T &o) { std::stringstream s; BR::BinarySerializer w(&s); notes.clear(); each(o, [&](auto &m, auto) { w.write(m, 0); }); notes.clear(); return s.str(); }
// the notes with addresses made relative to the object
template <class T> std::string taken(const T &o)
{
    std::stringstream s;
    for (auto &n : notes) s << reinterpret_cast<const char *>(n.first) - reinterpret_cast<const char *>(&o) << ':' << n.second << ' ';
    notes.clear();
    return s.str();
}

template <class T> std::string tryStruct(Rng &r)
{
    T a;
    fill(r, a);
    // JSON
    RJ::Document d1(RJ::kObjectType), d2(RJ::kObjectType);
    if (r.coin()) d1.AddMember("before", 1, d1.GetAllocator()), d2.AddMember("before", 1, d2.GetAllocator());
    const T copy = a;
    notes.clear();
    { RJ::Value::Object o(d1.GetObject()); JR::push(static_cast<const T &>(a), o, d1.GetAllocator()); }
    auto n1 = taken(a);
    { RJ::Value::Object o(d2.GetObject()); each(a, [&](auto &m, const char *n) { JR::push(m, n, o, d2.GetAllocator()); }); }
    auto n2 = taken(a);
    if (text(d1) != text(d2)) return "pushing gives " + text(d1) + " instead of " + text(d2);
    if (n1 != n2) return "pushing visits " + n1 + "instead of " + n2;
    RJ::Document doc(RJ::kObjectType);
    auto &al = doc.GetAllocator();
    each(a, [&](auto &m, const char *n) {
        if (!r(4)) return;
        if (r(3)) { RJ::Value::Object o(doc.GetObject()); JR::push(m, n, o, al); }
        else doc.AddMember(RJ::Value(n, al), value(r, al), al);
    });
    if (r.coin()) doc.AddMember("unknown", 5, al);
    T b, c;
    fill(r, b);
    c = b;
    JsonDeserializationErrors e1, e2;
    e1.currentRecord = e2.currentRecord = r.coin() ? "rec" : nullptr;
    static const JsonDeserializationErrors::ThrowOn on[] = { JsonDeserializationErrors::ThrowOn::None, JsonDeserializationErrors::ThrowOn::All, JsonDeserializationErrors::ThrowOn::TypeMismatch, JsonDeserializationErrors::ThrowOn::ConversionError };
    e1.throwOn = e2.throwOn = on[r(4)];
    const bool no = !r(3);
    bool t1 = false, t2 = false;
    const RJ::Document &cd = doc;
    notes.clear();
    try { JR::pull(b, cd.GetObject(), no ? nullptr : &e1); } catch (const JsonDeserializationError &) { t1 = true; }
    n1 = taken(b);
    try { each(c, [&](auto &m, const char *n) { JR::pull(m, n, cd.GetObject(), no ? nullptr : &e2); }); } catch (const JsonDeserializationError &) { t2 = true; }
    n2 = taken(c);
    if (n1 != n2) return "pulling " + text(doc) + " visits " + n1 + "instead of " + n2;
    if (t1 != t2) return "pulling " + text(doc) + (t1 ? " throws" : " does not throw");
    if (show(e1) != show(e2)) return "pulling " + text(doc) + " gives the errors " + show(e1) + " instead of " + show(e2);
    if (dump(b) != dump(c)) return "pulling " + text(doc) + " gives other members";
    // binary
    const BinaryVersion version = r(3) ? r(5) : static_cast<std::uint64_t>(S::dict().ints.empty() ? 1ll << 40 : S::dictInt(r));
    std::stringstream s1, s2;
    s1.exceptions(std::ios_base::badbit | std::ios_base::failbit), s2.exceptions(std::ios_base::badbit | std::ios_base::failbit);
    BR::BinarySerializer w1(&s1), w2(&s2);
    notes.clear();
    BR::writeCustomType(w1, static_cast<const T &>(a), version);
    n1 = taken(a);
    each(a, [&](const auto &m, auto) { w2.write(m, version); });
    n2 = taken(a);
    if (s1.str() != s2.str()) return "writing as version " + std::to_string(version) + " gives other bytes";
    if (n1 != n2) return "writing visits " + n1 + "instead of " + n2;
    auto bytes = s1.str();
    if (!r(4) && !bytes.empty()) bytes.resize(r(bytes.size()));
    s1.str(bytes), s2.str(bytes);
    s1.clear(), s2.clear();
    BR::BinaryDeserializer r1(&s1), r2(&s2);
    t1 = t2 = false;
    try { BR::readCustomType(r1, b, version); } catch (const std::exception &) { t1 = true; }
    n1 = taken(b);
    try { each(c, [&](auto &m, auto) { r2.read(m, version); }); } catch (const std::exception &) { t2 = true; }
    n2 = taken(c);
    if (t1 != t2) return t1 ? "reading throws" : "reading incomplete data does not throw";
    if (n1 != n2) return "reading visits " + n1 + "instead of " + n2;
    if (dump(b) != dump(c)) return "reading gives other members";
    if (!t1 && s1.tellg() != s2.tellg()) return "reading stops elsewhere";
    return {};
}

struct Case { const char *name; std::string (*run)(Rng &); };
static const Case cases[] = { { "None", &tryStruct<None> }, { "One", &tryStruct<One> }, { "Two", &tryStruct<Two> }, { "Mixed", &tryStruct<Mixed> }, { "Adapted", &tryStruct<Adapted> } };

int main(int, char **argv)
{
    std::string prop = argv[1];
    std::uint64_t seed = std::strtoull(argv[2], nullptr, 10), n = 0;
    double secs = std::atof(argv[3]);
    const char *onlyCase = argv[4];
    std::uint64_t onlyIter = onlyCase ? std::strtoull(argv[5], nullptr, 10) : 0;
    auto start = std::chrono::steady_clock::now();
    for (std::uint64_t iter = 0;; ++iter) {
        for (auto &c : cases) {
            if (onlyCase && (std::strcmp(c.name, onlyCase) || iter != onlyIter)) continue;
            Rng r{ std::mt19937_64(seed * 1000003 + iter * 131 + std::hash<std::string>()(c.name)) };
            std::cout << "CASE " << c.name << ' ' << iter << '\r' << std::flush;
            auto m = c.run(r);
            ++n;
            if (!m.empty()) {
                std::cout << "\nFAIL property=" << prop << " type=" << c.name << " seed=" << seed << " iteration=" << iter << ": " << m << std::endl;
                return 1;
            }
        }
        if (onlyCase && iter >= onlyIter) break;
        if (std::chrono::duration<double>(std::chrono::steady_clock::now() - start).count() > secs) break;
    }
    std::cout << "\nOK cases=" << n << std::endl;
    return 0;
}
