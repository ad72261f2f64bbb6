// Instantiations of the binary (de)serialization code; see DESIGN.md. Nothing here is executed.
#include <array>
#include <deque>
#include <list>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include "opaque.h"
#include "/repo/lib/binary/reflector.h"
#include "/repo/lib/binary/serializable.h"
#include "/repo/lib/binary/reflector-chronoutilities.h"
using namespace ReflectiveRapidJSON;
namespace BR = BinaryReflector;
struct OpqR : public BinarySerializable<OpqR> { int tag; bool operator==(const OpqR &) const; bool operator<(const OpqR &) const; };        // unversioned record
struct OpqW : public BinarySerializable<OpqW, 3> { int tag; bool operator==(const OpqW &) const; bool operator<(const OpqW &) const; };     // versioned record
struct OpqX : public BinarySerializable<OpqX, 1> { int tag; };
struct OpqY : public BinarySerializable<OpqY, 0xffffffffffffffff> { int tag; };
template <> struct std::hash<OpqR> { std::size_t operator()(const OpqR &) const noexcept; };
// containers of users which are treated as those of the standard library
struct TreatedMap : std::map<OpqV, OpqR> {};
struct TreatedMultiMap : std::unordered_multimap<OpqV, OpqR> {};
struct TreatedSet : std::set<OpqV> {};
struct TreatedMultiSet : std::multiset<OpqV> {};
struct TreatedVector : std::vector<OpqV> {};
namespace ReflectiveRapidJSON {
REFLECTIVE_RAPIDJSON_TREAT_AS_MAP_OR_HASH(TreatedMap);
REFLECTIVE_RAPIDJSON_TREAT_AS_MULTI_MAP_OR_HASH(TreatedMultiMap);
REFLECTIVE_RAPIDJSON_TREAT_AS_SET(TreatedSet);
REFLECTIVE_RAPIDJSON_TREAT_AS_MULTI_SET(TreatedMultiSet);
}
enum class EnumI : int {};
enum class EnumU8 : std::uint8_t {};
enum class EnumI16 : std::int16_t {};
enum class EnumU64 : std::uint64_t {};
enum class EnumB : bool {};
namespace ReflectiveRapidJSON { namespace BinaryReflector {
template <> void writeCustomType<OpqV>(BinarySerializer &, const OpqV &, BinaryVersion);
template <> BinaryVersion readCustomType<OpqV>(BinaryDeserializer &, OpqV &, BinaryVersion);
template <> void writeCustomType<OpqR>(BinarySerializer &, const OpqR &, BinaryVersion);
template <> BinaryVersion readCustomType<OpqR>(BinaryDeserializer &, OpqR &, BinaryVersion);
template <> void writeCustomType<OpqW>(BinarySerializer &, const OpqW &, BinaryVersion);
template <> BinaryVersion readCustomType<OpqW>(BinaryDeserializer &, OpqW &, BinaryVersion);
template <> void writeCustomType<OpqX>(BinarySerializer &, const OpqX &, BinaryVersion);
template <> BinaryVersion readCustomType<OpqX>(BinaryDeserializer &, OpqX &, BinaryVersion);
template <> void writeCustomType<OpqY>(BinarySerializer &, const OpqY &, BinaryVersion);
template <> BinaryVersion readCustomType<OpqY>(BinaryDeserializer &, OpqY &, BinaryVersion);
} }
template <class T> void both(BR::BinarySerializer &s, BR::BinaryDeserializer &d) { T t; s.write(static_cast<const T &>(t)); d.read(t); }
template <class T> void member(BR::BinarySerializer &s, BR::BinaryDeserializer &d, BinaryVersion v) { T t; s.write(static_cast<const T &>(t), v); d.read(t, v); }
template <class T> void all(BR::BinarySerializer &s, BR::BinaryDeserializer &d) { both<T>(s, d); member<T>(s, d, 0); }
template <class T> void record(std::istream &i, std::ostream &o) { T t; t.toBinary(o); t.toBinary(o, 1); t.restoreFromBinary(i); T::fromBinary(i); }
template <class V> void versioning(BinaryVersion v) { V::applyDefault(v); V::applyDefaultValue(v); V::isSupported(v); V::assertVersion(v, "record"); }
void instantiate(BR::BinarySerializer &s, BR::BinaryDeserializer &d, std::istream &i, std::ostream &o)
{
    all<bool>(s, d); all<char>(s, d); all<std::uint8_t>(s, d); all<std::int16_t>(s, d); all<std::uint16_t>(s, d); all<std::int32_t>(s, d); all<std::uint32_t>(s, d);
    all<std::int64_t>(s, d); all<std::uint64_t>(s, d); all<float>(s, d); all<double>(s, d); all<std::string>(s, d);
    all<EnumI>(s, d); all<EnumU8>(s, d); all<EnumI16>(s, d); all<EnumU64>(s, d); all<EnumB>(s, d);
    all<OpqV>(s, d); all<OpqR>(s, d); all<OpqW>(s, d);
    all<std::pair<OpqV, OpqR>>(s, d); all<std::pair<std::string, int>>(s, d);
    all<std::unique_ptr<OpqV>>(s, d); all<std::unique_ptr<int>>(s, d); all<std::optional<OpqV>>(s, d); all<std::optional<std::string>>(s, d);
    all<std::shared_ptr<OpqV>>(s, d); all<std::shared_ptr<int>>(s, d); all<std::shared_ptr<std::vector<OpqV>>>(s, d);
    all<std::vector<OpqV>>(s, d); all<std::list<OpqV>>(s, d); all<std::deque<OpqV>>(s, d); all<std::vector<int>>(s, d); all<std::vector<OpqW>>(s, d);
    all<std::set<OpqV>>(s, d); all<std::unordered_set<OpqV>>(s, d); all<std::multiset<OpqV>>(s, d); all<std::unordered_multiset<OpqV>>(s, d); all<std::set<std::string>>(s, d);
    all<std::map<OpqV, OpqR>>(s, d); all<std::unordered_map<OpqV, OpqR>>(s, d); all<std::multimap<OpqV, OpqR>>(s, d); all<std::unordered_multimap<OpqV, OpqR>>(s, d);
    all<std::map<std::string, int>>(s, d); all<std::multimap<int, std::string>>(s, d);
    s.write(std::array<OpqV, 3>()); all<std::vector<std::vector<OpqV>>>(s, d); all<std::vector<std::unique_ptr<OpqV>>>(s, d); all<std::optional<std::optional<OpqV>>>(s, d);
    all<std::pair<std::shared_ptr<OpqV>, std::shared_ptr<OpqV>>>(s, d); all<std::set<std::set<OpqV>>>(s, d); all<std::shared_ptr<std::string>>(s, d); all<std::vector<std::pair<OpqV, OpqR>>>(s, d);
    all<std::unique_ptr<std::shared_ptr<OpqR>>>(s, d); all<long long>(s, d); all<unsigned long long>(s, d);
    all<TreatedMap>(s, d); all<TreatedMultiMap>(s, d); all<TreatedSet>(s, d); all<TreatedMultiSet>(s, d); all<TreatedVector>(s, d);
    all<std::variant<OpqV>>(s, d); all<std::variant<std::monostate, int, OpqV>>(s, d); all<std::variant<OpqV, std::string, std::monostate, OpqR>>(s, d);
    // nesting which exercises overload selection between the kinds
    all<std::vector<std::optional<std::map<std::string, std::vector<OpqV>>>>>(s, d); all<std::map<std::string, std::variant<int, std::set<OpqV>>>>(s, d);
    all<std::optional<std::shared_ptr<std::vector<std::shared_ptr<OpqV>>>>>(s, d);
    all<CppUtilities::DateTime>(s, d); all<CppUtilities::TimeSpan>(s, d); all<std::vector<CppUtilities::DateTime>>(s, d);
    record<OpqR>(i, o); record<OpqW>(i, o); record<OpqX>(i, o);
    versioning<Versioning<BinarySerializable<OpqW, 3>>>(0); versioning<Versioning<BinarySerializable<OpqX, 1>>>(0); versioning<Versioning<BinarySerializable<OpqY, 0xffffffffffffffff>>>(0);
    versioning<Versioning<OpqW>>(0);
}
