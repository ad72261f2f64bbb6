#include <array>
#include <cstring>
#include <deque>
#include <forward_list>
#include <list>
#include "opaque.h"
#include "/repo/lib/json/reflector.h"
#include "/repo/lib/json/serializable.h"
#include "/repo/lib/json/errorformatting.h"
#include "/repo/lib/json/reflector-chronoutilities.h"
using namespace ReflectiveRapidJSON;
namespace RJ = RAPIDJSON_NAMESPACE;
using GV = RJ::GenericValue<RJ::UTF8<char>>;
using Alloc = RJ::Document::AllocatorType;
struct OpqC { int tag; bool operator==(const OpqC &) const = default; bool operator<(const OpqC &) const; };      // custom type serialized as object
struct OpqS : public JsonSerializable<OpqS> { int tag; bool operator==(const OpqS &) const = default; bool operator<(const OpqS &) const; };
// containers of users which are treated as those of the standard library
struct TreatedMap : std::map<std::string, OpqV> {};
struct TreatedMultiMap : std::unordered_multimap<std::string, OpqV> {};
struct TreatedSet : std::set<OpqV> {};
struct TreatedMultiSet : std::multiset<OpqV> {};
struct TreatedVector : std::vector<OpqV> {};
namespace ReflectiveRapidJSON {
REFLECTIVE_RAPIDJSON_TREAT_AS_MAP_OR_HASH(TreatedMap);
REFLECTIVE_RAPIDJSON_TREAT_AS_MULTI_MAP_OR_HASH(TreatedMultiMap);
REFLECTIVE_RAPIDJSON_TREAT_AS_SET(TreatedSet);
REFLECTIVE_RAPIDJSON_TREAT_AS_MULTI_SET(TreatedMultiSet);
}
enum class EnumI : int {};
enum class EnumI16 : short {};
enum class EnumU8 : std::uint8_t {};
enum class EnumI8 : signed char {};
enum class EnumU64 : std::uint64_t {};
enum class EnumI64 : std::int64_t {};
enum EnumOld { enumOldItem };
namespace ReflectiveRapidJSON { namespace JsonReflector {
template <> void push<OpqV>(const OpqV &, RJ::Value &, Alloc &);
template <> void pull<OpqV>(OpqV &, const GV &, JsonDeserializationErrors *);
template <> void push<OpqC>(const OpqC &, RJ::Value::Object &, Alloc &);
template <> void pull<OpqC>(OpqC &, const GV::ConstObject &, JsonDeserializationErrors *);
template <> void push<OpqS>(const OpqS &, RJ::Value::Object &, Alloc &);
template <> void pull<OpqS>(OpqS &, const GV::ConstObject &, JsonDeserializationErrors *);
} }
namespace JR = JsonReflector;
template <class T> void viaValue() { T t; RJ::Value v; RJ::Document d; JR::push(t, v, d.GetAllocator()); JR::pull(t, static_cast<const GV &>(v), static_cast<JsonDeserializationErrors *>(nullptr)); }
template <class T> void pushOnly() { T t; RJ::Value v; RJ::Document d; JR::push(t, v, d.GetAllocator()); }
template <class T> void asElement() { const T t{}; RJ::Value v(RJ::kArrayType); RJ::Document d; RJ::Value::Array a(v.GetArray()); JR::push(t, a, d.GetAllocator()); }
template <class T> void asMember() { T t{}; RJ::Value v(RJ::kObjectType); RJ::Document d; RJ::Value::Object o(v.GetObject()); JR::push(const_cast<const T &>(t), "name", o, d.GetAllocator());
    const RJ::Value &cv = v; JR::pull(t, "name", cv.GetObject(), static_cast<JsonDeserializationErrors *>(nullptr)); }
template <class T> void asIter() { T t; RJ::Value v(RJ::kArrayType); auto i = v.Begin(); JR::pull(t, i, static_cast<JsonDeserializationErrors *>(nullptr)); }
template <class T> void all() { viaValue<T>(); asElement<T>(); asMember<T>(); }
template <class T> void document() { T t{}; JR::toJsonDocument<T>(t); JR::toJson<T>(t); JR::fromJson<T>("", 0, nullptr); JR::fromJson<T>(""); JR::fromJson<T>(std::string()); }
void instantiate()
{
    all<int>(); all<unsigned int>(); all<std::int64_t>(); all<std::uint64_t>(); all<float>(); all<double>(); all<bool>(); all<std::uint8_t>(); all<std::int8_t>();
    all<EnumI>(); all<EnumU8>(); all<EnumI8>(); all<EnumU64>(); all<EnumI64>(); all<EnumOld>();
    all<std::string>(); all<const char *>(); viaValue<std::string_view>();
    asElement<OpqV>(); asMember<OpqV>(); all<OpqC>(); all<OpqS>(); asIter<OpqV>();
    viaValue<std::vector<OpqV>>(); viaValue<std::list<OpqV>>(); viaValue<std::deque<OpqV>>(); pushOnly<std::forward_list<OpqV>>(); viaValue<std::vector<OpqS>>();
    viaValue<std::set<OpqV>>(); viaValue<std::unordered_set<OpqV>>(); viaValue<std::multiset<OpqV>>(); viaValue<std::unordered_multiset<OpqV>>();
    pushOnly<std::array<OpqV, 3>>(); pushOnly<std::vector<bool>>(); viaValue<std::set<std::string>>(); viaValue<std::vector<std::string>>(); viaValue<std::optional<std::string>>();
    viaValue<std::shared_ptr<std::string>>(); viaValue<std::vector<std::unique_ptr<OpqV>>>(); viaValue<std::optional<std::optional<OpqV>>>(); all<EnumI16>(); viaValue<std::vector<EnumI16>>();
    viaValue<std::set<std::set<OpqV>>>(); viaValue<std::vector<std::pair<std::string, OpqV>>>(); viaValue<std::map<std::string, std::string>>(); viaValue<std::vector<std::tuple<OpqV, int>>>();
    viaValue<TreatedMap>(); viaValue<TreatedMultiMap>(); viaValue<TreatedSet>(); viaValue<TreatedMultiSet>(); viaValue<TreatedVector>();
    viaValue<std::set<int>>(); viaValue<std::multiset<int>>(); viaValue<std::vector<int>>();
    viaValue<std::map<std::string, OpqV>>(); viaValue<std::unordered_map<std::string, OpqV>>(); viaValue<std::map<std::string, OpqS>>();
    viaValue<std::multimap<std::string, OpqV>>(); viaValue<std::unordered_multimap<std::string, OpqV>>(); viaValue<std::multimap<std::string, OpqS>>();
    viaValue<std::tuple<OpqV>>(); viaValue<std::tuple<OpqV, int>>(); viaValue<std::tuple<int, OpqV, OpqS>>(); viaValue<std::tuple<OpqV, OpqV, OpqV, OpqV>>();
    viaValue<std::pair<OpqV, OpqS>>(); viaValue<std::pair<int, std::string>>();
    viaValue<std::unique_ptr<OpqV>>(); viaValue<std::shared_ptr<OpqV>>(); viaValue<std::optional<OpqV>>(); viaValue<std::optional<int>>(); viaValue<std::unique_ptr<int>>();
    viaValue<std::variant<OpqV>>(); viaValue<std::variant<std::monostate, int, OpqV>>(); viaValue<std::variant<OpqV, std::string, std::monostate, OpqS>>();
    // nesting which exercises overload selection between the kinds
    viaValue<std::vector<std::optional<std::map<std::string, std::vector<OpqV>>>>>(); viaValue<std::map<std::string, std::variant<int, std::set<OpqV>>>>();
    viaValue<std::tuple<std::vector<int>, std::multimap<std::string, bool>>>();
    viaValue<CppUtilities::DateTime>(); viaValue<CppUtilities::TimeSpan>(); viaValue<std::vector<CppUtilities::DateTime>>(); viaValue<std::map<std::string, CppUtilities::TimeSpan>>();
    document<OpqS>(); { std::string s; JR::toJson<std::string>(s); JR::toJson<const char *>("x"); JR::toJson<std::string_view>(std::string_view()); } document<std::map<std::string, OpqV>>(); document<std::multimap<std::string, OpqV>>(); document<std::unordered_map<std::string, OpqV>>();
    document<std::vector<OpqV>>(); document<int>(); document<bool>(); document<double>(); document<std::uint64_t>(); document<float>();
    { std::string s; JR::toJsonDocument<std::string>(s); JR::fromJson<std::string>("", 0, nullptr); JR::fromJson<std::string>(""); JR::fromJson<std::string>(s); }
    { JR::toJsonDocument<const char *>("x"); JR::toJsonDocument<std::string_view>(std::string_view()); }
    { OpqS s; s.toJson(); s.toJsonDocument(); OpqS::fromJson("", 0, nullptr); OpqS::fromJson("", nullptr); OpqS::fromJson(std::string(), nullptr); as<OpqS>(s).toJson(); const OpqS c{}; as<OpqS>(c).toJson(); }
    { JsonDeserializationErrors e; formatJsonDeserializationError(e.front()); e.reportTypeMismatch<RJ::kArrayType>(RJ::kNullType); JsonDeserializationErrors::ThrowOn t = e.throwOn | e.throwOn; e.throwOn = t; }
}
