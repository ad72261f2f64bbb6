// Instantiates the Boost.Hana reflectors for structs of opaque members; see DESIGN.md. Nothing here is executed.
#include "opaque.h"
#include "/repo/lib/json/reflector-boosthana.h"
#include "/repo/lib/binary/reflector-boosthana.h"
using namespace ReflectiveRapidJSON;
namespace RJ = RAPIDJSON_NAMESPACE;
using GV = RJ::GenericValue<RJ::UTF8<char>>;
using Alloc = RJ::Document::AllocatorType;
struct HanaNone { BOOST_HANA_DEFINE_STRUCT(HanaNone); };
struct HanaOne { BOOST_HANA_DEFINE_STRUCT(HanaOne, (OpqV, only)); };
struct HanaMany { BOOST_HANA_DEFINE_STRUCT(HanaMany, (int, first), (OpqV, second), (std::string, third), (OpqV, fourth), (std::vector<OpqV>, fifth)); };
struct HanaNested { BOOST_HANA_DEFINE_STRUCT(HanaNested, (HanaMany, inner), (bool, flag)); };
struct HanaAdapted { std::string b; OpqV a; int z; };
BOOST_HANA_ADAPT_STRUCT(HanaAdapted, b, a, z);
struct HanaNames { BOOST_HANA_DEFINE_STRUCT(HanaNames, (int, _under), (int, X), (int, m_a9), (int, a_rather_long_name_with_many_words_in_it), (int, under_)); };
namespace ReflectiveRapidJSON {
namespace JsonReflector {
template <> void push<OpqV>(const OpqV &, RJ::Value &, Alloc &);
template <> void pull<OpqV>(OpqV &, const GV &, JsonDeserializationErrors *);
}
namespace BinaryReflector {
template <> void writeCustomType<OpqV>(BinarySerializer &, const OpqV &, BinaryVersion);
template <> BinaryVersion readCustomType<OpqV>(BinaryDeserializer &, OpqV &, BinaryVersion);
}
}
template <class T> void all(RJ::Value::Object &o, Alloc &a, const GV::ConstObject &c, BinaryReflector::BinarySerializer &s, BinaryReflector::BinaryDeserializer &d, BinaryVersion v)
{
    T t;
    JsonReflector::push(static_cast<const T &>(t), o, a);
    JsonReflector::pull(t, c, static_cast<JsonDeserializationErrors *>(nullptr));
    BinaryReflector::writeCustomType(s, static_cast<const T &>(t), v);
    BinaryReflector::readCustomType(d, t, v);
}
void instantiate(RJ::Value::Object &o, Alloc &a, const GV::ConstObject &c, BinaryReflector::BinarySerializer &s, BinaryReflector::BinaryDeserializer &d, BinaryVersion v)
{
    all<HanaNone>(o, a, c, s, d, v);
    all<HanaOne>(o, a, c, s, d, v);
    all<HanaMany>(o, a, c, s, d, v);
    all<HanaNested>(o, a, c, s, d, v);
    all<HanaAdapted>(o, a, c, s, d, v);
    all<HanaNames>(o, a, c, s, d, v);
}
