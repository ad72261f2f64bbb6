// json_harness PROPERTY SEED SECONDS: looks for an input on which the real code and the executable specification disagree
// in a way that breaks PROPERTY. Prints "FAIL <description>" and exits with 1 if there is one, exits with 0 otherwise.
#include <cassert>
#include <stdexcept>
struct RjAssert : std::logic_error {
    using std::logic_error::logic_error;
};
#define RAPIDJSON_ASSERT(x) ((x) ? (void)0 : throw RjAssert("RapidJSON assertion violated: " #x))
#define RAPIDJSON_NOEXCEPT_ASSERT(x) ((x) ? (void)0 : std::abort())
#include "json_oracle.h"
#include <chrono>

static std::string prop;

static std::string dump(const GV &v, int d = 0)
{
    if (d > 6) return "...";
    std::ostringstream o;
    o.precision(17);
    if (v.IsNull()) o << "null";
    else if (v.IsBool()) o << (v.GetBool() ? "true" : "false");
    else if (v.IsInt64()) o << v.GetInt64();
    else if (v.IsUint64()) o << v.GetUint64();
    else if (v.IsNumber()) o << v.GetDouble() << "(double)";
    else if (v.IsString()) {
        o << '"';
        for (RJ::SizeType i = 0; i < v.GetStringLength(); ++i) {
            char c = v.GetString()[i];
            if (c) o << c; else o << "\\0";
        }
        o << '"';
    } else if (v.IsArray()) {
        o << '[';
        for (RJ::SizeType i = 0; i < v.Size(); ++i) o << (i ? "," : "") << dump(v[i], d + 1);
        o << ']';
    } else {
        o << '{';
        for (auto m = v.MemberBegin(); m != v.MemberEnd(); ++m) o << (m != v.MemberBegin() ? "," : "") << dump(m->name, d + 1) << ':' << dump(m->value, d + 1);
        o << '}';
    }
    return o.str();
}
static bool same(const GV &a, const GV &b)
{
    if (a.GetType() != b.GetType()) return false;
    switch (a.GetType()) {
    case RJ::kNumberType:
        if (a.IsDouble() != b.IsDouble()) return false;
        if (a.IsDouble()) return S::eq(a.GetDouble(), b.GetDouble());
        return a.IsInt64() == b.IsInt64() && (a.IsInt64() ? a.GetInt64() == b.GetInt64() : a.GetUint64() == b.GetUint64());
    case RJ::kStringType:
        return std::string(a.GetString(), a.GetStringLength()) == std::string(b.GetString(), b.GetStringLength());
    case RJ::kArrayType:
        if (a.Size() != b.Size()) return false;
        for (RJ::SizeType i = 0; i < a.Size(); ++i)
            if (!same(a[i], b[i])) return false;
        return true;
    case RJ::kObjectType: {
        if (a.MemberCount() != b.MemberCount()) return false;
        for (auto i = a.MemberBegin(), j = b.MemberBegin(); i != a.MemberEnd(); ++i, ++j)
            if (!same(i->name, j->name) || !same(i->value, j->value)) return false;
        return true;
    }
    default:
        return true;
    }
}
static RJ::Value genDoc(Rng &r, Alloc &a, int d)
{
    RJ::Value v;
    switch (r(d > 0 ? 9 : 7)) {
    case 0: break;
    case 1: v.SetBool(r.coin()); break;
    case 2: v.SetInt64(S::genI64(r)); break;
    case 3: v.SetUint64(r.coin() ? r(300) : r.e()); break;
    case 4: v.SetDouble(S::genDbl(r)); break;
    case 5:
    case 6: v = S::str(S::genStr(r), a); break;
    case 7:
        v.SetArray();
        for (auto n = S::genSize(r, d); n; --n) v.PushBack(genDoc(r, a, d - 1).Move(), a);
        break;
    default:
        v.SetObject();
        for (auto n = S::genSize(r, d); n; --n) v.AddMember(S::str(S::genStr(r), a).Move(), genDoc(r, a, d - 1).Move(), a);
    }
    return v;
}
static void mutate(RJ::Value &v, Rng &r, Alloc &a, int p)
{
    if (!r(p)) {
        v = genDoc(r, a, 2);
        return;
    }
    if (v.IsArray()) {
        for (auto &e : v.GetArray()) mutate(e, r, a, p);
        if (!r(p)) v.PushBack(v.Empty() || r.coin() ? genDoc(r, a, 1).Move() : RJ::Value(v[r(v.Size())], a).Move(), a);
        if (!r(p) && !v.Empty()) v.PopBack();
        if (!r(p) && v.Size() > 1) v[0].Swap(v[v.Size() - 1]);
    } else if (v.IsObject()) {
        for (auto m = v.MemberBegin(); m != v.MemberEnd(); ++m) mutate(m->value, r, a, p);
        if (!r(p) && !v.ObjectEmpty()) v.EraseMember(v.MemberBegin() + r(v.MemberCount()));
        if (!r(p)) v.AddMember(S::str(S::genStr(r), a).Move(), genDoc(r, a, 1).Move(), a);
        if (!r(p) && v.MemberCount() > 1) v.MemberBegin()->value.Swap((v.MemberEnd() - 1)->value);
    }
}

struct Outcome {
    bool thrown = false, other = false, thrownIsLast = true;
    std::string what;
    std::vector<S::Err> errs;
    std::string record, member;
    std::size_t index = 0;
};
static S::Err conv(const JsonDeserializationError &e)
{
    return { static_cast<int>(e.kind), static_cast<int>(e.expectedType), static_cast<int>(e.actualType), e.record ? e.record : "", e.member ? e.member : "", e.record != nullptr,
        e.member != nullptr, e.index };
}
static std::string show(const S::Err &e)
{
    std::ostringstream o;
    o << "(kind " << e.kind << " expected " << e.exp << " actual " << e.act << " record " << e.record << " member " << e.member << " index " << static_cast<std::int64_t>(e.index) << ")";
    return o.str();
}
static std::string show(const std::vector<S::Err> &v)
{
    std::string s;
    for (auto &e : v) s += show(e);
    return "[" + s + "]";
}
struct Ctx {
    const char *record, *member;
    std::size_t index;
    unsigned throwOn;
};
template <class F> Outcome real(F f, const Ctx &c)
{
    Outcome o;
    Errs e;
    e.currentRecord = c.record, e.currentMember = c.member, e.currentIndex = c.index;
    e.throwOn = static_cast<Errs::ThrowOn>(c.throwOn);
    try {
        f(&e);
    } catch (const JsonDeserializationError &x) {
        o.thrown = true;
        o.thrownIsLast = !e.empty() && conv(x) == conv(e.back());
    } catch (const std::exception &x) {
        o.other = true;
        o.what = x.what();
    }
    for (auto &x : e) o.errs.push_back(conv(x));
    o.record = e.currentRecord ? e.currentRecord : "", o.member = e.currentMember ? e.currentMember : "", o.index = e.currentIndex;
    return o;
}
template <class F> Outcome spec(F f, const Ctx &c)
{
    Outcome o;
    S::Log l;
    l.record = c.record, l.member = c.member, l.index = c.index, l.throwOn = c.throwOn;
    try {
        f(&l);
    } catch (const S::Fatal &) {
        o.thrown = true;
    }
    o.errs = l.errs;
    return o;
}
static Ctx genCtx(Rng &r)
{
    static const char *recs[] = { nullptr, "Rec", "Outer" }, *mems[] = { nullptr, "mem", "n" };
    static const std::size_t idx[] = { JsonDeserializationError::noIndex, 0, 3 };
    static const unsigned flags[] = { 0, 0, 0, 1, 2, 4, 8, 0x10, 0x20, 0xff, 0xf };
    return { recs[r(3)], mems[r(3)], idx[r(3)], flags[r(std::size(flags))] };
}
// the kinds and types recorded, without context
static std::vector<std::tuple<int, int, int>> kinds(const std::vector<S::Err> &e, int only = -1)
{
    std::vector<std::tuple<int, int, int>> v;
    for (auto &x : e)
        if (only < 0 || x.kind == only) v.push_back({ x.kind, x.exp, x.act });
    return v;
}

// what a difference between real code and specification means for the property
template <class T> std::string judge(const Outcome &ro, const Outcome &so, const T &rt, const T &st, const T &t0, bool topMismatch, const Ctx &c, bool hasErrs)
{
    bool valueDiff = !ro.other && !ro.thrown && !so.thrown && !S::eq(rt, st);
    bool logDiff = hasErrs && kinds(ro.errs) != kinds(so.errs);
    bool isP = [] {
        using U = T;
        if (prop == "J07") return bool(S::Seq<U> || S::SetLike<U> || S::Map<U> || S::MMap<U>);
        if (prop == "J08") return bool(S::Ptr<U> || Traits::IsSpecializingAnyOf<U, std::tuple, std::pair, std::variant>::value);
        if (prop == "J11") return bool(S::Num<U> || S::Enum<U>);
        if (prop == "J14") return true; // only instantiated for date and time values
        if (prop == "J09") return std::is_base_of_v<JsonSerializable<U>, U>;
        return true;
    }();
    if (ro.other) return prop == "J03" || isP ? "exception or assertion: " + ro.what : "";
    if (prop == "J04") {
        if (topMismatch && !ro.thrown && !S::eq(rt, t0)) return "target changed despite type mismatch";
        if (hasErrs && kinds(ro.errs, 0) != kinds(so.errs, 0) && ro.thrown == so.thrown) return "type mismatches recorded: " + show(ro.errs) + " expected: " + show(so.errs);
    }
    if (prop == "J05" && hasErrs) {
        if (!logDiff && ro.errs != so.errs) return "context of errors: " + show(ro.errs) + " expected: " + show(so.errs);
        if (!ro.thrown && (ro.record != (c.record ? c.record : "") || ro.member != (c.member ? c.member : "") || ro.index != c.index)) return "context is not restored";
    }
    if (prop == "J06" && hasErrs) {
        if (ro.thrown != so.thrown) return ro.thrown ? "thrown without fatal error: " + show(ro.errs) : "fatal error not thrown: " + show(so.errs);
        if (ro.thrown && !ro.thrownIsLast) return "thrown error is not the last recorded one";
        if (ro.thrown && ro.errs != so.errs) return "errors recorded when throwing: " + show(ro.errs) + " expected " + show(so.errs);
    }
    if (prop == "J07" || prop == "J08" || prop == "J09" || prop == "J11" || prop == "J14") {
        if (isP && valueDiff) return "value differs from the specified one";
        if (isP && logDiff) return "errors recorded: " + show(ro.errs) + " expected: " + show(so.errs);
    }
    return "";
}

template <class T> std::string tryPull(Rng &r)
{
    RJ::Document d;
    auto &a = d.GetAllocator();
    RJ::Value v;
    if (prop == "J14" && !r(3)) {
        static const char *texts[] = { "", "0", "12:30", "x", "2018-06-05T08:09:09.001Z", "2018-13-05", "2018", "1:2:3.5", "5", "-3", "12:xx", "2014-11-21T00:11:22+01:00" };
        v = RJ::Value(RJ::StringRef(texts[r(std::size(texts))]));
    } else if (r(4)) {
        v = S::push(S::gen<T>(r), a);
        if (r(4)) mutate(v, r, a, 2 + r(8));
    } else
        v = genDoc(r, a, 3);
    T t0 = S::gen<T>(r), rt{}, st{};
    auto copy = [&](T &x) { // non-copyable types are regenerated through the specification
        RJ::Document dd;
        if constexpr (std::is_copy_constructible_v<T>) x = t0;
        else { auto j = S::push(t0, dd.GetAllocator()); S::pull(x, j, nullptr); }
    };
    copy(rt), copy(st);
    T tt{};
    copy(tt);
    if (!S::eq(tt, t0)) return "";
    Ctx c = genCtx(r);
    bool hasErrs = r(3);
    RJ::Value before(v, a);
    if (prop == "J03") {
        // same values with and without error collector
        T nt{};
        copy(nt);
        c.throwOn = 0;
        auto ro = real([&](Errs *e) { JR::pull(rt, static_cast<const GV &>(v), e); }, c);
        auto no = real([&](Errs *) { JR::pull(nt, static_cast<const GV &>(v), nullptr); }, c);
        std::string m;
        if (ro.other || no.other) m = "exception or assertion: " + ro.what + no.what;
        else if (ro.thrown || no.thrown) m = "error thrown though none is fatal";
        else if (!S::eq(rt, nt)) m = "value depends on whether errors are collected";
        else if (!same(v, before)) m = "document modified";
        return m.empty() ? m : m + " for document " + dump(before);
    }
    bool asMember = std::is_base_of_v<JsonSerializable<T>, T> ? r(4) == 0 : prop == "J09" || r(6) == 0;
    bool mm = false;
    if (asMember && prop != "J07" && prop != "J08" && prop != "J11" && prop != "J14") {
        RJ::Value o(RJ::kObjectType);
        static const char *names[] = { "a", "name", "n", "data" };
        const char *name = names[r(4)];
        for (auto n = r(3); n; --n) o.AddMember(S::str(S::genStr(r), a).Move(), genDoc(r, a, 1).Move(), a);
        if (r(4)) o.AddMember(RJ::StringRef(names[r(4)]), v, a);
        for (auto n = r(2); n; --n) o.AddMember(S::str(S::genStr(r), a).Move(), genDoc(r, a, 1).Move(), a);
        const RJ::Value &co = o;
        auto ro = real([&](Errs *e) { JR::pull(rt, name, co.GetObject(), hasErrs ? e : nullptr); }, c);
        auto so = spec([&](S::Log *l) { S::member(st, name, co, hasErrs ? l : nullptr); }, c);
        std::string m = judge(ro, so, rt, st, t0, false, c, hasErrs);
        if (m.empty() && prop == "J09") {
            if (ro.thrown != so.thrown || (!ro.thrown && !S::eq(rt, st)) || (hasErrs && kinds(ro.errs) != kinds(so.errs))) m = "member value or errors differ from the specified ones: " + show(ro.errs);
        }
        return m.empty() ? m : m + " for member " + name + " of document " + dump(o);
    }
    auto ro = real([&](Errs *e) { JR::pull(rt, static_cast<const GV &>(v), hasErrs ? e : nullptr); }, c);
    auto so = spec([&](S::Log *l) { S::pull(st, v, hasErrs ? l : nullptr); }, c);
    mm = so.errs.size() == 1 && so.errs[0].kind == 0 && so.errs[0].act == S::typeOf(v) && S::eq(st, t0);
    std::string m = judge(ro, so, rt, st, t0, mm && !so.thrown, c, hasErrs);
    return m.empty() ? m : m + " for document " + dump(before) + " throwOn " + std::to_string(c.throwOn);
}

template <class T> std::string tryPush(Rng &r)
{
    RJ::Document d, e;
    auto &a = d.GetAllocator();
    std::string m;
    if (prop == "J10") {
        auto v = std::make_unique<T>(S::gen<T>(r));
        RJ::Value j, k;
        JR::push(*v, j, a);
        k = S::push(*v, e.GetAllocator());
        v.reset();
        std::vector<std::string> trash(64, std::string(24, 'z'));
        std::vector<std::string> trash2(64, "zz");
        if (!same(j, k)) m = "document changed with its source: " + dump(j) + " expected " + dump(k);
        return m;
    }
    T v = S::gen<T>(r);
    if (prop == "J02" || (prop == "J14" && r.coin())) {
        RJ::Value j, k = S::push(v, e.GetAllocator());
        if (r.coin()) j = genDoc(r, a, 2);
        try {
            JR::push(v, j, a);
            if (!same(j, k)) m = "document " + dump(j) + " expected " + dump(k);
            RJ::Value arr(RJ::kArrayType), obj(RJ::kObjectType);
            RJ::Value::Array av(arr.GetArray());
            arr.PushBack(1, a);
            JR::push(v, av, a);
            if (arr.Size() != 2 || !same(arr[1], k)) m = "array item " + dump(arr) + " expected " + dump(k);
            RJ::Value::Object ov(obj.GetObject());
            JR::push(static_cast<const T &>(v), "name", ov, a);
            if (obj.MemberCount() != 1 || !obj.HasMember("name") || !same(obj["name"], k)) m = "member " + dump(obj) + " expected " + dump(k);
        } catch (const std::exception &x) {
            m = std::string("exception: ") + x.what();
        }
        return m;
    }
    // J01, J14
    RJ::Value j;
    T t = S::gen<T>(r);
    Errs errs;
    try {
        JR::push(v, j, a);
        JR::pull(t, static_cast<const GV &>(j), &errs);
    } catch (const std::exception &x) {
        return std::string("exception: ") + x.what() + " for " + dump(j);
    }
    if (!errs.empty()) return "errors after round trip of " + dump(j);
    if (!S::eq(t, v)) {
        RJ::Value k = S::push(v, a), l = S::push(t, a);
        return "round trip of " + dump(k) + " through " + dump(j) + " gives " + dump(l);
    }
    return "";
}

// strings which do not own their text (serialization only)
static std::string tryViews(Rng &r)
{
    RJ::Document d, e;
    auto &a = d.GetAllocator();
    std::string s = S::genStr(r);
    if (r.coin()) s.append(40, 'q');
    auto buf = std::make_unique<char[]>(s.size() + 1);
    std::memcpy(buf.get(), s.c_str(), s.size() + 1);
    std::string_view sv(buf.get(), s.size());
    const char *cs = buf.get();
    RJ::Value vals[6], want[2];
    bool null = !r(8);
    if (null) sv = std::string_view(), cs = nullptr;
    else want[0].SetString(s.data(), static_cast<RJ::SizeType>(s.size()), e.GetAllocator()), want[1].SetString(s.c_str(), e.GetAllocator());
    vals[2].SetArray(), vals[3].SetArray();
    vals[4].SetObject(), vals[5].SetObject();
    JR::push(sv, vals[0], a);
    JR::push(cs, vals[1], a);
    std::vector<std::string_view> vs(2, sv);
    std::vector<const char *> vc(2, cs);
    JR::push(vs, vals[2], a);
    JR::push(vc, vals[3], a);
    std::map<std::string, std::string_view> ms{ { "k", sv } };
    std::map<std::string, const char *> mc{ { "k", cs } };
    JR::push(ms, vals[4], a);
    JR::push(mc, vals[5], a);
    std::memset(buf.get(), '#', s.size() + 1);
    buf.reset();
    for (int i = 0; i < 2; ++i) {
        if (!same(vals[i], want[i])) return "value " + dump(vals[i]) + " expected " + dump(want[i]);
        if (vals[2 + i].Size() != 2 || !same(vals[2 + i][1], want[i])) return "array " + dump(vals[2 + i]) + " of " + dump(want[i]);
        if (!vals[4 + i].HasMember("k") || !same(vals[4 + i]["k"], want[i])) return "object " + dump(vals[4 + i]) + " of " + dump(want[i]);
    }
    return "";
}

// objects which are shared with other owners are not touched when a shared pointer is deserialized
template <class E> static std::string shared1(Rng &r, const char *what)
{
    RJ::Document d;
    auto &a = d.GetAllocator();
    auto owner = std::make_shared<E>(S::gen<E>(r));
    const E before = *owner;
    std::shared_ptr<E> target = owner;
    RJ::Value v = r(3) ? S::push(S::gen<E>(r), a) : genDoc(r, a, 2);
    JR::pull(target, v, static_cast<Errs *>(nullptr));
    if (target == owner) return std::string("shared pointer to ") + what + " still refers to the object shared before, document " + dump(v);
    return S::eq(*owner, before) ? "" : std::string("object (") + what + ") of another owner changed by " + dump(v);
}
static std::string tryShared(Rng &r)
{
    auto m = shared1<int>(r, "int");
    if (m.empty()) m = shared1<std::string>(r, "string");
    if (m.empty()) m = shared1<std::vector<int>>(r, "vector");
    return m.empty() ? shared1<Inner>(r, "record") : m;
}

// entry points: document functions, member functions, malformed text
static std::string text(const GV &v)
{
    RJ::StringBuffer b;
    RJ::Writer<RJ::StringBuffer> w(b);
    v.Accept(w);
    return std::string(b.GetString(), b.GetSize());
}
static void mapFinite(RJ::Value &v)
{
    if (v.IsDouble() && !std::isfinite(v.GetDouble())) v.SetDouble(1.5);
    if (v.IsArray()) for (auto &e : v.GetArray()) mapFinite(e);
    if (v.IsObject()) for (auto m = v.MemberBegin(); m != v.MemberEnd(); ++m) mapFinite(m->value);
}
template <class T, bool members> std::string tryDocument(Rng &r)
{
    T v = S::gen<T>(r);
    RJ::Document d, e;
    RJ::Value k = S::push(v, d.GetAllocator());
    std::string want = text(k), m;
    try {
        auto doc = JR::toJsonDocument<T>(v);
        if (!same(doc, k)) return "toJsonDocument gives " + dump(doc) + " expected " + dump(k);
        auto b = JR::toJson<T>(v);
        if (std::string(b.GetString(), b.GetSize()) != want) return "toJson gives " + std::string(b.GetString(), b.GetSize()) + " expected " + want;
        if constexpr (members) {
            auto b2 = v.toJson();
            if (std::string(b2.GetString(), b2.GetSize()) != want) return "member toJson gives " + std::string(b2.GetString(), b2.GetSize()) + " expected " + want;
            if (!same(v.toJsonDocument(), k)) return "member toJsonDocument differs";
        }
        RJ::Value g;
        if (r(3)) {
            RJ::Value q(k, d.GetAllocator());
            if (r(3)) mutate(q, r, d.GetAllocator(), 2 + r(8));
            g = q;
        } else
            g = genDoc(r, d.GetAllocator(), 2);
        mapFinite(g);
        std::string t = text(g);
        if (!r(3)) { // malform
            switch (r(5)) {
            case 0: t.pop_back(); break;
            case 1: t += ","; break;
            case 2: t += " {}"; break;
            case 3: t.insert(r(t.size() + 1), 1, "]}x\"\0"[r(5)]); break;
            default: if (!t.empty()) t[r(t.size())] = static_cast<char>(r(128));
            }
        }
        // what the parser says
        RJ::Document p;
        p.Parse(t.data(), t.size());
        unsigned th = r(3) ? 0 : 0xff;
        auto one = [&](int which, auto f) {
            Errs errs;
            errs.throwOn = static_cast<Errs::ThrowOn>(th);
            S::Log l;
            l.throwOn = th;
            l.record = "[document]";
            T got{}, exp{};
            bool parseError = false, fatal = false, sfatal = false;
            try {
                got = f(t, &errs);
            } catch (const RJ::ParseResult &pe) {
                parseError = true;
                if (!p.HasParseError() || pe.Code() != p.GetParseError() || pe.Offset() != p.GetErrorOffset()) m = "parse error differs from the parser's";
            } catch (const JsonDeserializationError &) {
                fatal = true;
            }
            if (parseError != p.HasParseError()) {
                m = parseError ? "parse error thrown for well-formed text" : "no parse error thrown for malformed text";
            } else if (!parseError) {
                try {
                    S::pull(exp, p, &l);
                } catch (const S::Fatal &) {
                    sfatal = true;
                }
                std::vector<S::Err> errv;
                for (auto &x : errs) errv.push_back(conv(x));
                if (fatal != sfatal) m = "fatal error handling differs";
                else if (!fatal && !S::eq(got, exp)) m = "object differs";
                else if (errv != l.errs) m = "errors " + show(errv) + " expected " + show(l.errs);
            }
            if (!m.empty()) m += " (variant " + std::to_string(which) + ", text " + t + ")";
        };
        one(0, [](const std::string &s, Errs *x) { return JR::fromJson<T>(s.data(), s.size(), x); });
        if (m.empty()) one(1, [](const std::string &s, Errs *x) { return JR::fromJson<T>(s, x); });
        bool nul = t.find('\0') != std::string::npos;
        if (m.empty() && !nul) one(2, [](const std::string &s, Errs *x) { return JR::fromJson<T>(s.c_str(), x); });
        if constexpr (members) {
            if (m.empty()) one(3, [](const std::string &s, Errs *x) { return T::fromJson(s.data(), s.size(), x); });
            if (m.empty()) one(4, [](const std::string &s, Errs *x) { return T::fromJson(s, x); });
            if (m.empty() && !nul) one(5, [](const std::string &s, Errs *x) { return T::fromJson(s.c_str(), x); });
        }
    } catch (const std::exception &x) {
        m = std::string("exception: ") + x.what();
    }
    return m;
}
static std::string strDocument(Rng &r)
{
    std::string s = S::genStr(r);
    RJ::Document d;
    RJ::Value k = S::str(s, d.GetAllocator());
    {
        auto tmp = std::make_unique<std::string>(s);
        auto a = JR::toJsonDocument<std::string>(*tmp);
        auto b = JR::toJsonDocument<std::string_view>(std::string_view(*tmp));
        auto b3 = JR::toJson<std::string>(*tmp);
        tmp.reset();
        if (!same(a, k) || !same(b, k)) return "string document " + dump(a) + " / " + dump(b) + " expected " + dump(k);
        if (std::string(b3.GetString(), b3.GetSize()) != text(k)) return "string text";
    }
    Errs e;
    if (JR::fromJson<std::string>(text(k), &e) != s || !e.empty()) return "string from JSON";
    return "";
}
// formatting
static std::string tryFormat(Rng &r)
{
    static const char *kinds_[] = { "type mismatch", "array size mismatch", "conversion error", "unexpected duplicate", "invalid variant object", "invalid variant index" };
    static const char *types[] = { "null", "number", "bool", "string", "array", "object" };
    int k = static_cast<int>(r(6)), x = static_cast<int>(r(6)), y = static_cast<int>(r(6));
    std::string rec = S::genStr(r), mem = S::genStr(r);
    for (auto *s : { &rec, &mem }) s->resize(std::strlen(s->c_str()));
    bool hr = r(4), hm = r.coin();
    std::size_t idx = r.coin() ? JsonDeserializationError::noIndex : r(3) ? r(100) : r.e();
    JsonDeserializationError e(static_cast<JsonDeserializationErrorKind>(k), static_cast<JsonType>(x), static_cast<JsonType>(y), hr ? rec.c_str() : nullptr, hm ? mem.c_str() : nullptr, idx);
    std::string want = kinds_[k];
    if (!hr) want += " in document";
    else {
        want += " within record \"" + rec + "\"";
        if (hm) want += " and member \"" + mem + "\"";
        else if (idx != JsonDeserializationError::noIndex) want += " and index \"" + std::to_string(idx) + "\"";
    }
    if (k == 0) want += std::string(": expected \"") + types[x] + "\", got \"" + types[y] + "\"";
    std::string got = formatJsonDeserializationError(e);
    return got == want ? "" : "message " + got + " expected " + want;
}

struct Case {
    const char *name;
    std::string (*pull)(Rng &);
    std::string (*push)(Rng &);
};
#define T_(...) { #__VA_ARGS__, &tryPull<__VA_ARGS__>, &tryPush<__VA_ARGS__> }
using M = std::map<std::string, int>;
using MM = std::multimap<std::string, int>;
using V = std::variant<std::monostate, int, std::string, Inner>;
static const Case cases[] = {
#if !defined(PART) || PART == 0
    T_(int), T_(unsigned), T_(std::int64_t), T_(std::uint64_t), T_(float), T_(double), T_(bool), T_(std::uint8_t), T_(std::int8_t),
    T_(Ei), T_(Eu8), T_(Ei8), T_(Eu64), T_(Ei64), T_(EOld), T_(std::string), T_(std::vector<int>), T_(std::list<std::string>), T_(std::deque<double>), T_(std::vector<Inner>),
    T_(std::vector<std::vector<int>>), T_(std::set<int>), T_(std::set<std::string>), T_(std::unordered_set<int>), T_(std::multiset<int>), T_(std::unordered_multiset<std::string>),
#endif
#if !defined(PART) || PART == 1
    T_(M), T_(std::unordered_map<std::string, std::string>), T_(std::map<std::string, std::vector<int>>), T_(std::map<std::string, Inner>), T_(MM),
    T_(std::unordered_multimap<std::string, std::string>), T_(std::multimap<std::string, Inner>), T_(std::tuple<int>), T_(std::tuple<int, std::string, bool>),
    T_(std::tuple<std::vector<int>, M, std::set<int>>), T_(std::pair<int, std::string>),
#endif
#if !defined(PART) || PART == 2
    T_(std::optional<int>), T_(std::optional<std::vector<int>>), T_(std::unique_ptr<int>), T_(std::shared_ptr<std::string>), T_(std::optional<Inner>), T_(V), T_(std::variant<int, double>),
    T_(std::vector<V>), T_(std::map<std::string, V>), T_(std::vector<std::optional<int>>), T_(std::vector<std::set<int>>), T_(Inner), T_(Outer),
#endif
};
static const Case chrono[] = {
#if !defined(PART) || PART == 0
    T_(CppUtilities::DateTime), T_(CppUtilities::TimeSpan),
#endif
#if !defined(PART) || PART == 1
    T_(std::vector<CppUtilities::DateTime>), T_(std::optional<CppUtilities::TimeSpan>),
#endif
#if !defined(PART) || PART == 2
    T_(std::map<std::string, CppUtilities::TimeSpan>),
#endif
};
struct DocCase {
    const char *name;
    std::string (*run)(Rng &);
};
static const DocCase docs[] = {
#if !defined(PART) || PART == 0
    { "Inner", &tryDocument<Inner, true> }, { "Outer", &tryDocument<Outer, true> }, { "string", &strDocument },
    { "vector<int>", &tryDocument<std::vector<int>, false> }, { "list<string>", &tryDocument<std::list<std::string>, false> },
#endif
#if !defined(PART) || PART == 1
    { "map", &tryDocument<M, false> }, { "multimap", &tryDocument<MM, false> }, { "map<vector>", &tryDocument<std::map<std::string, std::vector<int>>, false> },
#endif
#if !defined(PART) || PART == 2
    { "int", &tryDocument<int, false> }, { "bool", &tryDocument<bool, false> }, { "double", &tryDocument<double, false> }, { "uint64", &tryDocument<std::uint64_t, false> },
    { "float", &tryDocument<float, false> },
#endif
};
static const DocCase views[] = { { "views", &tryViews } };
static const DocCase sharedCases[] = { { "shared", &tryShared } };
static const DocCase formats[] = { { "message", &tryFormat } };

int main(int argc, char **argv)
{
    prop = argv[1];
    std::uint64_t seed = std::strtoull(argv[2], nullptr, 10);
    double secs = std::atof(argv[3]);
    const char *onlyCase = argc > 4 ? argv[4] : nullptr;
    std::uint64_t onlyIter = argc > 5 ? std::strtoull(argv[5], nullptr, 10) : 0;
    auto start = std::chrono::steady_clock::now();
    std::uint64_t n = 0;
    std::vector<std::pair<const char *, std::string (*)(Rng &)>> list;
    if (prop == "J13") for (auto &c : docs) list.push_back({ c.name, c.run });
    else if (prop == "J12") for (auto &c : formats) list.push_back({ c.name, c.run });
    else if (prop == "J14") {
        for (auto &c : chrono) list.push_back({ c.name, c.pull }), list.push_back({ c.name, c.push });
    } else for (auto &c : cases) list.push_back({ c.name, prop == "J01" || prop == "J02" || prop == "J10" ? c.push : c.pull });
    if (prop == "J02" || prop == "J10") list.push_back({ views[0].name, views[0].run });
    if (prop == "J08") list.push_back({ sharedCases[0].name, sharedCases[0].run });
    for (std::uint64_t iter = 0;; ++iter) {
        for (auto &c : list) {
            if (onlyCase && (std::strcmp(onlyCase, c.first) || iter != onlyIter)) continue;
            Rng r{ std::mt19937_64(seed * 1000003 + iter * 131 + std::hash<std::string>()(c.first)) };
            std::cout << "CASE " << c.first << ' ' << iter << '\r' << std::flush;
            std::string m = c.second(r);
            ++n;
            if (!m.empty()) {
                std::cout << "\nFAIL property=" << prop << " type=" << c.first << " seed=" << seed << " iteration=" << iter << ": " << m << std::endl;
                return 1;
            }
        }
        if (onlyCase && iter >= onlyIter) break;
        if (std::chrono::duration<double>(std::chrono::steady_clock::now() - start).count() > secs) break;
    }
    std::cout << "\nOK cases=" << n << std::endl;
    return 0;
}
