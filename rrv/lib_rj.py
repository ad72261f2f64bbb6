"""Assumed contracts of RapidJSON."""
import z3
from z3 import And, Or, Not, If, Implies, IntVal, BoolVal
from .sym import *
from . import theory as T
from .theory import s_len, s_cstr, s_prefix
from .lib_std import LIB, lib, str_of, simp, is_strish
from .engine import Loc, CppThrow

kNull, kFalse, kTrue, kObject, kArray, kString, kNumber = range(7)
GVN = ("rapidjson::GenericValue", "rapidjson::GenericDocument")


def jtype(j):
    return If(J.is_jnull(j), IntVal(0), If(J.is_jbool(j), If(J.bval(j), IntVal(2), IntVal(1)), If(J.is_jobj(j), IntVal(3), If(
        J.is_jarr(j), IntVal(4), If(J.is_jstr(j), IntVal(5), IntVal(6))))))


def of_type(n):
    n = simp(n)
    if not z3.is_int_value(n):
        raise Unsupported("JSON value of a variable type")
    return {0: J.jnull, 1: J.jbool(FALSE), 2: J.jbool(TRUE), 3: J.jobj(MSeq.mnil), 4: J.jarr(JSeq.jnil), 5: J.jstr(lit("")),
            6: J.jint(IntVal(0))}[n.as_long()]


def isnum(j):
    return Or(J.is_jint(j), J.is_jdbl(j))


def int_in(j, bits, signed):
    return And(J.is_jint(j), J.ival(j) >= INT_MIN[bits, signed], J.ival(j) <= INT_MAX[bits, signed])


def dbl(j):
    return If(J.is_jdbl(j), J.dval(j), f64_of_int(J.ival(j)))


FLT_MAX = z3.RealVal("340282346638528859811704183484516925440")
FLT_LIM = z3.Q(34028234 * 10 ** 31, 1)         # the literal 3.4028234e38 used by RapidJSON


def is_type(en, j, ty):
    if ty.k == "int":
        if ty.x["bits"] not in (32, 64):
            raise Unsupported("Is<%s>" % ty.sig())
        return int_in(j, ty.x["bits"], ty.x["signed"])
    if ty.k == "bool":
        return J.is_jbool(j)
    if ty.k == "f64":
        return J.is_jdbl(j)
    if ty.k == "f32":
        d = J.dval(j)
        return And(J.is_jdbl(j), Not(f64nan(d)), f64inf(d) == 0, f64real(d) >= -FLT_LIM, f64real(d) <= FLT_LIM)
    if ty.k in ("cstr", "str"):
        return J.is_jstr(j)
    raise Unsupported("Is<%r>" % ty)


def get_type(en, j, ty):
    if ty.k == "int":
        en.oblige("J03", "number is read as %s only if it is one" % ty.sig(), int_in(j, ty.x["bits"], ty.x["signed"]))
        return J.ival(j)
    if ty.k == "bool":
        en.oblige("J03", "GetBool() is only used on a bool", J.is_jbool(j))
        return J.bval(j)
    if ty.k in ("f64", "f32"):
        en.oblige("J03", "GetDouble()/GetFloat() is only used on a number", isnum(j))
        d = getdouble(en, j)
        return d if ty.k == "f64" else f32_of_f64(d)
    if ty.k in ("cstr", "str"):
        en.oblige("J03", "GetString() is only used on a string", J.is_jstr(j))
        return CharP(FALSE, J.sval(j)) if ty.k == "cstr" else J.sval(j)
    raise Unsupported("Get<%r>" % ty)


def getdouble(en, j):
    if en.must(J.is_jdbl(j)):
        return J.dval(j)
    if en.must(J.is_jint(j)):
        return f64_of_int(J.ival(j))
    return If(J.is_jdbl(j), J.dval(j), f64_of_int(J.ival(j)))


def put(en, v, ty):
    """The JSON value made of a scalar."""
    if ty.k == "bool":
        return J.jbool(v)
    if ty.k in ("int", "enum"):
        return J.jint(v)
    if ty.k == "f64":
        return J.jdbl(v)
    if ty.k == "f32":
        return J.jdbl(f64_of_f32(v))
    raise Unsupported("JSON value from %r" % ty)


def borrowed(en, v, what):
    v = en.val(v)
    st = v.static if isinstance(v, CharP) else v.f["p"].static if isinstance(v, RecV) and v.kind == "sref" else False
    en.oblige("J10", what + " is copied into the document or has static lifetime", BoolVal(bool(st)))


def need(en, cond, what):
    en.oblige("J03", what, cond)


def jv(en, obj):
    return en.load(obj) if isinstance(obj, Loc) else obj


def has_alloc(en, args):
    if not args:
        return False
    v = args[-1]
    v = en.load(v) if isinstance(v, Loc) else v
    return isinstance(v, RecV) and v.kind == "alloc"


def name_of(en, a):
    """Content of a member name argument."""
    v = en.val(a)
    if isinstance(v, z3.ExprRef) and v.sort() == J:
        return J.sval(v)
    return str_of(en, v)


def take(en, a):
    """RapidJSON moves values; the source becomes null."""
    v = en.val(a)
    if isinstance(a, Loc):
        en.store(a, J.jnull)
    return v


def value_method(en, m, loc, args, fn, e):
    j = jv(en, loc)
    tys = lambda i: en.u.ty(e["a"][i]["t"])
    if m == "GetType":
        return jtype(j)
    if m == "IsNull":
        return J.is_jnull(j)
    if m == "IsBool":
        return J.is_jbool(j)
    if m == "IsTrue":
        return And(J.is_jbool(j), J.bval(j))
    if m == "IsFalse":
        return And(J.is_jbool(j), Not(J.bval(j)))
    if m == "IsObject":
        return J.is_jobj(j)
    if m == "IsArray":
        return J.is_jarr(j)
    if m == "IsString":
        return J.is_jstr(j)
    if m == "IsNumber":
        return isnum(j)
    if m in ("IsInt", "IsUint", "IsInt64", "IsUint64"):
        return int_in(j, 64 if "64" in m else 32, "U" not in m)
    if m == "IsDouble":
        return J.is_jdbl(j)
    if m == "IsLosslessDouble":
        raise Unsupported(m)
    if m == "IsFloat":
        d = J.dval(j)
        return And(J.is_jdbl(j), Not(f64nan(d)), f64inf(d) == 0, f64real(d) >= -FLT_LIM, f64real(d) <= FLT_LIM)
    if m == "Is":
        return is_type(en, j, en.u.ty(fn["targs"][0]["t"]))
    if m == "Get":
        return get_type(en, j, en.u.ty(fn["targs"][0]["t"]))
    if m == "GetBool":
        need(en, J.is_jbool(j), "GetBool() is only used on a bool")
        return J.bval(j)
    if m in ("GetInt", "GetUint", "GetInt64", "GetUint64"):
        need(en, int_in(j, 64 if "64" in m else 32, "U" not in m), m + "() is only used on such a number")
        return J.ival(j)
    if m == "GetDouble":
        need(en, isnum(j), "GetDouble() is only used on a number")
        return getdouble(en, j)
    if m == "GetFloat":
        need(en, isnum(j), "GetFloat() is only used on a number")
        return f32_of_f64(getdouble(en, j))
    if m == "GetString":
        need(en, J.is_jstr(j), "GetString() is only used on a string")
        return CharP(FALSE, J.sval(j))
    if m == "GetStringLength":
        need(en, J.is_jstr(j), "GetStringLength() is only used on a string")
        return s_len(J.sval(j))
    if m == "GetArray":
        need(en, J.is_jarr(j), "GetArray() is only used on an array")
        return ProxyV("arr", loc)
    if m in ("GetObject", "GetObj"):
        need(en, J.is_jobj(j), "GetObject() is only used on an object")
        return ProxyV("obj", loc)
    if m == "SetNull":
        en.store(loc, J.jnull)
        return loc
    if m == "SetObject":
        if args:
            raise Unsupported("SetObject(object)")
        en.store(loc, J.jobj(MSeq.mnil))
        return loc
    if m == "SetArray":
        if args:
            raise Unsupported("SetArray(array)")
        en.store(loc, J.jarr(JSeq.jnil))
        return loc
    if m in ("SetBool", "SetInt", "SetUint", "SetInt64", "SetUint64", "SetDouble", "SetFloat"):
        v = en.val(args[0])
        en.store(loc, J.jbool(v) if m == "SetBool" else J.jdbl(v) if m == "SetDouble" else J.jdbl(f64_of_f32(v)) if m == "SetFloat" else J.jint(v))
        return loc
    if m == "Set":
        v = en.val(args[0])
        t = en.u.ty(fn["targs"][0]["t"])
        if t.k in ("str", "cstr"):
            if not (len(args) > 1):
                borrowed(en, args[0], "the string")
            en.store(loc, J.jstr(str_of(en, v)))
        else:
            if t.k == "int" and t.x["bits"] not in (32, 64):
                raise Unsupported("Set<%s>" % t.sig())
            en.store(loc, put(en, v, t))
        return loc
    if m == "SetString":
        return setstring(en, loc, args)
    if m in ("operator=",):
        a = en.val(args[0])
        if isinstance(a, z3.ExprRef) and a.sort() == J:
            take(en, args[0])
            en.store(loc, a)
        elif is_strish(a) and not isinstance(a, z3.ExprRef):
            borrowed(en, args[0], "the string")
            en.store(loc, J.jstr(str_of(en, a)))
        else:
            en.store(loc, put(en, a, tys(-1)))
        return loc
    if m == "CopyFrom":
        en.store(loc, en.val(args[0]))
        return loc
    if m == "Swap":
        o = en.load(args[0])
        en.store(args[0], j)
        en.store(loc, o)
        return loc
    # arrays
    if m in ("Size", "Capacity"):
        need(en, J.is_jarr(j), "Size() is only used on an array")
        return T.jlen(J.aval(j))
    if m == "Empty":
        need(en, J.is_jarr(j), "Empty() is only used on an array")
        return T.jlen(J.aval(j)) == 0
    if m in ("Begin", "begin", "End", "end"):
        need(en, J.is_jarr(j), "Begin()/End() is only used on an array")
        return IterV("jel", loc, IntVal(0) if m in ("Begin", "begin") else T.jlen(J.aval(j)))
    if m in ("Reserve",):
        need(en, J.is_jarr(j), "Reserve() is only used on an array")
        return loc
    if m == "Clear":
        need(en, J.is_jarr(j), "Clear() is only used on an array")
        en.store(loc, J.jarr(JSeq.jnil))
        return None
    if m == "PushBack":
        need(en, J.is_jarr(j), "PushBack() is only used on an array")
        a = en.val(args[0])
        if isinstance(a, z3.ExprRef) and a.sort() == J:
            v = take(en, args[0])
            j = jv(en, loc)
        elif isinstance(a, CharP) or isinstance(a, RecV):
            borrowed(en, args[0], "the string")
            v = J.jstr(str_of(en, a))
        else:
            v = put(en, a, tys(0))
        en.store(loc, J.jarr(JSeq.jsnoc(J.aval(j), v)))
        return loc
    if m == "PopBack":
        raise Unsupported(m)
    if m == "operator[]":
        a = en.val(args[0])
        if isinstance(a, z3.ExprRef) and a.sort() == z3.IntSort():
            need(en, J.is_jarr(j), "operator[] with an index is only used on an array")
            need(en, And(a >= 0, a < T.jlen(J.aval(j))), "array index is within bounds")
            return loc.step("jel", a)
        need(en, J.is_jobj(j), "operator[] with a name is only used on an object")
        p = T.mfind(J.oval(j), name_of(en, a))
        need(en, p < T.mlen(J.oval(j)), "member accessed through operator[] exists")
        return loc.step("jmv", p)
    # objects
    if m in ("MemberCount",):
        need(en, J.is_jobj(j), "MemberCount() is only used on an object")
        return T.mlen(J.oval(j))
    if m == "ObjectEmpty":
        need(en, J.is_jobj(j), "ObjectEmpty() is only used on an object")
        return T.mlen(J.oval(j)) == 0
    if m in ("MemberReserve",):
        need(en, J.is_jobj(j), "MemberReserve() is only used on an object")
        return loc
    if m in ("MemberBegin", "MemberEnd"):
        need(en, J.is_jobj(j), "MemberBegin()/MemberEnd() is only used on an object")
        return IterV("jm", loc, IntVal(0) if m == "MemberBegin" else T.mlen(J.oval(j)))
    if m in ("FindMember", "HasMember"):
        need(en, J.is_jobj(j), "FindMember() is only used on an object")
        a = en.val(args[0])
        if isinstance(a, z3.ExprRef) and a.sort() == J:
            need(en, J.is_jstr(a), "member name is a string")
        if isinstance(a, CharP) and not z3.is_false(a.null):
            need(en, Not(a.null), "member name is not null")
        p = T.mfind(J.oval(j), name_of(en, args[0]))
        if m == "HasMember":
            return p < T.mlen(J.oval(j))
        return IterV("jm", loc, p)
    if m == "AddMember":
        need(en, J.is_jobj(j), "AddMember() is only used on an object")
        n = en.val(args[0])
        if isinstance(n, z3.ExprRef) and n.sort() == J:
            need(en, J.is_jstr(n), "member name is a string")
            name = J.sval(n)
            take(en, args[0])
        else:
            if not (isinstance(n, z3.ExprRef) and n.sort() == Str):
                borrowed(en, args[0], "the member name")
            name = str_of(en, n)
        a = en.val(args[1])
        if isinstance(a, z3.ExprRef) and a.sort() == J:
            v = take(en, args[1])
        elif isinstance(a, (CharP, RecV)):
            borrowed(en, args[1], "the string")
            v = J.jstr(str_of(en, a))
        elif isinstance(a, z3.ExprRef) and a.sort() == Str:
            v = J.jstr(a)
        else:
            v = put(en, a, tys(1))
        j = jv(en, loc)
        en.store(loc, J.jobj(MSeq.msnoc(J.oval(j), name, v)))
        return loc
    if m == "RemoveAllMembers":
        need(en, J.is_jobj(j), "RemoveAllMembers() is only used on an object")
        en.store(loc, J.jobj(MSeq.mnil))
        return None
    if m == "Accept":
        w = en.val(args[0])
        if isinstance(w, RecV) and w.kind == "writer":
            b = w.f["buf"]
            old = en.load(b)
            en.store(b, old.with_("s", T.s_cat(old.f["s"], jtext(j))))
            return TRUE
        raise Unsupported("Accept with an unknown handler")
    if m == "GetAllocator":
        return en.new_cell(RecV("alloc", {}))
    if m == "Parse":
        flags_default(fn)
        a = [en.val(x) for x in args]
        s = s_cstr(a[0].s if len(a) == 1 else s_prefix(a[0].s, a[1]))  # the parser stops at NUL in any case
        ok = jparse_ok(s)
        if en.decide(ok):
            en.store(loc, jparse(s))
            for f in T.json_facts(jparse(s)):
                en.assume(f)
            en.st.ghost[("parse", loc.cell)] = (TRUE, s)
        else:
            en.store(loc, J.jnull)
            en.st.ghost[("parse", loc.cell)] = (FALSE, s)
        return loc
    if m in ("HasParseError", "GetParseError", "GetErrorOffset"):
        ok, s = en.st.ghost.get(("parse", loc.cell), (TRUE, lit("")))
        if m == "HasParseError":
            return Not(ok)
        return parse_code(s) if m == "GetParseError" else parse_off(s)
    if m == "operator conv":
        ok, s = en.st.ghost.get(("parse", loc.cell), (TRUE, lit("")))
        return RecV("parseres", {"ok": ok, "s": s})
    return NotImplemented


jtext = z3.Function("jtext", J, Str)                # RapidJSON's writer
_jparse = z3.Function("jparse", Str, J)              # RapidJSON's parser, which takes NUL as the end of the text
_jparse_ok = z3.Function("jparse_ok", Str, z3.BoolSort())


def jparse(s):
    return _jparse(T.s_cstr(s))


def jparse_ok(s):
    return _jparse_ok(T.s_cstr(s))


parse_code = z3.Function("parse_code", Str, z3.IntSort())
parse_off = z3.Function("parse_off", Str, z3.IntSort())


def setstring(en, loc, args):
    copied = has_alloc(en, args)
    a = [en.val(x) for x in args]
    if copied:
        a = a[:-1]
    else:
        borrowed(en, args[0], "the string")
    if isinstance(a[0], CharP):
        if not z3.is_false(a[0].null):
            need(en, Not(a[0].null), "SetString() is not called with a null pointer")
        s = s_cstr(a[0].s) if len(a) == 1 else s_prefix(a[0].s, a[1])
        if len(a) > 1:
            need(en, And(a[1] >= 0, a[1] <= s_len(a[0].s) + 1), "string length is within the buffer")
    else:
        s = str_of(en, a[0])
    en.store(loc, J.jstr(s))
    return loc


def gv_call(en, fn, obj, args, e):
    m = fn["q"].split("::")[-1]
    if isinstance(obj, Loc):
        v = en.load(obj)
        if isinstance(v, ProxyV):
            obj = v.loc
    elif isinstance(obj, ProxyV):
        obj = obj.loc
    else:
        obj = en.new_cell(obj)
    return value_method(en, m, obj, args, fn, e)


for _c in ("GenericValue", "GenericDocument", "GenericArray", "GenericObject"):
    for _m in ("GetType IsNull IsBool IsTrue IsFalse IsObject IsArray IsString IsNumber IsInt IsUint IsInt64 IsUint64 IsDouble IsFloat Is Get GetBool "
               "GetInt GetUint GetInt64 GetUint64 GetDouble GetFloat GetString GetStringLength GetArray GetObject GetObj SetNull SetObject SetArray "
               "SetBool SetInt SetUint SetInt64 SetUint64 SetDouble SetFloat Set SetString operator= CopyFrom Swap Size Capacity Empty Begin begin End "
               "end Reserve Clear PushBack operator[] MemberCount ObjectEmpty MemberReserve MemberBegin MemberEnd FindMember HasMember AddMember "
               "RemoveAllMembers Accept GetAllocator Parse HasParseError GetParseError GetErrorOffset Move").split() + ["operator conv"]:
        LIB["rapidjson::%s::%s" % (_c, _m)] = gv_call


@lib("rapidjson::GenericValue::Move")
def _(en, fn, obj, args, e):
    return obj


def proxy_call(en, fn, obj, args, e):
    """GenericArray/GenericObject: begin/end/Size etc. on the referenced value."""
    m = fn["q"].split("::")[-1]
    v = en.val(obj)
    if not isinstance(v, ProxyV):
        return NotImplemented
    if v.kind == "obj" and m in ("begin", "MemberBegin", "end", "MemberEnd"):
        m = "MemberBegin" if m in ("begin", "MemberBegin") else "MemberEnd"
    if m == "operator=":
        en.store(obj, en.val(args[0]))
        return obj
    if m == "operator conv":
        return v.loc
    r = value_method(en, m, v.loc, args, fn, e)
    return obj if m in ("PushBack", "AddMember", "Reserve", "MemberReserve") else r


for _n in list(LIB):
    if _n.startswith("rapidjson::GenericArray::") or _n.startswith("rapidjson::GenericObject::"):
        LIB[_n] = proxy_call


@lib("ctor:rapidjson::GenericArray", "ctor:rapidjson::GenericObject")
def _(en, fn, t, kind, args, e):
    return en.val(args[0])


@lib("deref:jel")
def _(en, it):
    j = en.load(it.loc)
    need(en, And(it.pos >= 0, it.pos < T.jlen(J.aval(j))), "array element iterator is within bounds")
    return it.loc.step("jel", it.pos)


@lib("deref:jm")
def _(en, it):
    j = en.load(it.loc)
    need(en, And(it.pos >= 0, it.pos < T.mlen(J.oval(j))), "member iterator is within bounds")
    return it.loc.step("jm", it.pos)


@lib("iterlimit:jel")
def _(en, it):
    return T.jlen(J.aval(en.load(it.loc)))


@lib("iterlimit:jm")
def _(en, it):
    return T.mlen(J.oval(en.load(it.loc)))


@lib("mem")
def _(en, b, e):
    if b.path and b.path[-1][0] == "jm" and e["name"] in ("name", "value"):
        return Loc(b.cell, b.path[:-1] + (("jmn" if e["name"] == "name" else "jmv", b.path[-1][1]),))
    return None


@lib("proj:jm")
def _(en, v, st):
    return RecV("member", {"name": J.jstr(T.mname(J.oval(v), st[1])), "value": T.mval(J.oval(v), st[1])})


@lib("ctor:rapidjson::GenericMemberIterator")
def _(en, fn, t, kind, args, e):
    return en.val(args[0]) if args else None


def ctor_value(en, fn, t, kind, args, e):
    if not args or kind == "defctor":
        return J.jnull
    a = en.val(args[0])
    if isinstance(a, z3.ExprRef) and a.sort() == J:
        if kind == "movector" or (len(args) == 1):
            return take(en, args[0])
        return a
    at = en.u.ty(e["a"][0]["t"])
    if at.k == "enum" and at.x["name"].endswith("Type"):
        if t.x["name"].endswith("GenericDocument"):
            return of_type(a)
        return of_type(a)
    if isinstance(a, PtrV) or (isinstance(a, RecV) and a.kind == "alloc"):
        return J.jnull
    if isinstance(a, ProxyV):
        v = en.load(a.loc)
        en.store(a.loc, J.jnull)
        return v
    if is_strish(a) and not (isinstance(a, z3.ExprRef) and a.sort() == z3.IntSort()):
        if not has_alloc(en, args):
            borrowed(en, args[0], "the string")
        if isinstance(a, CharP) and len(args) >= 2:
            n = en.val(args[1])
            if isinstance(n, z3.ExprRef) and n.sort() == z3.IntSort():
                need(en, And(n >= 0, n <= s_len(a.s) + 1), "string length is within the buffer")
                return J.jstr(s_prefix(a.s, n))
        return J.jstr(str_of(en, a))
    return put(en, a, at)


LIB["ctor:rapidjson::GenericValue"] = ctor_value
LIB["ctor:rapidjson::GenericDocument"] = ctor_value


def mksref(en, args):
    a = [en.val(x) for x in args]
    if isinstance(a[0], RecV) and a[0].kind == "sref":
        return a[0]
    if isinstance(a[0], CharP):
        if not z3.is_false(a[0].null):
            need(en, Not(a[0].null), "StringRef is not made from a null pointer") if len(a) == 1 else None
        n = a[1] if len(a) > 1 else s_len(s_cstr(a[0].s))
        if len(a) > 1:
            need(en, And(n >= 0, n <= s_len(a[0].s) + 1), "string length is within the buffer")
        return RecV("sref", {"p": CharP(FALSE, s_cstr(a[0].s) if len(a) == 1 else a[0].s, a[0].static), "len": n})
    if isinstance(a[0], z3.ExprRef) and a[0].sort() == Str:
        return RecV("sref", {"p": CharP(FALSE, a[0], False), "len": s_len(a[0])})
    raise Unsupported("StringRef of %r" % (a[0],))


@lib("rapidjson::StringRef")
def _(en, fn, obj, args, e):
    return mksref(en, args)


@lib("ctor:rapidjson::GenericStringRef")
def _(en, fn, t, kind, args, e):
    return mksref(en, args)


@lib("rapidjson::GenericStringRef::operator conv")
def _(en, fn, obj, args, e):
    v = en.val(obj)
    return v.f["p"]


@lib("ctor:rapidjson::GenericStringBuffer")
def _(en, fn, t, kind, args, e):
    if kind in ("movector", "copyctor"):
        return en.val(args[0])
    return RecV("sbuf", {"s": lit("")}, t)


def flags_default(fn):
    """Only the default parse/write flags are under contract."""
    for a in fn.get("targs") or ():
        if a.get("i") not in (None, 0, "0"):
            raise Unsupported("RapidJSON flags %s" % a["i"])


@lib("ctor:rapidjson::Writer")
def _(en, fn, t, kind, args, e):
    flags_default(dict(targs=en.u.types[t.key].get("args")))
    return RecV("writer", {"buf": args[0]}, t)


@lib("rapidjson::GenericStringBuffer::GetString")
def _(en, fn, obj, args, e):
    return CharP(FALSE, en.val(obj).f["s"])


@lib("rapidjson::GenericStringBuffer::GetSize", "rapidjson::GenericStringBuffer::GetLength")
def _(en, fn, obj, args, e):
    return s_len(en.val(obj).f["s"])


@lib("ctor:rapidjson::ParseResult")
def _(en, fn, t, kind, args, e):
    return en.val(args[0]) if args else RecV("parseres", {"ok": TRUE, "s": lit("")})


@lib("rapidjson::ParseResult::IsError", "rapidjson::ParseResult::operator conv", "rapidjson::ParseResult::Code", "rapidjson::ParseResult::Offset")
def _(en, fn, obj, args, e):
    v = en.val(obj)
    m = fn["q"].split("::")[-1]
    if m == "IsError":
        return Not(v.f["ok"])
    if m == "Code":
        return If(v.f["ok"], IntVal(0), parse_code(v.f["s"]))
    if m == "Offset":
        return parse_off(v.f["s"])
    return v.f["ok"]
