"""Contracts of the entry points (J13: text <-> document <-> value) and of the error messages (J12)."""
import z3
from z3 import And, Or, Not, If, Implies, IntVal, BoolVal
from .sym import *
from . import theory as T
from .lib_std import LIB, lib, simp, str_of
from .lib_rj import jtext, jparse, jparse_ok
from .engine import Engine, Loc, State, CppThrow
from .contracts_json import (Contracts, Spec, fresh_errors, last_error, kprev, pick, check_specifiable, ERR, ERR1, NOINDEX, KINDNAME, I)

NS = "ReflectiveRapidJSON::JsonReflector::"
SER = "ReflectiveRapidJSON::JsonSerializable::"


@lib("rapidjson::GenericValue::~GenericValue", "rapidjson::GenericDocument::~GenericDocument")
def _(en, fn, obj, args, e):
    return None


def start(u, scenario, unroll, opts, contracts):
    en = Engine(u, contracts, LIB, dict(opts or {}, unroll=unroll))
    en.scenario = scenario
    init = State()
    en.st = init
    en.trace, en.pos, en.alts, en.prefix_len = [], 0, [], 0
    en.reached = 0
    return en, init


def value_arg(en, t, p):
    v = en.fresh_value(t, p)
    if t.k == "cstr":
        return CharP(v.null, T.s_cstr(v.s))
    return v


def verify_tojson(u, f, unroll=0, opts=None):
    """toJsonDocument(v) is the document push() specifies for v, toJson(v) the text of that document."""
    en, init = start(u, "push", unroll, opts, Contracts())
    sp = Spec(en)
    text = f["q"].endswith("::toJson")
    this = None
    if f["kind"] == "method":
        if f.get("static") or f["params"]:
            raise Unsupported("signature of %s" % f["q"])
        ty = u.ty(f["cls"].split("<", 1)[1][:-1])
        v = en.fresh_value(ty, "value")
        this = vl = en.new_cell(v)
        args = []
    else:
        if len(f["params"]) != 1:
            raise Unsupported("signature of %s" % f["q"])
        ty = u.ty(f["pt"][0])
        v = value_arg(en, ty, "value")
        vl = en.new_cell(v)
        args = [vl]
    check_specifiable(ty)
    if ty.k in ("int",) and ty.x["bits"] not in (32, 64):
        raise Unsupported("no toJson() for %s" % ty.sig())

    def run():
        want = sp.push(ty, v)
        try:
            r = en.inline(f, this, args)
        except CppThrow:
            en.enter(f)
            en.oblige("J13", "serialization does not throw", FALSE)
            return
        en.enter(f)
        r = en.val(r)
        if text:
            if not (isinstance(r, RecV) and r.kind == "sbuf"):
                raise Unsupported("result of toJson()")
            en.oblige("J13", "toJson() is the text of the document", r.f["s"] == jtext(want), assume_after=False)
        else:
            en.oblige("J13", "toJsonDocument() is the JSON value of the object", r == want, assume_after=False)
        en.oblige("J13", "the serialized object is left alone", eqv(en.load(vl), v), assume_after=False)
        en.reached += 1
    en.paths = en.explore(init, run)
    return [en]


def verify_serialize(u, f, unroll=0, opts=None):
    en, init = start(u, "serialize", unroll, opts, None)
    j = en.fresh_json("document")
    jl = en.new_cell(j)

    def run():
        try:
            r = en.inline(f, None, [jl])
        except CppThrow:
            en.enter(f)
            en.oblige("J13", "serialization does not throw", FALSE)
            return
        en.enter(f)
        r = en.val(r)
        if not (isinstance(r, RecV) and r.kind == "sbuf"):
            raise Unsupported("result of serializeJsonDocToString()")
        en.oblige("J13", "the buffer holds the text of the document", r.f["s"] == jtext(j), assume_after=False)
        en.oblige("J13", "the document is left alone", en.load(jl) == j, assume_after=False)
        en.reached += 1
    en.paths = en.explore(init, run)
    return [en]


def text_args(en, u, f):
    """(arguments, the text they denote) of the (const char *, size_t), (const char *) and (const std::string &) forms."""
    t0 = u.ty(f["pt"][0])
    s = en.fresh(Str, "json")
    rest = f["pt"][1:]
    if t0.k == "cstr":
        p = CharP(FALSE, s)
        if rest and u.ty(rest[0]).k == "int":
            n = en.fresh(I, "size")
            en.assume(And(n >= 0, n <= T.s_len(s)))
            return [p, n], T.s_prefix(s, n), rest[1:]
        return [p], T.s_cstr(s), rest
    if t0.k == "str":
        return [en.new_cell(s)], s, rest
    raise Unsupported("signature of %s" % f["q"])


def verify_parse(u, f, unroll=0, opts=None):
    en, init = start(u, "parse", unroll, opts, None)
    args, s, rest = text_args(en, u, f)

    def run():
        try:
            r = en.inline(f, None, args)
        except CppThrow as x:
            return parse_throw(en, f, x, s)
        en.enter(f)
        en.oblige("J13", "malformed text is not accepted", jparse_ok(s), assume_after=False)
        en.oblige("J13", "the document is what the text denotes", en.val(r) == jparse(s), assume_after=False)
        en.reached += 1
    en.paths = en.explore(init, run)
    return [en]


def parse_throw(en, f, x, s):
    en.enter(f)
    if not (isinstance(x.v, RecV) and x.v.kind == "parseres"):
        return False
    en.oblige("J13", "the parse error of the text is thrown, and only for malformed text", And(Not(x.v.f["ok"]), T.s_cstr(x.v.f["s"]) == T.s_cstr(s), Not(jparse_ok(s))), assume_after=False)
    return True


def verify_fromjson(u, f, unroll=0, opts=None):
    """fromJson(text) throws the parse error of malformed text and else yields what pull() specifies for a value-initialised object and
    the document; the errors are those of pull()."""
    engines = []
    ty = u.ty(f["ret"])
    check_specifiable(ty)
    for scenario in ("errors", "null"):
        en, init = start(u, scenario, unroll, opts, Contracts())
        engines.append(en)
        sp = Spec(en)
        args, s, rest = text_args(en, u, f)
        if len(rest) != 1 or u.ty(rest[0]).k != "ptr":
            raise Unsupported("signature of %s" % f["q"])
        ev = el = None
        if scenario == "errors":
            ev = fresh_errors(en)
            el = en.new_cell(ev)
            args.append(PtrV(False, el))
        else:
            args.append(PtrV(True, None))
        j = jparse(s)
        for x in T.json_facts(j):
            en.assume(x)

        def run(en=en, sp=sp, args=args, s=s, ev=ev, el=el, j=j):
            th = ev.f["throwOn"] if ev is not None else None
            v0 = z3.Const("vinit_" + ty.sig(), Val) if en.opaque(ty) else en.vinit(ty)
            if ev is not None:
                x = (cs_of(ev.f["currentRecord"]), cs_of(ev.f["currentMember"]), ev.f["currentIndex"])
                K, C = sp.logs(ty, j, ev.f["K"], ev.f["C"], x)
            en.st.ghost["default_ok"] = True
            try:
                r = en.inline(f, None, args)
            except CppThrow as exc:
                if parse_throw(en, f, exc, s):
                    if ev is not None:
                        now = en.load(el)
                        en.oblige("J13", "a parse error records nothing", And(now.f["K"] == ev.f["K"], now.f["C"] == ev.f["C"]), assume_after=False)
                    return
                en.fnstack.pop()
                en.enter(f)
                if ev is None or not (isinstance(exc.ty, type(ty)) and exc.ty.x.get("name") == ERR1):
                    en.oblige("J06", "nothing but parse errors and fatal deserialization errors is thrown", FALSE)
                    return
                now = en.load(el)
                last = last_error(en, now)
                g = [last.f[n] == exc.v.f[n] for n in ("kind", "expectedType", "actualType", "index")] + [
                    cs_of(last.f[n]) == cs_of(exc.v.f[n]) for n in ("record", "member")] + [LogK.is_lk_snoc(now.f["K"])]
                en.oblige("J06", "the thrown error is the last recorded one", And(*g))
                en.oblige("J06", "the thrown error is of a kind flagged as fatal", T.nfatal(now.f["K"], th) > T.nfatal(kprev(now.f["K"]), th))
                if not en.st.ghost.get("callee_threw"):
                    en.oblige("J06", "an error is only thrown if it is due", T.nfatal(K, th) > T.nfatal(ev.f["K"], th))
                return
            en.enter(f)
            en.oblige("J13", "malformed text is not accepted", jparse_ok(s), assume_after=False)
            en.oblige("J13", "the result is the value the text denotes", eqv(en.val(r), sp.pull(ty, v0, j)), assume_after=False)
            if ev is not None:
                now = en.load(el)
                en.oblige("J13", "exactly the specified errors are recorded", And(now.f["K"] == K), assume_after=False)
                en.oblige("J13", "errors are recorded in the given context", Implies(now.f["K"] == K, now.f["C"] == C), assume_after=False)
                en.oblige("J13", "record, member and index are restored", And(
                    cs_of(now.f["currentRecord"]) == cs_of(ev.f["currentRecord"]), cs_of(now.f["currentMember"]) == cs_of(ev.f["currentMember"]),
                    now.f["currentIndex"] == ev.f["currentIndex"]), assume_after=False)
                en.oblige("J06", "no fatal error is recorded without being thrown", T.nfatal(now.f["K"], th) == T.nfatal(ev.f["K"], th), assume_after=False)
            en.reached += 1
        en.paths = en.explore(init, run)
    return engines


def verify_as(u, f, unroll=0, opts=None):
    en, init = start(u, "as", unroll, opts, None)
    v = en.fresh_value(u.ty(f["pt"][0]), "value")
    vl = en.new_cell(v)

    def run():
        r = en.inline(f, None, [vl])
        en.enter(f)
        en.oblige("J13", "as() refers to the object itself", BoolVal(isinstance(r, Loc) and r == vl), assume_after=False)
        en.reached += 1
    en.paths = en.explore(init, run)
    return [en]


# ---- J12: messages ---------------------------------------------------------------------------------------------------
num2str = z3.Function("num2str", I, Str)
JSONTYPES = ["null", "number", "bool", "string", "array", "object"]
KINDTEXT = ["type mismatch", "array size mismatch", "conversion error", "unexpected duplicate", "invalid variant object", "invalid variant index"]


def pieces(en, a, t):
    """The text an argument contributes to a string built with CppUtilities' operator% / operator+ / argsToString."""
    v = en.val(a)
    if isinstance(v, StrP):
        return list(v.p)
    if isinstance(v, RecV) and v.kind == "strview":
        s = v.f["s"]
    elif isinstance(v, CharP):
        if not z3.is_false(v.null):
            en.oblige("J12", "no null pointer is put into a message", Not(v.null))
        s = T.s_cstr(v.s)
    elif isinstance(v, z3.ExprRef) and v.sort() == Str:
        s = v
    elif isinstance(v, z3.ExprRef) and v.sort() == I:
        raw = en.u.raw(en.u.noref(t))
        if raw["k"] == "int" and raw.get("p", "").endswith("char"):
            n = simp(v)
            if not z3.is_int_value(n):
                raise Unsupported("variable character in a message")
            return [chr(n.as_long() & 255)]
        n = simp(v)
        return [str(n.as_long())] if z3.is_int_value(n) else [num2str(v)]
    else:
        raise Unsupported("text of %r" % (v,))
    l = lit_of(s)
    return [l] if l is not None else [s]


@lib("CppUtilities::operator%", "CppUtilities::operator+", "CppUtilities::argsToString", "CppUtilities::tupleToString")
def _(en, fn, obj, args, e):
    out = []
    for a, x in zip(args, e["a"]):
        out += pieces(en, a, x["t"])
    return StrP(out)


@lib("CppUtilities::numberToString", "std::to_string")
def _(en, fn, obj, args, e):
    if len(args) != 1:
        return NotImplemented
    return StrP(pieces(en, args[0], e["a"][0]["t"]))


def verify_typestring(u, f, unroll=0, opts=None):
    en, init = start(u, "types", unroll, opts, None)

    def run():
        for i, want in enumerate(JSONTYPES):
            r = en.val(en.inline(f, None, [IntVal(i)]))
            en.enter(f)
            en.oblige("J12", "the name of the JSON type '%s' is right" % want, str_of(en, r) == lit(want), assume_after=False)
            en.leave()
        en.enter(f)
        en.reached += 1
    en.paths = en.explore(init, run)
    return [en]


def verify_format(u, f, unroll=0, opts=None):
    """formatJsonDeserializationError() mentions kind, record, member or index and for type mismatches both types (by cases over the
    kind and, for type mismatches, the types)."""
    engines = []
    et = u.ty(f["pt"][0])
    for kind in range(6):
        en, init = start(u, KINDNAME[kind], unroll, opts, None)
        engines.append(en)
        cases = [(a, b) for a in range(6) for b in range(6)] if kind == 0 else [(None, None)]
        ev = en.fresh_value(et, "error")
        for n in ("record", "member"):
            if not isinstance(ev.f.get(n), CharP):
                raise Unsupported("member %s of JsonDeserializationError" % n)

        def run(en=en, cases=cases, ev=ev, kind=kind):
            c = en.choose(len(cases))
            x, y = cases[c]
            r = ev.with_("kind", IntVal(kind))
            if x is not None:
                r = r.with_("expectedType", IntVal(x)).with_("actualType", IntVal(y))
            cell = en.new_cell(r)
            try:
                got = en.val(en.inline(f, None, [cell]))
            except CppThrow:
                en.enter(f)
                en.oblige("J12", "formatting does not throw", FALSE)
                return
            en.enter(f)
            rec, mem, idx = r.f["record"], r.f["member"], r.f["index"]
            info = [": expected \"%s\", got \"%s\"" % (JSONTYPES[x], JSONTYPES[y])] if x is not None else []
            if en.decide(rec.null):
                want = [KINDTEXT[kind] + " in document"] + info
            else:
                want = [KINDTEXT[kind] + " within record \"", T.s_cstr(rec.s), "\""]
                if not en.decide(mem.null):
                    want += [" and member \"", T.s_cstr(mem.s), "\""]
                elif en.decide(idx != IntVal(NOINDEX)):
                    want += [" and index \"", num2str(idx), "\""]
                want += info
            want = StrP(want)
            if isinstance(got, StrP):
                g = eqv(got, want)
            else:
                g = str_of(en, got) == strterm(want)
            en.oblige("J12", "the message states the kind, the place and the types", g, assume_after=False)
            en.reached += 1
        en.paths = en.explore(init, run)
    return engines


def targets(u):
    out = []
    for f in u.functions.values():
        if f.get("body") is None:
            continue
        q = f["q"]
        m = q.split("::")[-1]
        if not (q == NS + m or q == SER + m or q.startswith("ReflectiveRapidJSON::") and q.count("::") == 1):
            continue
        if q.startswith(SER) and m in ("toJson", "toJsonDocument") or q.startswith(NS) and m in ("toJson", "toJsonDocument"):
            out.append((f, verify_tojson))
        elif m == "fromJson":
            out.append((f, verify_fromjson))
        elif m == "parseJsonDocFromString":
            out.append((f, verify_parse))
        elif m == "serializeJsonDocToString":
            out.append((f, verify_serialize))
        elif m == "as":
            out.append((f, verify_as))
        elif m == "jsonTypeToString":
            out.append((f, verify_typestring))
        elif m == "formatJsonDeserializationError":
            out.append((f, verify_format))
    return out
