"""Contracts of the JSON reflector: what push() and pull() guarantee for every supported type.

push_spec/pull_spec/logk/logc are the specification functions; the contracts below say that each instantiation of
JsonReflector::push/pull computes exactly them. A call to such a function is replaced by its contract; the function itself
is verified against it (verify_*)."""
import z3
from z3 import And, Or, Not, If, Implies, IntVal, BoolVal
from .sym import *
from . import theory as T
from .theory import deffold
from .lib_std import LIB, lib, simp, is_strish, str_of
from .lib_rj import jtype, isnum, int_in, dbl, FLT_MAX
from .engine import Engine, Loc, Frame, State, CppThrow, PathEnd, Return
from .ir import Ty

MISMATCH, SIZEMISMATCH, CONVERSION, DUPLICATE, VOBJECT, VINDEX = range(6)
TNULL, TNUMBER, TBOOL, TSTRING, TARRAY, TOBJECT = range(6)
KINDNAME = ["TypeMismatch", "ArraySizeMismatch", "ConversionError", "UnexpectedDuplicate", "InvalidVariantObject", "InvalidVariantIndex"]
T.FLAG_OF_KIND.update({0: 1, 1: 2, 2: 4, 3: 8, 4: 0x10, 5: 0x20})
NOINDEX = (1 << 64) - 1
I = z3.IntSort()


def jsontype(j):
    """The JsonType of a JSON value."""
    return If(J.is_jnull(j), IntVal(TNULL), If(J.is_jbool(j), IntVal(TBOOL), If(J.is_jobj(j), IntVal(TOBJECT), If(
        J.is_jarr(j), IntVal(TARRAY), If(J.is_jstr(j), IntVal(TSTRING), IntVal(TNUMBER))))))


def of_rjtype(t):
    return If(t == 0, IntVal(TNULL), If(Or(t == 1, t == 2), IntVal(TBOOL), If(t == 3, IntVal(TOBJECT), If(
        t == 4, IntVal(TARRAY), If(t == 5, IntVal(TSTRING), If(t == 6, IntVal(TNUMBER), IntVal(TNULL)))))))


def expected(ty):
    k = ty.k
    if k in ("int", "f64", "f32", "enum"):
        return TNUMBER
    if k == "bool":
        return TBOOL
    if k in ("str", "cstr", "strview", "chrono"):
        return TSTRING
    if k in ("seq", "flist", "set", "mset", "tuple", "pair", "array"):
        return TARRAY
    return TOBJECT


def opq(ty):
    return ty.k == "rec" and ty.x["name"].split("::")[-1].startswith("Opq")


def by_object(ty):
    """Opaque types whose push/pull is declared on objects."""
    return ty.x["name"].split("::")[-1] in ("OpqC", "OpqS", "OpqR")


def chrono_str(ty):
    """The library's conversions between ticks and text (toIsoString/fromIsoStringGmt, toString/fromString)."""
    return z3.Function("text_of_" + ty.sig(), I, Str)


def chrono_ok(ty):
    return z3.Function("is_text_of_" + ty.sig(), Str, z3.BoolSort())


def chrono_from(ty):
    return z3.Function("value_of_" + ty.sig(), Str, I)


class Spec:
    """The specification functions for one engine (they box/unbox element values through it)."""

    def __init__(self, en):
        self.en = en

    # ---- C++ -> JSON
    def push(self, ty, v):
        k, en = ty.k, self.en
        if opq(ty):
            if by_object(ty):
                return J.jobj(z3.Function("PUSHO_" + ty.sig(), Val, MSeq, MSeq)(v, MSeq.mnil))
            return z3.Function("PUSH_" + ty.sig(), Val, J)(v)
        if k in ("int", "enum"):
            return J.jint(v)
        if k == "bool":
            return J.jbool(v)
        if k == "f64":
            return J.jdbl(v)
        if k == "f32":
            return J.jdbl(f64_of_f32(v))
        if k == "str":
            return J.jstr(v)
        if k == "cstr":
            return iteJ(v.null, J.jnull, J.jstr(T.s_cstr(v.s)))
        if k == "strview":
            return iteJ(v.f["null"], J.jnull, J.jstr(v.f["s"]))
        if k == "chrono":
            return J.jstr(chrono_str(ty)(v.f["ticks"]))
        if k in ("opt", "uptr", "sptr"):
            return iteJ(v.f["has"], self.push(ty.a[0], v.f["v"]), J.jnull)
        if k == "pair":
            return J.jarr(JSeq.jsnoc(JSeq.jsnoc(JSeq.jnil, self.push(ty.a[0], v.f["first"])), self.push(ty.a[1], v.f["second"])))
        if k == "tuple":
            r = JSeq.jnil
            for i, t in enumerate(ty.a):
                r = JSeq.jsnoc(r, self.push(t, v.f[str(i)]))
            return J.jarr(r)
        if k == "monostate":
            return J.jnull
        if k == "variant":
            d = J.jnull
            for i, t in reversed(list(enumerate(ty.a))):
                if t.k != "monostate":
                    d = iteJ(v.f["idx"] == i, self.push(t, v.f[str(i)]), d)
            o = MSeq.msnoc(MSeq.msnoc(MSeq.mnil, lit("index"), J.jint(v.f["idx"])), lit("data"), d)
            return iteJ(v.f["vl"], J.jnull, J.jobj(o))
        if k in ("seq", "flist", "set", "mset"):
            return J.jarr(self.push_items(ty, v, T.SIZE[k](v)))
        if k in ("map", "mmap"):
            return J.jobj(self.push_members(ty, v, T.SIZE[k](v)))
        raise Unsupported("no JSON specification for %r" % ty)

    def push_items(self, ty, v, k):
        en, et = self.en, ty.a[0]
        at = T.AT[ty.k]
        f = deffold("pushitems_" + ty.sig(), [CONT_SORT[ty.k]], JSeq, lambda s: JSeq.jnil,
                    lambda s, k, p: JSeq.jsnoc(p, self.push(et, en.unbox(at(s, k), et))))
        return f(v, k)

    def push_members(self, ty, v, k):
        en, kt, vt = self.en, ty.a[0], ty.a[1]
        if ty.k == "map":
            def step(m, k, p):
                return MSeq.msnoc(p, en.unbox(T.mp_keyat(m, k), kt), self.push(vt, en.unbox(T.mp_valat(m, k), vt)))
        else:
            def step(m, k, p):
                n = en.unbox(T.mm_keyat(m, k), kt)
                x = self.push(vt, en.unbox(T.mm_valat(m, k), vt))
                i = T.mfind(p, n)
                return If(i < T.mlen(p), T.mset(p, i, J.jarr(JSeq.jsnoc(J.aval(T.mval(p, i)), x))),
                          MSeq.msnoc(p, n, J.jarr(JSeq.jsnoc(JSeq.jnil, x))))
        return deffold("pushmembers_" + ty.sig(), [CONT_SORT[ty.k]], MSeq, lambda m: MSeq.mnil, step)(v, k)

    # ---- JSON -> C++
    def mismatch(self, ty, j):
        k = ty.k
        if opq(ty):
            return Not(J.is_jobj(j)) if by_object(ty) else FALSE
        if k in ("int", "f64", "f32"):
            return Not(isnum(j))
        if k == "enum":
            return Not(int_in(j, 64, ty.a[0].k == "int" and ty.a[0].x["signed"]))
        if k == "bool":
            return Not(J.is_jbool(j))
        if k in ("str", "cstr", "strview", "chrono"):
            return Not(J.is_jstr(j))
        if k in ("opt", "uptr", "sptr"):
            return FALSE
        e = expected(ty)
        return Not(J.is_jarr(j)) if e == TARRAY else Not(J.is_jobj(j))

    def convertible(self, ty, j):
        """A number (integer for enumerations) the target type can take."""
        if ty.k == "chrono":
            return chrono_ok(ty)(T.s_cstr(J.sval(j)))
        if ty.k == "enum":
            u = ty.a[0]
            lo, hi = (0, 1) if u.k == "bool" else (INT_MIN[u.x["bits"], u.x["signed"]], INT_MAX[u.x["bits"], u.x["signed"]])
            return And(J.ival(j) >= lo, J.ival(j) <= hi)
        d = J.dval(j)
        if ty.k == "int":
            lo, hi = INT_MIN[ty.x["bits"], ty.x["signed"]], INT_MAX[ty.x["bits"], ty.x["signed"]]
            r = f64real(d)
            return If(J.is_jint(j), And(J.ival(j) >= lo, J.ival(j) <= hi), And(Not(f64nan(d)), f64inf(d) == 0, r > lo - 1, r < hi + 1))
        if ty.k == "f32":
            d = dbl(j)
            r = f64real(d)
            return Or(f64nan(d), f64inf(d) != 0, And(r >= -FLT_MAX, r <= FLT_MAX))
        return TRUE

    def pull(self, ty, v0, j):
        k, en = ty.k, self.en
        if opq(ty):
            if by_object(ty):
                return If(J.is_jobj(j), z3.Function("PULLO_" + ty.sig(), Val, MSeq, Val)(v0, J.oval(j)), v0)
            return z3.Function("PULL_" + ty.sig(), Val, J, Val)(v0, j)
        ok = Not(self.mismatch(ty, j))
        if k == "int":
            r = f64real(J.dval(j))
            n = If(J.is_jint(j), J.ival(j), If(r >= 0, z3.ToInt(r), -z3.ToInt(-r)))
            return If(And(ok, self.convertible(ty, j)), n, v0)
        if k == "enum":
            return If(And(ok, self.convertible(ty, j)), J.ival(j), v0)
        if k == "f64":
            return If(ok, dbl(j), v0)
        if k == "f32":
            return If(And(ok, self.convertible(ty, j)), f32_of_f64(dbl(j)), v0)
        if k == "chrono":
            return RecV("chrono", {"ticks": If(And(ok, self.convertible(ty, j)), chrono_from(ty)(T.s_cstr(J.sval(j))), v0.f["ticks"])}, ty)
        if k == "bool":
            return If(ok, J.bval(j), v0)
        if k == "str":
            return If(ok, J.sval(j), v0)
        if k in ("cstr", "strview"):
            return v0
        if k in ("opt", "uptr", "sptr"):
            inner = self.pull(ty.a[0], en.vinit(ty.a[0]), j)
            return RecV(k, {"has": Not(J.is_jnull(j)), "v": inner}, ty)
        if k in ("pair", "tuple"):
            a = J.aval(j)
            ok = And(ok, T.jlen(a) == len(ty.a))
            names = ["first", "second"] if k == "pair" else [str(i) for i in range(len(ty.a))]
            return itev(ok, RecV(k, {n: self.pull(t, v0.f[n], T.jat(a, IntVal(i))) for i, (n, t) in enumerate(zip(names, ty.a))}, ty), v0)
        if k == "monostate":
            return v0
        if k == "variant":
            o = J.oval(j)
            i, d = T.mfind(o, lit("index")), T.mfind(o, lit("data"))
            n = J.ival(T.mval(o, i))
            ok = And(ok, i < T.mlen(o), d < T.mlen(o), int_in(T.mval(o, i), 64, False), n < len(ty.a))
            f = {"vl": FALSE, "idx": n}
            for x, t in enumerate(ty.a):
                f[str(x)] = self.pull(t, en.vinit(t), T.mval(o, d)) if t.k != "monostate" else en.vinit(t)
            return itev(ok, RecV("variant", f, ty), v0)
        if k in ("seq", "set", "mset"):
            return If(ok, self.items(ty, J.aval(j), T.jlen(J.aval(j))), v0)
        if k in ("map", "mmap"):
            return If(ok, self.members(ty, J.oval(j), T.mlen(J.oval(j))), v0)
        raise Unsupported("no JSON specification for %r" % ty)

    def item(self, ty, j):
        """The element made of the JSON value j (elements start out value-initialised)."""
        et = ty.a[0]
        return self.en.box(self.pull(et, self.en.vinit(et), j), et)

    def items(self, ty, js, k):
        ins = {"seq": T.seq_push, "set": T.set_ins, "mset": T.ms_ins}[ty.k]
        return deffold("items_" + ty.sig(), [JSeq], CONT_SORT[ty.k], lambda s: T.EMPTY[ty.k],
                       lambda s, k, p: ins(p, self.item(ty, T.jat(s, k))))(js, k)

    def arr_members(self, ty, js, key, m0, k):
        vt = ty.a[1]
        return deffold("arrmembers_" + ty.sig(), [JSeq, Val, MMapS], MMapS, lambda s, key, m: m,
                       lambda s, key, m, k, p: T.mm_ins(p, key, self.en.box(self.pull(vt, self.en.vinit(vt), T.jat(s, k)), vt)))(js, key, m0, k)

    def members(self, ty, ms, k):
        en, kt, vt = self.en, ty.a[0], ty.a[1]
        if ty.k == "map":
            def step(o, k, p):
                key = en.box(T.mname(o, k), kt)
                v0 = itev(T.m_has(p, key), en.unbox(T.m_get(p, key), vt), en.vinit(vt))
                return T.mp_put(p, key, en.box(self.pull(vt, v0, T.mval(o, k)), vt))
        else:
            def step(o, k, p):
                key, x = en.box(T.mname(o, k), kt), T.mval(o, k)
                return If(J.is_jarr(x), self.arr_members(ty, J.aval(x), key, p, T.jlen(J.aval(x))),
                          T.mm_ins(p, key, en.box(self.pull(vt, en.vinit(vt), x), vt)))
        return deffold("members_" + ty.sig(), [MSeq], CONT_SORT[ty.k], lambda o: T.EMPTY[ty.k], step)(ms, k)

    # ---- errors: what is recorded (logk) and in which context (logc)
    def logs(self, ty, j, K, C, x):
        """(K', C') after deserializing j; x = (record, member, index) at the start."""
        k, en = ty.k, self.en
        if opq(ty):
            if by_object(ty):
                n = ty.sig()
                return (If(J.is_jobj(j), T.appender(z3.Function("KLOGO_" + n, MSeq, LogK, LogK), 1)(J.oval(j), K), self.rep(K, MISMATCH, TOBJECT, jsontype(j))),
                        If(J.is_jobj(j), z3.Function("CLOGO_" + n, MSeq, LogC, CS, CS, I, LogC)(J.oval(j), C, *x), LogC.lc_snoc(C, *x)))
            return (T.appender(z3.Function("KLOG_" + ty.sig(), J, LogK, LogK), 1)(j, K),
                    z3.Function("CLOG_" + ty.sig(), J, LogC, CS, CS, I, LogC)(j, C, *x))
        mm = self.mismatch(ty, j)
        bad = (self.rep(K, MISMATCH, expected(ty), jsontype(j)), LogC.lc_snoc(C, *x))
        if k in ("int", "f32", "enum"):
            return pick(mm, bad, pick(self.convertible(ty, j), (K, C), (self.rep(K, CONVERSION, TNUMBER, TNUMBER), LogC.lc_snoc(C, *x))))
        if k == "chrono":
            return pick(mm, bad, pick(self.convertible(ty, j), (K, C), (self.rep(K, CONVERSION, TSTRING, TSTRING), LogC.lc_snoc(C, *x))))
        if k in ("f64", "bool", "str", "cstr", "strview"):
            return pick(mm, bad, (K, C))
        if k in ("opt", "uptr", "sptr"):
            return pick(J.is_jnull(j), (K, C), self.logs(ty.a[0], j, K, C, x))
        if k in ("pair", "tuple"):
            a = J.aval(j)
            cur = (K, C)
            for i, t in enumerate(ty.a):
                cur = self.logs(t, T.jat(a, IntVal(i)), cur[0], cur[1], x)
            return pick(mm, bad, pick(T.jlen(a) == len(ty.a), cur, (self.rep(K, SIZEMISMATCH, TARRAY, TARRAY), LogC.lc_snoc(C, *x))))
        if k == "variant":
            o = J.oval(j)
            i, d = T.mfind(o, lit("index")), T.mfind(o, lit("data"))
            iv = T.mval(o, i)
            n = J.ival(iv)
            c1 = LogC.lc_snoc(C, *x)
            r = (self.rep(K, VINDEX, TNUMBER, TNUMBER), c1)
            for a, t in enumerate(ty.a):
                r = pick(n == a, (K, C) if t.k == "monostate" else self.logs(t, T.mval(o, d), K, C, x), r)
            r = pick(int_in(iv, 64, False), r, (self.rep(K, VINDEX, TNUMBER, jsontype(iv)), c1))
            return pick(mm, bad, pick(Or(i >= T.mlen(o), d >= T.mlen(o)), (self.rep(K, VOBJECT, TOBJECT, TOBJECT), c1), r))
        if k in ("seq", "set", "mset"):
            a = J.aval(j)
            return pick(mm, bad, self.items_logs(ty, a, K, C, x, T.jlen(a)))
        if k in ("map", "mmap"):
            o = J.oval(j)
            return pick(mm, bad, self.members_logs(ty, o, K, C, x, T.mlen(o)))
        raise Unsupported("no JSON specification for %r" % ty)

    def rep(self, K, kind, exp, act):
        return LogK.lk_snoc(K, IntVal(kind), exp if isinstance(exp, z3.ExprRef) else IntVal(exp), act if isinstance(act, z3.ExprRef) else IntVal(act))

    def items_logs(self, ty, js, K, C, x, k):
        et = ty.a[0]
        dummyC, dx = LogC.lc_base(IntVal(0)), (CS.csnull, CS.csnull, IntVal(0))

        def kstep(s, K, k, p):
            k1 = self.logs(et, T.jat(s, k), p, dummyC, dx)[0]
            if ty.k == "set":
                return If(T.set_has(self.items(ty, s, k), self.item(ty, T.jat(s, k))), self.rep(k1, DUPLICATE, TARRAY, TARRAY), k1)
            return k1

        def cstep(s, C, rec, mem, k, p):
            c1 = self.logs(et, T.jat(s, k), LogK.lk_base(IntVal(0)), p, (rec, mem, k))[1]
            if ty.k == "set":
                return If(T.set_has(self.items(ty, s, k), self.item(ty, T.jat(s, k))), LogC.lc_snoc(c1, rec, mem, k), c1)
            return c1
        kf = T.deflog("itemsk_" + ty.sig(), [JSeq, LogK], 1, kstep)
        cf = deffold("itemsc_" + ty.sig(), [JSeq, LogC, CS, CS], LogC, lambda s, C, r, m: C, cstep)
        return kf(js, K, k), cf(js, C, x[0], x[1], k)

    def members_logs(self, ty, ms, K, C, x, k):
        vt = ty.a[1]
        n = ty.sig()
        dummyC, dx, dummyK = LogC.lc_base(IntVal(0)), (CS.csnull, CS.csnull, IntVal(0)), LogK.lk_base(IntVal(0))

        def kstep(o, K, k, p):
            v = T.mval(o, k)
            one = self.logs(vt, v, p, dummyC, dx)[0]
            return one if ty.k == "map" else If(J.is_jarr(v), self.arr_logs(ty, J.aval(v), p, dummyC, dx, T.jlen(J.aval(v)))[0], one)

        def cstep(o, C, rec, mem, idx, k, p):
            v = T.mval(o, k)
            one = self.logs(vt, v, dummyK, p, (rec, mem, idx))[1]
            return one if ty.k == "map" else If(J.is_jarr(v), self.arr_logs(ty, J.aval(v), dummyK, p, (rec, mem, idx), T.jlen(J.aval(v)))[1], one)
        kf = T.deflog("membersk_" + n, [MSeq, LogK], 1, kstep)
        cf = deffold("membersc_" + n, [MSeq, LogC, CS, CS, I], LogC, lambda o, C, r, m, i: C, cstep)
        return kf(ms, K, k), cf(ms, C, x[0], x[1], x[2], k)

    def arr_logs(self, ty, js, K, C, x, k):
        vt = ty.a[1]
        n = ty.sig()
        dummyC, dx, dummyK = LogC.lc_base(IntVal(0)), (CS.csnull, CS.csnull, IntVal(0)), LogK.lk_base(IntVal(0))
        kf = T.deflog("arrk_" + n, [JSeq, LogK], 1, lambda s, K, k, p: self.logs(vt, T.jat(s, k), p, dummyC, dx)[0])
        cf = deffold("arrc_" + n, [JSeq, LogC, CS, CS, I], LogC, lambda s, C, r, m, i: C,
                     lambda s, C, r, m, i, k, p: self.logs(vt, T.jat(s, k), dummyK, p, (r, m, i))[1])
        return kf(js, K, k), cf(js, C, x[0], x[1], x[2], k)


def kprev(K):
    return K.arg(0) if T.app(K, LogK.lk_snoc) else LogK.kprev(K)


def iteJ(c, a, b):
    c = simp(c)
    return a if z3.is_true(c) else b if z3.is_false(c) else If(c, a, b)


def pick(c, a, b):
    c = simp(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    return tuple(x if x.eq(y) else If(c, x, y) for x, y in zip(a, b))


# ---- model of JsonDeserializationErrors: a vector of errors plus the current context ---------------------------------
ERR = "ReflectiveRapidJSON::JsonDeserializationErrors"
ERR1 = "ReflectiveRapidJSON::JsonDeserializationError"


def fresh_errors(en, ty=None, p="err"):
    th = en.fresh(I, p + ".throwOn")
    idx = en.fresh(I, p + ".index")
    en.assume(And(th >= 0, th <= 255, idx >= 0, idx <= NOINDEX))
    return RecV("errors", {
        "K": en.fresh(LogK, p + ".K"), "C": en.fresh(LogC, p + ".C"),
        "currentRecord": CharP(en.fresh(z3.BoolSort(), p + ".record.null"), en.fresh(Str, p + ".record")),
        "currentMember": CharP(en.fresh(z3.BoolSort(), p + ".member.null"), en.fresh(Str, p + ".member")),
        "currentIndex": idx, "throwOn": th}, ty)


@lib("alloc:" + ERR)
def _(en, t):
    return RecV("errors", {"K": LogK.lk_base(IntVal(0)), "C": LogC.lc_base(IntVal(0)), "currentRecord": UNINIT, "currentMember": UNINIT,
                           "currentIndex": UNINIT, "throwOn": UNINIT}, t)


LIB["fresh:" + ERR] = lambda en, ty, p: fresh_errors(en, ty, p)


@lib("baseinit")
def _(en, f, t, i, cell, fr):
    pass


def is_errors(en, obj):
    return isinstance(obj, Loc) and isinstance(en.load(obj), RecV) and en.load(obj).kind == "errors"


def err_ty(en):
    for k, r in en.u.types.items():
        if r.get("k") == "rec" and r.get("name") == ERR1:
            return en.u.ty(k)
    raise Unsupported("JsonDeserializationError")


def ptr2charp(v):
    if isinstance(v, PtrV):
        return CharP(TRUE, lit(""), True)
    return v


def record_error(en, loc, rec):
    ev = en.load(loc)
    f = rec.f
    K = LogK.lk_snoc(ev.f["K"], f["kind"], f["expectedType"], f["actualType"])
    C = LogC.lc_snoc(ev.f["C"], cs_of(f["record"]), cs_of(f["member"]), f["index"])
    en.store(loc, ev.with_("K", K).with_("C", C))


def last_error(en, ev):
    K, C = ev.f["K"], ev.f["C"]
    if T.app(K, LogK.lk_snoc):
        kk, ke, ka = K.arg(1), K.arg(2), K.arg(3)
    else:
        kk, ke, ka = LogK.kkind(K), LogK.kexp(K), LogK.kact(K)
    if T.app(C, LogC.lc_snoc):
        cr, cm, ci = C.arg(1), C.arg(2), C.arg(3)
    else:
        cr, cm, ci = LogC.crec(C), LogC.cmem(C), LogC.cidx(C)
    return RecV("rec", {"kind": kk, "expectedType": ke, "actualType": ka, "record": cs_charp(cr), "member": cs_charp(cm), "index": ci}, err_ty(en))


def cs_charp(c):
    c = simp(c)
    if T.app(c, CS.csnull):
        return CharP(TRUE, lit(""), True)
    if T.app(c, CS.cs):
        return CharP(FALSE, c.arg(0))
    return CharP(CS.is_csnull(c), CS.csv(c))


@lib("std::vector::emplace_back", "std::vector::push_back")
def _(en, fn, obj, args, e):
    if not is_errors(en, obj):
        return NotImplemented
    vals = [en.val(a) for a in args]
    if len(vals) == 1 and isinstance(vals[0], RecV):
        record_error(en, obj, vals[0])
        return obj
    n = [f for f in en.u.functions.values() if f["kind"] == "ctor" and f.get("cls") == ERR1 and len(f["params"]) == 6]
    if not n or n[0].get("body") is None:
        raise Unsupported("constructor of JsonDeserializationError")
    if len(vals) < 5:
        vals.append(CharP(TRUE, lit(""), True))
    if len(vals) < 6:
        vals.append(IntVal(NOINDEX))
    r = en.run_ctor(n[0], err_ty(en), [ptr2charp(v) for v in vals])
    record_error(en, obj, r)
    return en.new_cell(r)


@lib("std::vector::back")
def _(en, fn, obj, args, e):
    if not is_errors(en, obj):
        return NotImplemented
    return en.new_cell(last_error(en, en.load(obj)))


CONVEX = Ty("rec", name="CppUtilities::ConversionException")


@lib("CppUtilities::DateTime::toIsoString", "CppUtilities::TimeSpan::toString")
def _(en, fn, obj, args, e):
    ty = en.u.ty(e["obj"]["t"])
    if ty.k == "ptr":
        ty = ty.a[0]
    for a, x in zip(args, e["a"]):
        if x["e"] != "defarg" and not default_arg(en, en.val(a), x):
            raise Unsupported("format of %s" % fn["q"])
    return chrono_str(ty)(en.val(obj).f["ticks"])


def default_arg(en, v, x):
    """The default output format / time zone."""
    if isinstance(v, RecV) and v.kind == "chrono":
        v = v.f["ticks"]
    v = simp(v) if isinstance(v, z3.ExprRef) else v
    return isinstance(v, z3.ExprRef) and (z3.is_false(v) or z3.is_int_value(v) and v.as_long() == 0)


@lib("CppUtilities::DateTime::fromIsoStringGmt", "CppUtilities::TimeSpan::fromString")
def _(en, fn, obj, args, e):
    ty = en.u.ty(fn["ret"]) if "ret" in fn else en.u.ty(e["t"])
    s = T.s_cstr(str_of(en, args[0]))
    for a, x in zip(args[1:], e["a"][1:]):
        if not (z3.is_int_value(simp(en.val(a))) and simp(en.val(a)).as_long() == 58):
            raise Unsupported("separator of %s" % fn["q"])
    if en.decide(chrono_ok(ty)(s)):
        r = chrono_from(ty)(s)
        t = en.chrono_ticks(ty)
        en.assume(And(r >= INT_MIN[64, t.x["signed"]], r <= INT_MAX[64, t.x["signed"]]))
        return RecV("chrono", {"ticks": r}, ty)
    raise CppThrow(RecV("rec", {}, CONVEX), CONVEX)


# ---- contracts ------------------------------------------------------------------------------------------------------
PUSH, PULL = "ReflectiveRapidJSON::JsonReflector::push", "ReflectiveRapidJSON::JsonReflector::pull"


def pull_shape(u, pt):
    """Which overload: value / array / object / member / iter."""
    def n(t):
        t = u.noref(t)
        x = u.types[t]
        return x.get("name", "") if x["k"] == "rec" else x["k"]
    if len(pt) == 4:
        return "member" if u.types[u.noref(pt[1])]["k"] == "ptr" else None
    if len(pt) != 3:
        return None
    a = n(pt[1])
    if a == "rapidjson::GenericValue" or a == "rapidjson::GenericDocument":
        return "value"
    if a == "rapidjson::GenericArray":
        return "array"
    if a == "rapidjson::GenericObject":
        return "object"
    if a == "ptr":
        return "iter"
    return None


class Contracts:
    """Contracts of push/pull, applied at call sites."""

    def __init__(self):
        self.names = set()

    def find(self, en, fn, obj, args):
        q = fn["q"]
        if q == PUSH or q == PULL:
            sh = pull_shape(en.u, fn["pt"])
            if sh is None:
                return None
            ty = en.u.ty(fn["pt"][0])
            try:
                check_specifiable(ty)
            except Unsupported:
                return None
            return Call(q, sh, ty)
        if q == "ReflectiveRapidJSON::jsonType" and len(args) == 1:
            return JsonTypeCall()
        return None


SPECIFIED = {"int", "enum", "bool", "f64", "f32", "str", "cstr", "strview", "opt", "uptr", "sptr", "pair", "tuple", "monostate", "variant",
             "seq", "flist", "set", "mset", "map", "mmap", "chrono"}


def check_specifiable(ty):
    if opq(ty):
        return
    if ty.k not in SPECIFIED:
        raise Unsupported("type %r has no JSON specification" % ty)
    for t in ty.a:
        if isinstance(t, Ty) and t.k != "rj" and not (t.k == "rec" and t.x["name"].startswith("std::")):
            check_specifiable(t)


class JsonTypeCall:
    name = "jsonType(RAPIDJSON_NAMESPACE::Type)"

    def apply(self, en, fn, obj, args):
        t = en.val(args[0])
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and t.arg(0).num_args() == 1 and t.arg(0).arg(0).sort() == J and jtype(t.arg(0).arg(0)).eq(t):
            return jsontype(t.arg(0).arg(0))
        return of_rjtype(t)


class Call:
    def __init__(self, q, shape, ty):
        self.q, self.shape, self.ty = q, shape, ty
        self.name = "%s<%s>(%s)" % (q.split("::")[-1], ty.sig(), shape)

    def apply(self, en, fn, obj, args):
        return self.push(en, args) if self.q == PUSH else self.pull(en, args)

    def jloc(self, en, a):
        v = en.load(a) if isinstance(a, Loc) else a
        if isinstance(v, ProxyV):
            return v.loc
        return a

    def push(self, en, args):
        sp = Spec(en)
        v = en.val(args[0])
        if self.shape == "member":
            name = en.val(args[1])
            en.oblige("J10", "the member name is copied into the document or has static lifetime", BoolVal(isinstance(name, CharP) and name.static))
            loc = self.jloc(en, args[2])
            j = en.load(loc)
            en.oblige("J03", "members are only added to an object", J.is_jobj(j))
            en.store(loc, J.jobj(MSeq.msnoc(J.oval(j), str_of(en, name), sp.push(self.ty, v))))
            return None
        loc = self.jloc(en, args[1])
        if self.shape == "array":
            j = en.load(loc)
            en.oblige("J03", "items are only added to an array", J.is_jarr(j))
            en.store(loc, J.jarr(JSeq.jsnoc(J.aval(j), sp.push(self.ty, v))))
        elif self.shape == "object":
            j = en.load(loc)
            en.oblige("J03", "members are only added to an object", J.is_jobj(j))
            en.store(loc, J.jobj(push_into_object(sp, self.ty, v, J.oval(j))))
        else:
            en.store(loc, sp.push(self.ty, v))
        return None

    def pull(self, en, args):
        sp = Spec(en)
        tl = args[0]
        if not isinstance(tl, Loc):
            raise Unsupported("pull into a temporary")
        v0 = en.load(tl)
        if isinstance(v0, Uninit):
            v0 = en.fresh_value(self.ty, "indeterminate")
        errs = en.val(args[-1])
        a = args[1]
        name = None
        present = TRUE
        if self.shape == "member":
            name = en.val(args[1])
            o = en.load(self.jloc(en, args[2]))
            p = T.mfind(J.oval(o), str_of(en, name))
            en.oblige("J03", "members are only looked up in an object", J.is_jobj(o))
            present = p < T.mlen(J.oval(o))
            j = T.mval(J.oval(o), p)
        elif self.shape == "iter":
            it = en.val(a)
            j = en.load(en.deref(it))
            en.store(a, IterV(it.kind, it.loc, simp(it.pos + 1), it.ty))
        else:
            j = en.load(self.jloc(en, a))
            if self.shape == "array":
                en.oblige("J03", "the value passed as array is one", J.is_jarr(j))
            if self.shape == "object":
                en.oblige("J03", "the value passed as object is one", J.is_jobj(j))
        v1 = itev(present, sp.pull(self.ty, v0, j), v0)
        n = as_bool(errs.null)
        if not z3.is_true(n) and (z3.is_false(n) or not en.decide(n)):
            el = errs.loc
            ev = en.load(el)
            x = (cs_of(ev.f["currentRecord"]), cs_of(name) if name is not None else cs_of(ev.f["currentMember"]), ev.f["currentIndex"])
            K, C = sp.logs(self.ty, j, ev.f["K"], ev.f["C"], x)
            if not z3.is_true(simp(present)):
                K, C = If(present, K, ev.f["K"]), If(present, C, ev.f["C"])
            th = ev.f["throwOn"]
            if en.choose(2) == 1:
                en.assume(T.nfatal(K, th) > T.nfatal(ev.f["K"], th))
                en.st.ghost["callee_threw"] = True
                en.store(tl, en.havoc_value(v0, "thrown"))
                nk = LogK.lk_snoc(en.fresh(LogK, "thrown.K"), en.fresh(I, "thrown.kind"), en.fresh(I, "thrown.exp"), en.fresh(I, "thrown.act"))
                nc = LogC.lc_snoc(en.fresh(LogC, "thrown.C"), en.fresh(CS, "thrown.rec"), en.fresh(CS, "thrown.mem"), en.fresh(I, "thrown.idx"))
                en.assume(T.nfatal(nk, th) == T.nfatal(nk.arg(0), th) + 1)
                ne = fresh_errors(en, ev.ty, "thrown.ctx").with_("K", nk).with_("C", nc).with_("throwOn", th)
                en.store(el, ne)
                raise CppThrow(last_error(en, ne), err_ty(en))
            en.store(el, ev.with_("K", K).with_("C", C))
            en.assume(T.nfatal(K, th) == T.nfatal(ev.f["K"], th))
        en.store(tl, v1)
        return None


def push_into_object(sp, ty, v, o):
    if opq(ty):
        return z3.Function("PUSHO_" + ty.sig(), Val, MSeq, MSeq)(v, o)
    raise Unsupported("push of %r into an object" % ty)


# ---- verification of one function against its contract ---------------------------------------------------------------
def value_tag(ty):
    k = ty.k
    if k in ("int", "f64", "f32", "enum", "bool"):
        return "J11"
    if k in ("seq", "set", "mset", "map", "mmap", "flist"):
        return "J07"
    if k in ("tuple", "pair", "variant", "opt", "uptr", "sptr", "monostate"):
        return "J08"
    if k in ("str", "cstr", "strview"):
        return "J01"
    if k == "chrono":
        return "J14"
    return "J09"


def fold_roles(sp, ty, j, mode, ev, src):
    """Candidate invariants of loops over JSON values / containers: the spec folds at the loop counter."""
    en = sp.en

    def roles(_, kstack):
        out = []
        if mode == "pull":
            if ty.k in ("seq", "set", "mset"):
                a = J.aval(j)
                out.append(("items", lambda k: sp.items(ty, a, k)))
                if ev is not None:
                    x = (cs_of(ev.f["currentRecord"]), cs_of(ev.f["currentMember"]), ev.f["currentIndex"])
                    out.append(("itemsk", lambda k: sp.items_logs(ty, a, ev.f["K"], ev.f["C"], x, k)[0]))
                    out.append(("itemsc", lambda k: sp.items_logs(ty, a, ev.f["K"], ev.f["C"], x, k)[1]))
                    out.append(("index-before", lambda k: If(k == 0, ev.f["currentIndex"], k - 1)))
            if ty.k in ("map", "mmap"):
                o = J.oval(j)
                out.append(("members", lambda k: sp.members(ty, o, k)))
                if ev is not None:
                    x = (cs_of(ev.f["currentRecord"]), cs_of(ev.f["currentMember"]), ev.f["currentIndex"])
                    out.append(("membersk", lambda k: sp.members_logs(ty, o, ev.f["K"], ev.f["C"], x, k)[0]))
                    out.append(("membersc", lambda k: sp.members_logs(ty, o, ev.f["K"], ev.f["C"], x, k)[1]))
                if ty.k == "mmap" and kstack:
                    k0 = kstack[-1]
                    js = J.aval(T.mval(o, k0))
                    key = en.box(T.mname(o, k0), ty.a[0])
                    out.append(("arr", lambda k: sp.arr_members(ty, js, key, sp.members(ty, o, k0), k)))
                    if ev is not None:
                        def inner(i):
                            def t(k):
                                kk, cc = sp.members_logs(ty, o, ev.f["K"], ev.f["C"], x, k0)
                                return sp.arr_logs(ty, js, kk, cc, x, k)[i]
                            return t
                        out.append(("arrk", inner(0)))
                        out.append(("arrc", inner(1)))
        else:
            if ty.k in ("seq", "flist", "set", "mset"):
                out.append(("pushitems", lambda k: J.jarr(sp.push_items(ty, src, k))))
            if ty.k in ("map", "mmap"):
                out.append(("pushmembers", lambda k: J.jobj(sp.push_members(ty, src, k))))
        return out
    return roles


def extra_candidates(ev, allarr=False):
    def extra(en, M, v0s, kstack):
        out = []
        for i, v0 in enumerate(v0s):
            if v0 is None or isinstance(v0, (ProxyV, LamV, FnV, Uninit)):
                continue
            for j, t0 in enumerate(leaves(v0)):
                if t0.sort() == LogK and ev is not None:
                    th = ev.f["throwOn"]
                    out.append(("%d.%d nfatal" % (i, j), lambda vals, k, i=i, j=j: T.nfatal(leaves(vals[i])[j], th) == T.nfatal(ev.f["K"], th)))
                if t0.sort() == J:
                    out.append(("%d.%d allarr" % (i, j), lambda vals, k, i=i, j=j: And(J.is_jobj(leaves(vals[i])[j]), T.allarr(J.oval(leaves(vals[i])[j])))))
        return out
    return extra


def verify_pull(u, f, unroll=0, opts=None):
    """Engine with the obligations of one pull() function."""
    sh = pull_shape(u, f["pt"])
    ty = u.ty(f["pt"][0])
    check_specifiable(ty)
    engines = []
    for scenario in ("errors", "null"):
        en = Engine(u, Contracts(), LIB, dict(opts or {}, unroll=unroll))
        en.scenario = scenario
        engines.append(en)
        init = State()
        en.st = init
        en.trace, en.pos, en.alts, en.prefix_len = [], 0, [], 0
        sp = Spec(en)
        v0 = en.fresh_value(ty, "old")
        tl = en.new_cell(v0)
        args = [tl]
        name = None
        present = TRUE
        ptr = None
        if sh == "member":
            name = CharP(FALSE, en.fresh(Str, "name"), True)
            o = en.fresh(MSeq, "obj")
            jl = en.new_cell(J.jobj(o))
            args += [name, ProxyV("obj", jl)]
            p = T.mfind(o, T.s_cstr(name.s))
            present = p < T.mlen(o)
            j = T.mval(o, p)
        elif sh == "iter":
            a = en.fresh(JSeq, "arr")
            jl = en.new_cell(J.jarr(a))
            pos = en.fresh(I, "pos")
            en.assume(And(pos >= 0, pos < T.jlen(a)))
            ptr = en.new_cell(IterV("jel", jl, pos))
            args.append(ptr)
            j = T.jat(a, pos)
        else:
            j = en.fresh_json("json")
            if sh == "array":
                j = J.jarr(en.fresh(JSeq, "arr"))
            if sh == "object":
                j = J.jobj(en.fresh(MSeq, "obj"))
            jl = en.new_cell(j)
            args.append(jl if sh == "value" else ProxyV("arr" if sh == "array" else "obj", jl))
        ev = el = None
        if scenario == "errors":
            ev = fresh_errors(en)
            el = en.new_cell(ev)
            args.append(PtrV(False, el))
        else:
            args.append(PtrV(True, None))
        en.o["fold_roles"] = fold_roles(sp, ty, j, "pull", ev, None)
        en.o["extra_candidates"] = extra_candidates(ev)
        spec_v = itev(present, sp.pull(ty, v0, j), v0)
        mm = And(present, sp.mismatch(ty, j)) if not opq(ty) or by_object(ty) else FALSE
        vt = "J09" if sh in ("member",) else "J07" if sh == "iter" else value_tag(ty)
        if ev is not None:
            x = (cs_of(ev.f["currentRecord"]), cs_of(name) if name is not None else cs_of(ev.f["currentMember"]), ev.f["currentIndex"])
            sK, sC = sp.logs(ty, j, ev.f["K"], ev.f["C"], x)
            sK, sC = pick(present, (sK, sC), (ev.f["K"], ev.f["C"]))
        jcell = en.load(jl)
        if ty.k == "sptr":
            uc = en.fresh(I, "use_count")
            en.assume(And(uc >= 0, uc < (1 << 31)))
            en.o["use_count"] = (tl, uc)

            def on_store(loc, en=en, tl=tl, uc=uc):
                v = en.st.store[loc.cell]
                if isinstance(v, RecV) and v.kind == "sptr" and loc.path and loc.path[0] != ("f", "has") and en.st.ghost.get("sptr_copied"):
                    raise Unsupported("write to an object referenced by copies of a shared pointer")
                if loc.cell != tl.cell:
                    return
                if not loc.path:
                    en.st.ghost["renewed"] = True
                elif loc.path[0] != ("f", "has") and not en.st.ghost.get("renewed"):
                    en.oblige("J08", "an object which was shared with other owners before is left alone", uc == 1, assume_after=False)
            en.o["on_store"] = on_store

        def run():
            st = en.st
            th = ev.f["throwOn"] if ev is not None else None
            en.enter(f)
            try:
                en.leave()
                en.inline(f, None, args)
            except CppThrow as exc:
                en.enter(f)
                if ev is None:
                    en.oblige("J06", "nothing is thrown without an error collector", FALSE)
                    return
                now = en.load(el)
                if not (isinstance(exc.ty, Ty) and exc.ty.x.get("name") == ERR1):
                    en.oblige("J06", "only JsonDeserializationError is thrown", FALSE)
                    return
                last = last_error(en, now)
                g = [last.f[n] == exc.v.f[n] for n in ("kind", "expectedType", "actualType", "index")] + [
                    cs_of(last.f[n]) == cs_of(exc.v.f[n]) for n in ("record", "member")] + [LogK.is_lk_snoc(now.f["K"])]
                en.oblige("J06", "the thrown error is the last recorded one", And(*g))
                en.oblige("J06", "the thrown error is of a kind flagged as fatal", T.nfatal(now.f["K"], th) > T.nfatal(kprev(now.f["K"]), th))
                if not en.st.ghost.get("callee_threw"):
                    # thrown right here: the log is the one specified up to this error
                    ks = en.st.ghost.get("throw_kstack")
                    if ks and ty.k == "set":
                        upto = sp.items_logs(ty, simp(J.aval(j)), ev.f["K"], ev.f["C"], x, ks[-1] + 1)[0]
                        en.st.ctx.add(T.nfatal(upto, th) >= 0, T.nfatal(now.f["K"], th) >= 0)
                    en.oblige("J06", "an error is only thrown if it is due", T.nfatal(sK, th) > T.nfatal(ev.f["K"], th))
                return
            en.enter(f)
            v1 = en.load(tl)
            goal = eqv(v1, spec_v)
            if not z3.is_false(simp(mm)):
                en.oblige("J04", "the target is unchanged on a type mismatch", Implies(mm, goal), assume_after=False)
            en.oblige(vt, "the target holds the specified value", Implies(Not(mm), goal), assume_after=False)
            if sh == "iter":
                it = en.load(ptr)
                en.oblige("J07", "the iterator is advanced by one", And(it.pos == pos + 1), assume_after=False)
            en.oblige("J03", "the JSON document is left alone", en.load(jl) == jcell, assume_after=False)
            if ev is not None:
                now = en.load(el)
                en.oblige("J04", "exactly one type mismatch naming expected and actual type is recorded", Implies(mm, now.f["K"] == sK), assume_after=False)
                en.oblige(logtag(ty, sh), "exactly the specified errors are recorded", Implies(Not(mm), now.f["K"] == sK), assume_after=False)
                en.oblige("J05", "errors are recorded with the record, member and index being processed", Implies(now.f["K"] == sK, now.f["C"] == sC), assume_after=False)
                en.oblige("J05", "record, member and index are restored", And(
                    cs_of(now.f["currentRecord"]) == cs_of(ev.f["currentRecord"]), cs_of(now.f["currentMember"]) == cs_of(ev.f["currentMember"]),
                    now.f["currentIndex"] == ev.f["currentIndex"]), assume_after=False)
                en.oblige("J06", "no fatal error is recorded without being thrown", T.nfatal(now.f["K"], th) == T.nfatal(ev.f["K"], th), assume_after=False)
                en.oblige("J06", "the flags of fatal errors are kept", now.f["throwOn"] == th, assume_after=False)
            en.reached += 1
        en.reached = 0
        en.paths = en.explore(init, run)
    return engines


def logtag(ty, sh):
    if sh == "member":
        return "J09"
    t = value_tag(ty)
    return "J04" if t == "J01" else t


def verify_push(u, f, unroll=0, opts=None):
    sh = pull_shape(u, f["pt"])
    ty = u.ty(f["pt"][0])
    check_specifiable(ty)
    en = Engine(u, Contracts(), LIB, dict(opts or {}, unroll=unroll))
    en.scenario = "push"
    init = State()
    en.st = init
    en.trace, en.pos, en.alts, en.prefix_len = [], 0, [], 0
    sp = Spec(en)
    v = en.fresh_value(ty, "value")
    vl = en.new_cell(v)
    args = [vl]
    if sh == "member":
        name = CharP(FALSE, en.fresh(Str, "name"), True)
        o = en.fresh(MSeq, "obj")
        jl = en.new_cell(J.jobj(o))
        args += [name, ProxyV("obj", jl)]
        spec = lambda: J.jobj(MSeq.msnoc(o, T.s_cstr(name.s), sp.push(ty, v)))
    elif sh == "array":
        a = en.fresh(JSeq, "arr")
        jl = en.new_cell(J.jarr(a))
        args.append(ProxyV("arr", jl))
        spec = lambda: J.jarr(JSeq.jsnoc(a, sp.push(ty, v)))
    elif sh == "object":
        o = en.fresh(MSeq, "obj")
        jl = en.new_cell(J.jobj(o))
        args.append(ProxyV("obj", jl))
        spec = lambda: J.jobj(push_into_object(sp, ty, v, o))
    else:
        jl = en.new_cell(en.fresh_json("json"))
        args.append(jl)
        spec = lambda: sp.push(ty, v)
    args.append(en.new_cell(RecV("alloc", {})))
    s = spec()
    en.o["fold_roles"] = fold_roles(sp, ty, None, "push", None, v)
    en.o["extra_candidates"] = extra_candidates(None)

    def run():
        try:
            en.inline(f, None, args)
        except CppThrow:
            en.enter(f)
            en.oblige("J02", "serialization does not throw", FALSE)
            return
        en.enter(f)
        en.oblige("J02", "the document has the documented shape", en.load(jl) == s, assume_after=False)
        en.oblige("J02", "the serialized object is left alone", eqv(en.load(vl), v), assume_after=False)
        en.reached += 1
    en.reached = 0
    en.paths = en.explore(init, run)
    return [en]


def verify_jsontype(u, f, unroll=0, opts=None):
    en = Engine(u, None, LIB, dict(opts or {}, unroll=unroll))
    en.scenario = "jsonType"
    init = State()
    en.st = init
    en.trace, en.pos, en.alts, en.prefix_len = [], 0, [], 0
    t = en.fresh(I, "type")
    en.assume(And(t >= 0, t <= 6))

    def run():
        r = en.inline(f, None, [t])
        en.enter(f)
        en.oblige("J04", "every RapidJSON type is mapped to its JSON type", r == of_rjtype(t), assume_after=False)
        en.reached += 1
    en.reached = 0
    en.paths = en.explore(init, run)
    return [en]


THROWON, KIND, JTYPE = ERR + "::ThrowOn", ERR1 + "Kind", "ReflectiveRapidJSON::JsonType"
KINDS = dict(zip(KINDNAME, range(6)))
JTYPES = dict(Null=TNULL, Number=TNUMBER, Bool=TBOOL, String=TSTRING, Array=TARRAY, Object=TOBJECT)


def enumerators(u):
    """Adopts the flags as declared; returns whether kinds of errors and JSON types are numbered as these contracts assume."""
    flags = u.types.get(THROWON, {}).get("vals")
    if flags and all(n in flags for n in KINDNAME):
        T.FLAG_OF_KIND.clear()
        T.FLAG_OF_KIND.update({KINDS[n]: flags[n] for n in KINDNAME})
    return all(u.types.get(n, {}).get("vals", want) == want for n, want in ((KIND, KINDS), (JTYPE, JTYPES)))


def numbered_otherwise(u, f, unroll=0, opts=None):
    raise Unsupported("enumerations with other values")


def simple(u, name, unroll, opts, setup):
    en = Engine(u, None, LIB, dict(opts or {}, unroll=unroll))
    en.scenario = name
    init = State()
    en.st = init
    en.trace, en.pos, en.alts, en.prefix_len = [], 0, [], 0
    return en, init, setup(en)


def verify_errors_ctor(u, f, unroll=0, opts=None):
    """By default no error is fatal, and the context is the document itself."""
    en, init, _ = simple(u, "default", unroll, opts, lambda en: None)
    flags = u.types[THROWON].get("vals", {})

    def run():
        loc = en.run_ctor(f, u.ty(f["cls"]), [])
        v = en.load(max((Loc(c) for c, x in en.st.store.items() if isinstance(x, RecV) and x.kind == "errors"), key=lambda l: l.cell))
        en.enter(f)
        th = v.f["throwOn"]
        en.oblige("J06", "no kind of error is fatal by default", Not(bit_mask(th)) if not isinstance(th, Uninit) else FALSE, assume_after=False)
        en.oblige("J06", "ThrowOn::None makes no kind of error fatal", BoolVal(not any(flags.get("None", 0) & flags[n] for n in KINDNAME)), assume_after=False)
        en.oblige("J06", "ThrowOn::All makes every kind of error fatal", BoolVal(all(flags.get("All", 255) & flags[n] == flags[n] for n in KINDNAME)), assume_after=False)
        en.oblige("J06", "each kind of error can be made fatal on its own", BoolVal(all(flags[n] and not any(flags[n] & flags[m] for m in KINDNAME if m != n) for n in KINDNAME)), assume_after=False)
        m, i = v.f["currentMember"], v.f["currentIndex"]
        en.oblige("J05", "initially there is neither a current member nor a current index", And(m.null, i == NOINDEX) if isinstance(m, CharP) and not isinstance(i, Uninit) else FALSE, assume_after=False)
        en.oblige("J05", "the initial record denotes the document", Not(v.f["currentRecord"].null) if isinstance(v.f["currentRecord"], CharP) else FALSE, assume_after=False)
        en.oblige("J05", "initially there are no errors", v.f["K"] == LogK.lk_base(IntVal(0)), assume_after=False)
        en.reached += 1
    en.reached = 0
    en.paths = en.explore(init, run)
    return [en]


def bit_mask(th):
    return T.bit_any(th, sum(T.FLAG_OF_KIND.values()))


def verify_flags(u, f, unroll=0, opts=None):
    def setup(en):
        a, b = en.fresh(I, "lhs"), en.fresh(I, "rhs")
        en.assume(And(a >= 0, a <= 255, b >= 0, b <= 255))
        return a, b
    en, init, (a, b) = simple(u, "operator|", unroll, opts, setup)

    def run():
        r = en.inline(f, None, [a, b])
        en.enter(f)
        for n in KINDNAME:
            bits = T.FLAG_OF_KIND[KINDS[n]]
            en.oblige("J06", "combined flags make %s fatal iff one of them does" % n, T.bit_any(r, bits) == Or(T.bit_any(a, bits), T.bit_any(b, bits)), assume_after=False)
        en.reached += 1
    en.reached = 0
    en.paths = en.explore(init, run)
    return [en]


def targets(u):
    """[(name, verify function, f)] of all JSON push/pull functions with a contract."""
    enumerators(u)
    out = []
    for f in u.functions.values():
        if f.get("body") is None:
            continue
        if f["q"] == PULL and pull_shape(u, f["pt"]):
            out.append((f, verify_pull))
        elif f["q"] == PUSH and pull_shape(u, f["pt"]):
            out.append((f, verify_push))
        elif f["q"] == "ReflectiveRapidJSON::jsonType" and len(f["params"]) == 1:
            out.append((f, verify_jsontype))
        elif f["q"] == ERR + "::(ctor)" and not f["params"]:
            out.append((f, verify_errors_ctor))
        elif f["q"] == "ReflectiveRapidJSON::operator|" and [u.strip(p) for p in f["pt"]] == [THROWON] * 2:
            out.append((f, verify_flags))
    return out
