"""Contracts of the binary reflector: the bytes write() produces and what read() makes of them, for every supported type.

BSpec.write/read are the specification functions; each instantiation of BinarySerializer::write and BinaryDeserializer::read is
verified against them and replaced by them at call sites."""
import re
import z3
from z3 import And, Or, Not, If, Implies, IntVal, BoolVal, Function
from .sym import *
from . import theory as T
from .theory import deffold, rule
from .lib_std import LIB, lib, simp, str_of
from .engine import Engine, Loc, State, CppThrow
from .ir import Ty

I, B = z3.IntSort(), z3.BoolSort()
NS = "ReflectiveRapidJSON::BinaryReflector::"
SER, DES = NS + "BinarySerializer", NS + "BinaryDeserializer"
BW, BR = "CppUtilities::BinaryWriter", "CppUtilities::BinaryReader"

# ---- output: the chunks written so far; input: what is left of the stream ---------------------------------------------
_bs = z3.Datatype("BS")
_bs.declare("b_empty")
_bs.declare("app_be", ("be_prev", _bs), ("be_n", I), ("be_val", I))          # n bytes, big endian
_bs.declare("app_vlq", ("vlq_prev", _bs), ("vlq_val", I))                    # variable-length unsigned integer
_bs.declare("app_raw", ("raw_prev", _bs), ("raw_val", Str))                  # the bytes of a string
BS = _bs.create()
IN = z3.DeclareSort("IN")
ok_be, rd_be, rest_be = Function("ok_be", IN, I, B), Function("rd_be", IN, I, I), Function("rest_be", IN, I, IN)
ok_vlq, rd_vlq, rest_vlq = Function("ok_vlq", IN, B), Function("rd_vlq", IN, I), Function("rest_vlq", IN, IN)
ok_raw, rd_raw, rest_raw = Function("ok_raw", IN, I, B), Function("rd_raw", IN, I, Str), Function("rest_raw", IN, I, IN)
f32_bits, f32_of_bits = Function("f32_bits", F32, I), Function("f32_of_bits", I, F32)
f64_bits, f64_of_bits = Function("f64_bits", F64, I), Function("f64_of_bits", I, F64)
HeapS = z3.ArraySort(I, Val)
_ws = z3.Datatype("WS")
_ws.declare("ws", ("wout", BS), ("wptr", MapS))
WS = _ws.create()
_rs = z3.Datatype("RS")
_rs.declare("rs", ("rin", IN), ("rptr", MapS), ("rheap", HeapS), ("rnext", I))
RS = _rs.create()
VLQ_LIMIT = 1 << 56
BIGID = 0x80000000000000


def acc(a, i, ctor, t):
    return t.arg(i) if T.app(t, ctor) else a(t)


def wout(w): return acc(WS.wout, 0, WS.ws, w)
def wptr(w): return acc(WS.wptr, 1, WS.ws, w)
def rin(r): return acc(RS.rin, 0, RS.rs, r)
def rptr(r): return acc(RS.rptr, 1, RS.rs, r)
def rheap(r): return acc(RS.rheap, 2, RS.rs, r)
def rnext(r): return acc(RS.rnext, 3, RS.rs, r)


@rule(rd_be)
def _(t, c):
    n = t.arg(1).as_long()
    return [t >= 0, t < 256 ** n]


@rule(rd_vlq)
def _(t, c):
    return [t >= 0, t < VLQ_LIMIT]


@rule(rd_raw)
def _(t, c):
    i, n = t.children()
    return [Implies(ok_raw(i, n), And(slen(t) == n, n >= 0))]


@rule(f32_bits)
def _(t, c):
    return [t >= 0, t < 1 << 32, f32_of_bits(t) == t.arg(0)]


@rule(f64_bits)
def _(t, c):
    return [t >= 0, t < 1 << 64, f64_of_bits(t) == t.arg(0)]


@rule(T.mp_put)
def _(t, c):
    m, k, v = t.children()
    # putting what is already there changes nothing; the last put of a key counts
    out = [Implies(And(T.mp_has(m, k), T.mp_get(m, k) == v), t == m)]
    if T.app(m, T.mp_put):
        out.append(Implies(m.arg(1) == k, t == T.mp_put(m.arg(0), k, v)))
    return out


# ---- types ------------------------------------------------------------------------------------------------------------
BASIC = ("int", "bool", "f32", "f64", "str")


def opq(ty):
    return ty.k == "rec" and ty.x["name"].split("::")[-1].startswith("Opq")


def parts(ty):
    return ty.a[:2] if ty.k in ("map", "mmap", "pair") else ty.a if ty.k == "variant" else ty.a[:1]


def check_specifiable(ty):
    if opq(ty) or ty.k in BASIC or ty.k in ("enum", "monostate", "chrono"):
        return
    if ty.k in ("pair", "opt", "uptr", "sptr", "seq", "set", "mset", "map", "mmap", "variant"):
        for t in parts(ty):
            check_specifiable(t)
        return
    raise Unsupported("type %r has no binary specification" % ty)


_ids = {}


def typeid(ty):
    return _ids.setdefault(ty.key, len(_ids) + 1)


U64 = Ty("int", bits=64, signed=False, key="unsigned long")
ANY = Ty("rec", name="std::any", key="std::any")
BOOL = Ty("bool", key="bool")


def any_val(kind, has, ref):
    return RecV("any", {"kind": kind, "has": has, "ref": ref}, ANY)


LIB["fresh:std::any"] = lambda en, ty, p: any_val(en.fresh(I, p + ".kind"), en.fresh(B, p + ".has"), en.fresh(I, p + ".ref"))
LIB["vinit:std::any"] = lambda en, ty: any_val(IntVal(0), FALSE, IntVal(0))


def unsig(v, bits):
    """The two's complement representation as unsigned number."""
    return simp(If(v >= 0, v, v + (1 << bits)))


def ITE(c, a, b):
    c = simp(c)
    return a if z3.is_true(c) or a.eq(b) else b if z3.is_false(c) else If(c, a, b)


class BSpec:
    def __init__(self, en):
        self.en = en

    # ---- writing
    def w(self, f, ws):
        return WS.ws(f(wout(ws)), wptr(ws))

    def be(self, ws, n, v):
        return WS.ws(BS.app_be(wout(ws), IntVal(n), v), wptr(ws))

    def vlq(self, ws, v):
        return WS.ws(BS.app_vlq(wout(ws), v), wptr(ws))

    def write(self, ty, v, ws, heap, ver=IntVal(0)):
        k, en = ty.k, self.en
        if opq(ty):
            return Function("W_" + ty.sig(), Val, WS, HeapS, I, WS)(v, ws, heap, ver)
        if k == "int":
            return self.be(ws, ty.x["bits"] // 8, unsig(v, ty.x["bits"]) if ty.x["signed"] else v)
        if k == "enum":
            u = ty.a[0]
            return self.be(ws, 1, v) if u.k == "bool" else self.write(u, v, ws, heap)
        if k == "bool":
            return self.be(ws, 1, If(v, IntVal(1), IntVal(0)))
        if k == "f32":
            return self.be(ws, 4, f32_bits(v))
        if k == "f64":
            return self.be(ws, 8, f64_bits(v))
        if k == "str":
            return WS.ws(BS.app_raw(BS.app_vlq(wout(ws), T.s_len(v)), v), wptr(ws))
        if k == "chrono":
            return self.write(en.chrono_ticks(ty), v.f["ticks"], ws, heap)
        if k == "pair":
            return self.write(ty.a[1], v.f["second"], self.write(ty.a[0], v.f["first"], ws, heap), heap)
        if k in ("opt", "uptr"):
            w1 = self.be(ws, 1, If(v.f["has"], IntVal(1), IntVal(0)))
            return ITE(v.f["has"], self.write(ty.a[0], v.f["v"], w1, heap), w1)
        if k == "sptr":
            i = v.f["ref"]
            key = en.box(i, U64)
            known = And(T.mp_has(wptr(ws), key), en.unbox(T.mp_get(wptr(ws), key), BOOL))
            big = i >= BIGID
            mode = If(known, IntVal(2), IntVal(1)) + If(big, IntVal(4), IntVal(0))
            w1 = self.be(ws, 1, mode)
            w2 = ITE(big, self.be(w1, 8, i), self.vlq(w1, i))
            w3 = WS.ws(wout(w2), T.mp_put(wptr(ws), key, en.box(TRUE, BOOL)))
            return ITE(v.f["has"], ITE(known, w2, self.write(ty.a[0], en.unbox(heap[i], ty.a[0]), w3, heap)), self.be(ws, 1, IntVal(0)))
        if k == "monostate":
            return ws
        if k == "variant":
            w1 = self.be(ws, 1, v.f["idx"])
            r = w1
            for i, t in reversed(list(enumerate(ty.a))):
                r = ITE(v.f["idx"] == i, self.write(t, v.f[str(i)], w1, heap), r)
            return r
        if k in ("seq", "set", "mset", "map", "mmap"):
            n = T.SIZE[k](v)
            return self.write_items(ty, v, self.vlq(ws, n), heap, n)
        raise Unsupported("no binary specification for %r" % ty)

    def element(self, ty, c, k):
        en = self.en
        if ty.k in ("map", "mmap"):
            ka, va = (T.mp_keyat, T.mp_valat) if ty.k == "map" else (T.mm_keyat, T.mm_valat)
            return self.pairty(ty), RecV("pair", {"first": en.unbox(ka(c, k), ty.a[0]), "second": en.unbox(va(c, k), ty.a[1])})
        return ty.a[0], en.unbox(T.AT[ty.k](c, k), ty.a[0])

    def pairty(self, ty):
        return Ty("pair", ty.a[:2])

    def untracked(self, ty):
        """Whether values of the type contain no shared pointers."""
        return ty.k not in ("sptr", "rec") and not any(not self.untracked(t) for t in parts(ty))

    def write_items(self, ty, c, ws, heap, k):
        if self.untracked(ty):
            def step0(c, o, k, p):
                et, v = self.element(ty, c, k)
                return wout(self.write(et, v, WS.ws(p, T.EMPTY["map"]), heap))
            f = deffold("wbs_" + ty.sig(), [CONT_SORT[ty.k], BS], BS, lambda c, o: o, step0)
            return WS.ws(f(c, wout(ws), k), wptr(ws))

        def step(c, w0, h, k, p):
            et, v = self.element(ty, c, k)
            return self.write(et, v, p, h)
        return deffold("wst_" + ty.sig(), [CONT_SORT[ty.k], WS, HeapS], WS, lambda c, w0, h: w0, step)(c, ws, heap, k)

    # ---- reading: (succeeds, value, state afterwards)
    def rbe(self, rs, n):
        i = rin(rs)
        n = IntVal(n)
        return ok_be(i, n), rd_be(i, n), self.at(rs, rest_be(i, n))

    def at(self, rs, i):
        return RS.rs(i, rptr(rs), rheap(rs), rnext(rs))

    def read(self, ty, rs, ver=IntVal(0)):
        k, en = ty.k, self.en
        if opq(ty):
            n = ty.sig()
            return (Function("ROK_" + n, RS, I, B)(rs, ver), Function("RV_" + n, RS, I, Val)(rs, ver), Function("RST_" + n, RS, I, RS)(rs, ver))
        if k == "int":
            bits = ty.x["bits"]
            ok, u, r = self.rbe(rs, bits // 8)
            return ok, If(u >= 1 << (bits - 1), u - (1 << bits), u) if ty.x["signed"] else u, r
        if k == "bool":
            ok, u, r = self.rbe(rs, 1)
            return ok, u != 0, r
        if k == "enum":
            ok, v, r = self.read(ty.a[0], rs)
            return ok, If(v, IntVal(1), IntVal(0)) if ty.a[0].k == "bool" else v, r
        if k == "f32":
            ok, u, r = self.rbe(rs, 4)
            return ok, f32_of_bits(u), r
        if k == "f64":
            ok, u, r = self.rbe(rs, 8)
            return ok, f64_of_bits(u), r
        if k == "str":
            i = rin(rs)
            n, j = rd_vlq(i), rest_vlq(i)
            return And(ok_vlq(i), ok_raw(j, n)), rd_raw(j, n), self.at(rs, rest_raw(j, n))
        if k == "chrono":
            ok, v, r = self.read(en.chrono_ticks(ty), rs)
            return ok, RecV("chrono", {"ticks": v}, ty), r
        if k == "pair":
            ok1, a, r1 = self.read(ty.a[0], rs)
            ok2, b, r2 = self.read(ty.a[1], r1)
            return And(ok1, ok2), RecV("pair", {"first": a, "second": b}, ty), r2
        if k in ("opt", "uptr"):
            ok1, u, r1 = self.rbe(rs, 1)
            ok2, v, r2 = self.read(ty.a[0], r1)
            return And(ok1, Implies(u != 0, ok2)), RecV(k, {"has": u != 0, "v": v}, ty), ITE(u != 0, r2, r1)
        if k == "sptr":
            okm, m, r1 = self.rbe(rs, 1)
            i = rin(r1)
            big = (m / 4) % 2 == 1
            idn = If(big, rd_be(i, IntVal(8)), rd_vlq(i))
            okid = If(big, ok_be(i, IntVal(8)), ok_vlq(i))
            r2 = self.at(r1, If(big, rest_be(i, IntVal(8)), rest_vlq(i)))
            new = m % 4 == 1
            key = en.box(idn, U64)
            ref = rnext(rs)
            et = ty.a[0]
            r3 = RS.rs(rin(r2), T.mp_put(rptr(rs), key, en.box(any_val(IntVal(typeid(ty)), TRUE, ref), ANY)),
                       z3.Store(rheap(rs), ref, en.box(en.vinit(et), et)), ref + 1)
            okv, v, r4 = self.read(et, r3)
            r5 = RS.rs(rin(r4), rptr(r4), z3.Store(rheap(r4), ref, en.box(v, et)), rnext(r4))
            a = en.unbox(T.mp_get(rptr(rs), key), ANY)
            okref = And(T.mp_has(rptr(rs), key), a.f["kind"] == typeid(ty))
            ok = And(okm, Implies(m != 0, And(okid, If(new, okv, okref))))
            val = RecV("sptr", {"has": If(m == 0, FALSE, If(new, TRUE, a.f["has"])), "ref": If(m == 0, IntVal(0), If(new, ref, a.f["ref"]))}, ty)
            return ok, val, ITE(m == 0, r1, ITE(new, r5, r2))
        if k == "monostate":
            return TRUE, RecV("monostate", {}, ty), rs
        if k == "variant":
            ok1, n, r1 = self.rbe(rs, 1)
            f = {"vl": FALSE, "idx": n}
            oks, r = FALSE, r1
            for i, t in reversed(list(enumerate(ty.a))):
                ok, v, r2 = self.read(t, r1)
                f[str(i)] = v
                oks = ITE(n == i, ok, oks)
                r = ITE(n == i, r2, r)
            return And(ok1, oks), RecV("variant", dict(vl=FALSE, idx=n, **{str(i): f[str(i)] for i in range(len(ty.a))}), ty), r
        if k in ("seq", "set", "mset", "map", "mmap"):
            i = rin(rs)
            n = rd_vlq(i)
            r0 = self.at(rs, rest_vlq(i))
            return And(ok_vlq(i), self.items_ok(ty, r0, n)), self.items(ty, r0, n), self.items_state(ty, r0, n)
        raise Unsupported("no binary specification for %r" % ty)

    def elty(self, ty):
        return self.pairty(ty) if ty.k in ("map", "mmap") else ty.a[0]

    def items_state(self, ty, r0, k):
        return deffold("rst_" + ty.sig(), [RS], RS, lambda r: r, lambda r, k, p: self.read(self.elty(ty), p)[2])(r0, k)

    def items_ok(self, ty, r0, k):
        f = deffold("rok_" + ty.sig(), [RS], B, lambda r: TRUE, lambda r, k, p: And(p, self.read(self.elty(ty), self.items_state(ty, r, k))[0]))
        n = f.name()
        if n not in DOWNWARD:
            DOWNWARD[n] = f

            def mono(t, c):
                out = []
                for u in c.by_decl(n):
                    if u is not t and u.arg(0).eq(t.arg(0)) and not u.arg(1).eq(t.arg(1)):
                        a, b = t.arg(1), u.arg(1)
                        # if the first b elements can be read, so can the first a and the one at a
                        out += [Implies(And(0 <= a, a <= b, u), t), Implies(And(0 <= b, b <= a, t), u)]
                        for x, y, uy in ((a, b, u), (b, a, t)):
                            out.append(Implies(And(0 <= x, x < y, uy), self.read(self.elty(ty), self.items_state(ty, t.arg(0), x))[0]))
                return out
            T.RULES.setdefault(n, []).append(mono)
        return f(r0, k)

    def item(self, ty, r0, k):
        return self.read(self.elty(ty), self.items_state(ty, r0, k))[1]

    def items(self, ty, r0, k):
        en = self.en

        def step(r, k, p):
            v = self.item(ty, r, k)
            if ty.k == "map":
                kb, vb = en.box(v.f["first"], ty.a[0]), en.box(v.f["second"], ty.a[1])
                return If(T.mp_has(p, kb), p, T.mp_put(p, kb, vb))
            if ty.k == "mmap":
                return T.mm_ins(p, en.box(v.f["first"], ty.a[0]), en.box(v.f["second"], ty.a[1]))
            return {"seq": T.seq_push, "set": T.set_ins, "mset": T.ms_ins}[ty.k](p, en.box(v, ty.a[0]))
        return deffold("ritems_" + ty.sig(), [RS], CONT_SORT[ty.k], lambda r: T.EMPTY[ty.k], step)(r0, k)

    def overwritten(self, ty, s0, r0, k):
        """The sequence s0 with its first k elements replaced by what has been read."""
        f = deffold("rover_" + ty.sig(), [SeqS, RS], SeqS, lambda s, r: s,
                    lambda s, r, k, p: T.seq_upd(p, k, self.en.box(self.item(ty, r, k), ty.a[0])))
        n = f.name()
        if n not in OVER:
            OVER[n] = (f, self, ty)

            def r(t, c):
                s, r0, k = t.children()
                # consequences of the definition, proved by lemma_over
                return [Implies(k >= 0, T.seq_len(t) == T.seq_len(s)), Implies(And(k >= 0, k == T.seq_len(s)), t == self.items(ty, r0, k))]
            T.RULES.setdefault(n, []).append(r)
        return f(s0, r0, k)


DOWNWARD, OVER = {}, {}


def lemma_over(n):
    """Inductions behind the rule of the overwrite fold: [(name, hypotheses, goal)]."""
    f, sp, ty = OVER[n]
    s, r = z3.Const("lo_s", SeqS), z3.Const("lo_r", RS)
    k, i = z3.Ints("lo_k lo_i")
    it = lambda q: sp.en.box(sp.item(ty, r, q), ty.a[0])
    over_k, item_k = z3.Const("lo_over", SeqS), z3.Const("lo_items", SeqS)      # the folds at k
    upd, push = T.seq_upd(over_k, k, it(k)), T.seq_push(item_k, it(k))
    kept = [k >= 0, k < T.seq_len(s), T.seq_len(over_k) == T.seq_len(s), T.seq_len(item_k) == k]
    ih = Implies(And(0 <= i, i < k), T.seq_at(over_k, i) == T.seq_at(item_k, i))
    return [("a resized sequence keeps its length while elements are read into it", kept, T.seq_len(upd) == T.seq_len(s)),
            ("the elements read so far agree with those of the specified sequence", kept + [ih, 0 <= i, i < k + 1],
             T.seq_at(upd, i) == T.seq_at(push, i)),
            ("the specified sequence has as many elements as have been read", kept, T.seq_len(push) == k + 1)]


# ---- model of the streams and of CppUtilities' reader and writer -------------------------------------------------------
def new_stream(en, v):
    return en.new_cell(RecV("stream", {"s": v}))


def fresh_heap(en):
    n = en.fresh(I, "heap.next")
    en.assume(And(n >= 1, n < 1 << 64))
    h = en.new_cell(RecV("heap", {"h": en.fresh(HeapS, "heap"), "n": n}))
    en.st.ghost["heap"] = h
    return h


def fresh_obj(en, kind, ptrs=None):
    s = new_stream(en, en.fresh(BS if kind == "ser" else IN, "stream"))
    m = en.fresh(MapS, "m_pointer") if ptrs is None else ptrs
    if kind == "ser" and ptrs is None:
        written_flags(m)
    return en.new_cell(RecV(kind, {"stream": PtrV(False, s), "m_pointer": m}))


WFLAG = set()


def written_flags(m):
    """Representation invariant of the serializer: every id in m_pointer is flagged as written."""
    WFLAG.add(m.decl().name())


@rule(T.mp_get)
def _(t, c):
    m, k = t.children()
    if z3.is_const(m) and m.decl().name() in WFLAG:
        return [Implies(T.mp_has(m, k), Function("unbox<bool>.0", Val, B)(t))]
    if T.app(m, WS.wptr):
        return [Implies(T.mp_has(m, k), Function("unbox<bool>.0", Val, B)(t))]
    return []


def stream_of(en, obj):
    p = en.load(obj.f("stream"))
    return p.loc.f("s")


def heap_of(en):
    return en.st.ghost["heap"]


def wstate(en, obj):
    return WS.ws(en.load(stream_of(en, obj)), en.load(obj.f("m_pointer")))


def set_wstate(en, obj, ws):
    en.store(stream_of(en, obj), simp(wout(ws)))
    p = simp(wptr(ws))
    if not p.eq(en.load(obj.f("m_pointer"))):
        en.store(obj.f("m_pointer"), p)


def rstate(en, obj):
    h = en.load(heap_of(en))
    return RS.rs(en.load(stream_of(en, obj)), en.load(obj.f("m_pointer")), h.f["h"], h.f["n"])


def set_rstate(en, obj, rs):
    en.store(stream_of(en, obj), simp(rin(rs)))
    for l, v in ((obj.f("m_pointer"), rptr(rs)), (heap_of(en).f("h"), rheap(rs)), (heap_of(en).f("n"), rnext(rs))):
        v = simp(v)
        if not v.eq(en.load(l)):
            en.store(l, v)


FAILURE = Ty("rec", name="(reading failed)")


def havoc_rstate(en, obj):
    set_rstate(en, obj, RS.rs(en.fresh(IN, "thrown.in"), en.fresh(MapS, "thrown.ptr"), en.fresh(HeapS, "thrown.heap"), en.fresh(I, "thrown.next")))


def need(en, ok, obj):
    """A read which throws unless ok."""
    ok = simp(ok)
    if not en.decide(ok):
        en.st.ghost["callee_threw"] = True
        havoc_rstate(en, obj)
        raise CppThrow(RecV("exc", {}), FAILURE)


def is_obj(en, obj, kind):
    return isinstance(obj, Loc) and isinstance(en.load(obj), RecV) and en.load(obj).kind == kind


SIZES = {"Int16": (16, True), "UInt16": (16, False), "Int32": (32, True), "UInt32": (32, False), "Int64": (64, True), "UInt64": (64, False)}


def reader(en, fn, obj, args, e):
    """Methods of CppUtilities::BinaryReader (assumed contracts)."""
    m = fn["q"].split("::")[-1]
    if not is_obj(en, obj, "des"):
        return NotImplemented
    sp = BSpec(en)
    rs = rstate(en, obj)
    if m == "read":
        if len(args) != 1:
            return NotImplemented
        ty = en.u.ty(fn["pt"][0])
        if ty.k not in BASIC:
            return NotImplemented
        ok, v, r = sp.read(ty, rs)
        need(en, ok, obj)
        set_rstate(en, obj, r)
        en.store(args[0], v)
        return None
    if m == "readVariableLengthUIntBE":
        i = rin(rs)
        need(en, ok_vlq(i), obj)
        set_rstate(en, obj, sp.at(rs, rest_vlq(i)))
        return rd_vlq(i)
    ty = {"readBool": BOOL, "readByte": Ty("int", bits=8, signed=False), "readChar": Ty("int", bits=8, signed=True), "readFloat32BE": Ty("f32"),
          "readFloat64BE": Ty("f64"), "readLengthPrefixedString": Ty("str")}.get(m)
    x = re.match(r"read(U?Int\d+)BE$", m)
    if x and x.group(1) in SIZES:
        b, s = SIZES[x.group(1)]
        ty = Ty("int", bits=b, signed=s)
    if ty is None:
        return NotImplemented
    ok, v, r = sp.read(ty, rs)
    need(en, ok, obj)
    set_rstate(en, obj, r)
    return v


def writer(en, fn, obj, args, e):
    """Methods of CppUtilities::BinaryWriter (assumed contracts)."""
    m = fn["q"].split("::")[-1]
    if not is_obj(en, obj, "ser"):
        return NotImplemented
    sp = BSpec(en)
    ws = wstate(en, obj)
    if m == "writeVariableLengthUIntBE":
        v = en.val(args[0])
        if not en.decide(v < VLQ_LIMIT):
            en.st.ghost["too_long"] = True
            raise CppThrow(RecV("exc", {}), FAILURE)
        set_wstate(en, obj, sp.vlq(ws, v))
        return None
    if m == "write":
        if len(args) != 1:
            return NotImplemented
        ty = en.u.ty(fn["pt"][0])
        if ty.k in ("strview", "cstr"):
            ty = Ty("str")
    else:
        ty = {"writeBool": BOOL, "writeByte": Ty("int", bits=8, signed=False), "writeChar": Ty("int", bits=8, signed=True), "writeFloat32BE": Ty("f32"),
              "writeFloat64BE": Ty("f64"), "writeLengthPrefixedString": Ty("str")}.get(m)
        x = re.match(r"write(U?Int\d+)BE$", m)
        if x and x.group(1) in SIZES:
            b, s = SIZES[x.group(1)]
            ty = Ty("int", bits=b, signed=s)
    if ty is None or ty.k not in BASIC:
        return NotImplemented
    v = str_of(en, args[0]) if ty.k == "str" else en.val(args[0])
    set_wstate(en, obj, sp.write(ty, v, ws, None))
    return None


for _n in ("read", "readBool", "readByte", "readChar", "readVariableLengthUIntBE", "readFloat32BE", "readFloat64BE", "readLengthPrefixedString") + tuple(
        "read%sBE" % s for s in SIZES):
    LIB[BR + "::" + _n] = reader
for _n in ("write", "writeBool", "writeByte", "writeChar", "writeVariableLengthUIntBE", "writeFloat32BE", "writeFloat64BE", "writeLengthPrefixedString") + tuple(
        "write%sBE" % s for s in SIZES):
    LIB[BW + "::" + _n] = writer


LIB["alloc:" + SER] = lambda en, t: RecV("ser", {"stream": UNINIT, "m_pointer": UNINIT}, t)
LIB["alloc:" + DES] = lambda en, t: RecV("des", {"stream": UNINIT, "m_pointer": UNINIT}, t)


@lib("ctor:" + BW, "ctor:" + BR)
def _(en, fn, t, kind, args, e):
    return RecV("streambase", {"stream": en.val(args[0])})


_baseinit = LIB.get("baseinit")


@lib("baseinit")
def _(en, f, t, i, cell, fr):
    if t.x.get("name") in (SER, DES):
        v = en.rv(i["x"], fr)
        if isinstance(v, RecV) and v.kind == "streambase":
            en.store(cell.f("stream"), v.f["stream"])
            return
    if _baseinit:
        _baseinit(en, f, t, i, cell, fr)


# shared pointers: {has, ref}; the object is heap[ref], its address is ref
def heap_loc(en, ref, et):
    return heap_of(en).f("h").step("heap", ref, et)


LIB["proj:heap"] = lambda en, v, st: en.unbox(z3.simplify(z3.Select(v, st[1])), st[2])
LIB["upd:heap"] = lambda en, v, st, nv: z3.Store(v, st[1], en.box(nv, st[2]))


@lib("boxed:sptr")
def _(en, ty, m, loc, v, args, fn, e):
    if "ref" not in v.f:
        return NotImplemented
    et = ty.a[0]
    if m == "get":
        return PtrV(Not(v.f["has"]), heap_loc(en, v.f["ref"], et))
    if m in ("operator*", "operator->"):
        en.oblige("J03", "a null pointer is not dereferenced", v.f["has"])
        d = heap_loc(en, v.f["ref"], et)
        return PtrV(False, d) if m == "operator->" else d
    if m == "operator=":
        a = en.val(args[0])
        if isinstance(a, RecV) and a.kind == "sptr":
            en.store(loc, RecV("sptr", dict(a.f), ty))
            return loc
    return NotImplemented


@lib("adopt:sptr")
def _(en, t, p):
    if "heap" not in en.st.ghost:
        return None
    return heap_new(en, t, t.a[0], en.adopt(p))


def heap_new(en, t, el, v):
    h = heap_of(en)
    hv = en.load(h)
    ref = hv.f["n"]
    en.store(h.f("h"), z3.Store(hv.f["h"], ref, en.box(v, el)))
    en.store(h.f("n"), simp(ref + 1))
    return RecV("sptr", {"has": TRUE, "ref": ref}, t)


@lib("make:sptr")
def _(en, fn, t, el, args, e):
    if "heap" not in en.st.ghost:
        return None
    if args:
        raise Unsupported("make_shared with arguments")
    return heap_new(en, t, el, en.vinit(el))


@lib("bitcast")
def _(en, v, t, ft):
    return address(en, v, t)


def address(en, v, t):
    if isinstance(v, PtrV) and v.loc is not None and v.loc.path and v.loc.path[-1][0] == "heap" and t.k == "int":
        n, ref = as_bool(v.null), v.loc.path[-1][1]
        return ref if z3.is_false(simp(n)) or en.must(Not(n)) else If(n, IntVal(0), ref)
    return None


@lib("std::any::operator=")
def _(en, fn, obj, args, e):
    a = en.val(args[0])
    if isinstance(a, RecV) and a.kind == "any":
        en.store(obj, a)
        return obj
    if isinstance(a, RecV) and a.kind == "sptr" and "ref" in a.f:
        t = en.u.ty(fn["pt"][0])
        en.store(obj, any_val(IntVal(typeid(t)), a.f["has"], a.f["ref"]))
        return obj
    raise Unsupported("std::any holding %r" % (a,))


@lib("ctor:std::any")
def _(en, fn, t, kind, args, e):
    if kind in ("copyctor", "movector"):
        return en.val(args[0])
    if not args:
        return any_val(IntVal(0), FALSE, IntVal(0))
    a = en.val(args[0])
    if isinstance(a, RecV) and a.kind == "sptr" and "ref" in a.f:
        return any_val(IntVal(typeid(en.u.ty(fn["pt"][0]))), a.f["has"], a.f["ref"])
    raise Unsupported("std::any holding %r" % (a,))


@lib("std::any::has_value")
def _(en, fn, obj, args, e):
    return en.val(obj).f["kind"] != 0


@lib("std::any::reset")
def _(en, fn, obj, args, e):
    en.store(obj, any_val(IntVal(0), FALSE, IntVal(0)))


@lib("std::any_cast")
def _(en, fn, obj, args, e):
    a = en.val(args[0])
    if isinstance(a, PtrV):
        t = en.u.ty(e["t"]).a[0]
        v = en.load(a.loc)
        l = en.new_cell(RecV("sptr", {"has": v.f["has"], "ref": v.f["ref"]}, t))
        return PtrV(v.f["kind"] != typeid(t), l)
    t = en.u.ty(e["t"])
    if t.k != "sptr":
        raise Unsupported("any_cast to %r" % t)
    if not en.decide(a.f["kind"] == typeid(t)):
        raise CppThrow(RecV("exc", {}), Ty("rec", name="std::bad_any_cast"))
    return RecV("sptr", {"has": a.f["has"], "ref": a.f["ref"]}, t)


CONVEX = Ty("rec", name="CppUtilities::ConversionException")
LIB.setdefault("ctor:CppUtilities::ConversionException", lambda en, fn, t, kind, args, e: RecV("rec", {}, CONVEX))
BASES = {"std::bad_any_cast": {"std::bad_cast", "std::exception"}, "CppUtilities::ConversionException": {"std::runtime_error", "std::exception"}}
_catches = LIB.get("catches")


@lib("catches")
def _(en, n1, n2):
    if n2 == FAILURE.x["name"]:
        # a failing read throws a stream or conversion error, never these
        if n1 in ("std::bad_any_cast", "std::bad_cast", "std::bad_variant_access", "std::out_of_range"):
            return False
        raise Unsupported("handler of %s around a read" % n1)
    if n2 in BASES and n1 in BASES[n2]:
        return True
    return bool(_catches and _catches(en, n1, n2))


# ---- contracts at call sites --------------------------------------------------------------------------------------------
RCT, WCT = NS + "readCustomType", NS + "writeCustomType"
BSER = "ReflectiveRapidJSON::BinarySerializable"


def shape(u, fn):
    """(kind, value type, index of the value, index of the version) of the functions under contract."""
    q, pt = fn["q"], fn["pt"]
    if q in (DES + "::read", SER + "::write") and len(pt) in (1, 2):
        return ("read" if q.startswith(DES) else "write"), u.ty(pt[0]), 0, (1 if len(pt) == 2 else None)
    if q in (RCT, WCT) and len(pt) == 3:
        return ("read" if q == RCT else "write"), u.ty(pt[1]), 1, 2
    return None


class Contracts:
    def find(self, en, fn, obj, args):
        s = shape(en.u, fn)
        if s is None:
            return None
        try:
            check_specifiable(s[1])
        except Unsupported:
            return None
        return Call(fn, *s)


class Call:
    def __init__(self, fn, kind, ty, iv, ver):
        self.fn, self.kind, self.ty, self.iv, self.ver = fn, kind, ty, iv, ver
        self.name = "%s<%s>" % (fn["q"].split("::", 1)[-1], ty.sig())

    def apply(self, en, fn, obj, args):
        sp = BSpec(en)
        o = obj if self.iv == 0 else args[0]
        ver = en.val(args[self.ver]) if self.ver is not None else IntVal(0)
        if self.kind == "write":
            v = en.val(args[self.iv])
            if self.ty.k == "variant":
                en.assume(Not(v.f["vl"]))       # precondition of write(): no variant in the value is valueless
            set_wstate(en, o, sp.write(self.ty, v, wstate(en, o), en.load(heap_of(en)).f["h"], ver))
            return None
        rs = rstate(en, o)
        if opq(self.ty):
            # records only contain the members of their version; the others keep what they hold
            old = en.load(args[self.iv])
            en.oblige("B04", "an object read into has no indeterminate members", BoolVal(not (isinstance(old, Uninit) or str(old).startswith("indeterminate_"))))
        ok, v, r = sp.read(self.ty, rs, ver)
        need(en, ok, o)
        set_rstate(en, o, r)
        en.store(args[self.iv], v)
        return retver(self.ty, rs, ver)


def retver(ty, rs, ver):
    """The version read() returns."""
    return Function("RVER_" + ty.sig(), RS, I, I)(rs, ver) if opq(ty) else None if ty.k == "chrono" else ver


# ---- verification -------------------------------------------------------------------------------------------------------
def start(u, unroll, opts, scenario):
    en = Engine(u, Contracts(), LIB, dict(opts or {}, unroll=unroll, heap=True))
    en.scenario = scenario
    en.st = State()
    en.trace, en.pos, en.alts, en.prefix_len = [], 0, [], 0
    en.reached = 0
    en.o["fold_roles"] = None
    fresh_heap(en)
    return en


def finish(en, run):
    en.paths = en.explore(en.st, run)
    for o in en.obs:
        if o.tag in ("J03", "UB", "FPCONV"):
            o.tag = "B04"
    return [en]


def verify_write(u, f, unroll=0, opts=None):
    _, ty, iv, vi = shape(u, f)
    check_specifiable(ty)
    en = start(u, unroll, opts, "write")
    sp = BSpec(en)
    o = fresh_obj(en, "ser")
    v = en.fresh_value(ty, "value")
    if ty.k == "variant":
        en.assume(Not(v.f["vl"]))
    vl = en.new_cell(v)
    ver = en.fresh_value(U64, "version")
    args = [None] * len(f["pt"])
    if iv:
        args[0] = o
    args[iv] = vl
    if vi is not None:
        args[vi] = ver
    ws0 = wstate(en, o)
    heap = en.load(heap_of(en)).f["h"]
    size_facts(en, ty, v)
    spec = sp.write(ty, v, ws0, heap, ver if vi is not None else IntVal(0))
    if ty.k in ("seq", "set", "mset", "map", "mmap"):
        n = T.SIZE[ty.k](v)
        en.assume(n < VLQ_LIMIT)
        w1 = sp.vlq(ws0, n)
        en.o["fold_roles"] = lambda e, ks: [("out", lambda k: wout(sp.write_items(ty, v, w1, heap, k))), ("ptr", lambda k: wptr(sp.write_items(ty, v, w1, heap, k)))]

    def run():
        try:
            en.inline(f, None if iv else o, args)
        except CppThrow:
            en.enter(f)
            en.oblige("B02", "writing does not throw", FALSE)
            return
        en.enter(f)
        now = wstate(en, o)
        en.oblige("B03" if ty.k == "sptr" else "B02", "exactly the specified bytes are written", wout(now) == wout(spec), assume_after=False)
        en.oblige("B03", "the objects written so far are recorded", wptr(now) == wptr(spec), assume_after=False)
        en.oblige("B02", "the written value is left alone", eqv(en.load(vl), v), assume_after=False)
        en.reached += 1
    return finish(en, run)


def size_facts(en, ty, v):
    if ty.k == "sptr":
        en.assume(And(v.f["ref"] >= 1, v.f["ref"] < 1 << 64))


def verify_read(u, f, unroll=0, opts=None):
    _, ty, iv, vi = shape(u, f)
    check_specifiable(ty)
    en = start(u, unroll, opts, "read")
    sp = BSpec(en)
    o = fresh_obj(en, "des")
    v0 = en.fresh_value(ty, "old")
    tl = en.new_cell(v0)
    ver = en.fresh_value(U64, "version")
    args = [None] * len(f["pt"])
    if iv:
        args[0] = o
    args[iv] = tl
    if vi is not None:
        args[vi] = ver
    rs0 = rstate(en, o)
    ok, val, r1 = sp.read(ty, rs0, ver if vi is not None else IntVal(0))
    if ty.k in ("seq", "set", "mset", "map", "mmap"):
        i = rin(rs0)
        n = rd_vlq(i)
        ra = sp.at(rs0, rest_vlq(i))

        def roles(e, ks):
            st = lambda k: sp.items_state(ty, ra, k)
            out = [("in", lambda k: rin(st(k))), ("ptr", lambda k: rptr(st(k))), ("heap", lambda k: rheap(st(k))), ("next", lambda k: rnext(st(k))),
                   ("items", lambda k: sp.items(ty, ra, k))]
            if ty.k == "seq":
                out.append(("over", lambda k: sp.overwritten(ty, T.seq_resize(v0, n, en.box(en.vinit(ty.a[0]), ty.a[0])), ra, k)))
            return out
        en.o["fold_roles"] = roles
        en.o["extra_candidates"] = lambda e, M, v0s, ks: [("k<=n", lambda vals, k: k <= n), ("ok", lambda vals, k: sp.items_ok(ty, ra, k))]
    shared = "B03" if ty.k == "sptr" else "B01"

    def run():
        ghost = en.st.ghost
        try:
            r = en.inline(f, None if iv else o, args)
        except CppThrow as x:
            en.enter(f)
            if not ghost_threw(en):
                en.oblige("B04", "malformed input is rejected with a conversion exception", BoolVal(isinstance(x.ty, Ty) and x.ty.x.get("name") in (
                    "CppUtilities::ConversionException",)))
            en.oblige("B01", "an exception is only thrown if the input cannot be read", Not(ok))
            return
        en.enter(f)
        now = rstate(en, o)
        en.oblige("B04", "nothing is returned for malformed input", ok, assume_after=False)
        en.oblige(shared, "the target holds the value read, whatever it held before", Implies(ok, eqv(en.load(tl), val)), assume_after=False)
        en.oblige("B01", "exactly the bytes of the value are consumed", Implies(ok, rin(now) == rin(r1)), assume_after=False)
        en.oblige("B03", "the shared objects read so far are recorded", Implies(ok, And(rptr(now) == rptr(r1), rnext(now) == rnext(r1), rheap(now) == rheap(r1))),
                  assume_after=False)
        if vi is not None:
            rv = retver(ty, rs0, ver)
            if rv is not None:
                en.oblige("B05", "the version read is returned", en.val(r) == rv, assume_after=False)
        en.reached += 1
    return finish(en, run)


def ghost_threw(en):
    return bool(en.st.ghost.get("callee_threw"))


VERSIONS = re.compile(r"BinarySerializable<\w+, (\d+)(?:U[Ll]+)?>|Versioning<(OpqW)>|BinarySerializable<(OpqR)>")


def version_of(f):
    m = VERSIONS.search(f.get("diag") or "")
    if not m:
        raise Unsupported("version of %s" % f.get("diag"))
    return int(m.group(1)) if m.group(1) else 3 if m.group(2) else 0


def verify_versioning(u, f, unroll=0, opts=None):
    en = start(u, unroll, opts, "versioning")
    en.contracts = None
    mx = IntVal(version_of(f))
    v = en.fresh_value(U64, "version")
    vl = en.new_cell(v)
    n = f["q"].split("::")[-1]
    rec = CharP(FALSE, en.fresh(Str, "record"), True)
    args = {"applyDefault": [vl], "applyDefaultValue": [v], "isSupported": [v], "assertVersion": [v, rec]}[n]
    want = If(v == 0, mx, v)

    def run():
        try:
            r = en.inline(f, None, args)
        except CppThrow as x:
            en.enter(f)
            good = n == "assertVersion" and isinstance(x.v, RecV) and "VersionNotSupported" in str(x.ty.x.get("name"))
            en.oblige("B05", "only an unsupported version is reported", BoolVal(good))
            en.oblige("B05", "a version is only rejected if it is newer than supported", v > mx)
            en.oblige("B05", "the error names the version found, the supported one and the record",
                      And(x.v.f["presentVersion"] == v, x.v.f["maxVersion"] == mx, cs_of(x.v.f["record"]) == cs_of(rec)))
            return
        en.enter(f)
        if n == "applyDefault":
            en.oblige("B05", "the default version is applied to the argument", en.load(vl) == want, assume_after=False)
            en.oblige("B05", "the effective version is returned", en.val(r) == want, assume_after=False)
        elif n == "applyDefaultValue":
            en.oblige("B05", "the effective version is returned", en.val(r) == want, assume_after=False)
        elif n == "isSupported":
            en.oblige("B05", "versions up to the record's one are supported", en.tobool(en.val(r)) == (v <= mx), assume_after=False)
        else:
            en.oblige("B05", "a newer version is rejected", v <= mx, assume_after=False)
        en.reached += 1
    return finish(en, run)


def verify_serializable(u, f, unroll=0, opts=None):
    """toBinary(), restoreFromBinary() and fromBinary() of the CRTP base class."""
    n = f["q"].split("::")[-1]
    en = start(u, unroll, opts, n)
    sp = BSpec(en)
    ty = derived(u, f)
    v = en.fresh_value(ty, "object")
    tl = en.new_cell(v)
    heap0 = en.load(heap_of(en))
    ver = en.fresh_value(U64, "version")
    s0 = en.fresh(BS if n == "toBinary" else IN, "stream")
    sl = new_stream(en, s0)
    if n == "toBinary":
        spec = sp.write(ty, v, WS.ws(s0, T.EMPTY["map"]), heap0.f["h"], ver)
    else:
        rs0 = RS.rs(s0, T.EMPTY["map"], heap0.f["h"], heap0.f["n"])
        ok, val, r1 = sp.read(ty, rs0, IntVal(0))
    args = [sl] + ([ver] if n == "toBinary" else [])

    def run():
        try:
            r = en.inline(f, None if n == "fromBinary" else tl, args)
        except CppThrow:
            en.enter(f)
            if n == "toBinary":
                en.oblige("B02", "writing does not throw", FALSE)
            else:
                en.oblige("B04", "an exception is only thrown if the input cannot be read", Not(ok))
            return
        en.enter(f)
        if n == "toBinary":
            d = f["params"][1].get("def")
            if d is not None:
                en.oblige("B05", "by default the object is written in the version of its own type", BoolVal(d == 0), assume_after=False)
            en.oblige("B05", "the object is written in the requested version", en.load(sl.f("s")) == wout(spec), assume_after=False)
            en.oblige("B02", "the object is left alone", eqv(en.load(tl), v), assume_after=False)
        else:
            en.oblige("B04", "nothing is returned for malformed input", ok, assume_after=False)
            got = en.val(r) if n == "fromBinary" else en.load(tl)
            en.oblige("B01", "the object holds the value read", Implies(ok, eqv(got, val)), assume_after=False)
            en.oblige("B01", "exactly the bytes of the object are consumed", Implies(ok, en.load(sl.f("s")) == rin(r1)), assume_after=False)
            if n == "restoreFromBinary":
                en.oblige("B05", "the version read is returned", Implies(ok, en.val(r) == retver(ty, rs0, IntVal(0))), assume_after=False)
        en.reached += 1
    return finish(en, run)


def derived(u, f):
    name = re.search(r"BinarySerializable<(\w+)", f["diag"]).group(1)
    for k, r in u.types.items():
        if r.get("k") == "rec" and r.get("name") == name:
            return u.ty(k)
    raise Unsupported("record of %s" % f["diag"])


def targets(u):
    out = []
    for f in u.functions.values():
        if f.get("body") is None:
            continue
        s = shape(u, f)
        if s is not None:
            out.append((f, verify_read if s[0] == "read" else verify_write))
        elif f["q"].startswith("ReflectiveRapidJSON::Versioning::"):
            out.append((f, verify_versioning))
        elif f["q"] in (BSER + "::toBinary", BSER + "::restoreFromBinary", BSER + "::fromBinary"):
            out.append((f, verify_serializable))
    return out
