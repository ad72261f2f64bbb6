"""Round trip of the binary format as lemmas over the contracts of write() and read() (contracts_binary.BSpec), by induction over the structure of
types (element and record types are opaque and assumed to satisfy the statement) and over the number of elements.

cat(o, T) is the stream consisting of the bytes o followed by T.  enc(v, p, T) is the stream of an encoded v followed by T, if the objects in p have
been written before.  Statement for a type:
  W  cat(out(write(v, ws)), T) = cat(out(ws), enc(v, ptr(ws), T)), and the written objects afterwards are wp(v, ptr(ws))
  R  reading at enc(v, p, T) from a state corresponding to p succeeds, stops at T, gives a value similar to v (equal except that shared pointers are
     related by the table of objects read) and leaves a corresponding state which extends the one before."""
import z3
from z3 import And, Or, Not, If, Implies, IntVal, BoolVal, Function
from .sym import *
from . import theory as T
from .theory import deffold, rule
from . import contracts_binary as C
from .contracts_binary import BS, IN, WS, RS, HeapS, BSpec, U64, ANY, BOOL, wout, wptr, rin, rptr, rheap, rnext, opq
from .ir import Ty

I, B = z3.IntSort(), z3.BoolSort()
cat = Function("cat", BS, IN, IN)
cons_be, cons_vlq, cons_raw = Function("cons_be", I, I, IN, IN), Function("cons_vlq", I, IN, IN), Function("cons_raw", Str, IN, IN)
CORR, EXT = Function("CORR", MapS, MapS, I, B), Function("EXT", MapS, HeapS, I, MapS, HeapS, I, B)
TA = Function("type_at", I, I)      # the pointer type used for the object at an address (one address, one type)


@rule(cat)
def _(t, c):
    o, x = t.children()
    if z3.is_app(o) and o.decl().kind() == z3.Z3_OP_ITE:
        return [t == If(o.arg(0), cat(o.arg(1), x), cat(o.arg(2), x))]
    if T.app(o, WS.wout) and o.arg(0).decl().kind() == z3.Z3_OP_ITE:
        w = o.arg(0)
        return [t == If(w.arg(0), cat(wout(w.arg(1)), x), cat(wout(w.arg(2)), x))]
    if T.app(o, BS.app_be):
        return [t == cat(o.arg(0), cons_be(o.arg(1), o.arg(2), x))]
    if T.app(o, BS.app_vlq):
        return [t == cat(o.arg(0), cons_vlq(o.arg(1), x))]
    if T.app(o, BS.app_raw):
        return [t == cat(o.arg(0), cons_raw(o.arg(1), x))]
    return []


# BinaryReader reads back what BinaryWriter writes (assumed contracts of the library)
@rule(cons_be)
def _(t, c):
    n, v, x = t.children()
    return [Implies(And(v >= 0, v < 256 ** n.as_long()), And(C.ok_be(t, n), C.rd_be(t, n) == v, C.rest_be(t, n) == x))]


@rule(cons_vlq)
def _(t, c):
    v, x = t.children()
    return [Implies(And(v >= 0, v < C.VLQ_LIMIT), And(C.ok_vlq(t), C.rd_vlq(t) == v, C.rest_vlq(t) == x))]


@rule(cons_raw)
def _(t, c):
    s, x = t.children()
    n = T.s_len(s)
    return [C.ok_raw(t, n), C.rd_raw(t, n) == s, C.rest_raw(t, n) == x]


class Lem:
    def __init__(self, en, keep=False):
        self.en, self.sp, self.obs, self.keep = en, BSpec(en), [], keep
        self.n = 0

    def const(self, s, p):
        self.n += 1
        return z3.Const("%s'%d" % (p, self.n), s)

    def prove(self, tag, name, hyps, goal):
        from .props import prove, vacuous
        self.obs.append(prove(tag, name, hyps, goal, keep=self.keep))
        if vacuous(hyps, goal):
            self.obs.append(dict(self.obs[-1], name=name + " (vacuity guard: contradictory hypotheses)", res="invalid", smt=None))

    # ---- tables of shared objects
    def key(self, i):
        return self.en.box(i, U64)

    def any(self, rp, i):
        return self.en.unbox(T.mp_get(rp, self.key(i)), ANY)

    def flag(self, p, i):
        k = self.key(i)
        return And(T.mp_has(p, k), self.en.unbox(T.mp_get(p, k), BOOL))

    def corr_at(self, p, rp, nx, a, b):
        x, y = self.any(rp, a), self.any(rp, b)
        ha, hb = T.mp_has(rp, self.key(a)), T.mp_has(rp, self.key(b))
        return And(self.flag(p, a) == ha, self.flag(p, b) == hb, Implies(ha, And(x.f["kind"] == TA(a), x.f["has"], x.f["ref"] > 0, x.f["ref"] < nx)),
                   Implies(hb, And(y.f["kind"] == TA(b), y.f["has"], y.f["ref"] > 0, y.f["ref"] < nx)),
                   Implies(And(ha, hb, a != b), x.f["ref"] != y.f["ref"]))

    def ext_at(self, r1, r2, a, j):
        k = self.key(a)
        return And(Implies(T.mp_has(rptr(r1), k), And(T.mp_has(rptr(r2), k), T.mp_get(rptr(r2), k) == T.mp_get(rptr(r1), k))), rnext(r1) <= rnext(r2),
                   Implies(And(0 < j, j < rnext(r1)), rheap(r2)[j] == rheap(r1)[j]))

    def corr(self, p, r):
        return CORR(p, rptr(r), rnext(r))

    def ext(self, r1, r2):
        return EXT(rptr(r1), rheap(r1), rnext(r1), rptr(r2), rheap(r2), rnext(r2))

    # ---- statement for opaque types (induction hypothesis)
    def opaque_fns(self, ty):
        n = ty.sig()
        return (Function("ENC_" + n, Val, MapS, HeapS, I, IN, IN), Function("WP_" + n, Val, MapS, HeapS, I, MapS), Function("SIM_" + n, Val, Val, MapS, B))

    def enc(self, ty, v, p, heap, x, ver=IntVal(0)):
        """The stream of an encoded value, for opaque types and the types built of them."""
        sp, en, k = self.sp, self.en, ty.k
        if opq(ty):
            return self.opaque_fns(ty)[0](v, p, heap, ver, x)
        if k == "int":
            n = ty.x["bits"]
            return cons_be(IntVal(n // 8), C.unsig(v, n) if ty.x["signed"] else v, x)
        if k == "enum":
            return cons_be(IntVal(1), v, x) if ty.a[0].k == "bool" else self.enc(ty.a[0], v, p, heap, x)
        if k == "bool":
            return cons_be(IntVal(1), If(v, IntVal(1), IntVal(0)), x)
        if k in ("f32", "f64"):
            return cons_be(IntVal(4 if k == "f32" else 8), (C.f32_bits if k == "f32" else C.f64_bits)(v), x)
        if k == "str":
            return cons_vlq(T.s_len(v), cons_raw(v, x))
        if k == "monostate":
            return x
        if k == "chrono":
            return self.enc(en.chrono_ticks(ty), v.f["ticks"], p, heap, x)
        if k == "pair":
            a, b = ty.a[:2]
            return self.enc(a, v.f["first"], p, heap, self.enc(b, v.f["second"], self.wp(a, v.f["first"], p, heap), heap, x))
        if k in ("opt", "uptr"):
            return If(v.f["has"], cons_be(IntVal(1), IntVal(1), self.enc(ty.a[0], v.f["v"], p, heap, x)), cons_be(IntVal(1), IntVal(0), x))
        if k == "variant":
            r = x
            for i, t in enumerate(ty.a):
                r = If(v.f["idx"] == i, self.enc(t, v.f[str(i)], p, heap, x), r)
            return cons_be(IntVal(1), v.f["idx"], r)
        if k == "sptr":
            i = v.f["ref"]
            known, big = self.flag(p, i), i >= C.BIGID
            p3 = T.mp_put(p, self.key(i), en.box(TRUE, BOOL))
            rest = If(known, x, self.enc(ty.a[0], en.unbox(heap[i], ty.a[0]), p3, heap, x))
            mode = If(known, IntVal(2), IntVal(1)) + If(big, IntVal(4), IntVal(0))
            return If(v.f["has"], cons_be(IntVal(1), mode, If(big, cons_be(IntVal(8), i, rest), cons_vlq(i, rest))), cons_be(IntVal(1), IntVal(0), x))
        if k in C_KINDS:
            return cons_vlq(T.SIZE[k](v), self.encf(ty)(v, p, heap, IntVal(0), x))
        raise Unsupported("encoding of %r" % ty)

    def wp(self, ty, v, p, heap, ver=IntVal(0)):
        if opq(ty):
            return self.opaque_fns(ty)[1](v, p, heap, ver)
        k = ty.k
        if k == "pair":
            return self.wp(ty.a[1], v.f["second"], self.wp(ty.a[0], v.f["first"], p, heap), heap)
        if k in ("opt", "uptr"):
            return If(v.f["has"], self.wp(ty.a[0], v.f["v"], p, heap), p)
        if k == "variant":
            r = p
            for i, t in enumerate(ty.a):
                r = If(v.f["idx"] == i, self.wp(t, v.f[str(i)], p, heap), r)
            return r
        if k == "sptr":
            i = v.f["ref"]
            p3 = T.mp_put(p, self.key(i), self.en.box(TRUE, BOOL))
            return If(And(v.f["has"], Not(self.flag(p, i))), self.wp(ty.a[0], self.en.unbox(heap[i], ty.a[0]), p3, heap), p)
        if k in C_KINDS:
            raise Unsupported("objects written by %r" % ty)
        return p

    def encf(self, ty):
        return Function("ENCF_" + ty.sig(), CONT_SORT[ty.k], MapS, HeapS, I, IN, IN)

    def sim(self, ty, v, w, rp):
        k = ty.k
        if opq(ty):
            return self.opaque_fns(ty)[2](v, w, rp)
        if k == "pair":
            return And(self.sim(ty.a[0], v.f["first"], w.f["first"], rp), self.sim(ty.a[1], v.f["second"], w.f["second"], rp))
        if k in ("opt", "uptr"):
            return And(v.f["has"] == w.f["has"], Implies(v.f["has"], self.sim(ty.a[0], v.f["v"], w.f["v"], rp)))
        if k == "variant":
            return And(Not(w.f["vl"]), v.f["idx"] == w.f["idx"], *[Implies(v.f["idx"] == i, self.sim(t, v.f[str(i)], w.f[str(i)], rp)) for i, t in enumerate(ty.a)])
        if k == "sptr":
            a = self.any(rp, v.f["ref"])
            return And(v.f["has"] == w.f["has"], Implies(v.f["has"], And(T.mp_has(rp, self.key(v.f["ref"])), a.f["ref"] == w.f["ref"], a.f["kind"] == C.typeid(ty))))
        return eqv(v, w)

    def fresh(self, ty):
        self.en.st.pc if False else None
        return self.en.fresh_value(ty, "v")

    def state(self, p, name, where):
        rp, h, nx = self.const(MapS, name + ".ptr"), self.const(HeapS, name + ".heap"), self.const(I, name + ".next")
        return RS.rs(where, rp, h, nx)

    def ih(self, ty, v, p, heap, r, x, ver=IntVal(0)):
        """R for an opaque type: reading at ENC(v, p, ...) from r."""
        e, w, s = self.opaque_fns(ty)
        ok, val, r2 = self.sp.read(ty, r, ver)
        return Implies(And(rin(r) == e(v, p, heap, ver, x), self.corr(p, r)),
                       And(ok, rin(r2) == x, s(v, val, rptr(r2)), self.corr(w(v, p, heap, ver), r2), self.ext(r, r2)))

    def ihw(self, ty, v, ws, heap, x, ver=IntVal(0)):
        """W for an opaque type."""
        e, w, _ = self.opaque_fns(ty)
        o = self.sp.write(ty, v, ws, heap, ver)
        return And(cat(wout(o), x) == cat(wout(ws), e(v, wptr(ws), heap, ver, x)), wptr(o) == w(v, wptr(ws), heap, ver))

    def mono_sim(self, ty, v, w, r1, r2):
        """Similarity is kept by extensions (opaque types: hypothesis)."""
        return Implies(And(self.ext(r1, r2), self.sim(ty, v, w, rptr(r1))), self.sim(ty, v, w, rptr(r2)))

    def ext_use(self, r1, r2, ids, refs=()):
        return [Implies(self.ext(r1, r2), And(rnext(r1) <= rnext(r2), *[self.ext_at(r1, r2, a, j) for a in ids for j in (refs or [IntVal(0)])]))]

    # ---- the lemmas
    def facts(self):
        return list(self.en.st.pc)

    def parts_ih(self, ty, v, p, heap, r, x, ws):
        """Hypotheses for the immediate parts, at the states in which they are read and written."""

    def lemma(self, ty):
        en, sp = self.en, self.sp
        name = ty.sig()
        tag = "B03" if ty.k == "sptr" else "B01"
        en.st.pc = []
        v = self.fresh(ty)
        hyp = list(en.st.pc)
        if ty.k == "variant":
            hyp.append(Not(v.f["vl"]))
        heap = self.const(HeapS, "wheap")
        x = self.const(IN, "tail")
        ws = WS.ws(self.const(BS, "out"), self.const(MapS, "p"))
        p = wptr(ws)
        if ty.k in C_KINDS:
            return self.container(ty, tag, v, ws, heap, x)
        w = sp.write(ty, v, ws, heap)
        e = self.enc(ty, v, p, heap, x)
        H = []
        k = ty.k
        r = self.state(p, "r", e)
        ok, val, r2 = sp.read(ty, r)
        if k == "sptr":
            H.append(v.f["ref"] < 1 << 56)
            H.append(TA(v.f["ref"]) == C.typeid(ty))
            H.append(v.f["ref"] >= 1)
            if opq(ty.a[0]):
                i = v.f["ref"]
                w1 = sp.be(ws, 1, If(self.flag(p, i), IntVal(2), IntVal(1)) + If(i >= C.BIGID, IntVal(4), IntVal(0)))
                w2 = C.ITE(i >= C.BIGID, sp.be(w1, 8, i), sp.vlq(w1, i))
                w3 = WS.ws(wout(w2), T.mp_put(wptr(w2), self.key(i), en.box(TRUE, BOOL)))
                H.append(self.ihw(ty.a[0], en.unbox(heap[i], ty.a[0]), w3, heap, x))
        parts = self.uses(ty, v, p, heap, x, ws, r, w)
        for (t, pv, pp, pr, px, pws) in parts:
            if opq(t):
                H += [self.ih(t, pv, pp, heap, pr, px), self.ihw(t, pv, pws, heap, px)]
        self.prove(tag, "%s: the encoding of a value is a function of the value and the objects written before" % name, hyp + H, cat(wout(w), x) == cat(wout(ws), e))
        self.prove(tag, "%s: the objects written" % name, hyp + H, wptr(w) == self.wp(ty, v, p, heap))
        C0 = [self.corr(p, r)]
        ids = [v.f["ref"]] if k == "sptr" else []
        a, b = self.const(I, "a"), self.const(I, "b")
        hs = hyp + H + C0
        if k == "sptr":
            return self.pointer(ty, tag, name, v, p, heap, r, ok, val, r2, hs, a, b, x)
        # what the parts' extensions amount to is shown via transitivity
        trans = []
        seq = [r] + [q for q in self.chain(ty, r, parts)]
        for r1 in seq:
            for q in seq:
                for t3 in seq:
                    trans.append(Implies(And(self.ext(r1, q), self.ext(q, t3)), self.ext(r1, t3)))
            trans.append(self.ext(r1, r1))
        monos = []
        for (t, pv, pp, pr, px, pws) in parts:
            if opq(t):
                ro = sp.read(t, pr)
                for q in seq + [r2]:
                    monos.append(self.mono_sim(t, pv, ro[1], ro[2], q))
        for goal, what in ((ok, "what was written can be read"), (rin(r2) == x, "reading stops behind the value"), (self.sim(ty, v, val, rptr(r2)), "the value is restored"),
                           (self.corr(self.wp(ty, v, p, heap), r2), "the tables of shared objects keep corresponding"), (self.ext(r, r2), "known objects are kept")):
            self.prove(tag, "%s: %s" % (name, what), hs + trans + monos, goal)

    def uses(self, ty, v, p, heap, x, ws, r, w):
        """The immediate parts: (type, value, objects written before, reading state, tail, writing state)."""
        sp, k = self.sp, ty.k
        if k == "pair":
            a, b = ty.a[:2]
            va, vb = v.f["first"], v.f["second"]
            w1 = sp.write(a, va, ws, heap)
            p1 = self.wp(a, va, p, heap)
            return [(a, va, p, r, self.enc(b, vb, p1, heap, x), ws), (b, vb, p1, sp.read(a, r)[2], x, w1)]
        if k in ("opt", "uptr"):
            return [(ty.a[0], v.f["v"], p, sp.rbe(r, 1)[2], x, sp.be(ws, 1, If(v.f["has"], IntVal(1), IntVal(0))))]
        if k == "variant":
            return [(t, v.f[str(i)], p, sp.rbe(r, 1)[2], x, sp.be(ws, 1, v.f["idx"])) for i, t in enumerate(ty.a)]
        return []

    def chain(self, ty, r, parts):
        return [self.sp.read(t, pr)[2] for (t, pv, pp, pr, px, pws) in parts] + ([self.sp.rbe(r, 1)[2]] if ty.k in ("opt", "uptr", "variant") else [])

    def pointer(self, ty, tag, name, v, p, heap, r, ok, val, r2, hs, a, b, x):
        en, sp = self.en, self.sp
        et = ty.a[0]
        i = v.f["ref"]
        # definition of CORR at the addresses involved
        use = [Implies(self.corr(p, r), And(self.corr_at(p, rptr(r), rnext(r), i, a), self.corr_at(p, rptr(r), rnext(r), a, b), self.corr_at(p, rptr(r), rnext(r), i, b), rnext(r) >= 1))]
        okm, m, r1 = sp.rbe(r, 1)
        big = i >= C.BIGID
        known = self.flag(p, i)
        H = hs + use
        self.prove(tag, name + ": a null pointer is restored", H + [Not(v.f["has"])], And(ok, rin(r2) == x, Not(val.f["has"]), rptr(r2) == rptr(r), rnext(r2) == rnext(r)))
        self.prove(tag, name + ": a pointer to an object written before refers to the object read before", H + [v.f["has"], known],
                   And(ok, rin(r2) == x, self.sim(ty, v, val, rptr(r2)), rptr(r2) == rptr(r), rnext(r2) == rnext(r), rheap(r2) == rheap(r)))
        # first occurrence
        key = self.key(i)
        p3 = T.mp_put(p, key, en.box(TRUE, BOOL))
        ref = rnext(r)
        r3 = RS.rs(self.const(IN, "in3"), T.mp_put(rptr(r), key, en.box(C.any_val(IntVal(C.typeid(ty)), TRUE, ref), ANY)),
                   z3.Store(rheap(r), ref, en.box(en.vinit(et), et)), ref + 1)
        new = H + [v.f["has"], Not(known)]
        self.prove(tag, name + ": the tables correspond while a new object is read", new, And(self.corr_at(p3, rptr(r3), rnext(r3), a, b), rnext(r3) >= 1))
        self.prove(tag, name + ": known objects are kept while a new object is read", new, self.ext_at(r, r3, a, b))
        # with the hypothesis for the object itself
        r3x = RS.rs(self.enc(et, en.unbox(heap[i], et), p3, heap, x), rptr(r3), rheap(r3), rnext(r3))
        okv, ev, r4 = sp.read(et, r3x)
        if opq(et):
            step = [self.ih(et, en.unbox(heap[i], et), p3, heap, r3x, x), self.corr(p3, r3x)]
        else:
            # proved for the element type by its own lemma
            step = [okv, rin(r4) == x, self.sim(et, en.unbox(heap[i], et), ev, rptr(r4)), self.corr(self.wp(et, en.unbox(heap[i], et), p3, heap), r4), self.ext(r3x, r4)]
        step += self.ext_use(r3x, r4, [i, a], [b, ref])
        self.prove(tag, name + ": a new object can be read, reading stops behind it", new + step, And(ok, rin(r2) == x))
        self.prove(tag, name + ": the pointer refers to the new object", new + step, And(self.sim(ty, v, val, rptr(r2)), val.f["ref"] == ref))
        self.prove(tag, name + ": the new object is restored", new + step, rheap(r2)[ref] == en.box(ev, et))
        self.prove(tag, name + ": known objects are kept", new + step + [self.ext_at(r, r3x, a, b)], self.ext_at(r, r2, a, b))
        wp2 = self.wp(ty, v, p, heap)
        self.prove(tag, name + ": the tables of shared objects keep corresponding", new + step, And(wp2 == self.wp(et, en.unbox(heap[i], et), p3, heap), rptr(r2) == rptr(r4), rnext(r2) == rnext(r4)))

    def identity(self, ty):
        """Pointers are equal after reading iff they were equal when written."""
        en = self.en
        en.st.pc = []
        v1, v2, w1, w2 = [en.fresh_value(ty, n) for n in ("v1", "v2", "w1", "w2")]
        p, r = self.const(MapS, "p"), self.state(None, "r", self.const(IN, "in"))
        H = [self.corr_at(p, rptr(r), rnext(r), v1.f["ref"], v2.f["ref"]), self.sim(ty, v1, w1, rptr(r)), self.sim(ty, v2, w2, rptr(r)), v1.f["has"], v2.f["has"]]
        self.prove("B03", ty.sig() + ": pointers are equal after reading iff they were equal before writing", H, (v1.f["ref"] == v2.f["ref"]) == (w1.f["ref"] == w2.f["ref"]))

    def container(self, ty, tag, c, ws, heap, x):
        en, sp, k = self.en, self.sp, ty.k
        name = ty.sig()
        n = T.SIZE[k](c)
        p = wptr(ws)
        w1 = sp.vlq(ws, n)
        q = self.const(I, "k")
        et = sp.elty(ty)
        _, el = sp.element(ty, c, q)
        wk, wk1 = sp.write_items(ty, c, w1, heap, q), sp.write_items(ty, c, w1, heap, q + 1)
        pk = wptr(wk)
        F = self.encf(ty)
        hk = [q >= 0, q < n, n < C.VLQ_LIMIT, n >= 0]
        # definition of the encoding from element k on
        nxt = F(c, p, heap, q + 1, x)
        d = [F(c, p, heap, q, x) == self.enc(et, el, pk, heap, nxt)]
        H = self.part_hyps(et, el, pk, heap, nxt, wk)
        wel = sp.write(et, el, wk, heap)
        H.append(Implies(wout(wel) == wout(wk1), cat(wout(wel), nxt) == cat(wout(wk1), nxt)))
        self.prove(tag, name + ": encoding of the elements (step)", hk + d + H + [cat(wout(wk), F(c, p, heap, q, x)) == cat(wout(w1), F(c, p, heap, IntVal(0), x))],
                   cat(wout(wk1), nxt) == cat(wout(w1), F(c, p, heap, IntVal(0), x)))
        wn = sp.write_items(ty, c, w1, heap, n)
        fin = [F(c, p, heap, n, x) == x, n >= 0, n < C.VLQ_LIMIT]
        self.prove(tag, name + ": encoding of the elements (start)", [], cat(wout(sp.write_items(ty, c, w1, heap, IntVal(0))), F(c, p, heap, IntVal(0), x)) == cat(wout(w1), F(c, p, heap, IntVal(0), x)))
        self.prove(tag, name + ": the encoding of a value is a function of the value and the objects written before",
                   fin + [cat(wout(wn), F(c, p, heap, n, x)) == cat(wout(w1), F(c, p, heap, IntVal(0), x))],
                   cat(wout(sp.write(ty, c, ws, heap)), x) == cat(wout(ws), self.enc(ty, c, p, heap, x)))
        # reading
        r = self.state(p, "r", self.enc(ty, c, p, heap, x))
        i0 = rin(r)
        r0 = sp.at(r, C.rest_vlq(i0))
        self.prove(tag, name + ": the number of elements is read", [n >= 0, n < C.VLQ_LIMIT], And(C.ok_vlq(i0), C.rd_vlq(i0) == n, rin(r0) == F(c, p, heap, IntVal(0), x)))
        rk, rk1 = sp.items_state(ty, r0, q), sp.items_state(ty, r0, q + 1)
        ok, val, rn_ = sp.read(et, rk)
        inv = [rin(rk) == F(c, p, heap, q, x), sp.items_ok(ty, r0, q), self.corr(pk, rk), self.ext(r0, rk)]
        R = self.part_reads(et, el, pk, heap, rk, nxt)
        tr = [Implies(And(self.ext(r0, rk), self.ext(rk, rk1)), self.ext(r0, rk1))]
        base = hk + d + H + inv + R + tr
        for what, g in (("the elements read so far can be read", sp.items_ok(ty, r0, q + 1)), ("reading goes on behind the element", rin(rk1) == nxt),
                        ("the tables of shared objects keep corresponding", self.corr(wptr(wk1), rk1)), ("known objects are kept", self.ext(r0, rk1)),
                        ("the element is restored", self.sim(et, el, val, rptr(rk1)))):
            self.prove(tag, "%s: %s (step)" % (name, what), base, g)
        ik, ik1 = sp.items(ty, r0, q), sp.items(ty, r0, q + 1)
        if k == "seq":
            i = self.const(I, "i")
            pushed = T.seq_push(ik, en.box(sp.item(ty, r0, q), ty.a[0]))
            self.prove(tag, name + ": reading an element appends it", [q >= 0], ik1 == pushed)
            self.prove(tag, name + ": the sequence read has the elements read (step)", [q >= 0, T.seq_len(ik) == q, 0 <= i, i <= q,
                                                                                       Implies(i < q, T.seq_at(ik, i) == en.box(sp.item(ty, r0, i), ty.a[0]))],
                       And(T.seq_len(pushed) == q + 1, T.seq_at(pushed, i) == en.box(sp.item(ty, r0, i), ty.a[0])))
        else:
            # a container is what inserting its elements in order gives (library); so it is restored if its elements are
            ins = self.inserted(ty)
            leaf = [(ty.a[0], el.f["first"], val.f["first"]), (ty.a[1], el.f["second"], val.f["second"])] if ty.k in ("map", "mmap") else [(ty.a[0], el, val)]
            same = And(*[eqv(en.box(b, t), en.box(a, t)) for t, a, b in leaf])
            self.prove(tag, name + ": the container read has the elements written (step)", [q >= 0, ins(c, q) == ik, same], ins(c, q + 1) == ik1)
            self.prove(tag, name + ": the container is restored", [n >= 0, n < C.VLQ_LIMIT, ins(c, n) == c, ins(c, n) == sp.items(ty, r0, n)], sp.read(ty, r)[1] == c)

    def inserted(self, ty):
        en, sp = self.en, self.sp

        def step(c, k, p):
            _, v = sp.element(ty, c, k)
            if ty.k == "map":
                kb, vb = en.box(v.f["first"], ty.a[0]), en.box(v.f["second"], ty.a[1])
                return If(T.mp_has(p, kb), p, T.mp_put(p, kb, vb))
            if ty.k == "mmap":
                return T.mm_ins(p, en.box(v.f["first"], ty.a[0]), en.box(v.f["second"], ty.a[1]))
            return {"set": T.set_ins, "mset": T.ms_ins}[ty.k](p, en.box(v, ty.a[0]))
        return deffold("insf_" + ty.sig(), [CONT_SORT[ty.k]], CONT_SORT[ty.k], lambda c: T.EMPTY[ty.k], step)

    def part_hyps(self, et, el, pk, heap, x, wk):
        """W for the element (opaque parts: hypothesis; their composition is what enc unfolds to)."""
        if opq(et):
            return [self.ihw(et, el, wk, heap, x)]
        if et.k == "pair":
            a, b = et.a[:2]
            va, vb = el.f["first"], el.f["second"]
            p1 = self.wp(a, va, pk, heap)
            out = []
            if opq(a):
                out.append(self.ihw(a, va, wk, heap, self.enc(b, vb, p1, heap, x)))
            if opq(b):
                out.append(self.ihw(b, vb, self.sp.write(a, va, wk, heap), heap, x))
            return out
        return []

    def part_reads(self, et, el, pk, heap, rk, x):
        sp = self.sp
        if opq(et):
            return [self.ih(et, el, pk, heap, rk, x)]
        if et.k == "pair":
            a, b = et.a[:2]
            va, vb = el.f["first"], el.f["second"]
            p1 = self.wp(a, va, pk, heap)
            ra, rb = sp.read(a, rk), sp.read(b, sp.read(a, rk)[2])
            out = [self.ext(rk, rk), self.ext(ra[2], ra[2])]
            if opq(a):
                out += [self.ih(a, va, pk, heap, rk, self.enc(b, vb, p1, heap, x)), self.mono_sim(a, va, ra[1], ra[2], rb[2])]
            if opq(b):
                out.append(self.ih(b, vb, p1, heap, ra[2], x))
            out.append(Implies(And(self.ext(rk, ra[2]), self.ext(ra[2], rb[2])), self.ext(rk, rb[2])))
            return out
        return [self.ext(rk, rk)] + ([self.ext(rk, sp.read(et, rk)[2])] if sp.untracked(et) and False else [])


C_KINDS = ("seq", "set", "mset", "map", "mmap")


def shallow(ty):
    """The type is built of opaque and basic types only: all others follow by induction."""
    if ty.k in C.BASIC or ty.k in ("enum", "chrono", "monostate"):
        return True
    return all(opq(t) or t.k in C.BASIC or t.k == "monostate" for t in C.parts(ty))


def collect(u):
    seen = {}
    for f in u.functions.values():
        s = C.shape(u, f)
        if s is None or opq(s[1]):
            continue
        try:
            C.check_specifiable(s[1])
        except Unsupported:
            continue
        if s[1].k != "rec" and shallow(s[1]):
            seen.setdefault(s[1].sig(), s[1])
    return [seen[k] for k in sorted(seen)]


def obligations(u, tags, keep=False):
    from .engine import Engine, State
    from .lib_std import LIB
    en = Engine(u, C.Contracts(), LIB, {"heap": True})
    en.st = State()
    en.trace, en.pos, en.alts, en.prefix_len = [], 0, [], 0
    C.fresh_heap(en)
    L = Lem(en, keep)
    for ty in collect(u):
        t = "B03" if ty.k == "sptr" else "B01"
        if t not in tags:
            continue
        L.lemma(ty)
        if ty.k == "sptr":
            L.identity(ty)
        if ty.k == "seq":
            st = L.const(z3.ArraySort(I, I), "unused")
            L.sp.overwritten(ty, L.const(SeqS, "s"), L.state(None, "r", L.const(IN, "in")), L.const(I, "k"))
    if "B01" in tags:
        for n in sorted(C.OVER):
            for name, hyps, goal in C.lemma_over(n):
                L.prove("B01", "%s: %s" % (n, name), hyps, goal)
    return L.obs
