"""Round trip of the JSON reflector as lemmas over the contracts of push() and pull() (contracts_json.Spec), by induction over the structure of types
(element, member and record types are opaque and assumed to satisfy the statement) and over the number of elements.

Statement for a type T, for all values v, all previous contents v0 of the target and all logs:
  pull_T(v0, push_T(v)) = v, and deserializing push_T(v) adds nothing to the log of errors.

Outside the statement, as the JSON written does not tell the values apart: an optional or pointer whose content is itself written as null, a valueless
variant; types which can be written only (const char *, string_view, forward_list)."""
import z3
from z3 import And, Or, Not, If, Implies, IntVal, Function
from .sym import *
from . import theory as T
from .theory import deffold
from . import contracts_json as C
from .contracts_json import Spec, opq, by_object
from .ir import Ty

I = z3.IntSort()
K0, C0, X0 = z3.Const("K'", LogK), z3.Const("C'", LogC), (z3.Const("rec'", CS), z3.Const("mem'", CS), z3.Int("idx'"))
BASIC = ("int", "enum", "bool", "f64", "f32", "str", "chrono", "monostate")
ITEMS, MEMBERS = ("seq", "set", "mset"), ("map", "mmap")


class Hypothesis:
    """The statement for the opaque types: instantiated for the values at hand wherever their JSON is deserialized."""

    def __init__(self):
        self.values, self.rules = {}, []

    def add(self, ty, v):
        if not opq(ty):
            return
        n = ty.sig()
        if n not in self.values:
            self.values[n] = []
            if by_object(ty):
                push = Function("PUSHO_" + n, Val, MSeq, MSeq)
                p = lambda v, push=push: push(v, MSeq.mnil)
                names = ["PULLO_" + n, "KLOGO_" + n, "CLOGO_" + n]
            else:
                p = Function("PUSH_" + n, Val, J)
                names = ["PULL_" + n, "KLOG_" + n, "CLOG_" + n]
            vals = self.values[n]

            def pull(t, c):
                return [Implies(t.arg(1) == p(v), t == v) for v in vals]

            def log(i):
                return lambda t, c: [Implies(t.arg(0) == p(v), t == t.arg(1)) for v in vals]
            for name, r in zip(names, (pull, log(1), log(1))):
                T.RULES.setdefault(name, []).append(r)
                self.rules.append((name, r))
        if not any(v.eq(w) for w in self.values[n]):
            self.values[n].append(v)

    def clear(self):
        for name, r in self.rules:
            T.RULES[name].remove(r)
        self.values, self.rules = {}, []


class Lem:
    def __init__(self, en, keep=False):
        self.en, self.sp, self.obs, self.keep = en, Spec(en), [], keep
        self.ih = Hypothesis()

    def prove(self, ty, name, hyps, goal, may_contradict=False):
        from .props import prove, vacuous
        hyps, goal = [z3.simplify(h) for h in hyps], z3.simplify(goal)        # aval(jarr(x)) = x and the like
        self.obs.append(prove("J01", "%s: %s" % (ty.sig(), name), hyps, goal, keep=self.keep))
        if not may_contradict and vacuous(hyps, goal):
            self.obs.append(dict(self.obs[-1], name=self.obs[-1]["name"] + " (vacuity guard: contradictory hypotheses)", res="invalid", smt=None))

    def value_facts(self, ty, v):
        """Assumed of the library and of the values in question."""
        if opq(ty):
            self.ih.add(ty, v)
            return []
        if ty.k == "chrono":
            t = C.chrono_str(ty)(v.f["ticks"])
            return [T.s_cstr(t) == t, C.chrono_ok(ty)(t), C.chrono_from(ty)(t) == v.f["ticks"]]
        if ty.k in ("opt", "uptr", "sptr"):
            return [Implies(v.f["has"], Not(J.is_jnull(self.sp.push(ty.a[0], v.f["v"]))))]
        return []

    def object_of(self, ty, b):
        """Facts about an element: it is an object of its type."""
        en = self.en
        if opq(ty):
            return []
        pc, en.st.pc = en.st.pc, []
        w = en.fresh_value(ty, "w")
        out = en.st.pc + [eqv(w, en.unbox(b, ty)), en.box(w, ty) == b]
        en.st.pc = pc
        return out

    def parts(self, ty, v):
        if ty.k in ("opt", "uptr", "sptr"):
            return [(ty.a[0], v.f["v"])]
        if ty.k == "pair":
            return [(ty.a[0], v.f["first"]), (ty.a[1], v.f["second"])]
        if ty.k in ("tuple", "variant"):
            return [(t, v.f[str(i)]) for i, t in enumerate(ty.a)]
        return []

    def same(self, ty, a, b):
        k = ty.k
        if opq(ty) or isinstance(a, z3.ExprRef):
            return a == b
        if k == "monostate":
            return z3.BoolVal(True)
        if k in ("opt", "uptr", "sptr"):
            return And(a.f["has"] == b.f["has"], Implies(a.f["has"], self.same(ty.a[0], a.f["v"], b.f["v"])))
        if k == "variant":
            return And(a.f["vl"] == b.f["vl"], a.f["idx"] == b.f["idx"], *[Implies(a.f["idx"] == i, self.same(t, a.f[str(i)], b.f[str(i)])) for i, t in enumerate(ty.a)])
        if k == "chrono":
            return a.f["ticks"] == b.f["ticks"]
        return And(*[self.same(t, x, y) for (t, x), (_, y) in zip(self.parts(ty, a), self.parts(ty, b))])

    def lemma(self, ty):
        en, sp = self.en, self.sp
        self.ih.clear()
        en.st.pc = []
        v, v0 = en.fresh_value(ty, "v"), en.fresh_value(ty, "old")
        if ty.k == "variant":
            v.f["vl"] = FALSE
        hyps = list(en.st.pc) + self.value_facts(ty, v)
        if ty.k in ITEMS:
            return self.items(ty, v, v0)
        if ty.k in MEMBERS:
            return self.members(ty, v, v0)
        for t, p in self.parts(ty, v):
            hyps += self.value_facts(t, p)
        self.statement(ty, v, v0, hyps)

    def statement(self, ty, v, v0, hyps):
        sp = self.sp
        j = sp.push(ty, v)
        k, c = sp.logs(ty, j, K0, C0, X0)
        self.prove(ty, "the value is restored, whatever the target held", hyps, self.same(ty, v, sp.pull(ty, v0, j)))
        self.prove(ty, "nothing is added to the log of errors", hyps, And(k == K0, c == C0))

    # ---- arrays
    def inserted(self, ty, c, k):
        """What inserting the first k elements of c in order gives."""
        en = self.en
        if ty.k in ITEMS:
            ins = {"seq": T.seq_push, "set": T.set_ins, "mset": T.ms_ins}[ty.k]
            at, et = T.AT[ty.k], ty.a[0]
            step = lambda c, k, p: ins(p, en.box(en.unbox(at(c, k), et), et))
        else:
            put, kat, vat = {"map": (T.mp_put, T.mp_keyat, T.mp_valat), "mmap": (T.mm_ins, T.mm_keyat, T.mm_valat)}[ty.k]
            step = lambda c, k, p: put(p, en.box(en.unbox(kat(c, k), ty.a[0]), ty.a[0]), en.box(en.unbox(vat(c, k), ty.a[1]), ty.a[1]))
        return deffold("ins_" + ty.sig(), [CONT_SORT[ty.k]], CONT_SORT[ty.k], lambda c: T.EMPTY[ty.k], step)(c, k)

    def items(self, ty, c, v0):
        en, sp, et = self.en, self.sp, ty.a[0]
        q, i = z3.Int("q'"), z3.Int("i'")
        n = T.SIZE[ty.k](c)
        at = T.AT[ty.k]
        el = lambda k: en.unbox(at(c, k), et)
        out = lambda k: sp.push_items(ty, c, k)
        size = [n >= 0, n < T.SIZE_LIMIT]
        # what was written
        self.prove(ty, "an array with one value per element is written (start)", [], T.jlen(out(IntVal(0))) == 0)
        more = JSeq.jsnoc(out(q), sp.push(et, el(q)))
        self.prove(ty, "writing an element appends its value", [q >= 0], out(q + 1) == more)
        self.prove(ty, "an array with one value per element is written (step)", size + [q >= 0, q < n, T.jlen(out(q)) == q], T.jlen(more) == q + 1)
        self.prove(ty, "each element is written at its position (step)",
                   size + [q >= 0, q < n, T.jlen(out(q)) == q, 0 <= i, i <= q, Implies(i < q, T.jat(out(q), i) == sp.push(et, el(i)))],
                   T.jat(more, i) == sp.push(et, el(i)))
        # reading it
        a = z3.Const("array'", JSeq)        # the array written
        e = el(q)
        en.st.pc = []
        H = size + [q >= 0, q < n, T.jlen(a) == n, T.jat(a, q) == sp.push(et, e)] + self.value_facts(et, e) + self.object_of(et, at(c, q))
        dup = [Not(T.set_has(self.inserted(ty, c, q), en.box(e, et)))] if ty.k == "set" else []      # the elements of a set are distinct
        inv = [sp.items(ty, a, q) == self.inserted(ty, c, q)]
        self.prove(ty, "the elements are restored (start)", [], sp.items(ty, a, IntVal(0)) == self.inserted(ty, c, IntVal(0)))
        self.prove(ty, "the elements are restored (step)", H + inv, sp.items(ty, a, q + 1) == self.inserted(ty, c, q + 1))
        k0, c0 = sp.items_logs(ty, a, K0, C0, X0, IntVal(0))
        kq, cq = sp.items_logs(ty, a, K0, C0, X0, q)
        k1, c1 = sp.items_logs(ty, a, K0, C0, X0, q + 1)
        self.prove(ty, "nothing is added to the log of errors (start)", [], And(k0 == K0, c0 == C0))
        self.prove(ty, "nothing is added to the log of errors (step)", H + inv + dup + [kq == K0, cq == C0], And(k1 == K0, c1 == C0))
        # together: a container is what inserting its elements in order gives (library)
        kn, cn = sp.items_logs(ty, out(n), K0, C0, X0, n)
        fin = size + [T.jlen(out(n)) == n, sp.items(ty, out(n), n) == self.inserted(ty, c, n), self.inserted(ty, c, n) == c, kn == K0, cn == C0]
        self.statement(ty, c, v0, fin)

    # ---- objects
    def members(self, ty, m, v0):
        en, sp, kt, vt = self.en, self.sp, ty.a[0], ty.a[1]
        q, i = z3.Int("q'"), z3.Int("i'")
        n = T.SIZE[ty.k](m)
        kat, vat = (T.mp_keyat, T.mp_valat) if ty.k == "map" else (T.mm_keyat, T.mm_valat)
        key, val = (lambda k: en.unbox(kat(m, k), kt)), (lambda k: en.unbox(vat(m, k), vt))
        out = lambda k: sp.push_members(ty, m, k)
        size = [n >= 0, n < T.SIZE_LIMIT]
        e = val(q)
        H = size + [q >= 0, q < n] + self.value_facts(vt, e) + self.object_of(kt, kat(m, q)) + self.object_of(vt, vat(m, q))
        if ty.k == "map":
            self.prove(ty, "an object with one member per element is written (start)", [], T.mlen(out(IntVal(0))) == 0)
            more = MSeq.msnoc(out(q), key(q), sp.push(vt, e))
            self.prove(ty, "writing an element appends a member", [q >= 0], out(q + 1) == more)
            self.prove(ty, "an object with one member per element is written (step)", size + [q >= 0, q < n, T.mlen(out(q)) == q], T.mlen(more) == q + 1)
            named = lambda o, i: And(T.mname(o, i) == key(i), T.mval(o, i) == sp.push(vt, val(i)))
            self.prove(ty, "each element is written as member of its key (step)",
                       size + [q >= 0, q < n, T.mlen(out(q)) == q, 0 <= i, i <= q, Implies(i < q, named(out(q), i))], named(more, i))
            o = z3.Const("object'", MSeq)
            H += [T.mlen(o) == n, T.mname(o, q) == key(q), T.mval(o, q) == sp.push(vt, e), sp.members(ty, o, q) == self.inserted(ty, m, q),
                  Not(T.mp_has(self.inserted(ty, m, q), en.box(key(q), kt)))]           # the keys of a map are distinct
            self.prove(ty, "the elements are restored (start)", [], sp.members(ty, o, IntVal(0)) == self.inserted(ty, m, IntVal(0)))
            self.prove(ty, "the elements are restored (step)", H, sp.members(ty, o, q + 1) == self.inserted(ty, m, q + 1))
            k0, c0 = sp.members_logs(ty, o, K0, C0, X0, IntVal(0))
            kq, cq = sp.members_logs(ty, o, K0, C0, X0, q)
            k1, c1 = sp.members_logs(ty, o, K0, C0, X0, q + 1)
            self.prove(ty, "nothing is added to the log of errors (start)", [], And(k0 == K0, c0 == C0))
            self.prove(ty, "nothing is added to the log of errors (step)", H + [kq == K0, cq == C0], And(k1 == K0, c1 == C0))
            nm = n
        else:
            self.groups(ty, m, q, i, key, val, out, H)
            nm = T.mlen(out(n))
        kn, cn = sp.members_logs(ty, out(n), K0, C0, X0, nm)
        fin = size + ([T.mlen(out(n)) == n] if ty.k == "map" else []) + [sp.members(ty, out(n), nm) == self.inserted(ty, m, n), self.inserted(ty, m, n) == m, kn == K0, cn == C0]
        self.statement(ty, m, v0, fin)

    def groups(self, ty, m, q, i, key, val, out, H):
        """Multimaps: elements of the same key are written as one array; as they are neighbours when iterating (library), reading the arrays one after the
        other gives the elements in the order they were written."""
        en, sp, kt, vt = self.en, self.sp, ty.a[0], ty.a[1]
        e = val(q)
        o, s, x, p0 = z3.Const("object'", MSeq), z3.Const("array'", JSeq), z3.Const("x'", J), z3.Const("p'", MMapS)
        name, kk, r = z3.Const("name'", Str), z3.Int("k'"), z3.Int("r'")
        dK, dC, dx = K0, C0, X0
        # folds over a prefix do not depend on what follows (induction over the length of the prefix)
        longer = JSeq.jsnoc(s, x)
        A = lambda s, k: sp.arr_members(ty, s, en.box(name, kt), p0, k)
        L = lambda s, k: sp.arr_logs(ty, s, dK, dC, dx, k)
        small = [T.jlen(s) < T.SIZE_LIMIT - 1]
        eqL = lambda a, b: And(a[0] == b[0], a[1] == b[1])
        self.prove(ty, "elements before an appended one are read as before (start)", [], And(A(longer, IntVal(0)) == A(s, IntVal(0)), eqL(L(longer, IntVal(0)), L(s, IntVal(0)))))
        self.prove(ty, "elements before an appended one are read as before (step)", small + [kk >= 0, kk < T.jlen(s), A(longer, kk) == A(s, kk), eqL(L(longer, kk), L(s, kk))],
                   And(A(longer, kk + 1) == A(s, kk + 1), eqL(L(longer, kk + 1), L(s, kk + 1))))
        M = lambda o, k: sp.members(ty, o, k)
        G = lambda o, k: sp.members_logs(ty, o, dK, dC, dx, k)
        y = z3.Const("y'", J)
        for what, o2, hyp in (("appended", MSeq.msnoc(o, name, y), []), ("changed", T.mset(o, r, y), [kk < r])):
            self.prove(ty, "members before one %s are read as before (start)" % what, [], And(M(o2, IntVal(0)) == M(o, IntVal(0)), eqL(G(o2, IntVal(0)), G(o, IntVal(0)))))
            self.prove(ty, "members before one %s are read as before (step)" % what,
                       [T.mlen(o) < T.SIZE_LIMIT - 1, kk >= 0, kk < T.mlen(o), M(o2, kk) == M(o, kk), eqL(G(o2, kk), G(o, kk))] + hyp,
                       And(M(o2, kk + 1) == M(o, kk + 1), eqL(G(o2, kk + 1), G(o, kk + 1))))
        # what is written for the first q elements: o
        n, last = key(q), z3.Int("last'")
        j = sp.push(vt, e)

        def inv(o, q, x=None):
            """The last member is an array and the first one of the last key; x: its elements, if known."""
            v, l = T.mval(o, T.mlen(o) - 1), T.mlen(o) - 1
            arr = And(v == J.jarr(x), T.jlen(x) <= q) if x is not None else And(J.is_jarr(v), T.jlen(J.aval(v)) <= q)
            return And(T.mlen(o) <= q, (q == 0) == (T.mlen(o) == 0), Implies(q > 0, And(T.mname(o, l) == key(q - 1), T.mfind(o, key(q - 1)) == l, arr)))
        found = T.mfind(o, n)
        # neighbours (library): a key seen before is that of the preceding element
        near = Implies(found < T.mlen(o), And(q > 0, n == key(q - 1)))
        base = H + [inv(o, q), near]
        one = JSeq.jsnoc(JSeq.jnil, j)
        on = MSeq.msnoc(o, n, J.jarr(one))
        o1 = If(found < T.mlen(o), T.mset(o, found, J.jarr(JSeq.jsnoc(J.aval(T.mval(o, found)), j))), on)
        self.prove(ty, "the last member holds the elements of the last key (start)", [], T.mlen(out(IntVal(0))) == 0)
        self.prove(ty, "writing an element extends the member of its key or appends one", base + [o == out(q)], out(q + 1) == o1)
        sv = J.aval(T.mval(o, last))
        more = JSeq.jsnoc(sv, j)
        oo = T.mset(o, last, J.jarr(more))
        new, old = base + [Not(found < T.mlen(o))], base + [found < T.mlen(o), T.mlen(o) == last + 1]
        self.prove(ty, "the member of the key is the last one", old, And(found == last, o1 == oo))
        self.prove(ty, "the last member holds the elements of the last key (step, new key)", new, inv(on, q + 1, one))
        self.prove(ty, "the last member holds the elements of the last key (step, same key)", old, inv(oo, q + 1, more))
        # reading it
        ln = T.mlen(o)
        nb = en.box(n, kt)
        read = [M(o, ln) == self.inserted(ty, m, q), eqL(G(o, ln), (K0, C0))]
        goal = lambda o: And(M(o, T.mlen(o)) == self.inserted(ty, m, q + 1), eqL(G(o, T.mlen(o)), (K0, C0)))
        keep = [M(on, ln) == M(o, ln), eqL(G(on, ln), G(o, ln))]                     # proved above
        self.prove(ty, "the elements are restored without error (step, new key)",
                   new + read + keep + self.at(M, G, on, ln) + self.arr_at(ty, one, nb, M(on, ln), G(on, ln), IntVal(0)), goal(on))
        args = (nb, M(oo, last), G(oo, last))
        L1, L2 = [sp.arr_logs(ty, z, args[2][0], args[2][1], X0, T.jlen(sv)) for z in (more, sv)]
        keep = [M(oo, last) == M(o, last), eqL(G(oo, last), G(o, last)),
                sp.arr_members(ty, more, nb, M(oo, last), T.jlen(sv)) == sp.arr_members(ty, sv, nb, M(oo, last), T.jlen(sv)), eqL(L1, L2)]        # proved above
        self.prove(ty, "the elements are restored without error (step, same key)",
                   old + read + keep + self.at(M, G, oo, last) + self.at(M, G, o, last) + self.arr_at(ty, more, *args, T.jlen(sv)), goal(oo))

    def at(self, M, G, o, k):
        """Folds at k + 1 are folds at the length of o, which equals it."""
        n = T.mlen(o)
        return [Implies(n == k + 1, And(M(o, k + 1) == M(o, n), G(o, k + 1)[0] == G(o, n)[0], G(o, k + 1)[1] == G(o, n)[1]))]

    def arr_at(self, ty, s, key, p, log, k):
        sp, n = self.sp, T.jlen(s)
        a, b = sp.arr_logs(ty, s, log[0], log[1], X0, k + 1), sp.arr_logs(ty, s, log[0], log[1], X0, n)
        return [Implies(n == k + 1, And(sp.arr_members(ty, s, key, p, k + 1) == sp.arr_members(ty, s, key, p, n), a[0] == b[0], a[1] == b[1]))]


def shallow(ty):
    """The type is built of opaque and basic types only: all others follow by induction."""
    return all(opq(t) or t.k in BASIC for t in parts(ty))


def parts(ty):
    return [t for t in ty.a if isinstance(t, Ty) and t.k != "rj" and not (t.k == "rec" and t.x["name"].startswith("std::"))] if ty.k not in BASIC else []


def collect(u):
    """The types with both directions under contract (types which are written only have no round trip)."""
    seen, pulled = {}, set()
    for f in u.functions.values():
        if f["q"] not in (C.PUSH, C.PULL) or C.pull_shape(u, f["pt"]) is None:
            continue
        ty = u.ty(f["pt"][0])
        if opq(ty):
            continue
        try:
            C.check_specifiable(ty)
        except Unsupported:
            continue
        if f["q"] == C.PULL:
            pulled.add(ty.sig())
        if ty.k not in ("cstr", "strview", "flist") and shallow(ty):
            seen.setdefault(ty.sig(), ty)
    return [seen[k] for k in sorted(seen) if k in pulled]


def obligations(u, keep=False):
    from .engine import Engine, State
    from .lib_std import LIB
    en = Engine(u, C.Contracts(), LIB, {})
    en.st = State()
    en.trace, en.pos, en.alts, en.prefix_len = [], 0, [], 0
    L = Lem(en, keep)
    try:
        for ty in collect(u):
            L.lemma(ty)
    finally:
        L.ih.clear()
    return L.obs
