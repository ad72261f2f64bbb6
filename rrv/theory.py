"""Theory functions for containers, JSON and error logs; their ground axioms, instantiated on the terms of a query."""
import z3
from z3 import And, Or, Not, If, Implies, IntVal, BoolVal, Function, IntSort, BoolSort, Int
from .sym import *

B = BoolSort(); I = IntSort()
# sequences
seq_empty = z3.Const("seq_empty", SeqS)
seq_push = Function("seq_push", SeqS, Val, SeqS)
seq_len = Function("seq_len", SeqS, I)
seq_at = Function("seq_at", SeqS, I, Val)
seq_setback = Function("seq_setback", SeqS, Val, SeqS)
seq_resize = Function("seq_resize", SeqS, I, Val, SeqS)
seq_upd = Function("seq_upd", SeqS, I, Val, SeqS)
# sets / multisets (sat = element in iteration order)
set_empty = z3.Const("set_empty", SetS); set_ins = Function("set_ins", SetS, Val, SetS); set_has = Function("set_has", SetS, Val, B)
set_size = Function("set_size", SetS, I); set_at = Function("set_at", SetS, I, Val)
ms_empty = z3.Const("ms_empty", MSetS); ms_ins = Function("ms_ins", MSetS, Val, MSetS)
ms_size = Function("ms_size", MSetS, I); ms_at = Function("ms_at", MSetS, I, Val)
# maps (boxed keys)
mp_empty = z3.Const("mp_empty", MapS); mp_put = Function("mp_put", MapS, Val, Val, MapS)
mp_has = Function("mp_has", MapS, Val, B); mp_get = Function("mp_get", MapS, Val, Val)
mp_size = Function("mp_size", MapS, I); mp_keyat = Function("mp_keyat", MapS, I, Val); mp_valat = Function("mp_valat", MapS, I, Val)
mm_empty = z3.Const("mm_empty", MMapS); mm_ins = Function("mm_ins", MMapS, Val, Val, MMapS)
mm_size = Function("mm_size", MMapS, I); mm_keyat = Function("mm_keyat", MMapS, I, Val); mm_valat = Function("mm_valat", MMapS, I, Val)
mm_setlast = Function("mm_setlast", MMapS, Val, MMapS)
EMPTY = {"seq": seq_empty, "flist": seq_empty, "set": set_empty, "mset": ms_empty, "map": mp_empty, "mmap": mm_empty}
SIZE = {"seq": seq_len, "flist": seq_len, "set": set_size, "mset": ms_size, "map": mp_size, "mmap": mm_size}
AT = {"seq": seq_at, "flist": seq_at, "set": set_at, "mset": ms_at}
allarr = Function("allarr", MSeq, B)        # every member value is an array
# number of entries of a log which are fatal under the current throwOn value
nfatal = Function("nfatal", LogK, I, I)
SIZE_LIMIT = (1 << 32) - 2                  # assumed upper bound of string/container sizes (RapidJSON's SizeType)


def app(t, f):
    return z3.is_app(t) and t.decl().eq(f)


def m_setback(s, v):
    if app(s, seq_push):
        return seq_push(s.arg(0), v)
    if app(s, seq_setback):
        return seq_setback(s.arg(0), v)
    return seq_setback(s, v)


def m_back(s):
    if app(s, seq_push) or app(s, seq_setback):
        return s.arg(1)
    return seq_at(s, seq_len(s) - 1)


def m_setlast(m, v):
    if app(m, mm_ins):
        return mm_ins(m.arg(0), m.arg(1), v)
    if app(m, mm_setlast):
        return mm_setlast(m.arg(0), v)
    return mm_setlast(m, v)


def m_put(m, k, v):
    if app(m, mp_put) and m.arg(1).eq(k):
        return mp_put(m.arg(0), k, v)
    return mp_put(m, k, v)


def m_get(m, k):
    if app(m, mp_put) and m.arg(1).eq(k):
        return m.arg(2)
    return mp_get(m, k)


def m_has(m, k):
    if app(m, mp_put) and m.arg(1).eq(k):
        return TRUE
    if m.eq(mp_empty):
        return FALSE
    return mp_has(m, k)


def s_len(s):
    l = lit_of(s)
    if l is not None:
        return IntVal(len(l.encode("utf-8", "surrogatepass")))
    if app(s, sprefix):
        return s.arg(1)
    return slen(s)


def s_cstr(s):
    l = lit_of(s)
    if l is not None:
        return lit(l.split("\0")[0])
    if app(s, cstr):
        return s
    return cstr(s)


def s_prefix(s, n):
    n = z3.simplify(n)
    if z3.simplify(n == s_len(s)).eq(TRUE):
        return s
    if z3.simplify(n == s_len(s_cstr(s))).eq(TRUE):
        return s_cstr(s)
    return sprefix(s, n)


def flat_cat(s):
    if app(s, scat):
        return flat_cat(s.arg(0)) + flat_cat(s.arg(1))
    return [s]


def s_cat(*parts):
    out = []
    for p in parts:
        for q in flat_cat(p):
            l = lit_of(q)
            if l == "":
                continue
            if l is not None and out and lit_of(out[-1]) is not None:
                out[-1] = lit(lit_of(out[-1]) + l)
            else:
                out.append(q)
    if not out:
        return lit("")
    r = out[0]
    for q in out[1:]:
        r = scat(r, q)
    return r


FLAG_OF_KIND = {}        # set by the JSON contracts: kind -> bits of ThrowOn


# ---------------------------------------------------------------------------------------------------------------------
# ground instantiation
RULES = {}


def rule(*decls):
    def deco(f):
        for d in decls:
            RULES.setdefault(d.name(), []).append(f)
        return f
    return deco


@rule(seq_push)
def _(t, c):
    s, v = t.children()
    c.touch(seq_len(s))
    return [seq_len(t) == seq_len(s) + 1, seq_len(s) >= 0, seq_at(t, seq_len(s)) == v]


@rule(seq_setback)
def _(t, c):
    s, v = t.children()
    return [seq_len(t) == seq_len(s)]


@rule(seq_upd)
def _(t, c):
    s, i, v = t.children()
    return [seq_len(t) == seq_len(s), seq_at(t, i) == v]


@rule(seq_resize)
def _(t, c):
    return [Implies(t.arg(1) >= 0, seq_len(t) == t.arg(1))]


@rule(seq_len)
def _(t, c):
    out = [t >= 0, Implies(t.arg(0) == seq_empty, t == 0), Implies(t == 0, t.arg(0) == seq_empty)]
    return out


@rule(seq_at)
def _(t, c):
    s, i = t.children()
    out = []
    if app(s, seq_push):
        out.append(Implies(And(0 <= i, i < seq_len(s.arg(0))), t == seq_at(s.arg(0), i)))
        out.append(Implies(i == seq_len(s.arg(0)), t == s.arg(1)))
    if app(s, seq_setback):
        out.append(Implies(i == seq_len(s.arg(0)) - 1, t == s.arg(1)))
        out.append(Implies(And(0 <= i, i < seq_len(s.arg(0)) - 1), t == seq_at(s.arg(0), i)))
    if app(s, seq_upd):
        out.append(If(i == s.arg(1), t == s.arg(2), t == seq_at(s.arg(0), i)))
    if app(s, seq_resize):
        out.append(Implies(And(0 <= i, i < seq_len(s.arg(0)), i < s.arg(1)), t == seq_at(s.arg(0), i)))
        out.append(Implies(And(i >= seq_len(s.arg(0)), i < s.arg(1)), t == s.arg(2)))
    return out


@rule(set_ins)
def _(t, c):
    s, v = t.children()
    return [set_has(t, v), set_size(t) == If(set_has(s, v), set_size(s), set_size(s) + 1), Implies(set_has(s, v), t == s)]


@rule(set_has)
def _(t, c):
    s, v = t.children()
    out = []
    if app(s, set_ins):
        out.append(t == Or(v == s.arg(1), set_has(s.arg(0), v)))
    out.append(Implies(s == set_empty, Not(t)))
    return out


@rule(set_size, ms_size, mp_size, mm_size)
def _(t, c):
    e = {SetS: set_empty, MSetS: ms_empty, MapS: mp_empty, MMapS: mm_empty}[t.arg(0).sort()]
    return [t >= 0, Implies(t.arg(0) == e, t == 0), Implies(t == 0, t.arg(0) == e)]


@rule(mp_put)
def _(t, c):
    m, k, v = t.children()
    return [mp_has(t, k), mp_get(t, k) == v]


@rule(mp_has)
def _(t, c):
    m, k = t.children()
    out = [Implies(m == mp_empty, Not(t))]
    if app(m, mp_put):
        out.append(t == Or(k == m.arg(1), mp_has(m.arg(0), k)))
    return out


@rule(mp_get)
def _(t, c):
    m, k = t.children()
    if app(m, mp_put):
        return [t == If(k == m.arg(1), m.arg(2), mp_get(m.arg(0), k))]
    return []


@rule(mm_ins)
def _(t, c):
    return [mm_size(t) == mm_size(t.arg(0)) + 1]


@rule(mm_setlast)
def _(t, c):
    return [mm_size(t) == mm_size(t.arg(0))]


# JSON
@rule(jlen)
def _(t, c):
    s = t.arg(0)
    out = [t >= 0, t <= SIZE_LIMIT, (t == 0) == (s == JSeq.jnil)]
    if app(s, JSeq.jsnoc):
        out.append(Implies(jlen(s.arg(0)) < SIZE_LIMIT, t == jlen(s.arg(0)) + 1))
    if app(s, JSeq.jnil):
        out.append(t == 0)
    return out


@rule(jat)
def _(t, c):
    s, i = t.children()
    out = []
    c.touch(jlen(s))
    if app(s, JSeq.jsnoc):
        out.append(Implies(i == jlen(s.arg(0)), t == s.arg(1)))
        out.append(Implies(And(i >= 0, i < jlen(s.arg(0))), t == jat(s.arg(0), i)))
    return out + json_facts(t)


@rule(mlen)
def _(t, c):
    s = t.arg(0)
    out = [t >= 0, t <= SIZE_LIMIT, (t == 0) == (s == MSeq.mnil)]
    if app(s, MSeq.msnoc):
        out.append(Implies(mlen(s.arg(0)) < SIZE_LIMIT, t == mlen(s.arg(0)) + 1))
    if app(s, mset):
        out.append(t == mlen(s.arg(0)))
    return out


@rule(mname)
def _(t, c):
    s, i = t.children()
    out = []
    if app(s, MSeq.msnoc):
        out.append(t == If(i == mlen(s.arg(0)), s.arg(1), mname(s.arg(0), i)))
    if app(s, mset):
        out.append(t == mname(s.arg(0), i))
    for u in c.by_decl("mfind"):
        if u.arg(0).eq(s):
            out.append(Implies(And(i >= 0, i < u), t != u.arg(1)))
    return out


@rule(mval)
def _(t, c):
    s, i = t.children()
    out = []
    if app(s, MSeq.msnoc):
        out.append(t == If(i == mlen(s.arg(0)), s.arg(2), mval(s.arg(0), i)))
    if app(s, mset):
        out.append(t == If(i == s.arg(1), s.arg(2), mval(s.arg(0), i)))
    for u in c.by_decl("allarr"):
        if u.arg(0).eq(s):
            out.append(Implies(And(u, i >= 0, i < mlen(s)), J.is_jarr(t)))
    return out + json_facts(t)


@rule(mfind)
def _(t, c):
    o, n = t.children()
    c.touch(mlen(o))
    out = [t >= 0, t <= mlen(o), Implies(t < mlen(o), mname(o, t) == n)]
    if app(o, MSeq.msnoc):
        p = mfind(o.arg(0), n)
        out.append(t == If(p < mlen(o.arg(0)), p, If(o.arg(1) == n, mlen(o.arg(0)), mlen(o.arg(0)) + 1)))
    if app(o, mset):
        out.append(t == mfind(o.arg(0), n))
    for u in c.by_decl("mname"):
        if u.arg(0).eq(o):
            out.append(Implies(And(u.arg(1) >= 0, u.arg(1) < t), u != n))
    return out


@rule(allarr)
def _(t, c):
    o = t.arg(0)
    out = [Implies(o == MSeq.mnil, t)]
    if app(o, MSeq.msnoc):
        out.append(t == And(allarr(o.arg(0)), J.is_jarr(o.arg(2))))
    if app(o, mset):
        out.append(Implies(And(allarr(o.arg(0)), J.is_jarr(o.arg(2))), t))
    for u in c.by_decl("mval"):
        if u.arg(0).eq(o):
            out.append(Implies(And(t, u.arg(1) >= 0, u.arg(1) < mlen(o)), J.is_jarr(u)))
    return out


@rule(mset)
def _(t, c):
    return []


@rule(slen)
def _(t, c):
    return [t >= 0, t <= SIZE_LIMIT]


@rule(cstr)
def _(t, c):
    s = t.arg(0)
    if app(s, cstr):
        return [t == s]
    return [slen(t) <= slen(s), cstr(t) == t, Implies(slen(t) == slen(s), t == s)]


@rule(sprefix)
def _(t, c):
    s, n = t.children()
    return [Implies(And(n >= 0, n <= slen(s)), slen(t) == n), Implies(n == slen(s), t == s), Implies(n == slen(cstr(s)), t == cstr(s))]


@rule(scat)
def _(t, c):
    return [slen(t) == slen(t.arg(0)) + slen(t.arg(1))]


@rule(nfatal)
def _(t, c):
    l, th = t.children()
    if app(l, LogK.lk_snoc):
        # bit tests on the throwOn value
        fl = FALSE
        for kind, bits in FLAG_OF_KIND.items():
            fl = Or(fl, And(l.arg(1) == kind, bit_any(th, bits)))
        return [t == nfatal(l.arg(0), th) + If(fl, IntVal(1), IntVal(0))]
    return []


def bit_any(x, mask):
    out = []
    for b in range(64):
        if mask >> b & 1:
            out.append((x / (1 << b)) % 2 == 1)
    return Or(*out) if out else FALSE


def json_facts(t):
    """Range of the integers a JSON value can hold."""
    return [Implies(J.is_jint(t), And(J.ival(t) >= -(1 << 63), J.ival(t) < (1 << 64)))]


@rule(J.ival)
def _(t, c):
    return json_facts(t.arg(0))


@rule(f64_of_int)
def _(t, c):
    i = t.arg(0)
    r = f64real(t)
    out = [Not(f64nan(t)), f64inf(t) == 0, Implies(And(i <= 1 << 53, i >= -(1 << 53)), r == z3.ToReal(i))]
    for e in (7, 8, 15, 16, 31, 32, 63, 64):
        for v in (1 << e, -(1 << e)):
            out.append(Implies(i >= v, r >= v))
            out.append(Implies(i <= v, r <= v))
    return out


@rule(f64real)
def _(t, c):
    d = t.arg(0)
    # a representable double strictly between two adjacent integers of that magnitude does not exist above 2^53
    return [Implies(Or(t >= (1 << 53), t <= -(1 << 53)), z3.ToReal(z3.ToInt(t)) == t)]


@rule(f64_of_f32)
def _(t, c):
    x = t.arg(0)
    m = z3.RealVal("340282346638528859811704183484516925440")
    return [f32_of_f64(t) == x, Implies(And(Not(f64nan(t)), f64inf(t) == 0), And(f64real(t) <= m, f64real(t) >= -m))]


@rule(f64inf)
def _(t, c):
    return [t >= -1, t <= 1, Implies(f64nan(t.arg(0)), t == 0)]


def is_ite(t):
    return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE


def _ite_rule(t, c):
    """f(If(c, a, b), ..) == If(c, f(a, ..), f(b, ..))"""
    if t.num_args() and is_ite(t.arg(0)):
        x = t.arg(0)
        rest = t.children()[1:]
        f = t.decl()
        return [t == If(x.arg(0), f(x.arg(1), *rest), f(x.arg(2), *rest))]
    return []


for _f in (nfatal, jlen, jat, mlen, mname, mval, mfind, allarr, set_has, set_size, mp_has, mp_get, mp_size, seq_len, seq_at, mm_size, ms_size):
    RULES.setdefault(_f.name(), []).append(_ite_rule)


class Folds:
    """Recursively defined spec functions: F(a.., k); unfolded at 0 and at syntactic successors."""
    defs = {}      # decl name -> (fn(args) -> (base, step))


MONO = {}       # folds over logs: name -> (fold, index of the initial log among the arguments, step)


def deflog(name, arg_sorts, base_index, step):
    """A fold producing a log (LogK). Entries are only ever added: proved by lemma_mono, used as an axiom."""
    f = deffold(name, arg_sorts, LogK, lambda *a: a[base_index], step)
    if name not in MONO:
        MONO[name] = (f, base_index, step, list(arg_sorts))
    return f


def appender(f, i):
    """The opaque log function f only adds entries to its i-th argument (part of the contract it stands for)."""
    MONO.setdefault(f.name(), (f, i, None, None))
    return f


@rule(nfatal)
def _(t, c):
    l, th = t.children()
    out = [t >= 0]
    m = MONO.get(l.decl().name()) if z3.is_app(l) else None
    if m is None:
        return out
    if m[2] is None:
        return out + [t >= nfatal(l.arg(m[1]), th)]
    *a, k = l.children()
    out.append(Implies(k >= 0, t >= nfatal(a[m[1]], th)))
    for u in c.by_decl("nfatal"):
        v = u.arg(0)
        if u is not t and app(v, l.decl()) and u.arg(1).eq(th) and all(x.eq(y) for x, y in zip(a, v.children())) and not v.eq(l):
            q = v.arg(len(a))
            out += [Implies(And(0 <= k, k <= q), t <= u), Implies(And(0 <= q, q <= k), u <= t)]
    return out


def lemma_mono(name):
    """(hypotheses, goal): one step of the log fold only adds entries."""
    f, i, step, sorts = MONO[name]
    a = [z3.Const("la%d" % n, s) for n, s in enumerate(sorts)]
    k, p, th = z3.Int("lk"), z3.Const("lp", LogK), z3.Int("lth")
    return [k >= 0, th >= 0, th <= 255], nfatal(step(*a, k, p), th) >= nfatal(p, th)


def deffold(name, arg_sorts, ret, base, step):
    """F(args.., k): base(args) at 0, step(args, k, F(args, k)) at k+1."""
    f = Function(name, *(list(arg_sorts) + [I, ret]))
    if name not in Folds.defs:
        Folds.defs[name] = f

        def r(t, c, f=f):
            *a, k = t.children()
            out = []
            k = z3.simplify(k)
            if z3.is_int_value(k):
                n = k.as_long()
                if n == 0:
                    out.append(t == base(*a))
                elif 0 < n <= 8:
                    out.append(t == step(*a, IntVal(n - 1), f(*a, IntVal(n - 1))))
                return out
            out.append(Implies(k == 0, t == base(*a)))
            p = succ_of(k)
            if p is not None:
                prev = f(*a, p)
                out.append(Implies(p >= 0, t == step(*a, p, prev)))
            # F at k is the same term as F at k' when k == k' is known (congruence); relate to known indices
            return out
        RULES.setdefault(name, []).append(r)
    return Folds.defs[name]


def succ_of(k):
    """p if k is syntactically p + 1."""
    if z3.is_add(k):
        ch = k.children()
        for i, x in enumerate(ch):
            if z3.is_int_value(x) and x.as_long() >= 1:
                rest = [y for j, y in enumerate(ch) if j != i]
                if x.as_long() > 1:
                    rest.append(IntVal(x.as_long() - 1))
                return rest[0] if len(rest) == 1 else z3.Sum(*rest)
    return None


TIMEOUT = 10000


_info = {}


class Ctx:
    """Incremental solver with ground instantiation of the rules above."""

    def __init__(self, timeout=None):
        timeout = timeout or TIMEOUT
        self.s = z3.SolverFor("ALL") if False else z3.Solver()
        self.s.set("timeout", timeout)
        self.timeout = timeout
        self.seen = [set()]
        self.terms = [{}]
        self.keep = []
        self.facts = []
        self.pending = []
        self.nlits = 0

    def by_decl(self, name):
        out = []
        for m in self.terms:
            out += m.get(name, ())
        return out

    def is_seen(self, i):
        return any(i in s for s in self.seen)

    def touch(self, t):
        self.pending.append(t)

    def clone(self):
        c = Ctx(self.timeout)
        assert len(self.seen) == 1
        c.facts = list(self.facts)
        c.s.add(c.facts)
        c.seen = [set(self.seen[0])]
        c.terms = [{k: list(v) for k, v in self.terms[0].items()}]
        c.keep = [self.keep]
        return c

    def _visit(self, e):
        stack = [(e.get_id(), e)]
        new = []
        here, seen, keep, terms = self.seen[-1], self.seen, self.keep, self.terms[-1]
        while stack:
            i, t = stack.pop()
            if i in here or (len(seen) > 1 and self.is_seen(i)):
                continue
            here.add(i)
            keep.append(t)
            x = _info.get(i)
            if x is None:
                if len(_info) > 400000:
                    _info.clear()
                # the entry keeps the term alive, so that its id stays unique
                x = _info[i] = (t, t.decl().name() if z3.is_app(t) else None, [(c.get_id(), c) for c in t.children()] if z3.is_app(t) else [])
            n = x[1]
            if n is not None:
                if n[:4] == "lit_":
                    terms.setdefault("$lit", []).append(t)
                if n in RULES:
                    terms.setdefault(n, []).append(t)
                    new.append(t)
                stack += x[2]
        return new

    def add(self, *es):
        work = list(es)
        depth = {id(e): 0 for e in es}
        rounds = 0
        while work and rounds < 60:
            rounds += 1
            nxt = []
            for e in work:
                self.s.add(e)
                if len(self.seen) == 1:
                    self.facts.append(e)
                for t in self._visit(e):
                    for r in RULES[t.decl().name()]:
                        nxt += [x for x in r(t, self)]
                while self.pending:
                    p = self.pending.pop()
                    for t in self._visit(p):
                        for r in RULES[t.decl().name()]:
                            nxt += [x for x in r(t, self)]
            work = nxt

    def push(self):
        self.s.push()
        self.seen.append(set())
        self.terms.append({})

    def pop(self):
        self.s.pop()
        self.seen.pop()
        self.terms.pop()

    def check(self, *es, timeout=None):
        """sat/unsat/unknown of the current assertions plus es."""
        self.push()
        try:
            self.add(*es)
            self.s.add(*lit_facts(self.by_decl("$lit")))
            if timeout:
                self.s.set("timeout", timeout)
            r = self.s.check()
            if r == z3.unknown:
                reason = self.s.reason_unknown()
            if timeout:
                self.s.set("timeout", self.timeout)
            self.model = self.s.model() if r == z3.sat else None
            return r
        finally:
            self.pop()
